#!/usr/bin/env python3
"""Decides one property for the current tree of /repo.  Usage: check.py PROPERTY [quick|thorough]

Records traces of the real scanner and parser on generated texts and checks them with TLC against
the specification in specs/.  Exit 0: every trace is a behaviour of the specification.  Exit 1 with a
VIOLATION line: one is not.  Exit 2: no verdict."""
import ast, json, os, random, re, sys, time, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import corpus, forms, lexcorpus, library, products, programs, render, vlib
from render import KINDS, kinds
from vlib import Broken, TlcRun

warnings.simplefilter("ignore")
TREE = ["tree", "places", "text"]
PARSER = {p: TREE for p in corpus.GEN}
PARSER["C21"] = TREE
PARSER["C22"] = ["tree", "places", "text", "span", "trivia"]
PARSER["C23"] = ["range"]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.th = tier == "thorough"
        self.rng = random.Random("%s %d %s" % (prop, seed, tier))
        self.work = vlib.fresh_dir("run/" + prop)
        self.start = time.time()
        self.dropped = set()
        self.lean = False
        self.states = self.transitions = self.validated = 0
        self.notes, self.samples, self.violations, self.findings = {}, [], [], {}
        known = json.load(open(os.path.join(vlib.VERIF, "known_findings.json")))
        self.known = [f for f in known["findings"] if prop in f["properties"]]
        self.all_devs = {f["deviation"] for f in known["findings"] if "deviation" in f}
        self.known_devs = {f["deviation"] for f in self.known if "deviation" in f}

    # ---------------------------------------------------------------- running TLC
    def count(self, run):
        self.states += run.distinct or run.generated
        self.transitions += run.generated

    def generate(self, confs, walks, num, depth):
        """Token sequences from the specification: all up to the bounds, and random walks."""
        runs = []
        if confs:
            path = os.path.join(self.work, "gen.conf")
            vlib.write_ndjson(path, confs)
            runs.append(("all", confs, TlcRun("Gen", {"GENCONF": path}, self.work, "gen", workers=6)))
        if walks:
            wc = [dict(entry=e, start=kinds(s), alphabet=sorted(set(kinds(a))), max=depth, rej=0, walk="1", close=closing(e),
                       line="1" if e in ("file", "single") else "0") for e, s, a in walks]
            path = os.path.join(self.work, "walk.conf")
            vlib.write_ndjson(path, wc)
            runs.append(("walk", wc, TlcRun("Gen", {"GENCONF": path}, self.work, "walk", workers=2,
                                            extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1),
                                                   "-seed", str(self.seed * 7919 + 17), "-deadlock"])))
        out = []
        for name, cs, run in runs:
            text = run.wait()
            self.count(run)
            found = []
            for m in re.finditer(r'^"<<\\"([GX])\\", (\d+), <<(.*)>>>>"$', text, re.M):
                seq = re.findall(r'\\"(\w+)\\"', m.group(3))
                found.append((m.group(1), cs[int(m.group(2)) - 1], seq))
            if not found:
                raise Broken("the specification generated nothing")
            self.notes[{"all": "sentences_enumerated", "walk": "sentences_from_random_walks"}[name]] = len(found)
            out.append((name, found))
        return dict(out)

    def conform(self, module, cases, traces, aspects, tag, cfg=None):
        """Every trace must be a behaviour of the specification."""
        self.decide(self.begin(module, cases, traces, aspects, tag, cfg))

    def begin(self, module, cases, traces, aspects, tag, cfg=None, workers=8):
        recs = []
        cases = [(vlib.plain(m), t) for m, t in cases]
        for (mode, text), t in zip(cases, traces):
            recs.append(dict(id=t["id"], mode=mode, inp=t["inp"], ev=trim(t["ev"], aspects), dv=vlib.deviations(text)))
        path, conf = os.path.join(self.work, tag + ".traces"), os.path.join(self.work, tag + ".conf")
        vlib.write_ndjson(path, recs)
        vlib.write_ndjson(conf, [{"aspects": aspects}])
        run = TlcRun(module, {"TRACES": path, "CONF": conf}, self.work, tag, workers=workers, xmx="10g", cfg=cfg)
        return module, cases, recs, aspects, run

    def decide(self, job):
        module, cases, recs, aspects, run = job
        text = run.wait()
        self.count(run)
        vs = vlib.verdicts(text, len(recs))
        bad = []
        for k, ((mode, src), rec) in enumerate(zip(cases, recs), 1):
            if not vs[k]:
                raise Broken("no verdict for %r" % src)
            c, info = vlib.classify(vs[k])
            self.validated += 1
            if c == "ok":
                continue
            if c == "finding" and set(info) <= self.all_devs:
                # Explained by a listed finding, of this property or of another one.
                for d in set(info) & self.known_devs:
                    self.findings.setdefault(d, src)
                self.notes["texts_showing_a_listed_finding"] = self.notes.get("texts_showing_a_listed_finding", 0) + 1
                continue
            bad.append(dict(kind="trace is no behaviour of %s.tla" % module, aspects=aspects, mode=mode, text=src,
                                event=(info[0] if c == "bad" else 0), deviations=(list(info) if c == "finding" else []),
                                recorded=rec["ev"][:400]))
        if bad and module not in ("LexConform", "Part", "Buffer", "Onward", "Position", "Joint"):
            bad = self.agreed(bad)
        self.violations += bad

    def agreed(self, bad):
        """Drops the texts on which the specification (of the subset this parser supports) and the
        language itself differ: what the parser does not support yet, or refuses for reasons beyond
        the grammar, is not decided here. No answer at all is wrong for every text."""
        ask = [v for v in bad if v["mode"] != "lex" and v["recorded"][-1][0] in "NE"]
        recs = [dict(id=i, mode=v["mode"], inp=[ord(c) for c in v["text"]], ev=[["E"]], dv=[[]]) for i, v in enumerate(ask)]
        drop = set()
        for v, accepts in zip(ask, self.spec_accepts(recs) if recs else []):
            v["specification_accepts"] = accepts
            # Where both accept, or both refuse, it is the tree or the place that differs, and that counts.
            if accepts != (v["recorded"][-1][0] == "N") and accepts != python_accepts(v["mode"], v["text"]):
                drop.add(id(v))
                self.dropped.add((v["mode"], v["text"]))
        self.notes["texts_left_out"] = self.notes.get("texts_left_out", 0) + len(drop)
        return [v for v in bad if id(v) not in drop]

    # ---------------------------------------------------------------- the library
    def renew(self, names, module, aspects, cfg=None, compared=None, outcome=False, limit=90, twice=False):
        """The texts of the library: TLC has decided them for the traces with the digests listed there;
        those that show another trace now are decided again."""
        todo = []
        for name in names:
            if not library.usable(name):
                self.notes.setdefault("libraries_not_used", []).append(name)
                continue
            n, diff = library.differing(self.ready(), name, self.work, compared or aspects, outcome)
            self.notes["library_texts_with_the_accepted_trace"] = self.notes.get("library_texts_with_the_accepted_trace", 0) + n - len(diff)
            todo += diff
        todo = list(dict.fromkeys(todo))
        self.rng.shuffle(todo)
        # The short ones first, but not only those.
        todo.sort(key=lambda c: len(c[1]) * self.rng.random())
        self.notes["library_texts_with_another_trace"] = len(todo)
        begin, size, k = time.time(), 400, 0
        while todo and not self.violations and time.time() - begin < limit:
            part, todo, k = todo[:size], todo[size:], k + 1
            if module == "Part":
                import special
                self.decide(special.part_run(self, part, "renew%d" % k))
                size = min(4 * size, 12000)
                continue
            traces, _ = self.record(part, "renew%d" % k, stack=256 << 20)
            if twice:
                self.repeated(part, traces)
            self.conform(module, part, traces, aspects, "renew%d" % k, cfg)
            size = min(4 * size, 12000)
        self.notes["library_texts_not_decided_again"] = len(todo)
        self.lean = not self.th and "libraries_not_used" not in self.notes

    def repeated(self, cases, traces):
        """The same texts in another order and in other company."""
        back, _ = self.record(list(reversed(cases)), "back")
        for c, a, b in zip(cases, traces, reversed(back)):
            if a["ev"] != b["ev"]:
                self.violation(dict(kind="the result depends on what was parsed before", mode=c[0], text=c[1], event=0, recorded=a["ev"][-2:]))

    def violation(self, v):
        self.violations.append(v)

    def ready(self):
        """The binary."""
        if self.building:
            self.binary, self.building = vlib.finish_build(self.building), None
        return self.binary

    def record(self, cases, tag, **kw):
        traces, differs = vlib.record(self.ready(), cases, self.work, tag, **kw)
        return traces, differs

    # ---------------------------------------------------------------- kinds of checks
    def scanner(self):
        aspects = lexcorpus.CONF[self.prop][1]
        texts = lexcorpus.texts(self.prop, self.rng, self.th)
        cases = [("lex", t) for t in texts]
        if self.lean:
            cases = self.rng.sample(cases, min(len(cases), 7000))
        self.notes["texts"] = len(cases)
        for part, chunk in enumerate(chunks(cases, 120000)):
            traces, _ = self.record(chunk, "lex%d" % part)
            jobs = [self.begin("LexConform", chunk, traces, aspects, "lex%d" % part, cfg="LexCalls")]
            if part == 0:
                # The machine action by action, with its invariants in every state, on some of them.
                some = sorted(self.rng.sample(range(len(chunk)), min(len(chunk), 20000 if self.th else 800)))
                jobs.append(self.begin("LexConform", [chunk[k] for k in some], [traces[k] for k in some], aspects, "steps", workers=2))
            for j in jobs:
                self.decide(j)
        self.sample(cases)

    def sentences(self, prop, bounds=None, num=None, depth=None, cap=None):
        """(origin, mode, kinds) from the specification, and altered ones."""
        t = 1 if self.th else 0
        confs = []
        for c in corpus.GEN.get(prop, []) if bounds is None else bounds:
            mx, rj = c["max"][t], c["rej"][t]
            confs.append(dict(entry=c["entry"], start=kinds(c["start"]), alphabet=sorted(set(kinds(c["alphabet"]))),
                              max=mx, rej=rj, walk="0", close=closing(c["entry"]), line=c["line"]))
        walks = corpus.WALK.get(prop, corpus.WALK["*"])
        got = self.generate(confs, walks, num or (6000 if self.th else 250 if self.lean else 400), depth or 28)
        out = [("G" if o == "G" else "X", c["entry"], s) for o, c, s in got.get("all", [])]
        cap = cap or (90000 if self.th else 2200 if self.lean else 6000)
        if len(out) > cap:
            # All the short ones, and a sample of the others.
            out.sort(key=lambda x: len(x[2]))
            out = out[:cap // 2] + self.rng.sample(out[cap // 2:], cap - cap // 2)
        walked = [("W", c["entry"], s) for o, c, s in got.get("walk", []) if o == "G" and len(s) >= 6]
        walked = longest(walked, self.rng, 30000 if self.th else 600 if self.lean else 1500)
        alphabet = sorted({k for c in confs for k in c["alphabet"]} | {k for _, _, a in walks for k in kinds(a)})
        altered = []
        pool = walked + [x for x in out if x[0] == "G"]
        for _ in range(15000 if self.th else 600 if self.lean else 1500):
            o, m, s = self.rng.choice(pool)
            altered.append(("M", m, alter(s, alphabet, self.rng)))
        return out + walked + altered

    def texts(self, sents, layout, rich=False):
        cases = {}
        for origin, mode, s in sents:
            level = layout if isinstance(layout, str) else self.rng.choice(layout)
            t = render.text_of(s, self.rng, level, self.rng.random() < rich)
            if origin in "XM" and mode in ("file", "single") and not t.endswith("\n"):
                t += "\n"
            cases[(mode, t)] = None
        return list(cases)

    def structure(self, aspects, sents, layout, rich=False, twice=False, extra=()):
        cases = self.texts(sents, layout, rich) + list(extra)
        cases = [c for c in dict.fromkeys(cases) if lexcorpus.in_scope(c[1])]
        if os.environ.get("VERIF_REFERENCE"):
            cases = self.reference(cases)
        self.notes["texts"] = len(cases)
        for part, chunk in enumerate(chunks(cases, 40000)):
            traces, differs = self.record(chunk, "tree%d" % part, twice=twice)
            for d in differs:
                self.violation(dict(kind="the second run of the same text differs from the first", mode=chunk[d][0], text=chunk[d][1]))
            self.conform("TreeConform", chunk, traces, aspects, "tree%d" % part)
            self.notes["texts_accepted"] = self.notes.get("texts_accepted", 0) + sum(t["ev"][-1][0] == "N" for t in traces)
        self.sample(cases)
        return cases

    def reference(self, cases):
        """For development: the texts on which the specification and CPython differ."""
        recs = [dict(id=i, mode=m, inp=[ord(c) for c in t], ev=[["E"]], dv=[[]]) for i, (m, t) in enumerate(cases)]
        left = [(a, c) for c, a in zip(cases, self.spec_accepts(recs)) if a != python_accepts(*c)]
        for a, c in left[:int(os.environ["VERIF_REFERENCE"])]:
            print("specification %s, reference %s: %s %r" % ("accepts" if a else "refuses", "refuses" if a else "accepts", c[0], c[1]))
        print(len(left), "of", len(cases), "differ")
        return cases

    def spec_accepts(self, recs):
        """What the specification says about texts: a trace that is refused conforms exactly to a
        text the machines refuse."""
        out = []
        for part, chunk in enumerate(chunks(recs, 60000)):
            path, conf = os.path.join(self.work, "ref.traces"), os.path.join(self.work, "ref.conf")
            vlib.write_ndjson(path, chunk)
            vlib.write_ndjson(conf, [{"aspects": []}])
            run = TlcRun("TreeConform", {"TRACES": path, "CONF": conf}, self.work, "ref", xmx="12g")
            vs = vlib.verdicts(run.wait(), len(chunk))
            self.count(run)
            out += [all(v == "bad" for v, _, _ in vs[k]) for k in range(1, len(chunk) + 1)]
        return out

    def sample(self, cases):
        for m, t in self.rng.sample(cases, min(4, len(cases))):
            self.samples.append("%s: %r" % (m, t[:160]))

    def scanner_and_library(self):
        self.renew(["lex-" + self.prop, "lex-huge", "lex-rows"], "LexConform", lexcorpus.CONF[self.prop][1], cfg="LexCalls")
        if not self.violations:
            self.scanner()

    def parser(self):
        self.renew([self.prop, "cross", "huge", "many", "words", "nested", "two", "counts", "items", "edits", "contexts"], "TreeConform", PARSER[self.prop])
        if self.violations:
            return
        sents = self.sentences(self.prop)
        self.structure(PARSER[self.prop], sents, ["plain", "plain", "tight"], 0.4,
                       extra=programs.cases(self.prop) + products.cases(self.prop, self.rng, self.th, self.lean))

    # ---------------------------------------------------------------- findings given as texts
    def listed(self):
        """Findings that are identified by a text: still there, gone, or worse."""
        cases, which = [], []
        for f in self.known:
            for inp in f.get("inputs", []):
                text = inp["text"] if "text" in inp else inp["repeat"][0] * inp["repeat"][1] + inp["repeat"][2]
                cases.append((inp["mode"], text))
                which.append((f, inp))
        for (f, inp), case in zip(which, cases):
            traces, _ = self.record([case], "known", stack=inp.get("stack", 256 << 20))
            last = traces[0]["ev"][-1][0]
            if last == inp["shows"]:
                self.findings.setdefault(f["id"], case[1][:60])
            elif last in "PHA":
                self.violation(dict(kind="listed text ends differently", mode=case[0], text=case[1][:2000], recorded=traces[0]["ev"][:5]))

    # ---------------------------------------------------------------- result
    def finish(self):
        for f in self.known:
            key = f.get("deviation", f["id"])
            if key in self.findings:
                print("KNOWN-FINDING: property=%s %s (%s, for example %r)" % (self.prop, f["what"], f["id"], self.findings[key][:80]))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples[:6])
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  wall_s=round(time.time() - self.start, 1), violations=len(self.violations),
                  assumptions=["the generated and hand-written texts stand for all texts beyond the enumerated bounds",
                               "TLC and the CommunityModules evaluate the specification correctly",
                               "the harness reports the values of the real tokens and nodes faithfully"])
        os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(vlib.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not self.violations:
            print("OK property=%s %d traces conform (%d states) in %.1f s" % (self.prop, self.validated, self.states, time.time() - self.start))
            return 0
        best = min(self.violations, key=lambda v: len(v.get("text", "")))
        d = os.path.join(vlib.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, os.getpid()))
        best["others"] = [v.get("text", "")[:200] for v in sorted(self.violations, key=lambda v: len(v.get("text", "")))[1:20]]
        best["violations"] = len(self.violations)
        best["property"] = self.prop
        with open(path, "w") as f:
            json.dump(best, f, indent=1)
        print("%s %r: %s (first differing event %s); %d texts in all" %
              (best.get("mode"), best.get("text", "")[:300], best["kind"], best.get("event"), len(self.violations)))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    def run(self):
        self.building = vlib.start_build()
        import special
        kind = getattr(special, self.prop.lower(), None)
        if kind:
            kind(self)
        elif self.prop in lexcorpus.CONF:
            self.scanner_and_library()
        else:
            self.parser()
        self.listed()
        return self.finish()


def trim(events, aspects):
    """Leaves out what is not compared."""
    text, trivia, places = "text" in aspects, "trivia" in aspects, "places" in aspects
    return [e if e[0] not in "TN" else
            (["T", e[1], e[2], e[3], e[4] if text else [], e[5] if text else [], e[6] if trivia else []] if e[0] == "T" else
             ["N", e[1], e[2], e[3], e[4] if places else []]) for e in events]


def closing(entry):
    return [] if entry == "single" else ["EOF"]


def chunks(xs, n):
    for k in range(0, len(xs), n):
        yield xs[k:k + n]


def longest(xs, rng, n):
    """A sample that prefers the longer sequences."""
    xs = [x for x, _ in {(o, m, tuple(s)): None for o, m, s in xs}.items()] if False else list({(o, m, tuple(s)) for o, m, s in xs})
    xs.sort()
    xs.sort(key=lambda x: rng.random() * len(x[2]), reverse=True)
    return [(o, m, list(s)) for o, m, s in xs[:n]]


def alter(seq, alphabet, rng):
    s = list(seq)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(len(s))
        x = rng.random()
        if x < 0.3:
            del s[k]
        elif x < 0.6:
            s.insert(k, rng.choice(alphabet))
        elif x < 0.85:
            s[k] = rng.choice(alphabet)
        elif k + 1 < len(s):
            s[k], s[k + 1] = s[k + 1], s[k]
        if not s:
            break
    return s


def python_accepts(mode, text):
    try:
        if mode == "file":
            ast.parse(text, mode="exec", type_comments=True)
        elif mode == "eval":
            ast.parse(text, mode="eval", type_comments=True)
        elif mode == "single":
            ast.parse(text, mode="single", type_comments=True)
        else:
            ast.parse(text, mode="func_type")
        return True
    except (SyntaxError, ValueError, RecursionError, MemoryError, OverflowError):
        return False


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return Check(prop, tier, seed).run()
    except Broken as e:
        print("no verdict: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
