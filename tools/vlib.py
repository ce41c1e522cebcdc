"""Shared machinery: builds the harness from /repo, records traces of the real code, runs TLC."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery itself failed: no verdict."""


def fresh_dir(name):
    d = os.path.join(BUILD, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# --------------------------------------------------------------------------- harness

_PRODUCTION = re.compile(r"fn\s+parse_(\w+)\s*\(\s*&(?:mut\s+)?self\s*(,\s*\w+\s*:\s*bool)?,?\s*\)\s*->\s*Result\s*<\s*Box\s*<\s*ASTNode\s*>\s*,\s*String\s*>\s*;")
_TRAIT = re.compile(r"pub\s+trait\s+(\w+)\s*\{([^{}]*)\}")


def write_parts(path, empty=False):
    """A function that calls a production of /repo's parser by its name, from the traits that declare them."""
    uses, arms = [], []
    src = os.path.join(REPO, "src", "parser")
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs") or empty:
            continue
        for t in _TRAIT.finditer(open(os.path.join(src, f), encoding="utf-8", errors="replace").read()):
            found = _PRODUCTION.findall(t.group(2))
            if found:
                uses.append("use crate::parser::%s::%s as _;" % (f[:-3], t.group(1)))
            for name, flag in found:
                if flag:
                    arms += ['"%s_true" => p.parse_%s(true),' % (name, name), '"%s_false" => p.parse_%s(false),' % (name, name)]
                else:
                    arms.append('"%s" => p.parse_%s(),' % (name, name))
    new = "\n".join(uses + ["pub fn call(p: &mut crate::parser::parser::PythonCoreParser, name: &str) -> Option<Result<Box<crate::parser::nodes::ASTNode>, String>> {",
                            "    Some(match name {"] + ["        " + a for a in arms] + ["        _ => return None,", "    })", "}", ""])
    if not os.path.exists(path) or open(path).read() != new:
        with open(path, "w") as f:
            f.write(new)


def start_build(empty=False):
    """Begins to compile the harness together with /repo's current sources."""
    os.makedirs(BUILD, exist_ok=True)
    parts = os.path.join(BUILD, "parts.rs")
    write_parts(parts, empty)
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_PARTS=parts, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never")
    for extra in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(extra, None)
    # The sources come in through include!, which cargo tracks; touching the root makes sure.
    main = os.path.join(VERIF, "harness", "src", "main.rs")
    os.utime(main)
    return subprocess.Popen(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"),
                            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def finish_build(p):
    """The binary."""
    out = p.communicate()[0]
    if p.returncode != 0 and "parts.rs" in out:
        # Productions that cannot be called are left out.
        p = start_build(empty=True)
        out = p.communicate()[0]
    if p.returncode != 0:
        raise Broken("the harness does not build:\n" + out[-4000:])
    return os.path.join(BUILD, "target", "debug", "harness")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def record(binary, cases, work, tag, twice=False, stack=256 << 20, limit=10, shards=4):
    """Runs (mode, text) cases on the real code. Returns one record per case:
    {"id", "mode", "inp", "ev"}, in order, and the ids whose second run differed."""
    lines = ["%d %s %s" % (i, m, ",".join(str(ord(c)) for c in t)) for i, (m, t) in enumerate(cases)]
    n = max(1, min(shards, len(lines) // 200))
    procs = []
    for s in range(n):
        part = lines[s::n]
        procs.append(_Shard(binary, part, os.path.join(work, "%s.%d" % (tag, s)), twice, stack, limit))
    out, differs = {}, []
    for p in procs:
        p.run_to_end()
        for rec in p.records():
            if "differs" in rec:
                differs.append(rec["differs"])
            else:
                out[rec["id"]] = rec
    missing = [i for i in range(len(cases)) if i not in out]
    if missing:
        raise Broken("no trace for case %d" % missing[0])
    return [out[i] for i in range(len(cases))], sorted(set(differs))


class _Shard:
    def __init__(self, binary, lines, base, twice, stack, limit):
        self.binary, self.lines, self.base, self.twice, self.stack, self.limit = binary, lines, base, twice, stack, limit
        with open(base + ".cases", "w") as f:
            f.write("".join(l + "\n" for l in lines))
        if os.path.exists(base + ".out"):
            os.remove(base + ".out")
        self.start(0)

    def start(self, skip):
        self.skip = skip
        self.proc = subprocess.Popen([self.binary, self.base + ".cases", self.base + ".out", str(skip), "1" if self.twice else "0",
                                      str(self.stack), str(self.limit)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                     preexec_fn=_limits)

    def count(self):
        """Complete records written; a torn last line is cut off."""
        path = self.base + ".out"
        if not os.path.exists(path):
            return 0
        data = open(path, "rb").read()
        if data and not data.endswith(b"\n"):
            data = data[: data.rfind(b"\n") + 1]
            open(path, "wb").write(data)
        return sum(1 for l in data.split(b"\n") if l.startswith(b'{"id"'))

    def append(self, index, event):
        i, mode, codes = (self.lines[index].split(" ", 2) + [""])[:3]
        with open(self.base + ".out", "a") as f:
            f.write('{"id":%s,"mode":"%s","inp":[%s],"ev":[["%s"]]}\n' % (i, mode, codes, event))

    def run_to_end(self):
        total, restarts = len(self.lines), 0
        while True:
            err = self.proc.communicate()[1]
            rc = self.proc.returncode
            done = self.count()
            if rc == 0 and done >= total:
                return
            if rc == 2:
                raise Broken("harness: " + err.decode(errors="replace")[-500:])
            if rc == 0 and done < total:
                raise Broken("harness stopped early")
            restarts += 1
            if done >= total:
                # It died while repeating: the repetition did not behave as the first run.
                with open(self.base + ".out", "a") as f:
                    f.write('{"differs":%s}\n' % self.lines[-1].split(" ", 1)[0])
                return
            if rc != 3:
                self.append(done, "A")
                done += 1
            if restarts > 6:
                # One failure after the other: what is left is not run, and says so.
                for k in range(done, total):
                    self.append(k, "A")
                return
            self.twice = False
            self.start(done)

    def records(self):
        with open(self.base + ".out") as f:
            for l in f:
                yield json.loads(l)


# --------------------------------------------------------------------------- TLC

_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
_SIM = re.compile(r"^The number of states generated: (\d+)", re.M)


class TlcRun:
    def __init__(self, module, env, work, tag, extra=(), workers=8, limit=840, xmx="6g", cfg=None):
        self.module, self.work, self.tag, self.limit = module, work, tag, limit
        self.out = os.path.join(work, tag + ".tlc")
        meta = os.path.join(work, tag + ".states")
        shutil.rmtree(meta, ignore_errors=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", meta, "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        e = dict(os.environ, **env)
        self.f = open(self.out, "w")
        self.proc = subprocess.Popen(cmd, cwd=SPECS, env=e, stdout=self.f, stderr=subprocess.STDOUT)

    def wait(self):
        try:
            self.proc.wait(timeout=self.limit)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            raise Broken("TLC on %s did not end within %d s" % (self.module, self.limit))
        self.f.close()
        text = open(self.out).read()
        m = _STATES.search(text)
        sim = _SIM.search(text)
        self.generated = int(m.group(1)) if m else int(sim.group(1)) if sim else 0
        self.distinct = int(m.group(2)) if m else 0
        ok = "Model checking completed. No error has been found." in text or (sim is not None and "Error:" not in text)
        if not ok:
            tail = "\n".join(l for l in text.split("\n") if not l.startswith(("<<", '"<<')))[-3000:]
            raise Broken("TLC on %s failed:\n%s" % (self.module, tail))
        return text


_V = re.compile(r'^<<"V", (\d+), "(ok|bad)", (\{[^}]*\}), (\d+)>>$', re.M)


def verdicts(text, count):
    """Per trace (from 1): list of (verdict, deviations, event index)."""
    out = {i: [] for i in range(1, count + 1)}
    for m in _V.finditer(text):
        dev = tuple(sorted(re.findall(r'"(\w+)"', m.group(3))))
        out[int(m.group(1))].append((m.group(2), dev, int(m.group(4))))
    return out


def write_ndjson(path, records):
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


# --------------------------------------------------------------------------- deviations

def plain(mode):
    """The entry point of a mode."""
    if mode.startswith("part-"):
        return mode
    return mode[3:] if mode.startswith("at-") else mode


def deviations(text):
    """The variants of the specified machine a recorded trace may show. [] is the specification;
    'numend' is a permitted choice (a letter right after a number is an error or a new token);
    'crlf3' and 'bsl' are recorded defects of the implementation (see known_findings.json)."""
    base = []
    if "\r\n" in text:
        base.append("crlf3")
    if re.search(r"(^|[\r\n])[ \t\f]*\\", text) or ("\r\n" in text and "\\" in text):
        base.append("bsl")
    num = bool(re.search(r"[0-9.][^\W\d]", text)) or bool(re.search(r"[0-9.]_", text))
    sets = [[]]
    for k in range(1, 1 << len(base)):
        sets.append([b for j, b in enumerate(base) if k >> j & 1])
    if num:
        sets += [s + ["numend"] for s in sets]
    return sets


FINDING_DEVS = {"crlf3", "bsl"}


def classify(vs):
    """ok / finding (with deviation names) / bad (with the first differing event)."""
    good = [set(d) for v, d, _ in vs if v == "ok"]
    if any(not (d & FINDING_DEVS) for d in good):
        return "ok", ()
    if good:
        return "finding", tuple(sorted(min(good, key=len) & FINDING_DEVS))
    plain = [n for v, d, n in vs if v == "bad" and not d]
    return "bad", (plain[0] if plain else 0,)
