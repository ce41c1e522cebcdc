"""Checks with a shape of their own: C10 and C22 to C27."""
import itertools, json, os, re
import corpus, forms, lexcorpus, products, programs, render, vlib
from render import kinds
from vlib import TlcRun


def everything(ck, cap, num):
    """Sentences over the whole grammar: the first configurations of every property at smaller bounds."""
    bounds = []
    for p in sorted(corpus.GEN):
        for c in corpus.GEN[p]:
            q, t = c["max"]
            bounds.append(dict(c, max=(max(2, q - 2), max(3, q - 1)), rej=(1, 2)))
    return ck.sentences("*", bounds=bounds, num=num, cap=cap)


EVERY = sorted(forms.MAKE) + ["cross", "wild", "broken", "huge", "many", "counts", "items", "words", "nested", "two", "edits", "contexts"]
FULL = ["tree", "places", "text", "span", "trivia", "range"]
LEX = ["lex-" + p for p in sorted(lexcorpus.CONF)] + ["lex-huge", "lex-rows"]


def c22(ck):
    ck.renew(EVERY, "TreeConform", ["tree", "places", "text", "span", "trivia"], compared=FULL)
    if ck.violations:
        return
    sents = everything(ck, 40000 if ck.th else 1500 if ck.lean else 3500, 6000 if ck.th else 300 if ck.lean else 500)
    ck.structure(["tree", "places", "text", "span", "trivia"], sents, ["wild", "wild", "tight", "plain"], rich=True,
                 extra=programs.cases("C22") + products.cases("C22", ck.rng, ck.th, ck.lean))


def c23(ck):
    ck.renew(EVERY, "TreeConform", ["range"], compared=FULL)
    if ck.violations:
        return
    sents = everything(ck, 40000 if ck.th else 1500 if ck.lean else 3500, 6000 if ck.th else 300 if ck.lean else 500)
    ck.structure(["range"], sents, ["wild", "wild", "tight", "plain"], rich=True, extra=programs.cases("C23") + products.cases("C23", ck.rng, ck.th, ck.lean))


# ------------------------------------------------------------------------------------- C24

SOUP = ["a", "if", "1", "'", '"', "'''", '"""', "\\", "\n", "\n", "\n  ", "\r", "\t", " ", " ", "(", ")", "[", "]", "{", "}", ":", ",", "=", "*", "**", ".",
        "...", "#", "# type: x", "lambda", "for", "in", "@", "$", "?", "!", "`", "é", "🐍", "1_", "0x", "0b", "1e", "08", "try", "except", "else", "import", "from",
        "\n\n", ";", "->", ":=", "~", "not", "async", "await", "yield", "def", "class", "with", "as", "match", "case", "_", "b'", "rb\"", "\x01", "\x7f",
        "\ufeff", "\u2028", "\u00a0", "\x0b", "\u0301"]


def safe(t):
    return "\r\n" not in t and not any(l.lstrip(" \t\f").startswith("\\") for l in t.replace("\r", "\n").split("\n"))


def c24(ck):
    ck.renew(EVERY + LEX, "Outcome", [], outcome=True)
    if ck.violations:
        return
    rng, out = ck.rng, {}
    lean = 3 if ck.lean else 1
    modes = ["lex", "file", "eval", "single", "func"]
    progs = [t for _, t in programs.all_cases()]
    for t in rng.sample(progs, len(progs) // lean):
        for k in range(0, len(t) + 1, 1 if len(t) < 60 or ck.th else 7):
            m = rng.choice(modes)
            out[(m, t[:k])] = None
            out[("file", t[:k])] = None
            if k % 3 == 0:
                out[(rng.choice(modes), t[k:])] = None
    for _ in range(40000 if ck.th else 3500 // lean):
        t = "".join(rng.choice(SOUP) for _ in range(rng.randint(1, 14)))
        out[(rng.choice(modes), t)] = None
    letters = "".join(SOUP)
    for _ in range(20000 if ck.th else 2000 // lean):
        t = rng.choice(progs)
        if not t:
            continue
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(len(t) + 1)
            x = rng.random()
            t = t[:k] + (t[k + 1:] if x < 0.4 else rng.choice(SOUP) + t[k:] if x < 0.8 else rng.choice(letters) + t[k + 1:])
        out[(rng.choice(["file", "file", "eval", "lex", "func"]), t)] = None
    every = [corpus.kinds(w)[0] for w in corpus.ALL.split()]
    for _ in range(20000 if ck.th else 2000 // lean):
        seq = [rng.choice(every) for _ in range(rng.randint(1, 12))]
        out[(rng.choice(modes[1:]), render.text_of(seq, rng, rng.choice(["plain", "tight"]), True) + rng.choice(["", "\n"]))] = None
    # Nesting and repetition, moderate and long.
    for n in [1, 2, 7, 20, 45] + ([60, 80] if ck.th else []):
        for o, c in ["()", "[]", "{}", ("(", ""), ("[", ""), ("-", ""), ("not ", ""), ("lambda: ", ""), ("a(", ")"), ("a[", "]"), ("a if b else ", ""), ("~", ""),
                     ("(", "]"), ("{a: ", "}"), ("{**", "}"), ("await ", ""), ("a ** ", "")]:
            for mid in ["a", ""]:
                t = o * n + mid + c * n
                out[("eval", t)] = None
                out[("file", t + "\n")] = None
        out[("file", "".join("  " * k + "if a:\n" for k in range(n)) + "  " * n + "b\n")] = None
        out[("file", "".join(" " * k + "try:\n" for k in range(n)) + " " * n + "b\n")] = None
        out[("lex", "".join(" " * k + "a\n" for k in range(n)) + "b\n")] = None
    for n in [300, 3000]:
        for t in ["a, " * n, "a + " * n + "a", "a = " * n + "b", "a; " * n, "a.b" * n, "f()" * n, "a\n" * n, "'s' " * n, "a or " * n + "a", "a < " * n + "a", "(" + "a," * n + ")",
                  "import " + "a." * n + "b", "from " + "." * n + " import a", "# c\n" * n, "\n" * n, "1" * n, "a" * n, "'" + "x" * n + "'", " " * n + "a", "\t" * n, "\\\n" * n,
                  "@a\n" * n + "class b: pass", "if a: b\n" + "elif c: d\n" * n, "try: a\n" + "except b: c\n" * n, "lambda " + "a," * n + ": b", "a(" + "b," * n + ")", "a[" + "b," * n + "]",
                  "{" + "a:b," * n + "}", "{" + "a," * n + "}", "global " + "a," * n + "b", "with " + "a," * n + "b: c", "[a for b in c" + " if d" * 40 + "]"]:
            if n == 300 or ck.th:
                out[("file", t + "\n")] = None
    cases = [c for c in out if safe(c[1])]
    # Texts beyond what the scanner's specification covers are only asked for an answer.
    plain = [c for c in cases if len(c[1]) < 1300 and lexcorpus.in_scope(c[1])]
    known = set(plain)
    odd = [c for c in cases if c not in known]
    odd += [(m, "a" + chr(c) + "b\n") for c in list(range(0, 32)) + [127, 0x85, 0xA0, 0x2028, 0xFEFF, 0x10FFFF, 0x1D7CE, 0x0661] for m in ("lex", "file")]
    traces, _ = ck.record(plain, "out")
    ck.conform("Outcome", plain, traces, [], "out")
    traces, _ = ck.record(odd, "odd", limit=20)
    ck.notes["texts_asked_for_any_answer"] = len(odd)
    for (m, t), tr in zip(odd, traces):
        if not tr["ev"] or tr["ev"][-1][0] in "PHA" or (m == "lex" and tr["ev"][-1][0] == "T" and tr["ev"][-1][1] != "EOF"):
            ck.violation(dict(kind="no tree and no error", mode=m, text=t[:3000], event=len(tr["ev"]), recorded=tr["ev"][-3:]))
    ck.notes["texts"] = len(plain)
    ck.sample(plain)


# ------------------------------------------------------------------------------------- C25

WRONG = ["$", "?", "`", " ! ", "'x", '"x\n', "1__0", "0x", "0b2", "07", ")", "]", "}", "\\ ", "\\", "'''", '"""', "(", "[", "{", "1_", " 0_ ", "\u20ac", "!", "0o9"]


def c25(ck):
    ck.renew(["broken", "huge"], "Outcome", ["lexical"], outcome=True)
    if ck.violations:
        return
    rng, out = ck.rng, {}
    progs = [c for c in programs.all_cases() if c[0] != "single"]
    if ck.lean:
        progs = rng.sample(progs, len(progs) // 2)
    for m, t in progs:
        places = range(len(t) + 1) if len(t) < 40 or ck.th else sorted(rng.sample(range(len(t) + 1), 20))
        for k in places:
            for w in (WRONG if ck.th else rng.sample(WRONG, 3)):
                out[(m, t[:k] + w + t[k:])] = None
        for w in WRONG:
            out[(m, t + w)] = None
            out[(m, t + "\n" + w + "\n")] = None
    # Bad indentation of one line of a program.
    for m, t in progs:
        ls = t.split("\n")
        if m == "file" and len(ls) > 2:
            for k in range(len(ls)):
                for ind in [" ", "   ", "\t", "     "]:
                    out[(m, "\n".join(ls[:k] + [ind + ls[k].lstrip()] + ls[k + 1:]))] = None
                    out[(m, "\n".join(ls[:k] + [ind + ls[k]] + ls[k + 1:]))] = None
    sents = ck.sentences("*", bounds=[], num=3000 if ck.th else 200 if ck.lean else 400, cap=0)
    for o, m, s in sents:
        if o != "W" or m == "single":
            continue
        t = render.text_of(s, rng, rng.choice(["plain", "wild"]), True)
        for _ in range(6 if ck.th else 2):
            k = rng.randrange(len(t) + 1)
            out[(m, t[:k] + rng.choice(WRONG) + t[k:])] = None
    cases = [c for c in out if safe(c[1]) and lexcorpus.in_scope(c[1])]
    traces, _ = ck.record(cases, "bad")
    ck.conform("Outcome", cases, traces, ["lexical"], "bad")
    # The scanner by itself must report them too: the same texts through the scanner alone.
    lex = [("lex", t) for _, t in cases]
    ltr, _ = ck.record(lex, "lexonly")
    refused = sum(t["ev"][-1][0] == "E" for t in ltr)
    ck.notes["texts"] = len(cases)
    ck.notes["texts_with_a_lexical_error"] = refused
    for c, a, b in zip(cases, traces, ltr):
        if b["ev"][-1][0] == "E" and a["ev"][-1][0] == "N":
            ck.violation(dict(kind="the scanner reports an error and the parser returns a tree", mode=c[0], text=c[1], event=len(b["ev"]), recorded=b["ev"][-2:]))
    ck.sample(cases)


# ------------------------------------------------------------------------------------- C26

def c26(ck):
    ck.renew(["wild", "cross", "huge"], "TreeConform", ["tree", "places", "text"], twice=True)
    if ck.violations:
        return
    rng = ck.rng
    sents = [x for x in everything(ck, 20000 if ck.th else 1500 if ck.lean else 2500, 4000 if ck.th else 200 if ck.lean else 400) if x[0] in "GW"]
    if not ck.th:
        sents = rng.sample(sents, min(len(sents), 900 if ck.lean else 1700))
    base, made = [], []
    for o, m, s in sents:
        base.append((m, s, render.words_of(s, rng, True)))
    # The hand-written programs, taken apart by the real scanner.
    progs = programs.all_cases()
    traces, _ = ck.record([("lex", t) for _, t in progs], "taken")
    for (m, t), tr in zip(progs, traces):
        if tr["ev"][-1][0] == "T":
            seq = [e[1] for e in tr["ev"]]
            words = [None if e[1] in ("Newline", "Indent", "Dedent", "EOF") else t[e[2]:e[3]] for e in tr["ev"]]
            base.append((m, seq, words))
    for m, s, w in base:
        a = render.lay_out(s, w, rng, "plain")
        made.append((m, a, render.lay_out(s, w, rng, "wild"), "blanks, comments, line joins, indentation"))
        made.append((m, a, render.lay_out(s, w, rng, rng.choice(["tight", "wild"]), "\r") if '"""' not in a else render.lay_out(s, w, rng, "tight"), "line ends"))
        if rng.random() < 0.05:
            made.append((m, a, a.replace("\n", "\r\n"), "CRLF"))
    made = [x for x in made if x[1] != x[2] and lexcorpus.in_scope(x[1]) and lexcorpus.in_scope(x[2])]
    cases = list(dict.fromkeys([(m, a) for m, a, _, _ in made] + [(m, b) for m, _, b, _ in made]))
    where = {c: i for i, c in enumerate(cases)}
    traces, differs = ck.record(cases, "layout", twice=True)
    for d in differs:
        ck.violation(dict(kind="a second run of the same text gives another result", mode=cases[d][0], text=cases[d][1], event=0, recorded=[]))
    ck.conform("TreeConform", cases, traces, ["tree", "places", "text"], "layout")
    pairs = [x for x in made if x[3] != "CRLF" and safe(x[2])]
    recs = []
    keep = ("T", "N", "E", "P", "H", "A")
    for m, a, b, _ in pairs:
        slim = lambda ev: [["T", e[1], 0, 0, e[4], e[5]] if e[0] == "T" else ["N", e[1], 0, 0, e[4]] if e[0] == "N" else e for e in ev if e[0] in keep]
        recs.append(dict(a=[ord(c) for c in a], b=[ord(c) for c in b], ea=slim(traces[where[(m, a)]]["ev"]), eb=slim(traces[where[(m, b)]]["ev"])))
    path = os.path.join(ck.work, "pairs.ndjson")
    vlib.write_ndjson(path, recs)
    run = TlcRun("Layout", {"TRACES": path}, ck.work, "pairs", xmx="12g")
    text = run.wait()
    ck.count(run)
    import re
    seen = {}
    for m in re.finditer(r'^<<"V", (\d+), "(\w+)", \{\}, (\d+)>>$', text, re.M):
        seen[int(m.group(1))] = (m.group(2), int(m.group(3)))
    same = 0
    for k, (m, a, b, what) in enumerate(pairs, 1):
        if k not in seen:
            raise vlib.Broken("no verdict for pair %d" % k)
        v, at = seen[k]
        if v == "ok":
            same += 1
        elif v == "bad":
            ck.violation(dict(kind="layout changes the tree (%s)" % what, mode=m, text=b, plain=a, event=at, recorded=traces[where[(m, b)]]["ev"][:200]))
    ck.notes["layout_pairs_compared"] = same
    ck.notes["layout_pairs_with_other_tokens"] = sum(1 for v, _ in seen.values() if v == "other")
    ck.notes["texts_run_twice"] = len(cases)
    ck.sample(cases)


# ------------------------------------------------------------------------------------- C27

AFTER = ["else", "elif", "in", "as", "import", "1", "is", "and", "or", "del", "raise", "return", "while", "finally", "global", "assert", "+", "//", "<<=", "!=", "<", ">>"]


def c27(ck):
    """Where errors are said to be. Only the answer and the offset in the message are recorded."""
    ck.renew(["at"], "Where", [])
    if ck.violations:
        return
    rng, out = ck.rng, {}
    progs = [(m, t) for m, t in programs.all_cases()]
    if ck.lean:
        progs = [c for c in progs if len(c[1]) < 300]
    words = SOUP + AFTER
    # Every program broken off after each of its tokens, and gone wrong there in several ways: with the end of
    # the text, an illegal character, another token.
    taken, _ = ck.record([("lex", t) for _, t in progs], "taken")
    contexts = set()
    for (m, t), tr in zip(progs, taken):
        kindsof = [m] + [e[1] for e in tr["ev"] if e[0] == "T"]
        for k, e in enumerate(tr["ev"]):
            context = tuple(kindsof[max(0, k - 3):k + 2])
            if e[0] != "T" or e[3] < 0 or (context in contexts and not ck.th):
                continue
            contexts.add(context)
            head, tail = t[:e[3]], t[e[3]:]
            if e[1] == "Newline":
                # Where the next line begins, and where the block ends.
                seps = ["", tail[:len(tail) - len(tail.lstrip(" \t"))]]
            else:
                seps = [" " * rng.choice([1, 1, 2])]
            for sep, w in itertools.product(dict.fromkeys(seps), ["", "$" if rng.random() < 0.7 else rng.choice(["?", "'x", "0_", ")]", "\\ "])] + [t[e[2]:e[3]]] + [rng.choice(words) for _ in range(6 if ck.th else 1)]):
                out[(m, head + sep + w + (sep + tail if rng.random() < 0.5 else ""))] = None
        if ck.th:
            for k in range(len(t) + 1):
                out[(m, t[:k])] = None
                out[(m, t[:k] + rng.choice(words) + t[k + 1:])] = None
                out[(m, t[:k] + t[k + rng.choice([1, 2, 3, 5]):])] = None
    for op in "+= -= *= @= /= //= %= &= |= ^= <<= >>= **= = := : -> + - * @ / // % & | ^ << >> ** < > == != <= >= . , ; and or is in not if".split():
        for w in ["$", ")", "'x", "", "class"]:
            out[("file", "a %s %s\n" % (op, w))] = None
    for t in ["f(a, , **c)", "{a, b, , *c}", "{a: b, **c, ,}", "(a for b, ,)", "[a, , b]", "(a, , b)", "a[b, , c]", "lambda a, , b: c", "lambda: , a", "a[::, $]", "a[:$", "a[b:$", "a[b:c:$",
              "lambda $", "lambda a $", "lambda a, $", "lambda a=b $", "lambda *$", "lambda *a, $", "lambda **$", "lambda **a $", "lambda a, /, $", "f($", "f(a $", "f(a=$", "f(*$", "f(**$"]:
        out[("eval", t)] = None
        out[("file", t + "\n")] = None
    for t in ["(a, *b, $", "(*$", "(**$", "(*a, **$", "(a $", "(a, $", "() $", "() -> $", "() -> a $", "(a, , b) -> c", "(*a, , **b) -> c", "(**a, b) -> c", "(*a, b) -> c", "(", ""]:
        out[("func", t)] = None
    for t in ["$\n", "a $\n", "a; $\n", "if a: $\n", "if a: b\n$", "if a:\n  b\n$", "if a:\n  b\n\n$", "class a:\n  b\nc", "a\nb\n", "try: a\n", ")"]:
        out[("single", t)] = None
    for t in ["try: a\nexcept b: c\nexcept* d as e: f\n", "try: a\nexcept* b: c\nexcept d: e\n", "if a: b\n$", "while a: b\n$", "for a in b: c\n$", "try: a\n$", "with a: b\n$", "class a: b\n$",
              "def a(): b\n$", "@a\n$", "async $", "async a", "global a, $", "nonlocal a, $", "nonlocal a,", "import a as $", "from . $", "from a import $", "from a import (b $", "assert a, $"]:
        out[("file", t)] = None
    fixed = len(out)
    bounds = []
    for p in sorted(corpus.GEN):
        for c in corpus.GEN[p]:
            q, t = c["max"]
            bounds.append(dict(c, max=(max(2, q - 2), max(3, q - 1)), rej=(1, 2)))
    sents = ck.sentences("*", bounds=bounds, num=6000 if ck.th else 300, cap=60000 if ck.th else 2500)
    wrong = [x for x in sents if x[0] in "XM"]
    right = [x for x in sents if x[0] in "GW"]
    every = [corpus.kinds(w)[0] for w in corpus.ALL.split()]
    for o, m, s in right if ck.th else rng.sample(right, min(len(right), 900)):
        # Something else after a beginning of a sentence, and perhaps what follows.
        k = rng.randrange(len(s) + 1)
        wrong.append(("X", m, list(s[:k]) + [rng.choice(every)] + list(s[k + rng.choice([0, 1]):])))
        wrong.append(("X", m, list(s[:k]) + [rng.choice(every)]))
    for c in ck.texts(wrong, ["plain", "tight", "wild"], rich=True):
        out[c] = None
    cases = list(out)
    if not ck.th:
        cases = cases[:fixed] + rng.sample(cases[fixed:], min(len(cases) - fixed, 3000))
    cases = [("at-" + m, t) for m, t in cases if safe(t) and lexcorpus.in_scope(t) and len(t) < 1300 and "match" not in t]
    traces, _ = ck.record(cases, "where")
    ck.conform("Where", cases, traces, [], "where")
    ck.notes["texts"] = len(cases)
    ck.notes["errors_located"] = sum(t["ev"][-1][0] == "E" for t in traces)
    ck.sample(cases)


# ------------------------------------------------------------------------------------- C10

def kin(t):
    """What a text has that two scanners might share."""
    return {w for w in ("# type:", "\\\n", "'''", '"""', "\n  ", "\n\t", "(\n", "[", "{", "#", "1_", "0x", "...", "\r", "\f", "$", "'", "not", "b'", "é") if w in t}


def c10(ck):
    """Two scanners called in turns, and beyond their ends."""
    rng = ck.rng
    texts = [t for t in lexcorpus.common(rng, False) if len(t) < 120]
    texts += [t for p in sorted(lexcorpus.CONF) for t in rng.sample(lexcorpus.texts(p, rng, False), 1500 if ck.th else 150)]
    texts += [t[:k] for _, t in programs.all_cases() for k in (len(t), rng.randrange(len(t) + 1)) if len(t) < 200]
    texts += ["", "\n", " ", "a", "a\n", "a\n  ", "a\n  b", "a\n  b\n", "a\n  b\n ", "a\n b\n  c\n", "(", "(\n", "a #", "#", "# type: a", "a # type: b", "\\\n", "a\\\n", "'", "'''", "$", "  ", "\t\n", "\f", "a\n\n\n",
              "a\n # c", "a\n  b\n# c", "a\n  b\n  # c\n", "[\n  ", "1_", "0x", "if a:\n  b\n c\n", "\r", "a\r", "\0", "a\0b", "a\n  b\0"]
    texts += [pre + c + post for c in lexcorpus.IDIOMS for pre in ("", "a ", "(\n  ") for post in ("\n", "\na " + rng.choice(lexcorpus.IDIOMS) + "\n")]
    texts = sorted({t for t in texts if safe(t) and lexcorpus.in_scope(t) and "\x1d" not in t and "\r\n" not in t})
    cases = []
    for n in range(30000 if ck.th else 5000):
        a, b = rng.choice(texts), rng.choice(texts)
        if n < len(texts):
            a = texts[n]
        if rng.random() < 0.15:
            # The same kind of thing in both.
            b = rng.choice([t for t in (rng.choice(texts) for _ in range(60)) if kin(t) & kin(a)] or [b])
        if rng.random() < 0.08:
            # Names and literals that differ in little.
            a = next(lexcorpus.alike(rng, 1))
            b = "".join(rng.choice("xyz_") if c.islower() and rng.random() < 0.05 else c for c in a)
        calls = []
        for t, w in ((a, "1"), (b, "2")):
            # Enough calls to reach the end of the text, and then some; or fewer.
            k = len(t) + 4 if rng.random() < 0.85 else rng.randrange(len(t) + 2)
            calls.append([w] * min(k, 60 + rng.randrange(5)))
        x = rng.random()
        if x < 0.2:
            sched = calls[0] + calls[1]
        elif x < 0.5:
            # In turns.
            sched = [c for p in itertools.zip_longest(*calls) for c in p if c]
        elif x < 0.75:
            sched = calls[0] + calls[1]
            rng.shuffle(sched)
        else:
            # In bursts.
            sched = []
            while calls[0] or calls[1]:
                c = rng.choice([x for x in calls if x])
                k = rng.randint(1, 6)
                sched += c[:k]
                del c[:k]
        if not sched:
            continue
        for _ in range(rng.choice([0, 0, 1, 2])):
            sched.insert(rng.randrange(len(sched) + 1), "0")
        cases.append(("duo", "".join(sched) + "\x1d" + a + "\x1d" + b))
    cases = list(dict.fromkeys(cases))
    traces, _ = ck.record(cases, "duo")
    recs = []
    for (m, t), tr in zip(cases, traces):
        s, a, b = t.split("\x1d")
        recs.append(dict(id=tr["id"], mode=m, inp=[[ord(c) for c in a], [ord(c) for c in b]], sc=[int(c) for c in s], ev=tr["ev"], dv=vlib.deviations(a + "\n" + b)))
    path = os.path.join(ck.work, "duo.traces")
    vlib.write_ndjson(path, recs)
    ck.decide(("Onward", cases, recs, [], TlcRun("Onward", {"TRACES": path}, ck.work, "duo", xmx="10g")))
    ck.notes["schedules"] = len(cases)
    ck.notes["calls"] = sum(len(r["sc"]) for r in recs)
    ck.notes["calls_after_the_end"] = sum(max(0, sum(1 for e in r["ev"] if e[:2] == ["T", "EOF"]) - 1) for r in recs)
    ck.sample(cases)


# ------------------------------------------------------------------------------------- C28

EXPRESSION = ("atom atom_expr power factor term arith shift and_expr xor_expr expr comparison not_test and_test or_test no_cond_test test named_expression testlist_comp subscript_list subscript "
              "exprlist testlist dictorset_maker arglist argument testlist_star_expr").split()
NAMED = "statements_dotted_name statements_dotted_as_name statements_dotted_as_names statements_import_as_name statements_import_as_names expressions_vfp_def expressions_var_args_assignments expressions_var_args_list blocks_tfp_def blocks_tfp_def_assign statements_with_item functions_type_list".split()
STATEMENT = ["statements_stmt", "statements_simple_stmt", "statements_small_stmt", "statements_expr_stmt", "statements_suite", "blocks_func_body_suite"]
BEGINS = {
    "AtomName": ["expressions_" + e for e in EXPRESSION] + NAMED * 2 + STATEMENT,
    "PyIf": ["statements_stmt", "statements_if_stmt", "statements_compound_stmt", "expressions_comp_iter", "expressions_comp_if"],
    "PyElif": ["statements_elif_stmt"], "PyElse": ["statements_else_stmt"], "PyFinally": ["statements_finally_stmt"],
    "PyExcept": ["statements_except_stmt", "statements_except_clause"],
    "PyWhile": ["statements_stmt", "statements_while_stmt", "statements_compound_stmt"],
    "PyFor": ["statements_stmt", "statements_for_stmt", "statements_compound_stmt", "expressions_comp_for", "expressions_sync_comp_for", "expressions_comp_iter"],
    "PyTry": ["statements_stmt", "statements_try_stmt", "statements_compound_stmt"],
    "PyWith": ["statements_stmt", "statements_with_stmt", "statements_compound_stmt"],
    "PyDef": ["statements_stmt", "blocks_func_def", "statements_compound_stmt"],
    "PyClass": ["statements_stmt", "blocks_class_def", "statements_compound_stmt"],
    "PyAsync": ["statements_stmt", "statements_async_stmt", "blocks_async_func_def", "expressions_comp_for", "expressions_comp_iter", "statements_compound_stmt"],
    "PyMatrice": ["statements_stmt", "blocks_decorator", "blocks_decorators", "blocks_decorated", "statements_compound_stmt"],
    "PyDel": ["statements_del_stmt"], "PyPass": ["statements_pass_stmt"], "PyBreak": ["statements_break_stmt", "statements_flow_stmt"],
    "PyContinue": ["statements_continue_stmt", "statements_flow_stmt"], "PyReturn": ["statements_return_stmt", "statements_flow_stmt"],
    "PyRaise": ["statements_raise_stmt", "statements_flow_stmt"], "PyYield": ["statements_yield_stmt", "statements_flow_stmt", "expressions_yield_expr"],
    "PyImport": ["statements_import_stmt", "statements_import_name"], "PyFrom": ["statements_import_stmt", "statements_import_from"],
    "PyGlobal": ["statements_global_stmt"], "PyNonLocal": ["statements_nonlocal_stmt"], "PyAssert": ["statements_assert_stmt"],
    "PyLambda": ["expressions_lambda_def_true", "expressions_lambda_def_false", "expressions_no_cond_test", "expressions_test", "expressions_testlist"],
    "PyMul": ["expressions_star_expr", "expressions_argument", "expressions_arglist", "expressions_testlist_star_expr", "expressions_exprlist", "expressions_testlist_comp",
              "expressions_dictorset_maker", "expressions_var_args_list", "functions_type_list"],
    "PyPower": ["expressions_argument", "expressions_arglist", "expressions_dictorset_maker", "expressions_var_args_list", "functions_type_list"],
    "PyLeftParen": ["expressions_trailer", "blocks_parameters", "functions_func_type", "expressions_trailer"] + ["expressions_" + e for e in EXPRESSION[:12]],
    "PyLeftBracket": ["expressions_trailer"] + ["expressions_" + e for e in EXPRESSION[:6]], "PyDot": ["expressions_trailer"],
    "PyColon": ["expressions_subscript", "expressions_subscript_list"],
    "Newline": ["statements_suite", "blocks_func_body_suite"],
}
SMALL = ["PyDel", "PyPass", "PyBreak", "PyContinue", "PyReturn", "PyRaise", "PyYield", "PyImport", "PyFrom", "PyGlobal", "PyNonLocal", "PyAssert"]
for w in SMALL:
    BEGINS[w] = BEGINS[w] + ["statements_small_stmt", "statements_simple_stmt", "statements_stmt"]
OTHERS = ["expressions_" + e for e in EXPRESSION]
# A lambda expression is only asked for where there is one.
PRODUCTIONS = sorted(p for p in {p for ps in BEGINS.values() for p in ps} if "lambda_def" not in p)
# What a shared state of a single call would show only inside a whole try statement.
ALONE = {"statements_except_stmt", "statements_except_clause"}


def part_cases(rng, texts, per, chains):
    """(mode, text): productions called at the tokens of texts; texts: (text, kinds of its tokens)."""
    out = {}
    seen = set()
    for t, seq in texts:
        for k, kind in enumerate(seq):
            context = tuple(seq[max(0, k - 1):k + 4])
            again = context in seen
            seen.add(context)
            fitting = BEGINS.get(kind, OTHERS)
            names = rng.sample(fitting, min(len(fitting), 1 if again else per))
            if rng.random() < 0.15:
                names.append(rng.choice(PRODUCTIONS))
            for n in names:
                out[("part-%d-%s" % (k, n), t)] = None
            if rng.random() < chains and fitting[0] not in ALONE:
                # One after the other; what comes second is often what follows in fact.
                calls = [rng.choice(fitting)]
                for _ in range(rng.choice([1, 1, 2, 3])):
                    calls.append(calls[-1] if rng.random() < 0.5 and calls[-1] in PRODUCTIONS else rng.choice([p for p in PRODUCTIONS if p not in ALONE]))
                if not ALONE & set(calls):
                    out[("part-%d-%s" % (k, ",".join(calls)), t)] = None
    return list(out)


AFTER = ["; z", "\n", " z", ", z", ")", ":", ": z\n", "", " = z", " for", " if z", " as z", ".z", "]", "}", " # c\nz", "\n  z\n", " and z", "(z)", " += z", " in z", " # type: z\n", "!", " '", "[z]", " else z", " from z", " ->", " := z", " * z"]


def many_parts(rng, every):
    """Lists of one to five units with something behind them."""
    out = {}
    for _, mode, pre, units, sep, tails, post in products.REPEATS:
        for n in (1, 2, 3, 4, 5):
            for k, after in enumerate(AFTER if every else rng.sample(AFTER, 3)):
                us = [units[k % len(units)]] * n if k % 3 == 0 else [rng.choice(units) for _ in range(n)]
                body = sep.join(us) + (tails[0] if rng.random() < 0.6 else rng.choice(tails))
                out[rng.choice([pre, pre, ""]) + body.rstrip("\n") + after] = None
                if k % 4 == 0:
                    out[pre + body + post.rstrip("\n") + after] = None
    return [t for t in out if safe(t) and lexcorpus.in_scope(t) and "match" not in t]


def part_many(rng, texts, most=20):
    """What can begin at the first tokens of such lists."""
    out = {}
    for t, seq in texts:
        for k, kind in enumerate(seq[:4]):
            fitting = sorted(set(BEGINS.get(kind, OTHERS)))
            for n in fitting if len(fitting) < most else rng.sample(fitting, most):
                out[("part-%d-%s" % (k, n), t)] = None
            if rng.random() < 0.1:
                a = rng.choice(fitting)
                b = rng.choice([p for p in PRODUCTIONS if p not in ALONE])
                if a not in ALONE:
                    out[("part-%d-%s,%s" % (k, a, b), t)] = None
    return list(out)


def part_kinds(ck, cases, each):
    """A few cases for every production, every kind and number of parts of what it returns, and every token it stops at."""
    out, have = [], {}
    for n, chunk in enumerate(ck_chunks(cases, 40000)):
        traces, _ = vlib.record(ck.binary, chunk, ck.work, "kinds%d" % n, shards=8)
        for c, tr in zip(chunk, traces):
            ev = tr["ev"]
            at = next((i for i, e in enumerate(ev) if e[0] == "O"), None)
            if at is None:
                what = (c[0].split("-", 2)[2], "E", len(ev))
            else:
                top, then = ev[at - 1] if at else ["-"], ev[at + 1][:2] if at + 1 < len(ev) else "-"
                what = (c[0].split("-", 2)[2], top[1] if top[0] == "N" else "-", len(top[4]) if top[0] == "N" else 0, tuple(then))
            have[what] = have.get(what, 0) + 1
            if have[what] <= each:
                out.append(c)
    return out


def part_records(cases, traces):
    recs = []
    for (m, t), tr in zip(cases, traces):
        _, skip, names = m.split("-")
        recs.append(dict(id=tr["id"], mode=m, inp=tr["inp"], skip=int(skip), calls=names.split(","), ev=tr["ev"], dv=vlib.deviations(t)))
    return recs


PART = ["tree", "places", "text", "span"]


def part_run(ck, cases, tag, workers=8):
    """The cases whose productions exist, as a job of Check.decide."""
    import check
    aspects = PART
    traces, _ = ck.record(cases, tag)
    there = [(c, t) for c, t in zip(cases, traces) if t["ev"][-1][0] != "U"]
    if not there:
        raise vlib.Broken("no production can be called")
    cases = [c for c, _ in there]
    recs = part_records(cases, [dict(t, ev=check.trim(t["ev"], aspects)) for _, t in there])
    path, conf = os.path.join(ck.work, tag + ".traces"), os.path.join(ck.work, tag + ".conf")
    vlib.write_ndjson(path, recs)
    vlib.write_ndjson(conf, [{"aspects": aspects}])
    return "Part", cases, recs, aspects, TlcRun("Part", {"TRACES": path, "CONF": conf}, ck.work, tag, workers=workers, xmx="10g")


def part_texts(ck, pool):
    taken, _ = ck.record([("lex", t) for t in pool], "taken")
    return [(t, [e[1] for e in tr["ev"] if e[0] == "T"]) for t, tr in zip(pool, taken)]


TYPED = ["a", "a: b", "a: b = c", "a = b", "a: b if c else d = e, f", "a: lambda: b = c", "a: b, c: d", "a:", "a: b =", "a: = b", "a: *b", "1: a", "a.b: c", "a := b", "a: b := c", "(a: b = c)", "(a: b)", "a: b: c", "a=b=c"]


def c28(ck):
    """Productions called by themselves."""
    ck.renew(["part"], "Part", PART)
    if ck.violations:
        return
    rng = ck.rng
    pool = [t for _, t in programs.all_cases() if len(t) < (400 if ck.th else 90)]
    pool += TYPED
    pool += [t for p in sorted(forms.MAKE) for _, t in products.cases(p, rng, False, True) if len(t) < 80][:100000]
    pool = [t for t in dict.fromkeys(pool) if safe(t) and lexcorpus.in_scope(t) and "match" not in t]
    rng.shuffle(pool)
    cases = part_cases(rng, part_texts(ck, pool), 4, 0.1)
    ck.notes["possible_cases"] = len(cases)
    if not ck.th:
        cases = rng.sample(cases, min(len(cases), 7000 if ck.lean else 12000))
    several = part_many(rng, part_texts(ck, many_parts(rng, ck.th)), 8)
    cases += several if ck.th else rng.sample(several, min(len(several), 2500))
    for t in TYPED:
        for n in ("blocks_tfp_def", "blocks_tfp_def_assign"):
            cases += [("part-%d-%s" % (t.startswith("("), n), t)]
    cases = list(dict.fromkeys(cases))
    for k in range(0, len(cases), 60000):
        ck.decide(part_run(ck, cases[k:k + 60000], "part%d" % k))
    ck.notes["texts"] = len(cases)
    ck.sample(cases)


# ------------------------------------------------------------------------------------- C29

def c29(ck):
    """Source buffers under every short history of calls and long random ones."""
    rng = ck.rng
    texts = ["", "a", "ab", "abc", "abcd", "\u00e9\u540d\U0001f40d", "a\U0001f40db", "\r\n", "\0", "a\0b", "\n\n\r", "\ufeffa", "e\u0301x", "\U0010ffff\u0001\x7f\x80"]
    cases = []
    # All histories of up to five (seven) calls on short texts.
    for n in range(1, 8 if ck.th else 6):
        for h in itertools.product("agpnc", repeat=n):
            if n < 5 or rng.random() < 0.35:
                cases.append("".join("1" + c for c in h) + "\x1d" + rng.choice(texts))
    # Two and three buffers, long texts, many calls.
    # Every short text over a few letters, looked at from everywhere.
    for n in range(1, 7 if ck.th else 5):
        for t in itertools.product("a\0\u00e9\r\n"[:5 if n < 6 else 3], repeat=n):
            cases.append("1g1p1n1c" + "1a1g1p1n1c" * (n + 2) + "\x1d" + "".join(t))
    letters = [chr(c) for c in (0, 9, 10, 13, 32, 65, 97, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfffd, 0x10000, 0x1f40d, 0x10ffff)]
    for k in range(12000 if ck.th else 2500):
        some = [rng.choice(texts) if rng.random() < 0.3 else "".join(rng.choice(letters) for _ in range(rng.choice([3, 8, 30]))) for _ in range(rng.choice([1, 2, 2, 3]))]
        weights = rng.choice([(8, 1, 1, 1, 1), (1, 1, 1, 1, 1), (3, 2, 2, 1, 0)])
        calls = "".join(rng.choice("123"[:len(some)]) + rng.choices("agpnc", weights)[0] for _ in range(rng.choice([10, 40, 120])))
        cases.append(calls + "\x1d" + "\x1d".join(some))
    # Positions beyond 8 and 16 bits.
    for n, many in ((255, 3), (256, 3), (257, 3), (300, 3), (1000, 2), (4100, 1)) + (((33000, 1), (66000, 1)) if ck.th else ((66000, 1),)):
        for _ in range(many):
            t = "".join(rng.choice(letters) for _ in range(n))
            calls = "1a" * (n - 3) + "1n1g1p1c" + "1a1n1g1p1c" * 7
            cases.append(calls + "\x1d" + t)
    cases = [("buf", t) for t in dict.fromkeys(cases)]
    traces, differs = ck.record(cases, "buf", twice=True)
    for d in differs:
        ck.violation(dict(kind="the second run of the same calls differs from the first", mode="buf", text=cases[d][1], event=0, recorded=[]))
    recs = []
    for (m, t), tr in zip(cases, traces):
        part = t.split("\x1d")
        recs.append(dict(id=tr["id"], mode=m, inp=[[ord(c) for c in x] for x in part[1:]], sc=[[int(part[0][k]), part[0][k + 1]] for k in range(0, len(part[0]), 2)], ev=tr["ev"]))
    path = os.path.join(ck.work, "buf.traces")
    vlib.write_ndjson(path, recs)
    ck.decide(("Buffer", cases, recs, [], TlcRun("Buffer", {"TRACES": path}, ck.work, "buf", xmx="10g")))
    ck.notes["histories"] = len(cases)
    ck.notes["calls"] = sum(len(r["sc"]) for r in recs)
    ck.sample(cases)


# ------------------------------------------------------------------------------------- C30

def c30(ck):
    """The position of a scanner between its calls."""
    rng = ck.rng
    texts = list(lexcorpus.common(rng, ck.th))
    for p in sorted(lexcorpus.CONF):
        own = lexcorpus.texts(p, rng, ck.th)
        texts += rng.sample(own, min(len(own), 25000 if ck.th else 1600))
    texts += [t for _, t in programs.all_cases()]
    texts += [t[:rng.randrange(len(t) + 1)] for _, t in programs.all_cases()]
    texts += ["x = '" + c * n + "'\n\ty # c\n" for n in (254, 255, 256) for c in ("a", "\U0001f40d")] + ["\n" * n + "a\n  b" for n in (255, 256, 257)]
    texts.append(("x = '" + "s" * 90 + "'; # " + "\u00e9" * 90 + "\n") * 350 + "if a:\n  b\r  c # d\n\n\t")
    cases = [("pos", t) for t in dict.fromkeys(texts) if lexcorpus.in_scope(t) and safe(t)]
    for part, chunk in enumerate(ck_chunks(cases, 120000)):
        traces, differs = ck.record(chunk, "pos%d" % part, twice=True)
        for d in differs:
            ck.violation(dict(kind="the second run of the same text differs from the first", mode="pos", text=chunk[d][1], event=0, recorded=[]))
        recs = [dict(id=tr["id"], mode=m, inp=tr["inp"], ev=tr["ev"], dv=vlib.deviations(t)) for (m, t), tr in zip(chunk, traces)]
        path = os.path.join(ck.work, "pos%d.traces" % part)
        vlib.write_ndjson(path, recs)
        ck.decide(("Position", chunk, recs, [], TlcRun("Position", {"TRACES": path}, ck.work, "pos%d" % part, xmx="10g")))
    ck.notes["texts"] = len(cases)
    ck.notes["positions_compared"] = sum(len(r["ev"]) for r in recs)
    ck.sample(cases)


def ck_chunks(xs, n):
    for k in range(0, len(xs), n):
        yield xs[k:k + n]


# ------------------------------------------------------------------------------------- C31

def joint_pool(ck):
    """(mode, text) of parsers: entry points over programs, whole and broken off, productions in sequence."""
    rng = ck.rng
    progs = [(m, t) for m, t in programs.all_cases() if len(t) < 160 and safe(t) and lexcorpus.in_scope(t) and "match" not in t]
    entries = [("file", "a\n"), ("file", "if a:\n  b(\n"), ("eval", "(a"), ("file", "try: a\nexcept* b: $")]
    entries += rng.sample(progs, min(len(progs), 4000 if ck.th else 500))
    blocks = [(m, t) for m, t in progs if "\n " in t or "\n\t" in t]
    for some, n in ((progs, 200), (blocks, 300)):
        for m, t in rng.sample(some, min(len(some), 10 * n if ck.th else n)):
            k = rng.randrange(len(t) + 1)
            entries.append((m, t[:k] + rng.choice(["", "", "$", ")", " if", "\n", ":", "("]) + rng.choice(["", t[k:]])))
    for p in sorted(forms.MAKE):
        own = [(m, t) for m, t in products.cases(p, rng, False, True) if m in ("file", "eval", "single", "func") and len(t) < 100 and safe(t) and "match" not in t]
        entries += rng.sample(own, min(len(own), 400 if ck.th else 30))
    files = [t for m, t in entries if m == "file"]
    chains = []
    for t in files:
        # Statement by statement, as a whole parse does it.
        n = sum(1 for l in t.split("\n") if l[:1] not in ("", " ", "\t", "#", "\f") and l.split(":")[0].split(" ")[0] not in ("else", "elif", "except", "finally"))
        if 1 < n < 9:
            chains.append(("part-0-" + ",".join(["statements_stmt"] * n), t))
    parts = part_cases(rng, part_texts(ck, rng.sample(files, min(len(files), 1500 if ck.th else 250))), 2, 0.5)
    several = [c for c in parts if "," in c[0]]
    parts = rng.sample(several, min(len(several), 4000 if ck.th else 500)) + rng.sample(parts, min(len(parts), 2000 if ck.th else 300))
    parts += chains
    # Some once more with a small difference.
    twins = []
    for some, more in ((entries, []), (parts, [])):
        for n, c in enumerate(some):
            if n % 3 == 0:
                t = joint_twin(c, rng)
                if t:
                    twins.append((c, t))
                    more.append(t)
        some += more
    families = []
    for _, mode, pre, units, sep, tails, post in products.REPEATS:
        for _ in range(5 if ck.th else 1):
            us = [rng.choice(units)] * 4 if rng.random() < 0.3 else [rng.choice(units) for _ in range(rng.choice([3, 4]))]
            c = mode, pre + sep.join(us) + rng.choice(tails) + post
            entries.append(c)
            for k in range(8):
                t = joint_twin(c, rng, k)
                if t:
                    twins.append((c, t))
                    entries.append(t)
        # Short ones, and longer ones that are broken somewhere.
        short = [(mode, pre + sep.join(rng.sample(units, min(len(units), n))) + tail + post) for n in (1, 1, 2) for tail in (tails if ck.th else rng.sample(tails, min(2, len(tails))))]
        broken = []
        for _ in range(30 if ck.th else 9):
            t = pre + sep.join(rng.choice(units) for _ in range(rng.choice([2, 3]))) + rng.choice(tails) + post
            k = rng.randrange(len(pre), len(t) + 1)
            broken.append((mode, t[:k] + rng.choice(["", "$", ")", "(", ":", " if", "\n", "'"]) + rng.choice(["", "", t[k:]])))
        broken = [c for c in broken if safe(c[1])]
        entries += short + broken
        families.append((short, broken))
    return list(dict.fromkeys(entries)), list(dict.fromkeys(parts)), twins, families


LINES = [["'%s'" % ("s" * n) for n in (0, 3, 40, 200)], ['"""%s"""' % ("s\n" * n) for n in (0, 2, 30)], ["1.5e10", "0x1f", "1_000j", "0", "7" * 50], ["name_" + "x" * n for n in (0, 4, 60)],
         ["...", "->", "**", "<<=", "(b)", "[c, d]", "{e: f}"], ["lambda x: y", "b if c else d", "not e", "f(g for h in i)", "j[k:l]"]]


def joint_twin(c, rng, k=None):
    """The same text with another name or number at one place."""
    at = [m.start() for m in re.finditer(r"\b[a-zA-Z0-9]\b", c[1])]
    if len(at) <= (k or 0):
        return None
    k = rng.choice(at) if k is None else at[k]
    return c[0], c[1][:k] + ("7" if c[1][k].isdigit() and c[1][k] != "7" else "8" if c[1][k].isdigit() else rng.choice("qrz")) + c[1][k + 1:]


def joint_shape(c):
    """What a text consists of, names apart, with their neighbours."""
    w = [x if len(x) > 1 or not x.isalnum() else "a" for x in re.findall(r"\w+|[^\w\s]", c[1])]
    return {c[0][:6]} | set(w) | set(zip(w, w[1:]))


def joint_like(c, shapes, rng, n=1):
    """Others that share much with c."""
    mine = joint_shape(c)
    pool = rng.sample(sorted(shapes), min(len(shapes), 400 * n))
    pool.sort(key=lambda o: -(len(mine & shapes[o]) + 2 * rng.random()))
    return pool[:n]


def c31(ck):
    """Several parsers called in turns, and at the same time."""
    import check
    rng = ck.rng
    entries, parts, twins, families = joint_pool(ck)
    # What each says by itself, decided by the specification of the language.
    jobs = []
    files = [t for m, t in entries if m == "file" and t.endswith("\n")]
    long = [("file", "".join(rng.choice(files) for _ in range(rng.choice([4, 8, 12])))) for _ in range(100 if ck.th else 16)]
    kinds = []
    for kind in LINES:
        kinds.append([])
        for _ in range(10 if ck.th else 3):
            kinds[-1].append(("file", "".join("".join(rng.choice(kind if rng.random() < 0.8 else ["a"]) if x == "@" else x for x in rng.choice(["@ = @\n", "a(@, @)\n", "if a: # @\n  b = @\n\n", "@ + @ # c\n"])) for _ in range(rng.choice([6, 10])))))
    kinds.append(long)
    long = sum(kinds, [])
    entries = list(dict.fromkeys(entries + long))
    traces, _ = ck.record(entries, "entries")
    jobs.append(ck.begin("TreeConform", entries, traces, ["tree", "places", "text", "span"], "entries", workers=4))
    jobs.append(part_run(ck, parts, "parts", workers=4))
    alone = [(m, t) for m, t in entries + parts if "\x1d" not in t]
    solo, _ = ck.record([("joint", "\x1d%s\x1d%s" % c) for c in alone], "solo", shards=8)
    says = {}
    for c, tr in zip(alone, solo):
        if len(tr["ev"][-1]) == 1 or ["U"] in tr["ev"][-1][1]:
            continue
        says[c] = [json.dumps(e[1]) for e in tr["ev"]]
    # The steps of the solo run are the events that were decided.
    again, _ = ck.record(parts, "again")
    for c, tr in zip(entries + parts, traces + again):
        if c in says and sum((json.loads(s) for s in says[c]), []) != tr["ev"]:
            ck.violation(dict(kind="the answer depends on what was parsed before", mode=c[0], text=c[1], event=0, recorded=tr["ev"][-2:]))
    some = sorted(says)
    if not some:
        raise vlib.Broken("nothing can be called")
    good = [c for c in some if '["E"]' not in says[c][-1]]
    shapes = {c: joint_shape(c) for c in some}
    fine = {c: shapes[c] for c in good}
    cases = []
    # The same thing very often, refused for the most part, and then others.
    for c in rng.sample(some, min(len(some), 5000 if ck.th else 700)):
        late = joint_like(c, fine, rng, 6) + [rng.choice(some)]
        often = rng.choice([20, 70, 130, 300])
        cases.append(("joint", "#%d" % often + "".join("\x1d%s\x1d%s" % x for x in [c] + late)))
    for c in [("file", "a\n"), ("file", "if a:\n  b(\n"), ("eval", "(a"), ("file", "try: a\nexcept* b: $")]:
        if c in says:
            cases.append(("joint", "#%d" % (140000 if ck.th else 70000) + "".join("\x1d%s\x1d%s" % x for x in [c] + rng.sample(good, 20))))
    for short, broken in families:
        short = [c for c in short if c in says]
        for c in broken:
            if c in says and short:
                often = rng.choice([1, 3, 70, 130])
                cases.append(("joint", "#%d" % often + "".join("\x1d%s\x1d%s" % x for x in [c] + rng.sample(short, min(len(short), 5)))))
    for a, b in twins:
        if a in says and b in says:
            for _ in range(2):
                calls = ["A"] * len(says[a]) + ["B"] * len(says[b])
                if rng.random() < 0.5:
                    rng.shuffle(calls)
                cases.append(("joint", "".join(calls) + "\x1d%s\x1d%s\x1d%s\x1d%s" % (a + b if rng.random() < 0.5 else b + a)))
    # In threads, longer ones, with the same kinds of things in them.
    for ts in kinds + [long]:
        for _ in range(30 if ck.th else 6):
            cases.append(("joint", "*" + "".join("\x1d%s\x1d%s" % rng.choice(ts) for _ in range(8))))
    for n in range(40000 if ck.th else 5000):
        k = rng.choice([2, 2, 2, 3, 3, 4, 6, 12])
        who = [some[n] if n < len(some) else rng.choice(some)]
        while len(who) < k:
            x = rng.random()
            who.append(who[-1] if x < 0.15 else rng.choice(joint_like(who[0], shapes, rng, 3)) if x < 0.3 else rng.choice(some))
        rng.shuffle(who)
        calls = [chr(65 + i) for i, c in enumerate(who) for _ in says[c]]
        x = rng.random()
        if x < 0.12:
            calls = ["*"]
        elif x < 0.5:
            rng.shuffle(calls)
        elif x < 0.8:
            # In turns.
            calls = [c for p in itertools.zip_longest(*[[chr(65 + i)] * len(says[c]) for i, c in enumerate(who)]) for c in p if c]
        cases.append(("joint", "".join(calls) + "".join("\x1d%s\x1d%s" % c for c in who)))
    cases = list(dict.fromkeys(cases))
    traces, _ = ck.record(cases, "joint", shards=8)
    recs = []
    for (m, t), tr in zip(cases, traces):
        f = t.split("\x1d")[1:]
        who = [(f[k], f[k + 1]) for k in range(0, len(f), 2)]
        ev = [[0, e[0]] if len(e) == 1 else [e[0], json.dumps(e[1])] for e in tr["ev"]]
        recs.append(dict(id=tr["id"], alone=[says[c] for c in who], ev=ev))
    path = os.path.join(ck.work, "joint.traces")
    vlib.write_ndjson(path, recs)
    run = TlcRun("Joint", {"TRACES": path}, ck.work, "joint", xmx="10g")
    for j in jobs:
        ck.decide(j)
    ck.decide(("Joint", cases, recs, [], run))
    ck.notes["parsers_alone"] = len(says)
    ck.notes["schedules"] = len(cases)
    ck.notes["schedules_in_threads"] = sum(t.startswith("*") for _, t in cases)
    ck.notes["calls"] = sum(len(r["ev"]) for r in recs)
    ck.sample(cases)
