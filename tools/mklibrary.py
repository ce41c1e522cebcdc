#!/usr/bin/env python3
"""Makes the library (library.py).  Usage: mklibrary.py [NAME...]   (all when none is given)

Records the traces of the current code on many more texts than a check has time for, lets TLC check every
one against the specification, and keeps those it accepts with the digests of their traces. Texts that TLC
does not accept are listed, and are no part of the library."""
import json, os, random, shutil, sys, time, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import plain
import check, corpus, forms, lexcorpus, library, products, programs, render, special, vlib

LEX = {p: "lex-" + p for p in lexcorpus.CONF}
TREE = list(forms.MAKE) + ["cross", "wild", "broken"]
ALL = list(LEX.values()) + TREE + ["at", "lex-huge", "lex-rows", "huge", "edits", "contexts", "many", "words", "nested", "two", "counts", "items", "part"]
STRUCTURE, FULL = ["tree", "places", "text"], ["tree", "places", "text", "span", "trivia", "range"]


def rng_for(name):
    return random.Random("library " + name)


def lex_texts(name):
    prop = name[4:]
    rng = rng_for(name)
    cap = 200000
    texts = lexcorpus.texts(prop, rng, True)
    if len(texts) > cap:
        texts.sort(key=len)
        texts = texts[:cap // 3] + rng.sample(texts[cap // 3:], cap - cap // 3)
    return [("lex", t) for t in texts]


def ends():
    """What follows the first 65536 characters."""
    yield "if a:\n  b = 'x' + 12.5e3 # type: int\n\t\n  c(\n1, [\u00e9])  # c\n  @ b'''\n'''\nd <<= \\\n 0x_f\n"
    yield "a\n b\n  c\n\n # c\n b\nd"
    yield " ".join(LEXEMES[:-3]) .replace("( ) [ ] { }", "([{}])") + "\n" + " ".join(p + q for p in ("", "b", "Rb", "f", "U") for q in ("'a'", '""', "\'\'\'a\'\'\'")) + " 0b1 0o7 0xf 1 1j 1.5 .5 1e5 0 00 0.\n"
    yield "a # type: \u540d\u524d\nb\t# \U0001f40d\n'\u00e9' 0o17 {1_0: .5e-3j} ... != -> :=\r  R'x\\'' + \\\n _a"
    for wrong in ("$", "'x", "07", ")", "0x", "\\", "1__2", "if a:\n    b\n  c", "(]"):
        yield "a\n" + wrong + "\nb\n"


def long_beginnings():
    yield "('" + "s" * 60 + "'); "
    yield "ab = cd + 12\n"
    yield "\u00e9 \U0001f40d\u540d = '\U0001f40d' # \u540d\n".replace("\U0001f40d\u540d", "\u540d")
    yield "# " + "c" * 60 + "\na\n"
    yield "if a:\n  b\n"
    yield "[\n1,\n\n]\n"


def huge_lex():
    """Beyond 8 and 16 bits."""
    rng = rng_for("lex-huge")
    tails = list(ends())
    for unit in long_beginnings():
        for t in tails[:4] + rng.sample(tails[4:], 2):
            yield unit * (65400 // len(unit)) + " " * rng.choice([0, 1]) * 0 + t * rng.choice([1, 1, 6])
    # Offsets in characters below, in bytes above 65535.
    yield "\U0001f40d"[:0] + "'\U0001f40d\u540d' # \u540d\u540d\u540d\u540d\u540d\n" * 1500 + tails[0]
    for n in (2050, 4100, 4305, 5003):
        yield "b " + "a" * n + " c\n"
        yield "'" + "s" * n + "' +\n"
        yield "1" * n + " 0x" + "f" * n + "\n"
        yield "# " + "x" * n + "\na"
    for n in (256, 257, 300, 513, 1030):
        for o, c in ("()", "[]", "{}"):
            yield "a" + o * n + "\n b" + c * n + "\n  c\n"
            yield o * n + c * (n - 1) + "\na" + c + "\nb"
            yield o * n + c * (n + 1)
        yield " " * n + "a\n" + " " * n + "b\n" + " " * (n - 256) + "c\n"
        yield "a\n" + "\t" * n + "b\n" + " " * (4 * n) + "c\nd"
        yield "if a:\n" + " " * n + "b\n" + " " * (n // 2) + "c\n"
        for x in ("a", "\u00e9", "1", "_1", "a1"):
            yield "b " + x * n + " c\n" + x * n + "'"
        yield "'" + "s" * n + "' + '" + "\\'" * n + "' '''" + "\n" * n + "''' a\n"
        yield "a" + " " * n + "#" + "c" * n + "\n" + "# type: " + "x" * n + "\nb\n"
        yield "a" + "\t" * n + "b" + "\\\n" * n + "c\n" + "\n" * n + "d\n" + "# c\n" * n + "e"
        yield "0x" + "f" * n + " 0b" + "10_1" * n + " 1" + "_0" * n + " ." + "5" * n + "e" + "1" * n + "j\n"
        yield "a " + "<" * n + "=" * n + "." * n + "-" * n + ">" * n + "*" * n + "\n"
        yield "a\n" * n + " b\n"
    for n in (140, 257, 300):
        for unit in (" ", "\t", "   "):
            yield "".join(unit * k + "a\n" for k in range(n)) + unit * (n // 2) + "b\nc\n"
            yield "".join(unit * k + "a\n" for k in range(n)) + unit * (n // 2) + " b\n"


def rows_lex():
    """Rows of the same character, long numbers, and blocks, brackets and joined lines of every depth."""
    rng = rng_for("lex-rows")
    for g in (lexcorpus.long_numbers, lexcorpus.last_lines, lexcorpus.joins, lexcorpus.deep_blocks, lexcorpus.deep_brackets):
        for _ in range(1 if g is lexcorpus.deep_blocks else 3):
            yield from g(rng)
    for kind in ("comment", "string", "name"):
        for _ in range(7 if kind != "name" else 3):
            yield from lexcorpus.rows(rng, kind)


def huge_tree():
    """The same for the parser: long lists, deep nesting, offsets beyond 16 bits."""
    rng = rng_for("huge")
    tails = ["if a:\n  b = c[1:2](*d, e=f)\nelse:\n  try: g\n  except h as i: j\n  finally: k\n", "@a\nclass B(c): d: e = f\n", "for a in b: c; d\nwith a as b: c\n",
             "a = lambda b, *c: {d: e, **f}\n", "a = (b\n", "a b\n", "if a:\n b\n  c\n", "$\n"]
    for unit in ("a = 'ssssssssssssssssssssssssssssssssssssssssssssssssssssssssssssssssss'\n", "# cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc\npass\n",
                 "if a: b('ssssssssssssssssssssssssssssssssssssssssssssss')\n", "'ssssssssssssssssssssssssssssssssssssssssssssssssssssssssssssssssss'; "):
        for t in tails[:4] + rng.sample(tails[4:], 1):
            yield "file", unit * (65500 // len(unit)) + ("\n" if unit.endswith(" ") else "") + t
    exprs = ["a, ", "a + ", "a or ", "a and ", "a < ", "a | ", "a ** ", "a.", "-", "not ", "a if b else ", "a * ", "~"]
    lists = [("[", "a, ", "]"), ("(", "a, ", ")"), ("{", "a, ", "}"), ("{", "a: b, ", "}"), ("f(", "a, ", ")"), ("f(", "a=b, ", ")"), ("f(", "*a, ", ")"), ("x[", "a, ", "]"), ("x[", "a:b:c, ", "]"),
             ("lambda ", "a, ", ": b"), ("lambda ", "a=1, ", ": b"), ("lambda *a, ", "b, ", ": c"), ("x", "()", ""), ("x", "[a]", ""), ("x", ".a", ""), ("", "'s' ", ""), ("[a", " for b in c if d", "]"), ("[a", " if b", "]"),
             ("x", "(a)[b].c", "")]
    lines = ["a; ", "a = ", "@a\n", "elif", "except", "global a, b, "]
    for n in (255, 256, 257, 300, 700):
        deep = n <= 300
        for u in exprs:
            if deep or u not in ("-", "not ", "~", "a if b else ", "a ** "):
                yield "eval", u * n + "a"
        for o, u, c in lists:
            if "for" not in u and " if" not in u or deep:
                yield "eval", o + u * n + c
        if deep:
            for o, c in ("()", "[]", ("{", "}"), ("f(", ")"), ("x[", "]"), ("(yield ", ")"), ("{a: ", "}"), ("lambda: ", ""), ("[a for b in ", "]")):
                yield "eval", o * n + "a" + c * n
                yield "eval", o * n + "a" + c * (n - 1)
        yield "file", "a; " * n + "b\n"
        yield "file", "a = " * n + "b\n"
        yield "file", "@a\n" * n + "def f(): pass\n"
        yield "file", "if a: b\n" + "elif c: d\n" * n + "else: e\n"
        yield "file", "try: a\n" + "except b: c\n" * n + "else: d\nfinally: e\n"
        yield "file", "try: a\n" + "except* b as c: d\n" * n
        yield "file", "try: a\n" + "except b: c\n" * n + "except* d: e\n"
        yield "file", "with " + "a as b, " * n + "c: d\n"
        yield "file", "import " + "a.b as c, " * n + "d\n"
        yield "file", "from " + "." * n + "a import " + "b as c, " * n + "d\n"
        yield "file", "from a import (" + "b, " * n + ")\n"
        yield "file", "global " + "a, " * n + "b\n"
        yield "file", "nonlocal " + "a, " * n + "b\n"
        yield "file", "del " + "a, " * n + "b\n"
        yield "file", "for " + "a, " * n + " in " + "b, " * n + ": c\n"
        yield "file", "class a(" + "b, " * n + "): pass\n"
        yield "file", "if a:\n" + "  b\n" * n + "c\n"
        yield "file", "a\n" * n
        yield "file", "\n" * n + "a\n" + "\n" * n
        yield "func", "(" + "a, " * (n - 1) + "b) -> c" + "\n" * n
        yield "eval", "a" + "\n" * n
        if n <= 257:
            yield "file", "".join(" " * k + "if a:\n" for k in range(n)) + " " * n + "b\n" + "".join(" " * k + "else: c\n" for k in reversed(range(n)))
            yield "file", "".join(" " * k + "try:\n" for k in range(n)) + " " * n + "b\n" + "".join(" " * k + ("except*" if k % 2 else "except") + " c: d\n" for k in reversed(range(n)))


def many_texts(binary, work):
    """Everything once more, some hundreds of times in one text: what is kept from one phrase to the next shows."""
    rng = rng_for("many")
    for f in products.FRAGS:
        for o, c in rng.sample([("[", "]"), ("(", ")"), ("f(", ")"), ("{", "}"), ("x = ", "y")], 2):
            yield "eval" if o != "x = " else "file", o + (f + ", ") * 300 + c
        yield "file", (f + "\n") * 280
    for p in products.PLACES:
        yield "eval", "[" + (products.put(p, "a") + ", ") * 270 + "]"
        yield "file", (products.put(p, "(a, b)") + "; ") * 260 + "c\n"
    for p in products.STATEMENTS + programs.LINES:
        yield "file", (products.put(p, "a").split("#")[0].strip(" ;") + "; ") * 300 + "z\n"
        yield "file", (products.put(p, "a[b]") + "\n") * 280
    for b in programs.BLOCKS + [products.put(c, "a") for c in products.CLAUSES] + [x + "\n  a\n" for x in products.HEADS]:
        yield "file", b * (280 if len(b) < 60 else 150)
        yield "file", "if a:\n" + products.indent(b * 130, "  ") + "z\n"
    for p in products.FUNCS:
        yield "func", products.put(p, ", ".join(["a"] * 300))
    for props, mode, pre, units, sep, ends, post in products.REPEATS:
        for u in dict.fromkeys(units):
            n = 280 if len(pre + u) < 14 and u.strip() not in ("-", "+", "~", "not", "(", "[", "{") else 90
            yield mode, pre + sep.join([u] * n) + rng.choice(ends) + post
        yield mode, pre + sep.join(rng.choice(units) for _ in range(150)) + ends[0] + post
    blocks = [b for b in programs.BLOCKS if b.strip()] + [l + "\n" for l in programs.LINES] + [products.put(c, "a") for c in products.CLAUSES]
    traces, _ = vlib.record(binary, [("file", b) for b in blocks], work, "many")
    blocks = [b for b, t in zip(blocks, traces) if t["ev"][-1][0] == "N"]
    exprs = [f for f in products.FRAGS if not f.startswith(("yield", "*"))]
    traces, _ = vlib.record(binary, [("eval", "(" + b + ")") for b in exprs], work, "many")
    exprs = [b for b, t in zip(exprs, traces) if t["ev"][-1][0] == "N"]
    for _ in range(150):
        few = [rng.choice(exprs) for _ in range(rng.choice([2, 3, 80]))] if rng.random() < 0.8 else exprs
        many = [rng.choice(few) for _ in range(270)]
        yield "eval", rng.choice(["[%s]", "(%s)", "f(%s)", "{%s}", "x[%s]"]) % ", ".join("(%s)" % e if rng.random() < 0.3 else "%s" % e for e in many)
        yield "file", "".join("%s%s%s" % (rng.choice(["", "x = ", "return ", "del ", "x += ", "assert "]), e, rng.choice(["\n", "\n", "; "])) for e in many) + "z\n"
    for _ in range(150):
        few = [rng.choice(blocks) for _ in range(rng.choice([2, 2, 3, 6]))]
        yield "file", "".join(few) * (500 // sum(map(len, few)) * 6 + 20)
    for _ in range(60):
        yield "file", "".join(rng.choice(blocks) for _ in range(200))


def tree_texts(prop):
    rng = rng_for(prop)
    cases = forms.pool(prop, rng)
    extra = [forms.vary(rng, c) for c in rng.sample(cases, min(len(cases), 12000))]
    return cases + extra


def cross_texts():
    rng = rng_for("cross")
    comp = [x for x in programs.BLOCKS if x.strip()]
    out = list(products.cross(rng, None, 4)) + list(products.every_block(programs.LINES, comp)) + list(products.blocks(rng, 12000, programs.LINES, comp))
    out += programs.all_cases()
    return out + [forms.vary(rng, c) for c in rng.sample(out, 8000)]


def taken_apart(binary, work, cases):
    """(mode, kinds, words) of the texts the real scanner accepts."""
    traces, _ = vlib.record(binary, [("lex", t) for _, t in cases], work, "taken", shards=8)
    for (m, t), tr in zip(cases, traces):
        if tr["ev"][-1][0] == "T":
            yield m, [e[1] for e in tr["ev"]], [None if e[1] in ("Newline", "Indent", "Dedent", "EOF") else t[e[2]:e[3]] for e in tr["ev"]], t, [e[3] for e in tr["ev"]]


def some(name, count):
    rng = rng_for("some " + name)
    out = []
    for p in list(forms.MAKE) + ["cross"]:
        pool = forms.pool(p, rng_for(p)) if p != "cross" else cross_texts()
        pool = [c for c in pool if lexcorpus.in_scope(c[1]) and len(c[1]) < 400 and "\r" not in c[1]]
        out += rng.sample(pool, min(len(pool), count))
    return out


def wild_texts(binary, work):
    rng = rng_for("wild")
    out = []
    for m, seq, words, _, _ in taken_apart(binary, work, some("wild", 9000)):
        out.append((m, render.lay_out(seq, words, rng, rng.choice(["wild", "wild", "wild", "tight"]))))
        if rng.random() < 0.15:
            out.append((m, render.lay_out(seq, words, rng, "wild", "\r")))
    return out


def broken_texts(binary, work):
    rng = rng_for("broken")
    out = {}
    modes = ["file", "eval", "single", "func"]
    base = programs.all_cases() + some("broken", 900)
    lexemes = sorted({w for _, t in programs.all_cases() for w in t.split()})
    for m, seq, words, t, ends in taken_apart(binary, work, base):
        ends = sorted(set(e for e in ends if 0 <= e <= len(t)) | {0})
        few = ends if len(ends) < 14 else sorted(rng.sample(ends, 14))
        for e in few:
            out[(m, t[:e])] = None
            if rng.random() < 0.4:
                out[(m, t[:e] + "\n")] = None
            if rng.random() < 0.2:
                out[(rng.choice(modes), t[e:])] = None
            for w in rng.sample(special.WRONG, 2):
                out[(m, t[:e] + w + t[e:])] = None
            if rng.random() < 0.5:
                out[(m, t[:e] + " " + rng.choice(special.WRONG) + rng.choice(["", "\n"]))] = None
            if rng.random() < 0.5:
                out[(m, t[:e] + " " + rng.choice(lexemes) + " " + t[e:])] = None
        for a, b in zip(ends, ends[1:]):
            if rng.random() < 0.6:
                out[(m, t[:a] + t[b:])] = None
            if rng.random() < 0.1:
                out[(m, t[:b] + t[a:])] = None
        if rng.random() < 0.1:
            out[(rng.choice(modes), t)] = None
    for _ in range(25000):
        out[(rng.choice(modes), "".join(rng.choice(special.SOUP) for _ in range(rng.randint(1, 12))))] = None
    return [c for c in out if "\r\n" not in c[1]]


def at_texts(binary, work):
    """Texts that go wrong after every sequence of four tokens that occurs somewhere."""
    rng = rng_for("at")
    out, contexts = {}, set()
    base = programs.all_cases() + some("at", 2500)
    rng.shuffle(base)
    lexemes = sorted({w for _, t in programs.all_cases() for w in t.split() if len(w) < 9} | set(special.AFTER))
    lexical = special.WRONG + ["$", "$", "$", "'''x\\", '"""x\n\ny', "'x\\", "0x_", "1__0", "\\x"]
    for m, seq, words, t, ends in taken_apart(binary, work, base):
        if len(t) > 300:
            continue
        last = 0
        for k, e in enumerate(ends):
            last = max(last, e)
            context = (m,) + tuple(seq[max(0, k - 3):k + 1])
            if context in contexts:
                continue
            contexts.add(context)
            head, tail = t[:last], t[last:]
            if seq[k] in ("Newline", "Dedent"):
                sep = rng.choice(["", tail[:len(tail) - len(tail.lstrip(" \t"))]])
            else:
                sep = rng.choice([" ", " ", "  ", "\t", " \\\n"])
            for w in ["", rng.choice(lexical), words[k] or ")"] + rng.sample(lexemes, 5):
                out[("at-" + m, head + sep + w + (" " + tail if rng.random() < 0.4 else ""))] = None
    out = [c for c in out if special.safe(c[1]) and "match" not in c[1]]
    parts = [([c for c in out if c[0] == "at-" + m], n) for m, n in (("file", 100000), ("eval", 40000), ("single", 12000), ("func", 12000))]
    return [c for p, n in parts for c in rng.sample(p, min(len(p), n))]


LEXEMES = ("False None True and as assert async await break class continue def del elif else except finally for from global if import in is lambda nonlocal not or pass raise return try while with yield "
           "a _ 1 's' ... + - * ** / // % @ << >> & | ^ ~ := < > <= >= == != <> ( ) [ ] { } , : . ; = -> += -= *= /= //= %= @= &= |= ^= >>= <<= **=").split() + ["\n", "# type: t\n", ""]


def edits_texts(binary, work):
    """Every lexeme in the place of every token: one place for each sequence of three tokens that occurs in a
    program the parser accepts, in the shortest such program."""
    rng = rng_for("edits")
    out, contexts = {}, set()
    base = programs.all_cases() + some("edits", 2500)
    base = [c for c in base if len(c[1]) < 90 and "\\" not in c[1]]
    traces, _ = vlib.record(binary, base, work, "accepted", shards=8)
    base = [c for c, tr in zip(base, traces) if tr["ev"][-1][0] == "N"]
    rng.shuffle(base)
    base.sort(key=lambda c: len(c[1]))
    for m, seq, words, t, ends in taken_apart(binary, work, base):
        at = 0
        for k, e in enumerate(ends):
            context = (m,) + tuple(seq[max(0, k - 2):k + 1])
            start = at
            if words[k] is not None:
                start = t.index(words[k], at)
                at = e
            elif seq[k] == "Newline":
                start, at = t.index("\n", at) if "\n" in t[at:] else len(t), e
            if context in contexts or seq[k] in ("Indent", "Dedent"):
                continue
            contexts.add(context)
            head, tail = t[:start], t[at:]
            for w in LEXEMES:
                if words[k] is not None and w != words[k]:
                    out[(m, head + " " + w + " " + tail.lstrip(" "))] = None
                if rng.random() < 0.3:
                    out[(m, head + " " + w + " " + t[start:])] = None
    return [c for c in out if special.safe(c[1])]


def words_texts(binary, work):
    """Names, numbers, strings and type comments of all kinds: each in one place for each sequence of three tokens
    that occurs in a program the parser accepts; and programs all of whose names are the same."""
    rng = rng_for("words")
    out, contexts = {}, set()
    base = programs.all_cases() + some("words", 2500)
    base = [c for c in base if len(c[1]) < 90 and "\\" not in c[1]]
    traces, _ = vlib.record(binary, base, work, "accepted", shards=8)
    base = [c for c, tr in zip(base, traces) if tr["ev"][-1][0] == "N"]
    rng.shuffle(base)
    base.sort(key=lambda c: len(c[1]))
    whole = 0
    for m, seq, words, t, ends in taken_apart(binary, work, base):
        at = 0
        for k, e in enumerate(ends):
            if words[k] is None:
                continue
            start = t.index(words[k], at)
            at = e
            context = (m,) + tuple(seq[max(0, k - 1):k + 2])
            choice = {"AtomName": render.SPECIAL + rng.sample(render.NUMBERS, 4) + rng.sample(render.STRINGS, 4), "AtomNumber": render.NUMBERS, "AtomString": render.STRINGS, "TypeComment": render.COMMENTS}.get(seq[k])
            if context in contexts or not choice:
                continue
            contexts.add(context)
            for w in choice:
                out[(m, t[:start] + " " * (start > 0 and t[start - 1] not in " \n(") + w + " " + t[at:].lstrip(" "))] = None
        if (m,) + tuple(seq) not in contexts and "AtomName" in seq:
            contexts.add((m,) + tuple(seq))
            for w in ("a", rng.choice(render.SPECIAL)):
                out[(m, render.lay_out(seq, [w if x == "AtomName" else y for x, y in zip(seq, words)], rng, rng.choice(["plain", "tight"])))] = None
            out[(m, render.text_of(seq, rng, rng.choice(["plain", "tight", "wild"]), True))] = None
    return [c for c in out if special.safe(c[1])]


def part_texts(m, binary):
    """Productions at every token of programs of all kinds."""
    rng = rng_for("part")
    m.binary, m.building = binary, None
    pool = [t for _, t in programs.all_cases() if len(t) < 400] + special.TYPED
    pool += [t for _, t in some("part", 1500) if len(t) < 90]
    pool = [t for t in dict.fromkeys(pool) if special.safe(t) and lexcorpus.in_scope(t) and "match" not in t]
    rng.shuffle(pool)
    pool.sort(key=len)
    cases = special.part_cases(rng, special.part_texts(m, pool), 4, 0.1)
    typed = [("part-%d-%s" % (t.startswith("("), n), t) for t in special.TYPED for n in ("blocks_tfp_def", "blocks_tfp_def_assign")]
    several = special.part_many(rng, special.part_texts(m, special.many_parts(rng, True)))
    rng.shuffle(several)
    several = special.part_kinds(m, several, 3)
    print("part: %d of %d" % (len(several), len(cases)), flush=True)
    return typed + rng.sample(cases, min(len(cases), 240000)) + several


class Maker(check.Check):
    def __init__(self, name, work):
        self.prop, self.work, self.name = "C22", work, name
        self.dropped = set()
        self.states = self.transitions = self.validated = 0
        self.notes, self.samples, self.violations, self.findings = {}, [], [], {}
        known = json.load(open(os.path.join(vlib.VERIF, "known_findings.json")))
        self.known = known["findings"]
        self.all_devs = self.known_devs = {f["deviation"] for f in self.known if "deviation" in f}


def make(name, binary):
    start = time.time()
    work = vlib.fresh_dir("library/" + name)
    key = library.key(name)
    lex = name.startswith("lex")
    m = Maker(name, work)
    cases = [("lex", t) for t in huge_lex()] if name == "lex-huge" else [("lex", t) for t in rows_lex()] if name == "lex-rows" else list(huge_tree()) if name == "huge" else lex_texts(name) if lex else cross_texts() if name == "cross" else wild_texts(binary, work) if name == "wild" else broken_texts(binary, work) if name == "broken" else at_texts(binary, work) if name == "at" else part_texts(m, binary) if name == "part" else edits_texts(binary, work) if name == "edits" else words_texts(binary, work) if name == "words" else [c for c in products.two() if special.safe(c[1])] if name == "two" else [c for c in getattr(products, name)(rng_for(name)) if special.safe(c[1])] if name in ("counts", "items") else [c for c in products.nested(rng_for("nested")) if special.safe(c[1])] if name == "nested" else [c for c in many_texts(binary, work) if special.safe(c[1])] if name == "many" else [c for c in products.contexts(rng_for("contexts"), 300000, 200000) if special.safe(c[1])] if name == "contexts" else tree_texts(name)
    cases = library.order(c for c in cases if lexcorpus.in_scope(c[1]))
    listed = {(i["mode"], i.get("text")) for f in json.load(open(os.path.join(vlib.VERIF, "known_findings.json")))["findings"] for i in f.get("inputs", [])}
    cases = [c for c in cases if c not in listed]
    if os.environ.get("MKLIMIT"):
        cases = random.Random(1).sample(cases, min(len(cases), int(os.environ["MKLIMIT"])))
    refused = set()
    prev = None
    chunk = 30 if "huge" in name else 150 if name == "many" else 8000 if name == "counts" else 60000 if lex else 25000

    def settle(job):
        m.violations = []
        m.decide(job)
        for v in m.violations:
            refused.add((v["mode"], v["text"]))
            print("REFUSED %s %s %r event %s" % (name, v["mode"], v["text"][:300], v["event"]), flush=True)

    for k, part in enumerate(check.chunks(cases, chunk)):
        if name == "part":
            if prev:
                settle(prev)
            prev = special.part_run(m, part, "x%d" % k)
            continue
        traces, _ = vlib.record(binary, part, work, "x%d" % k, shards=8)
        if lex:
            job = m.begin("LexConform", part, traces, ["span", "text", "trivia"], "x%d" % k, cfg="LexCalls", workers=5)
        elif name == "at":
            job = m.begin("Where", part, traces, [], "x%d" % k, workers=5)
        else:
            job = m.begin("TreeConform", part, traces, FULL, "x%d" % k, workers=5)
        if prev:
            settle(prev)
        prev = job
        for f in os.listdir(work):
            if f.endswith((".out", ".cases")):
                os.remove(os.path.join(work, f))
    settle(prev)
    # What the language and the specification disagree on is left out as well.
    left_out = m.notes.get("texts_left_out", 0)
    good = [c for c in cases if (plain(c[0]), c[1]) not in refused and (plain(c[0]), c[1]) not in m.dropped]
    if library.key(name) != key:
        raise SystemExit("the specification has changed meanwhile")
    lib = os.path.join(work, "lib")
    with open(lib, "w", newline="") as f:
        f.write("\n".join(map(library.encode, good)))
    kinds = [[]] if name == "at" else [special.PART] if name == "part" else [list(a) for a in {tuple(c[1]) for c in lexcorpus.CONF.values()}] if name in ("lex-huge", "lex-rows") else [lexcorpus.CONF[name[4:]][1]] if lex else [FULL] if name == "wild" else [STRUCTURE, FULL]
    letters, digests = None, []
    for aspects in kinds + ([STRUCTURE] if name == "wild" else []):
        letters, d = library.run(binary, lib, len(good), work, "d", aspects)
        digests.append((aspects, d))
    library.save(name, good, letters, digests)
    print("%s: %d texts, %d accepted by the code, %d refused, %d left out, %d states, %.0f s" %
          (name, len(good), sum(letters.count(c) for c in b"NTO"), len(refused), left_out, m.states, time.time() - start), flush=True)
    shutil.rmtree(work, ignore_errors=True)


def main():
    own = os.path.join(vlib.fresh_dir("library-%d" % os.getpid()), "harness")     # other checks may build meanwhile
    shutil.copy(vlib.finish_build(vlib.start_build()), own)
    binary = own
    for name in sys.argv[1:] or ALL:
        make(name, binary)


if __name__ == "__main__":
    main()
