"""Texts for the library, by property: constructs with several holes, filled with (almost) all combinations.
As everywhere, what each text is - accepted or not, and which tree - is for the specification to say."""
import itertools, re
import products, programs
from products import FRAGS, PLACES, STATEMENTS, CLAUSES, FUNCS, OPERATORS, HEADS, TAILS, indent, put

MID = ["a", "1", "'s'", "'s' \"t\"", "(a)", "(a,)", "[]", "[a, b]", "{a}", "{a: b}", "(yield a)", "(a for b in c)", "lambda: a", "lambda a, *b: c", "a if b else c",
       "a or b", "a and b", "not a", "a < b", "a not in b", "a is not b", "a | b", "a << b", "a + b", "a * b", "-a", "a ** b", "-a ** -b", "await a", "a.b", "a()",
       "a(b, c=d)", "a[b]", "a[b:c]", "...", "None", "*a", "a := b", "a, b", "a,", "yield a", "yield", "yield from a", "**a", "a = b", "(a := b)", "*a, b", "a: b"]
SMALL = ["a", "not a", "a or b", "a if b else c", "lambda: a", "-a ** b", "a.b(c)[d]", "(yield a)", "*a", "a := b", "a, b", "(a, b)", "yield a", "'s' 't'"]
TINY = ["a", "a or b", "a if b else c", "lambda: a", "a.b", "*a", "a, b"]
NAMES = ["a", "match", "case", "_", "type", "print", "x1", "_a", "Try", "élan", "a_very_long_name_of_a_variable_0123456789", "else_", "None_", "self"]
TARGETS = ["a", "a, b", "a,", "*a, b", "a, *b", "(a)", "(a, b)", "(*a, b)", "[a, b]", "[]", "()", "a.b", "a[b]", "a[b:c]", "a.b[c].d", "a()", "a + b", "-a", "1", "'s'", "None", "*a",
           "a, b.c, d[e]", "(a.b)", "lambda: a", "a if b else c", "not a", "a := b", "(a := b)", "yield a", "await a", "{a}", "..."]
AUGMENTED = "+= -= *= /= //= %= @= **= <<= >>= |= ^= &=".split()
SIMPLE = ["pass", "a", "a, b", "a = b", "a += b", "a: b", "a: b = c", "del a", "del a, b", "break", "continue", "return", "return a", "return a, b", "raise", "raise a", "raise a from b", "yield",
          "yield a", "yield from a", "global a", "global a, b", "nonlocal a", "assert a", "assert a, b", "import a", "import a.b as c", "from a import b", "from . import (a, b)", "from a import *",
          "f(a)", "lambda: a", "a if b else c", "(yield)", "a = yield b", "*a, b = c", "not a", "await a", "'doc'", "a = b # type: c", "..."]
SUITES = [" a\n", " a; b\n", " a;\n", "\n  a\n", "\n  a\n  b\n", "\n  if b: c\n", "\n  # c\n  a\n", "\n\n  a\n", " # c\n  a\n", "\n  while b:\n    c\n", "\n  try: a\n  finally: b\n",
          "\n  def f(): pass\n", "\n    a\n", "\n\ta\n", "\n  a; b; c\n\n  d\n", "\n  for a in b: c\n  else: d\n", "\n  a\n# c\n", "\n  a\n  # c\n", "\n  class A: pass\n  b\n", "\n  with a as b: c\n",
          "\n  if a:\n    if b:\n      c\n", " pass\n", "\n  a = (b,\nc)\n", "\n  a \\\n+ b\n"]
WRONG_SUITES = ["\n", " \n", "\na\n", " if a: b\n", "\n  a\n b\n", "\n  a\n    b\n", " a\n  b\n", " ; a\n", " else: b\n", "\n  else: b\n", " @a\n", "\n  @a\n", " while a: b\n", ": a\n", " a:\n  b\n", " def f(): pass\n"]


def fill(rng, template, cap, **holes):
    """The template with all combinations of fillers, or cap of them at random (all pairs are likely)."""
    names = [n for n in holes if "<%s>" % n in template]
    total = 1
    for n in names:
        total *= len(holes[n])
    combos = itertools.product(*(holes[n] for n in names)) if total <= cap else (tuple(rng.choice(holes[n]) for n in names) for _ in range(cap))
    for c in combos:
        t = template
        for n, v in zip(names, c):
            t = t.replace("<%s>" % n, v)
        yield t


def sequences(rng, units, sep, ends, lengths, caps):
    """Sequences of units of each length: all of them, or as many as the cap says."""
    for n, cap in zip(lengths, caps):
        if len(units) ** n <= cap:
            it = itertools.product(units, repeat=n)
        else:
            it = (tuple(rng.choice(units) for _ in range(n)) for _ in range(cap))
        for us in it:
            t = sep.join(us)
            for e in (ends if n < 3 else [rng.choice(ends)]):
                yield t + e


def lines_of(texts, mode="file"):
    for t in texts:
        yield mode, t + "\n"


def evals(texts):
    for t in texts:
        yield "eval", t


# ------------------------------------------------------------------------------------- expressions

def c11(rng):
    ops = OPERATORS
    # Two, three and four operators with unary ones between.
    un = ["", "", "", "-", "+", "~", "not ", "await ", "- ~", "not -"]
    for o, p in itertools.product(ops, ops):
        for s in ["a %s b %s c", "(a %s b) %s c", "a %s (b %s c)", "-a %s b %s c", "a %s -b %s c", "a %s b %s -c", "not a %s b %s c", "a %s not b %s c", "a %s b %s not c",
                  "a %s b if c %s d else e", "a if b %s c else d %s e", "lambda: a %s b %s c", "a %s lambda: b %s c", "a %s %s b", "a.b %s c() %s d[e]", "await a %s await b %s c", "[a %s b %s c]", "f(a %s b, *c %s d)"]:
            yield "eval", s % (o, p)
    for o in ops:
        for x, y in itertools.product(MID, MID):
            yield "eval", "%s %s %s" % (x, o, y)
        for t in ["a %s", "%s a", "%s", "a %s\n", "(a %s)", "a %s b %s", "x = a %s"]:
            yield "file", t.replace("%s", o) + "\n"
        for x in MID:
            for u in ["-", "not ", "~", "await ", "+"]:
                yield "eval", "%s%s %s z" % (u, x, o)
                yield "eval", "z %s %s%s" % (o, u, x)
    for o in itertools.product(ops, repeat=3):
        yield "eval", "a %s b %s c %s d" % o
    for _ in range(16000):
        n = rng.choice([2, 3, 3, 4, 4, 5, 6, 8])
        t = rng.choice(un) + rng.choice(MID[:35] if rng.random() < 0.3 else ["a", "b", "1"])
        for _ in range(n):
            t += " %s %s%s" % (rng.choice(ops), rng.choice(un), rng.choice(MID[:35]) if rng.random() < 0.2 else rng.choice("bcde"))
        if rng.random() < 0.3:
            t = put(rng.choice(PLACES), t)
        yield "eval", t
    for _ in range(5000):
        t = "a %s %sb %s %sc" % (rng.choice(ops), rng.choice(un), rng.choice(ops), rng.choice(un))
        yield "file", put(rng.choice(STATEMENTS), t) + "\n"
        yield "file", put(rng.choice(CLAUSES), t)
    # Without blanks.
    for o, p in itertools.product([x for x in ops if not x.isalpha() and " " not in x], repeat=2):
        for u in ["", "-", "~"]:
            yield "eval", "a%s%sb%sc" % (o, u, p)


ELEMENTS = ["a", "*a", "a or b", "*a or b", "*a | b", "a := b", "a: b", "**a", "**a | b", "lambda: a", "a if b else c", "(a, b)", "yield a", "a for b in c", "*a for b in c", "'s' 't'", "a: lambda: b", "a: b if c else d",
            "*(a)", "-a.b", "a = b", "not a", "a: *b", "a:", ": a", "a: b: c", "*", "**", "(a := b): c", "a: b := c", "a: b for c in d", "**a for b in c", ""]
COMP_FORS = ["for a in b", "for a, b in c", "for a, in b", "for *a, b in c", "for (a, b) in c", "for a.b in c", "for a[b] in c", "async for a in b", "for a in b or c", "for a in not b", "for a in lambda: b", "for a in b, c",
             "for a in *b", "for a in b if c else d", "for a in (b, c)", "for a in b()", "async for a, *b in c.d", "for a | b in c", "for a in b in c", "for in b", "for a b", "for not a in b", "for a in", "for a in b := c", "for a not in b",
             "async a", "async for a", "for a in await b", "for a in yield b", "for a in (yield b)"]
COMP_IFS = ["if a", "if a or b", "if a and not b", "if not a", "if lambda: a", "if lambda a: b or c", "if a if b else c", "if (a if b else c)", "if (a := b)", "if a := b", "if a < b < c", "if await a", "if a.b(c)", "if", "if a,", "if *a",
            "if yield a", "if a in b", "if a not in b", "if lambda: a if b else c", "if a else b", "if -a ** b", "if a | b", "elif a", "if if a"]


def c12(rng):
    for o, c in ["()", "[]", "{}"]:
        for t in sequences(rng, ELEMENTS, ", ", ["", ","], [1, 2, 3, 4, 5, 7], [99, 9999, 2600, 1200, 800, 500]):
            yield "eval", o + t + c
        good = ["a", "*b", "c or d", "e := f", "(g)", "[h]", "lambda: i", "j if k else l", "'s' 't'"] if o != "{" else ["a: b", "**c", "d or e: f", "(g): lambda: h", "i: j if k else l"]
        for t in sequences(rng, good, ", ", ["", ",", ", "], [3, 4, 5, 6, 8, 11], [800, 800, 500, 400, 300, 200]):
            yield "eval", o + t + c
            yield "file", rng.choice(["x = ", "f(", "return ", "for x in ", "x[", "-", "x.y("]) .replace("(", "(") + o + t + c + "\n"
    for t in sequences(rng, ["a", "*b", "c or d", "e := f", "-g"], ", ", ["", ","], [1, 2, 3, 4, 5], [99, 99, 200, 300, 200]):
        yield "eval", "{" + t + "}"
    both = COMP_FORS + COMP_IFS
    for pre, post in [("(a ", ")"), ("[a ", "]"), ("f(a ", ")"), ("{a ", "}"), ("{a: b ", "}"), ("f(x, a ", ")")]:
        for n, cap in [(1, 99), (2, 9999), (3, 1500)]:
            if (pre[0] == "{" or "x" in pre) and n > 1:
                cap = 300
            it = itertools.product(both, repeat=n) if len(both) ** n <= cap else (tuple(rng.choice(both) for _ in range(n)) for _ in range(cap))
            for us in it:
                yield "eval", pre + " ".join(us) + post
        fs, gs = COMP_FORS[:12] + COMP_FORS[14:18], COMP_IFS[:8] + COMP_IFS[10:13] + COMP_IFS[17:23]
        for _ in range(1500):
            n = rng.choice([2, 3, 3, 4, 5, 6])
            t = " ".join([rng.choice(fs)] + [rng.choice(fs if rng.random() < 0.35 else gs) for _ in range(n)])
            yield "eval", pre + t + post
    for h in MID:
        for f in ["for a in b", "for a in b if c", "async for a, b in c", "for a in b for c in d"]:
            for pre, post in ["()", "[]", ("f(", ")")]:
                yield "eval", pre + h + " " + f + post
                yield "eval", pre + h + " " + f + "," + post
                yield "eval", pre + h + " " + f + ", z" + post
                yield "eval", pre + "z, " + h + " " + f + post
    # Adjacent strings, everywhere.
    strs = ["'s'", '"t"', "b'u'", "'''v'''", "r'w'", '""', "B\"x\"", "'s'", "'\\''"]
    for p in PLACES + STATEMENTS + CLAUSES + FUNCS:
        for n in [1, 2, 3, 4, 5, 7]:
            t = put(p, " ".join(rng.choice(strs) for _ in range(n)))
            yield ("func", t) if p in FUNCS else ("file", t) if p in CLAUSES else ("file", t + "\n")
    for n in range(1, 14):
        for sep in [" ", "", "  ", "\t"]:
            for _ in range(6):
                yield "eval", sep.join(rng.choice(strs) for _ in range(n)) + rng.choice(["", " a", ".a", " + b", ", c", "(d)", " # e"])
    opens = [("(", ")"), ("[", "]"), ("{", "}"), ("{a: ", "}"), ("(b, ", ")"), ("[*c, ", "]"), ("f(", ")"), ("x[", "]"), ("(", ",)"), ("{**d, e: ", ",}"), ("[", " for y in z]"), ("(lambda: ", ")"), ("{*", ", b}"),
             ("(*", ", b)"), ("{", ": b}"), ("[a for b in ", "]"), ("[a for b in c if ", "]"), ("(a := ", ")"), ("(yield ", ")")]
    for _ in range(9000):
        t = rng.choice(FRAGS[:60]) if rng.random() < 0.6 else rng.choice(["a", ""])
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5])):
            o, c = rng.choice(opens)
            t = o + t + c
        yield "eval", t


TRAILERS = ["(a)", "[a]", ".a", "()", "(a, b=c)", "(*a, **b)", "[a:b]", "[a, b]", "[:]", "(a for b in c)", "(a,)", "[a,]", ".match", "[::a]", "(\n a)", ". a", " .b", " (c)", " [d]"]
BAD_TRAILERS = ["[]", ".", ".1", "(,)", "[,]", "..a", ".if", "(a b)", "[a b]", "(a", "[a", ".(a)", ".[a]", "(**a, *b)"]
ARGUMENTS = ["a", "k=v", "*a", "**a", "x for y in z", "n := v", "*a or b", "**a or b", "k=lambda: x", "k=a if b else c", "lambda: x", "a if b else c", "(x for y in z)", "x async for y in z if w", "a or b", "-a.b(c)", "'s' 't'",
             "k=(yield)", "yield x", "k=*a", "k=", "=v", "(k)=v", "a.b=c", "*", "**", "k:=1", "k=v=w", "n := v := w", "*a := b", "*a for b in c", "k=x for y in z", "a: b", "1=2", "None=a", "k=n := v", "lambda a, b=c: d", ""]
SUBSCRIPTS = ["a", ":", "a:", ":b", "a:b", "::", "a::", ":b:", "::c", "a:b:", "a:b:c", ":b:c", "a::c", "n := v", "lambda: x", "a if b else c", "a:lambda: x", "lambda: a:b", "a or b:c", "-a:-b:-c", "a.b:c():d[e]", "(a, b)",
              "*a", "yield a", "a:b:c:d", ":::", "a = b", "n := v:w", "a:n := v", "", "**a", "a b", "lambda a:b", "lambda a=1, *b:c:d", "a if b else c:d if e else f", "'s' 't':...", "(n := v)"]


def c13(rng):
    prim = ["a", "'s'", "'s' 't'", "1", "(a)", "(a, b)", "[a]", "{a}", "{a: b}", "()", "...", "None", "True", "False", "(yield)", "(lambda: a)", "1.5"]
    for p in prim:
        for t in sequences(rng, TRAILERS, "", [""], [0, 1, 2, 3], [1, 99, 999, 300]):
            for w in ["", "await "]:
                yield "eval", w + p + t
    for t in sequences(rng, TRAILERS, "", [""], [3, 4, 5, 7], [6859, 4000, 2000, 1000]):
        yield "eval", rng.choice(["a", "a", "await a", "(a)", "'s'", "-a", "not a", "~await a", "*a", "b ** a", "b + a", "lambda: a", "b if c else a"]) + t + rng.choice(["", "", " ** b", " * b", " if b else c", ", d", " = e", " in f"])
    for t in sequences(rng, TRAILERS + BAD_TRAILERS * 2, "", [""], [1, 2, 3], [99, 9999, 3000]):
        yield "file", "a" + t + "\n"
    for t in sequences(rng, ARGUMENTS, ", ", ["", ",", ",,"], [1, 2, 3, 4], [99, 9999, 5000, 1500]):
        yield "eval", "f(" + t + ")"
    good = [x for x in ARGUMENTS[:17] if " for " not in x]
    for t in sequences(rng, good, ", ", ["", ",", ", "], [2, 3, 4, 5, 6, 8, 12], [400, 1500, 1500, 800, 500, 300, 200]):
        yield rng.choice([("eval", "f(" + t + ")"), ("eval", "a.f(" + t + ")[0](z)"), ("file", "class A(" + t + "): b\n"), ("file", "@d(" + t + ")\ndef f(): pass\n"), ("eval", "await f(" + t + ")"), ("eval", "[f(" + t + ")]")])
    for t in sequences(rng, ARGUMENTS, ", ", ["", ","], [1, 2], [99, 700]):
        yield "file", "class A(" + t + "): b\n"
        yield "file", "@d(" + t + ")\ndef f(): pass\n"
    for t in sequences(rng, SUBSCRIPTS, ", ", ["", ",", ",,"], [1, 2, 3, 4], [99, 9999, 6000, 1500]):
        yield "eval", "a[" + t + "]"
    good = SUBSCRIPTS[:22]
    for t in sequences(rng, good, ", ", ["", ","], [2, 3, 4, 5, 6, 8], [500, 3000, 2000, 800, 500, 300]):
        yield rng.choice([("eval", "a[" + t + "]"), ("file", "del a[" + t + "]\n"), ("file", "a[" + t + "] = b\n"), ("eval", "f(x)[" + t + "].y"), ("eval", "-a[" + t + "] ** b"), ("file", "a[" + t + "] += b\n"), ("file", "a[" + t + "]: b\n")])
    for x, y, z in itertools.product(MID, SMALL, SMALL):
        yield "eval", rng.choice(["a[%s:%s:%s]", "a[%s:%s, %s]", "f(%s, %s, %s)", "f(%s, *%s, **%s)", "f(%s, k=%s, m=%s)", "a[%s](%s).b[%s]"]) % rng.choice([(x, y, z), (y, x, z), (z, y, x)])
    for x in FRAGS:
        for s in ["a[%s::]", "a[%s:%s]", "a[:%s:]", "a[::%s]", "a[%s, ::%s]", "f(%s)(%s)", "f(*%s, %s)", "f(**%s)", "f(k=%s,)", "f(%s for x in y)", "f(x for y in %s)", "(%s)(%s)", "(%s).x", "(%s)[%s]", "await %s.x", "a.b(%s).c[%s]", "a(%s)[b:%s](c=%s)"]:
            yield "eval", s.replace("%s", x)


PARAMS = ["a", "b=1", "*", "*a", "**k", "/", "a=lambda: x", "a=b if c else d", "c=d or e", "*a=1", "**k=1", "*(a)", "a: b", "(a)", "a.b", "1", "a=", "=1", "**", "*a, b", "if", "a=*b", "a=b := c", "a=(b := c)", "a=yield b", "", "//", "* a", "a = 'x' 'y'"]


def c14(rng):
    for t in sequences(rng, PARAMS, ", ", ["", ",", ", "], [0, 1, 2, 3, 4], [1, 99, 9999, 4500, 1500]):
        yield "eval", "lambda " + t + ": x"
    good = ["a", "b=1", "*", "*a", "**k", "/", "c=d or e", "f=lambda: g"]
    for t in sequences(rng, good, ", ", ["", ","], [3, 4, 5, 6, 7], [600, 4100, 3000, 1500, 800]):
        yield "eval", "lambda " + t + ": x"
    # Parameters in a legal order.
    for _ in range(4000):
        out = []
        some = lambda lo, hi, d: [rng.choice("abcde") + (rng.choice(["", "=1", "=x or y", "=lambda: z", "=x if y else z"]) if d else "") for _ in range(rng.randint(lo, hi))]
        d = rng.random() < 0.5
        out += some(0, 3, d)
        if out and rng.random() < 0.4:
            out.append("/")
            out += some(0, 3, d)
        if rng.random() < 0.5:
            star = rng.choice(["*", "*v"])
            out.append(star)
            out += some(1 if star == "*" else 0, 3, True)
        if rng.random() < 0.4:
            out.append("**w")
        if rng.random() < 0.2:
            k = rng.randrange(len(out) + 1)
            out[k:k + 1] = rng.choice([[], ["a"], ["*"], ["/"], ["**w"], ["*v"]])
        t = "lambda " + ", ".join(out) + rng.choice(["", "", ","]) + ": " + rng.choice(SMALL)
        yield "eval", put(rng.choice(PLACES), t) if rng.random() < 0.4 else t
    for x in FRAGS:
        for s in ["lambda: %s", "lambda a=%s: b", "lambda a, *b, c=%s: d", "lambda *, c=%s, **d: e", "lambda a, /, b=%s: c", "lambda a=%s, b=%s: c", "lambda: lambda: %s", "lambda a=lambda: %s: b", "a if %s else b", "%s if a else b", "a if b else %s",
                  "a if b else %s if c else d", "a if b else c if %s else d", "%s if %s else %s", "lambda: a if %s else b", "lambda: %s if a else b", "(lambda: %s)", "(a := %s)", "(a := %s, b)", "f(a := %s)", "[a := %s]", "{a := %s}", "a[b := %s]",
                  "[a := %s for b in c]", "(%s := a)", "f(%s := a)", "%s := a", "[%s := a, b]", "[a for b in c if lambda: %s]", "[a for b in c if %s if d]", "not lambda: %s", "a or lambda: %s", "-lambda: %s", "{a: lambda: %s}", "{lambda: %s: b}", "f(k=lambda: %s)", "a[lambda: %s:b]"]:
            yield "eval", s.replace("%s", x)
        for s in ["if a := %s: b", "while a := %s: b", "if %s := a: b", "if (a := %s): b\nelif c := %s: d", "x = lambda: %s", "x = a if %s else b", "x: lambda: %s", "return a if b else %s", "assert lambda: %s, a", "for a in lambda: %s: b", "with lambda: %s: b", "a = b := %s",
                  "del a if %s else b", "a := %s", "(a := %s)", "x = (a := %s)", "lambda: %s; a", "raise a if b else c from %s", "while %s if a else b: c", "if lambda: %s: a", "assert a := %s", "return a := %s", "f(a, b := %s, c=d)", "class A(a := %s): b"]:
            yield "file", s.replace("%s", x) + "\n"
    for x, y, z in itertools.product(SMALL, SMALL, SMALL):
        yield "eval", "%s if %s else %s" % (x, y, z)
    for x, y in itertools.product(MID, MID):
        yield "eval", rng.choice(["%s if a else %s", "a if %s else %s", "%s if %s else a", "lambda a=%s: %s", "(%s := %s)", "[%s, a := %s]", "lambda a=%s, *b, c=%s: d"]) % (x, y)
    for n in range(1, 9):
        for _ in range(60):
            t = rng.choice(SMALL)
            for _ in range(n):
                t = rng.choice(["a if b else %s", "%s if a else b", "a if %s else b", "lambda: %s", "lambda a=%s: b", "(a := %s)", "not %s", "(%s)", "f(%s)", "lambda *a, b=%s: c"]) % t
            yield "eval", t


def where(rng, stmt):
    """A simple statement in one of the places for statements."""
    return rng.choice(["%s\n", "%s\n", "%s", "a; %s\n", "%s; a\n", "%s;\n", "if a: %s\n", "if a:\n  %s\n", "if a:\n  b\n  %s\nc\n", "def f(): %s\n", "def f():\n  a; %s\n  b\n", "class A:\n  %s\n", "try: %s\nfinally: %s\n", "while a: %s\nelse: %s\n",
                       "for a in b:\n  %s\n  c\nelse:\n  %s\n", "a\n%s\nb\n", "\n%s\n", "# c\n%s # d\n", "with a:\n    %s\n", "try:\n  a\nexcept b:\n  %s\n", "try: a\nexcept* b: %s\nelse: %s\n"]).replace("%s", stmt)


def statements(rng, templates, cap, **holes):
    for t in templates:
        for s in fill(rng, t, cap, **holes):
            yield "file", s + "\n"
            if rng.random() < 0.5:
                yield "file", where(rng, s)


def c15(rng):
    for a, b in itertools.product(SIMPLE, SIMPLE):
        yield "file", a + "; " + b + "\n"
        yield "file", a + ";" + b + ";\n"
        yield "file", "if z: " + a + "; " + b + "\nz\n"
        yield "file", "if z:\n  " + a + "\n  " + b + "\nz\n"
    for t in sequences(rng, SIMPLE, "; ", ["", ";", " ;", ";;"], [1, 3, 4, 6], [99, 4000, 2000, 1000]):
        yield rng.choice(["file", "file", "single"]), t + "\n"
    for s in SIMPLE:
        for w in ["a; %s", ";%s", "%s a", "%s:", "a %s", "%s,", "(%s)", "%s = a", "%s if a else b", "not %s", "lambda: %s", "@%s", "async %s", "%s; if a: b", "if a: %s; b", "%s # c", "%s \\\n", "  %s", "%s)", "x = %s", "return %s", "del %s", "%s;;a", "%s\n%s",
                  "else %s", "else: %s", "%s from a", "%s in a", "%s as a", "%s.a", "%s()", "%s[a]", "%s + a", "- %s", "await %s", "yield %s", "%s == a", "(a, %s)", "[%s]", "f(%s)", "a = %s", "a += %s", "a: %s", "%s += a", "%s: a"]:
            yield "file", w.replace("%s", s) + "\n"
        for _ in range(15):
            yield "file", where(rng, s)
    yield from statements(rng, ["assert <e>, <f>", "raise <e> from <f>", "raise <e>, <f>", "return <e>, <f>", "yield <e>, <f>", "del <e>, <f>", "<e>; <f>"], 99999, e=MID, f=MID)
    yield from statements(rng, ["assert <e>", "raise <e>", "raise from <e>", "raise <e> from", "return <e>", "yield <e>", "yield from <e>", "yield from <e>, a", "del <e>", "del <e>,", "del (<e>)", "del [<e>]", "<e>", "<e>;", "pass <e>", "break <e>", "continue <e>", "assert <e>,",
                                "assert <e> a", "return <e>,", "return *<e>", "yield *<e>, a", "global <e>", "nonlocal <e>", "del <e>; a", "return from <e>", "yield <e> from a", "assert a, <e>, b", "raise a from <e> from b", "raise a from b, <e>", "del a, <e>, b,", "assert (<e>), b",
                                "x = yield <e>", "x = yield from <e>", "(yield <e>)", "(yield from <e>)", "yield from a, <e>", "return; <e>", "raise; <e>", "yield; <e>"], 999, e=FRAGS)
    for kw in ["global", "nonlocal"]:
        for t in sequences(rng, NAMES[:8] + ["if", "1", "a.b", "(a)", "", "*a", "a as b", "None", "a b"], ", ", ["", ",", ",,", ";", " = 1", ", *", "."], [1, 2, 3], [99, 999, 1200]):
            yield "file", kw + " " + t + rng.choice(["\n", "\n", ""])
        for n in range(1, 14):
            yield "file", kw + " " + ", ".join("abcdefghijklmn"[:n]) + "\nz\n"
    for n in range(1, 30):
        yield "file", "; ".join(rng.choice(SIMPLE) for _ in range(n)) + rng.choice(["", ";"]) + "\n"
        yield "file", "del " + ", ".join(rng.choice(["a", "b.c", "d[e]", "(f, g)"]) for _ in range(n)) + rng.choice(["", ","]) + "\n"


def c16(rng):
    values = MID + ["yield a, b", "(yield a), b", "*a, *b", "a, b,", "a = b", "a += b", "lambda: (yield)", "a, *b", "yield *a, b", "", "a # type: b", "a, # type: b", "yield a # type: b"]
    for t, v in itertools.product(TARGETS, values):
        yield "file", t + " = " + v + "\n"
        yield "file", t + ": " + v + "\n"
        for o in AUGMENTED:
            if rng.random() < 0.45 or t in ("a", "a.b", "a, b") or v in ("yield b", "yield from a", "a, b", "*a", "a = b", "yield a"):
                yield "file", t + " " + o + " " + v + "\n"
        for a in rng.sample(MID, 5) + ["a", "yield a", "yield"]:
            yield "file", "%s: %s = %s\n" % (t, a, v)
            yield "file", "%s = %s = %s\n" % (t, a, v)
            yield "file", "%s = %s = %s\n" % (a, t, v)
    for a, v in itertools.product(MID, values):
        yield "file", "a: %s = %s\n" % (a, v)
        yield "file", "a.b: %s = %s\n" % (a, v)
    for s in sequences(rng, ["a", "b.c", "d, e", "*f, g", "[h]", "(i, j)", "yield k", "yield", "l,", "m or n", "*o", "lambda: p", "yield from q"], " = ", ["", " # type: r", " =", " += s", ": t", ": t = u"], [2, 3, 4, 5, 7], [999, 2200, 2500, 1000, 500]):
        yield "file", s + "\n"
    for s in sequences(rng, ["a", "b.c", "d, e", "f or g"], " = ", ["", " # type: h"], [6, 8, 10, 14, 20], [60] * 5):
        yield "file", s + "\n"
    ops = AUGMENTED + ["=", ":=", ":", "==", "->", "=:"]
    for o, p in itertools.product(ops, ops):
        for t in ["a %s b %s c", "a %s %s b", "a, b %s c %s d", "a %s b, c %s d", "(a %s b) %s c", "a %s (b %s c)", "a.b %s yield c %s d", "a %s\nb %s c"]:
            yield "file", t % (o, p) + "\n"
    for v in values:
        for o in AUGMENTED + ["="]:
            yield "file", where(rng, "a %s %s" % (o, v))
            yield "file", where(rng, "a, *b %s %s" % (o, v))
            yield "file", "a.b %s %s, %s\n" % (o, v, v)
    for t in TARGETS:
        for c in ["# type: a", "# type:a", "# type: ignore", "#type: a", "# types: a", "# comment"]:
            for s in ["%s = b %s", "%s = b = c %s", "%s %s", "%s: b %s", "%s += b %s", "%s: b = c %s", "%s = b, %s", "%s = yield b %s", "%s = b; c %s", "%s = (b %s\n)", "%s = b %s\n%s = c"]:
                yield "file", s.replace("%s", t, 1).replace("%s", c, 1).replace("%s", "x") + "\n"


def c17(rng):
    names = ["a", "a.b", "a.b.c", "match", "a . b", "_.x1", "a.b.c.d.e"]
    odd = ["a.", ".a", "a..b", "if", "a.if", "1", "*", "(a)", "a b", "", "a.1", "None", "a.*", "'s'", "a,"]
    asn = ["", "", " as b", " as match", " as b.c", " as", " as if", " as b as c", " as (b)", " as 1", " a"]
    units = [n + s for n in names for s in asn[1:5]] + [n + s for n in odd for s in asn[1:4]] + [n + s for n in names[:2] for s in asn[5:]]
    for t in sequences(rng, units, ", ", ["", ",", ";", "; a", " a", " from b", ",,"], [1, 2, 3], [999, 4000, 3000]):
        yield "file", "import " + t + "\n"
    for n in range(1, 16):
        for _ in range(8):
            yield "file", "import " + ", ".join(rng.choice(names) + rng.choice(["", " as b"]) for _ in range(n)) + "\n"
            yield "file", "import " + ".".join("abcdefghijklmnop"[:n]) + rng.choice(["", " as z", ", y", ", y.z as x"]) + "\n"
            yield "file", "from " + rng.choice(["", ".", "..", "...", ". ."]) + ".".join("abcdefghijklmnop"[:n]) + " import " + rng.choice(["z", "*", "(y, z)", "y as z"]) + "\n"
            k = ", ".join(rng.choice(["a", "b as c", "match", "_ as d"]) for _ in range(n))
            yield "file", "from x import " + k + "\n"
            yield "file", "from .x import (" + k + rng.choice(["", ",", ", "]) + ")\n"
            yield "file", "from . import (\n  " + k.replace(", ", ",\n  ") + rng.choice(["", ",", "\n"]) + ")\n"
    dots = [""] + [d for n in (1, 2, 3, 4, 5) for d in itertools.islice((s for s in ("".join(x) for x in itertools.product([".", "...", " .", ". ...", ".. "], repeat=n))), 0, 160)]
    mods = ["", "a", "a.b", "a.b.c", "a.", "*", "if", "a . b", "(a)", "1", "a b", "...a", "a...b", "a..b", "match"]
    tails = [" import b", " import *", " import b as c", " import b, c", " import b as c, d as e", " import (b)", " import (b,)", " import (b as c, d)", " import (b as c, d,)", " import b,", " import ()", " import (*)", " import b.c", " import (b.c)", " import b as", " import b as c.d",
             " import", " import (b", " import b)", " import (b c)", " import b c", " import (,)", " import (b,,)", " import *, b", " import b, *", " import if", " import (b) c", " import *; d", " import b; d", "", " import b as *", " import (b as c as d)", " import [b]", " import 'b'", " as c import b",
             " import (b), c", " import (\nb,\n# c\nd\n)", " import *,", " import **", " import (b,) as c", " import None", " import (a) ; b", " import b # c", " import ((b))", " import (b, (c))"]
    for d in dots:
        for m in (mods if d.count(".") < 5 or rng.random() < 0.15 else rng.sample(mods, 2)):
            for t in (tails if len(d) < 4 and m in mods[:4] else rng.sample(tails, 3) + tails[:2]):
                yield "file", "from " + d + ("" if d.endswith(" ") else " " if rng.random() < 0.3 else "") + m + t + "\n"
                if rng.random() < 0.1:
                    yield "file", where(rng, "from " + d + m + t) if "\n" not in t else "from " + d + m + t
    for w in ["from", "import", "from a", "from .", "from . .", "from ... import", "from a import b import c", "import a from b", "import a import b", "from a import b from c", "import", "import .", "import .a", "import *", "import (a)", "import a as b.c", "from . import", "from .a", "from",
              "x = import a", "import a = b", "from a.b", "import a.b.", "import a as", "from..a import b", "from...a import b", "from.import a", "from....a import(b)", "from a import*", "from.import*", "from . a import b", "from ...... import b"]:
        for e in ["\n", "", ";\n", "; a\n", " # c\n", "\na\n", " \\\n"]:
            yield "file", w + e


# ------------------------------------------------------------------------------------- compound statements

def deeper(body, by):
    return indent(body, by)


COMPOUND_HEADS = ["if <e>:", "while <e>:", "for <t> in <v>:", "with <w>:", "try:", "class A:", "def f():"]
CLAUSE_HEADS = ["elif <e>:", "else:", "except:", "except <x>:", "except <x> as n:", "except* <x>:", "finally:"]
WITHS = ["a", "a as b", "a, b", "a as b, c as d", "(a)", "(a as b)", "(a, b)", "(a as b, c)", "(a, b as c,)", "(a) as b", "(a, b) as c", "a() as b.c", "a as (b, c)", "a as b[c]", "(a)()", "(a).b", "(a) + b", "a as *b", "a as b,", "a,", "a as", "(a as b", "(yield)", "a as b as c", "lambda: a", "a if b else c",
         "a or b as c", "(a as b), c", "(a), (b)", "((a as b))", "(a as b,) as c", "*a", "a as b or c", "a as -b", "a as b.c(d)", "a := b", "(a := b)", "(a := b) as c", "a, b as c, d as e", "()", "(,)", "a as b | c", "a as not b", "a b", ""]
FOR_TARGETS = ["a", "a, b", "a,", "*a, b", "(a, b)", "[a, b]", "a.b", "a[b]", "*a", "a | b", "a()", "-a", "not a", "a in b", "a or b", "lambda: a", "", "a b", "1", "a := b", "(a), b", "a, *b,", "a if b else c", "a,,b", "yield a", "await a", "(a in b)"]
FOR_VALUES = ["a", "a, b", "a,", "*a, b", "(a, b)", "a or b", "a if b else c", "lambda: a", "a := b", "yield a", "", "not a", "a in b", "a()", "a, b,", "*a", "a,,b", "a: b", "a = b", "[a for b in c]", "(yield)", "a < b", "await a"]
EXCEPTS = ["a", "a.b", "(a, b)", "a()", "a or b", "a if b else c", "lambda: a", "a, b", "a,", "*a", "not a", "a := b", "(a := b)", "yield a", "", "a b", "**a"]


def head(rng, h):
    h = h.replace("<e>", rng.choice(MID) if rng.random() < 0.25 else rng.choice(SMALL[:8] + ["a := b", "(a := b)"]))
    h = h.replace("<t>", rng.choice(FOR_TARGETS[:8]) if rng.random() < 0.9 else rng.choice(FOR_TARGETS)).replace("<v>", rng.choice(FOR_VALUES[:8]) if rng.random() < 0.9 else rng.choice(FOR_VALUES))
    h = h.replace("<w>", rng.choice(WITHS[:16]) if rng.random() < 0.9 else rng.choice(WITHS))
    return h.replace("<x>", rng.choice(EXCEPTS[:7]) if rng.random() < 0.9 else rng.choice(EXCEPTS))


def suite(rng, depth, wrong=0.02):
    x = rng.random()
    if x < wrong:
        return rng.choice(WRONG_SUITES)
    if x < 0.3:
        return " " + rng.choice(SIMPLE) + rng.choice(["", "", ";", "; " + rng.choice(SIMPLE)]) + rng.choice(["\n", "\n", " # c\n", "\n\n"])
    by = rng.choice(["  ", "  ", "    ", " ", "\t"])
    out = rng.choice(["\n", "\n", "\n", " # c\n", "\n\n", "\n# c\n", "\n" + by + "# c\n"])
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        if depth > 0 and rng.random() < 0.55:
            out += indent(compound(rng, depth - 1, wrong), by)
        else:
            out += by + rng.choice(SIMPLE) + rng.choice(["\n", "\n", ";\n", "\n\n", " # c\n"])
        if rng.random() < 0.1:
            out += rng.choice(["\n", "# c\n", by + "# c\n", "   \n"])
    return out


def compound(rng, depth, wrong=0.02, kinds="if while for with try def class decorated async"):
    k = rng.choice(kinds.split())
    s = lambda: suite(rng, depth, wrong)
    h = lambda t: head(rng, t)
    some = lambda p: rng.random() < p
    odd = h(rng.choice(CLAUSE_HEADS)) + s() if some(wrong) else ""
    if k == "if":
        return h("if <e>:") + s() + odd + "".join(h("elif <e>:") + s() for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))) + ("else:" + s() if some(0.4) else "")
    if k == "while":
        return h("while <e>:") + s() + odd + ("else:" + s() if some(0.4) else "")
    if k == "for":
        tc = rng.choice(["", "", "", " # type: t"])
        b = s()
        if tc and b.startswith(" "):
            tc = ""
        return h("for <t> in <v>:") + tc + b + odd + ("else:" + s() if some(0.4) else "")
    if k == "with":
        return h("with <w>:") + s() + odd
    if k == "try":
        out = "try:" + s() + odd
        star = rng.choice([False, True])
        n = rng.choice([0, 1, 1, 2, 3])
        for j in range(n):
            x = star if not some(wrong) else not star
            out += (h("except* <x>") + rng.choice(["", " as n"]) if x else rng.choice(["except", h("except <x>"), h("except <x> as n")]) if j == n - 1 else rng.choice([h("except <x>"), h("except <x> as n")])) + ":" + s()
        if n and some(0.35):
            out += "else:" + s()
        if not n or some(0.35):
            out += "finally:" + s()
        return out
    if k == "def":
        b = s()
        tc = " # type: () -> t" if b.startswith("\n") and some(0.2) else ""
        return "def f()" + rng.choice(["", "", " -> " + rng.choice(SMALL)]) + ":" + tc + (b if not (b.startswith("\n  ") and some(0.2)) else "\n  # type: () -> t" + b) + odd
    if k == "class":
        return "class A" + rng.choice(["", "()", "(a)", "(a, k=b)", "(*a, **k)", "(a, b,)"]) + ":" + s() + odd
    if k == "decorated":
        return "".join("@" + rng.choice(["a", "a.b", "a()", "a.b(c, d=e)", "a(*b)"]) + rng.choice(["\n", "\n", " # c\n"]) for _ in range(rng.choice([1, 1, 2, 3]))) + compound(rng, depth, wrong, "def class asyncdef" if some(0.97) else "if for async")
    if k == "asyncdef":
        return "async " + compound(rng, depth, wrong, "def")
    return "async " + compound(rng, depth, wrong, "def with for" if some(0.97) else "if while class try")


def c18(rng):
    sts, bad = SUITES, WRONG_SUITES
    for e in FRAGS:
        for t in ["if %s:", "while %s:", "if a: b\nelif %s:", "if a:\n  b\nelif c: d\nelif %s:", "if %s: a\nelif %s:", "while %s: a\nelse:", "if %s: a\nelse:", "for a in %s:", "for %s in a:", "for %s in %s: a\nelse:", "with %s:", "with %s as a:", "with a as %s:", "with a, %s:", "with (%s):", "with (%s as a):", "with (a as %s, b):",
                  "with (%s, a as b,):", "with %s, a as b: c\nif a:", "try: a\nexcept %s:", "try: a\nexcept %s as b:", "try: a\nexcept b: c\nexcept %s:", "if %s: a\nwhile b:", "if a:\n  while %s:", "while a:\n  if %s: b\n  else:", "for a in b:\n  for %s in c:"]:
            x = t.replace("%s", e)
            deep = "\n  " in x and x.split("\n")[-1].startswith("  ")
            for s in rng.sample(sts, 3) + [" z\n", "\n  z\n"]:
                yield "file", x + (indent(s, "  ")[0 if s.startswith(" ") else 0:] if deep and s.startswith("\n") else s)
    tails = [""] + [c + s for c in ["else:", "elif a:", "except:", "except a:", "except a as b:", "except* a:", "finally:"] for s in [" z\n", "\n  z\n"]] + ["z\n", "  z\n", "else: y\nelse: z\n", "else: y\nelif a: z\n", "elif a: y\nelse: z\n", "except: y\nexcept a: z\n", "else: y\nfinally: z\n", "finally: y\nelse: z\n",
            "except a: y\nelse: z\n", "finally: y\nfinally: z\n", "except a: y\nfinally: z\n", "except a: w\nelse: x\nfinally: y\nz\n", "else y\n", "else a: y\n", "elif: y\n", "finally a: z\n", "elif a:\n  y\nelif b: z\n", "if a: y\nelse: z\n", "  else: z\n", " else: z\n"]
    heads = ["if a:", "while a:", "for a in b:", "with a:", "try:", "class A:", "def f():", "async for a in b:", "async with a:", "@a\ndef f():", "if a: b\nelif c:", "if a: b\nelse:", "while a: b\nelse:", "for a in b: c\nelse:", "try: a\nexcept b:", "try: a\nexcept* b:", "try: a\nfinally:", "try: a\nexcept b: c\nelse:", "for a in b: # type: c",
             "while a := b:", "if a := b:", "with (a as b):", "with (a):", "with a as b, c:", "if a:\n  b\nelif c:\n  d\nelif e:"]
    for h in heads:
        for s in sts + bad:
            for t in tails:
                yield "file", h + s + t
    for h in heads[:8] + heads[10:18]:
        for s in sts[:12]:
            for t in rng.sample(tails, 10):
                for by in ["  ", "\t"]:
                    yield "file", "if q:\n" + indent(h + s + t, by) + rng.choice(["", "r\n", "else: r\n"])
    for w in WITHS:
        for s in [" z\n", "\n  z\n"]:
            yield "file", "with " + w + ":" + s
            yield "file", "async with " + w + ":" + s
            yield "file", "with x as y, " + w + ":" + s
            yield "file", "with " + w + ", x as y:" + s
            yield "file", "with (" + w + "):" + s
            yield "file", "with (x as y, " + w + "):" + s
            yield "file", "with (" + w + ", x as y):" + s
            yield "file", "with (" + w + ",):" + s
    for t, v in itertools.product(FOR_TARGETS, FOR_VALUES):
        yield "file", "for %s in %s: z\n" % (t, v)
        yield "file", rng.choice(["async for %s in %s:\n  z\n", "for %s in %s: # type: y\n  z\n", "for %s in %s: z\nelse: y\n", "if x:\n  for %s in %s: z\n  else: y\nelse: w\n"]) % (t, v)
    for _ in range(16000):
        yield "file", compound(rng, rng.choice([0, 1, 1, 2, 2, 3]), rng.choice([0, 0, 0.03, 0.08]), "if while for with try") + rng.choice(["", "", "z\n", "else: z\n"])


def handler(rng, star):
    return (rng.choice(["except* ", "except *", "except * "]) + rng.choice(["a", "a.b", "(a, b)", "a()", "a or b"]) + rng.choice(["", " as n"]) if star else rng.choice(["except", "except a", "except a as n", "except (a, b)", "except a.b as n", "except a or b"])) + ":"


def c19(rng):
    hs = ["except:", "except a:", "except a as b:", "except (a, b):", "except* a:", "except* a as b:", "except *(a, b):", "except*:"]
    ends = ["", "else: y\n", "finally: z\n", "else: y\nfinally: z\n", "else:\n  y\nfinally:\n  z\n"]
    for n in [0, 1, 2, 3]:
        for us in itertools.product(hs, repeat=n):
            for e in ends:
                if n < 3 or rng.random() < 0.5:
                    body = "".join(u + rng.choice([" c\n", "\n  c\n"]) for u in us)
                    yield "file", "try: x\n" + body + e
    for _ in range(3000):
        us = [rng.choice(hs) for _ in range(rng.choice([4, 5, 6, 8]))] if rng.random() < 0.4 else [rng.choice(hs[:4] if rng.random() < 0.5 else hs[4:7])] * rng.choice([4, 5, 7])
        yield "file", "try: x\n" + "".join(u + " c\n" for u in us) + rng.choice(ends)
    inner = ["a", "pass", "raise", "return a", "if a: b", "if a:\n  b\nelse: c", "while a: b", "while a:\n  b", "for a in b: c", "for a in b:\n  c\nelse:\n  d", "with a as b: c", "with a:\n  b", "def f(): pass", "def f():\n  a", "class A: pass", "class A:\n  a", "@a\ndef f(): pass", "async for a in b: c", "async with a: b",
             "async def f(): pass", "try: a\nfinally: b", "try: a\nexcept: b", "try: a\nexcept b: c", "try: a\nexcept* b: c", "try:\n  a\nexcept* b:\n  c\nelse: d\nfinally: e", "try: a\nexcept b: c\nexcept: d", "try: a\nexcept* b: c\nexcept* d as e: f", "if a:\n  try: b\n  except* c: d", "if a:\n  try: b\n  except c: d",
             "for a in b:\n  try: b\n  except* c: d\n  else: e", "while a:\n  try: b\n  except c: d", "def f():\n  try: b\n  except* c: d", "class A:\n  try: b\n  except c: d", "with a:\n  try: b\n  except* c: d\n  finally: e", "else: a", "except: a", "if a:\n  b\nelif c:\n  try: a\n  except* b: c\nelse:\n  try: a\n  except b: c",
             "for a in b: c\nelse:\n  try: a\n  except* b: c", "lambda: a", "a = b", "import a", "assert a, b", "del a", "yield a", "global a"]
    block = lambda s: "\n" + indent(s + "\n", "  ")
    # Any statement in any part, before handlers of either kind.
    for s in inner:
        for h1, h2 in itertools.product(["except a:", "except* a:"], ["except b:", "except* b:", "except:", "except* b as c:"]):
            yield "file", "try:" + block(s) + h1 + " x\n" + h2 + " y\n"
            yield "file", "try: w\n" + h1 + block(s) + h2 + " y\n"
            yield "file", "try: w\n" + h1 + " x\n" + h2 + block(s) + h1 + " z\n"
            yield "file", "try: w\n" + h1 + " x\n" + h2 + block(s)
            yield "file", "try: w\n" + h1 + " x\nelse:" + block(s) + h2 + " y\n"
            yield "file", "try: w\n" + h1 + " x\nelse:" + block(s) + "finally: z\n"
            yield "file", "try: w\n" + h1 + " x\nfinally:" + block(s) + "try: v\n" + h2 + " u\n"
            yield "file", "try: w\n" + h1 + block(s) + "try: v\n" + h2 + " u\n"
            yield "file", "try: w\n" + h1 + block(s) + h2 + block(s)
            yield "file", "try:" + block(s) + h1 + block(s) + h2 + " v\nfinally: u\n"
            yield "file", "if q:\n" + indent("try:" + block(s) + h1 + " x\n" + h2 + " y\n", "  ") + "else:\n  try: a\n  " + h2 + " u\n"
            yield "file", "try:\n" + indent("try:" + block(s) + h1 + " x\n", "  ") + h2 + " y\n"
            yield "file", "try:\n" + indent("try: v\n" + h1 + block(s), "  ") + h2 + " y\n" + h2 + " t\n"
            yield "file", s + "\ntry: w\n" + h1 + " x\n" + s + "\ntry: w\n" + h2 + " x\n"
    # Two handlers around two statements.
    for s, t in itertools.product(inner[4:38], inner[19:38]):
        h1, h2, h3 = (rng.choice(["except a:", "except* a:"]) for _ in range(3))
        yield "file", "try: w\n" + h1 + block(s) + h1 + block(t) + h2 + " z\n"
        yield "file", "try:" + block(s) + h1 + block(t) + h1 + " y\n" + h3 + " z\n"

    def tree(depth):
        star = rng.random() < 0.5
        part = lambda: block(tree(depth - 1).rstrip("\n")) if depth > 0 and rng.random() < 0.5 else block(rng.choice(inner)) if rng.random() < 0.4 else rng.choice([" a\n", "\n  a\n", " pass\n"])
        if depth > 0 and rng.random() < 0.25:
            return rng.choice(["if a:", "for a in b:", "while a:", "with a:", "def f():", "class A:", "async def f():", "@a\nclass A:"]) + part()
        out = "try:" + part()
        n = rng.choice([0, 1, 1, 2, 2, 3])
        for _ in range(n):
            out += handler(rng, star if rng.random() < 0.97 else not star) + part()
        if n and rng.random() < 0.3:
            out += "else:" + part()
        if not n or rng.random() < 0.3:
            out += "finally:" + part()
        return out
    for _ in range(14000):
        yield "file", tree(rng.choice([0, 1, 1, 2, 2, 3])) + rng.choice(["", "", "z\n", tree(0)])


def c20(rng):
    decos = ["@a\n", "@a.b\n", "@a()\n", "@a(b)\n", "@a.b.c(d, *e, f=g, **h)\n", "@a(b for c in d)\n", "@a # c\n", "@ a . b\n", "@match\n", "@a(b,)\n", "@a(\nb)\n", "@a\n\n", "@a\n# c\n"]
    bad = ["@\n", "@a b\n", "@a[b]\n", "@a().b\n", "@(a)\n", "@1\n", "@a;\n", "@a ", "@a,\n", "@a.b.\n", "@.a\n", "@a(b\n", "@a)\n", "@lambda: a\n", "@a := b\n", "@not a\n", "@a()()\n", "@@a\n", "@a(*)\n", "  @a\n", "@a(b c)\n", "@a.1\n", "@a = b\n", "@if\n", "@None\n", "@a: b\n"]
    stmts = [s + "\n" for s in SIMPLE] + ["def f(): pass\n", "def f():\n  a\n", "def f() -> a: b\n", "class A: pass\n", "class A(b):\n  c\n", "class A(): a; b\n", "async def f(): pass\n", "async def f():\n  await a\n", "for a in b: c\n", "async for a in b: c\n", "async for a, b in c:\n  d\nelse: e\n", "with a: b\n", "async with a as b: c\n",
             "async with (a as b): c\n", "if a: b\n", "while a: b\n", "try: a\nfinally: b\n", "async a\n", "async\n", "async async def f(): pass\n", "async class A: pass\n", "async if a: b\n", "async while a: b\n", "async try: a\nfinally: b\n", "async lambda: a\n", "async @a\ndef f(): pass\n", "async = 1\n", "await a\n", "async a = b\n", "async (a)\n", "async for a\n",
             "async del a\n", "async with a\n", "async\ndef f(): pass\n", "async pass\n", "def\n", "def f\n", "def f(\n", "def f()\n", "def f() a\n", "class\n", "class A\n", "class A(\n", "class A)\n", "class A a\n", "class 1: a\n", "class A.B: c\n", "class if: a\n", "def if(): a\n", "def 1(): a\n", "def f()->: a\n", "def f() ->\n", "", "\n", "# c\n", "  a\n"]
    for s in stmts:
        yield "file", s
        yield "file", "async " + s
        yield "single", s + "\n"
        yield "file", "if z:\n" + indent(s, "  ")
        yield "file", "class Z:\n" + indent(s, "  ") + "  y\n"
        yield "file", "def z():\n" + indent(s, "    ") + "y\n"
        for d in decos + bad:
            yield "file", d + s
            if s.startswith(("def", "class", "async")) or rng.random() < 0.2:
                yield "file", d + "async " + s
                yield "file", rng.choice(decos) + d + s
                yield "file", rng.choice(decos) + rng.choice(decos) + d + s
                yield "file", d + d + rng.choice(bad) + s
                yield "file", "if z:\n" + indent(d + s, "  ") + "else: y\n"
                yield "file", "class Z:\n  x\n" + indent(d + s, "  ")
                yield "file", "try: z\nexcept:\n" + indent(d + s, "  ") + "else: y\n"
                yield "file", "async def z():\n" + indent(d + s, "\t") + "y\n"
                yield "file", s + d + s
    for n in range(1, 16):
        for _ in range(8):
            yield "file", "".join(rng.choice(decos) for _ in range(n)) + rng.choice(stmts[41:48])
    results = ["", " -> a", " -> a or b", " -> lambda: a", " -> a if b else c", " -> (a, b)", " -> a, b", " -> *a", " -> a[b, c:d]", " -> None", " -> 's' 't'", " ->", " -> a -> b", " -> yield a", " -> a := b", " -> a: b", " - > a", " -> not a", " -> await a", " -> -a ** b", "->a", " -> (yield)"]
    bodies = [" a\n", " a; b\n", "\n  a\n", "\n  a\n  b\n", "\n  # type: () -> a\n  b\n", " # type: () -> a\n  b\n", "\n  # type: () -> a\n  # type: () -> b\n  c\n", " # type: a\n  # type: b\n  c\n", " # type: () -> a\nb\n", "\n\n  # type: a\n\n  b\n", "\n  b # type: a\n", "\n  a\n  # type: b\n  c\n", " # type: a\n", " # type: a", "\n  # type: a\n", "\n", "", " # c\n  a\n",
              "\n  # c\n  a\n", "\n  # c\n  # type: a\n  b\n", "\n  # type: a\n  # c\n  b\n", " # type: a # b\n  c\n", "\n# type: a\n  b\n", "\n  'doc'\n  return a\n", "\n  def g(): pass\n  return g\n", "\n  def g():\n    # type: a\n    b\n  c\n", " pass # type: a\n", " # type: a\n\n  b\n", " #type: a\n  b\n", "\n    # type: a\n  b\n", " a = b # type: c\n", "\n  a = b # type: c\n  d\n", "\n  @a\n  def g(): pass\n",
              "\n  if a: b\n", "\n  # type: a\n  if a: b\n  else: c\n", " # type: a\n  for a in b: # type: c\n    d\n", " if a: b\n", "\na\n", " # type: a\n  b\n c\n"]
    for r, b in itertools.product(results, bodies):
        for pre in ["", "async ", "@a\n"]:
            yield "file", pre + "def f()" + r + ":" + b
        yield "file", "class A:\n" + indent("def f()" + r + ":" + b, "  ") + rng.choice(["", "  c\n", "  def g(): d\n"])
    params = ["()", "(a)", "(,)", "(a, b)", "( )", "(\n)", "", "()()", "(*)", "(a=1)", "(self)", "(/)", "[]", "(()", "(# c\n)", "(*a, **b)"]
    for p in params:
        for b in bodies[:6]:
            yield "file", "def f" + p + ":" + b
            yield "file", "async def f" + p + " -> a:" + b
    for n in NAMES + ["if", "1", "a.b", "(a)", "", "a b", "*"]:
        for b in [" a\n", "\n  a\n"]:
            yield "file", "class " + n + ":" + b
            yield "file", "class " + n + "(a):" + b
            yield "file", "def " + n + "():" + b
            yield "file", "@" + n + "\ndef f():" + b
            yield "file", "@a." + n + "()\nclass A:" + b
    for t in sequences(rng, ARGUMENTS, ", ", ["", ","], [0, 1, 2, 3], [1, 99, 1500, 1500]):
        for b in [rng.choice([" a\n", "\n  a\n", " pass; b\n", " # c\n  a\n"])]:
            yield "file", rng.choice(["", "", "@d\n", "if z: y\n"]) + "class A(" + t + "):" + b
    for x in FRAGS:
        for s in ["class A(%s): b\n", "class A(%s, c): b\n", "class A(k=%s): b\n", "class A(*%s): b\n", "class A(**%s):\n  b\n", "class A(b)(%s): c\n", "@a(%s)\nclass A: b\n", "@a(k=%s)\ndef f(): b\n", "def f() -> %s: a\n", "async def f() -> %s:\n  a\n", "async for %s in a: b\n", "async for a in %s: b\n", "async with %s as a: b\n", "async with a as %s: b\n",
                  "def f(): %s\n", "async def f(): %s\n", "def f():\n  return %s\n", "class A: %s\n", "class A:\n  a = %s\n", "@%s\ndef f(): a\n", "async %s\n", "async def f():\n  await %s\n"]:
            yield "file", s.replace("%s", x)
    for _ in range(12000):
        yield "file", compound(rng, rng.choice([0, 1, 1, 2, 2, 3]), rng.choice([0, 0, 0.03, 0.08]), "def class decorated async decorated async") + rng.choice(["", "", "z\n", "else: z\n"])


def c21(rng):
    base = [t for _, t in programs.all_cases()] + SIMPLE + MID + FRAGS
    base = list(dict.fromkeys(base))
    extra = ["", "\n", "\n\n", " a", "\na", "\n a", ")", "]", "}", ";", ",", ":", "=", " else", " # c", "\n# c", "\n# c\n", " \\\n", "\n\\\n", " 1", " 's'", "\n)", "\n]", " if", "\nif", "\n;", " ->", " -> a", " $", "\n$", "\n'", " \n", "\n  \n", "\n  a", "\t", "\n\t# c", " :=", " as", "\r", "\r\n", "\r\r", "\n1__0", "\n  # c\n a"]
    for t in base:
        t = t.rstrip("\n")
        for e in extra:
            for m in ["file", "eval", "single", "func"]:
                if m != "func" or t.startswith("(") or rng.random() < 0.05:
                    if m != "eval" or "\n" not in t or rng.random() < 0.2:
                        if rng.random() < (0.5 if len(t) < 30 else 0.15):
                            yield m, t + e
    for t in base:
        for pre in ["\n", "  ", "# c\n", "\n\n# c\n", "\\\n", "\t\n", ";", ")", " # type: a\n", "\r", "# type: a\n", "(", "a "]:
            if rng.random() < 0.4:
                yield rng.choice(["file", "eval", "single"]), pre + t
                yield "eval", pre + t
    types = ["a", "*a", "**a", "a or b", "lambda: a", "a if b else c", "*a or b", "**a or b", "a[b, c]", "a.b", "...", "'s'", "k=v", "a := b", "*", "**", "(a, b)", "a: b", "", "yield a", "not a", "**a.b", "*a[b]"]
    for t in sequences(rng, types, ", ", ["", ","], [0, 1, 2, 3, 4, 5], [1, 99, 999, 6000, 2500, 800]):
        yield "func", "(" + t + ") -> z" + rng.choice(["", "\n", "\n\n", " # c\n"])
    good = ["a", "a[b]", "c.d", "e or f", "lambda: g"]
    for n in range(0, 12):
        for _ in range(120):
            out = [rng.choice(good) for _ in range(n)] + rng.choice([[], [], ["*h"], ["**i"], ["*h", "**i"], ["*h", "i", "**j"], ["**i", "*h"], ["*h", "*h"]])
            yield "func", "(" + ", ".join(out) + rng.choice(["", "", ","]) + ") -> " + rng.choice(SMALL)
    for x in FRAGS:
        for s in FUNCS + ["(%s)", "-> @", "@ -> a", "() @", "() -> @ a", "() -> a @", "() -> a, @", "(@", "@) -> a", "() -> a\n@", "(a)(@) -> b", "[@] -> a", "() -> (@)", "(a @) -> b", "(lambda: @) -> a", "(*@, *a) -> b", "(**@, a) -> b", "(**@, *a) -> b", "(a, *@, **@) -> @", "(@, @, @) -> @", "( @ ) -> a # c", "() -> a # @"]:
            for e in ["", "\n"]:
                yield "func", s.replace("@", x) + e
        for s in ["%s", "%s\n", "%s,", "%s, a", "a, %s", "a, %s,", "%s\n\n", "%s # c", "(%s)\n", "%s; a", "%s = a", "%s\na", "\n%s", "%s a", "%s:", "if %s: a", "# c\n%s"]:
            yield "eval", s.replace("%s", x)
            yield "single", s.replace("%s", x) + "\n"
            yield "file", s.replace("%s", x)
    for t in sequences(rng, ["a", "\n", "# c\n", " ", ";", "pass", "if a: b", "if a:\n  b", "  ", "@a", "\\\n"], "", ["", "\n"], [1, 2, 3, 4], [99, 200, 1400, 4000]):
        for m in ["file", "single", "eval"]:
            yield m, t
    for s in SIMPLE:
        for e in ["\n", "", "\n\n", "\na\n", ";\n", "; a\n", "\n# c\n", " # c\n", "\n ", "\r", "\\\n\n"]:
            yield "single", s + e
    for _ in range(3500):
        t = compound(rng, rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 0.05]))
        yield "single", t + rng.choice(["\n", "\n\n", "", "a\n", "\na\n"])
        yield "file", t + rng.choice(["", "a", "a b\n", ")", "\n\n", "# c", "  a\n", "else: a\n", "1 2", "'"])


MAKE = dict(C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21)


def vary(rng, case):
    """The same construct with other names, without a last line end, after other statements."""
    m, t = case
    x = rng.random()
    if x < 0.5:
        t = re.sub(r"(?<![\w.'\"])[a-z](?![\w'\"])", lambda k: rng.choice(NAMES) if rng.random() < 0.5 else k.group(0), t)
    elif x < 0.65:
        t = t.rstrip("\n")
    elif m == "file":
        t = rng.choice(["z = 1\n", "# c\n", "\n\n", "if z: y\n", "if z:\n  y\n", "'doc'\n", "x; y\n", "z \\\n  = 1\n", "(a,\n b)\n", "def z():\n  y\n\n\n", "try: z\nexcept* y: x\n"]) + t
    else:
        t = t.replace(", ", rng.choice([",", " , ", ",  "]))
    return m, t


def pool(prop, rng):
    """All texts of a property, without duplicates."""
    out = dict.fromkeys(MAKE[prop](rng))
    comp = [x for x in programs.BLOCKS if x.strip()]
    out.update(dict.fromkeys(products.repeats(prop, rng, True)))
    return list(out)
