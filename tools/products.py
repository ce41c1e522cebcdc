"""Texts made by putting every construct into every place, and by repeating constructs: what they are
(accepted or not, and which tree) is for the specification to say."""

# Pieces that may or may not be expressions on their own.
FRAGS = r'''
a
1
"s"
"s" 't'
None
...
()
(a)
(a,)
(a, b)
(*a, b)
[]
[a]
[a, *b]
{}
{a}
{a, *b,}
{a: b}
{**a, b: c}
(yield a)
(yield a, b)
(yield from a)
(a := b)
(a for b in c)
(a for b, *c in d if e)
[a for b in c]
[a async for b in c if d for e in f]
lambda: a
lambda a, *b, c=1, **d: e
lambda a, /: b
lambda *, a: b
a if b else c
a if b else c if d else e
a or b
a or b or c
a and b
not a
not not a
a < b
a < b == c
a not in b
a is not b
a is b
a | b
a ^ b
a & b
a << b
a >> b << c
a + b
a - b - c
a * b
a / b // c
a % b @ c
-a
+-~a
a ** b
a ** -b ** c
await a
await a.b(c)[d]
a.b
a.b.c
a()
a(b)
a(b, *c, d=e, **f)
a(b for c in d)
a(b := c)
a(b, c,)
a[b]
a[b, c]
a[b:c]
a[:]
a[::b, c:]
a[b,]
a().b[c](d)
-a.b
*a
*a, b
**a
a := b
a, b
a, b,
a,
yield a
yield from a
a = b
a: b
b for a in c
'''.strip().split("\n")

# Places for an expression: @ is the place.
PLACES = r'''
(@)
[@]
{@}
(@,)
(x, @)
(@, x)
(x, @, y,)
[x, @]
[@, x,]
{x, @}
{@, x}
{@: x}
{x: @}
{x: y, @: z}
{x: y, z: @,}
{**@}
{x: y, **@, z: w}
(*@, x)
[x, *@]
{*@, x}
f(@)
f(x, @)
f(@, x)
f(k=@)
f(*@)
f(**@, k=x)
f(x)(@)
x[@]
x[@:]
x[:@]
x[@:y]
x[y:@]
x[::@]
x[y:z:@]
x[@::y]
x[y, @]
x[@, y:z]
x[y][@]
@.k
@(x)
@[x]
-@
~@
not @
await @
@ ** x
x ** @
@ * x
x * @
x // @
x @ @
@ + x
x + @
x - @
@ << x
x >> @
@ & x
x & @
@ ^ x
x ^ @
@ | x
x | @
@ < x
x < @
x == @
x != @
x >= @ <= y
x in @
x not in @
x is @
@ is not x
@ and x
x and @
x and y and @
@ or x
x or @
x or @ or y
@ if x else y
x if @ else y
x if y else @
lambda: @
lambda x=@: y
lambda x, *y, z=@: w
(x for y in @)
(@ for x in y)
[x for y in z if @]
[x for y in @ for z in w]
(x for @ in y)
[x for y, @ in z]
(x async for y in @ if z)
(x := @)
(yield @)
(yield from @)
'''.strip().split("\n")
STATEMENTS = r'''
@
@;
x; @
x = @
x = y = @
x = @ = y
@ = x
@, x = y
x, @ = y
x += @
@ -= x
x **= @
x: @
@: x
x: y = @
x: @ = y
del @
del x, @
del (@, x)
return @
return x, @
raise @
raise x from @
raise @ from x
assert @
assert @, x
assert x, @
yield @
yield x, @
yield from @
if @: x
if x: @
if x: y; @
while @: x
for @ in x: y
for x in @: y
for x, @ in y: z
for x in y, @: z
with @: x
with @ as x: y
with x as @: y
with x, @ as y: z
with x as y, @: z
class A(@): x
class A(x, @): y
class A(k=@): x
def f() -> @: x
def f(): return @
x = lambda: @
@ # c
'''.strip().split("\n")
CLAUSES = ["if x:\n  y\nelif @:\n  z\n", "if x: y\nelif @: z\nelse: w\n", "while @:\n  x\nelse:\n  y\n", "for x in @:\n  y\nelse:\n  z\n", "try:\n  x\nexcept @:\n  y\n",
           "try: x\nexcept @ as y: z\n", "try: x\nexcept* @: y\n", "try: x\nexcept* y: z\nexcept* @ as w: v\n", "try: x\nexcept y: @\nfinally: z\n", "with x as y, @ as z:\n  w\n",
           "with (@ as x, y):\n  z\n", "with (x, y as @): z\n", "@x.y(@)\nclass A: pass\n".replace("@x", "\x01x"), "\x01x(y, @)\n\x01z\ndef f(): pass\n", "class A(x, k=@, *y):\n  z\n",
           "async def f():\n  return @\n", "async for x in @: y\n", "async for @ in x: y\n", "async with @ as x: y\n", "for x in y: # type: int\n  @\n", "x = @ # type: int\n",
           "x, @ = y # type: int\n", "if x:\n  y\n  @\nz\n"]
FUNCS = ["(@) -> x", "(x, @) -> y", "(x) -> @", "(*@) -> x", "(*x, **@) -> y\n", "(x, *@) -> y", "() -> @\n"]
OPERATORS = "or and < > <= >= == != in is | ^ & << >> + - * / // % @ **".split() + ["not in", "is not"]


def put(place, frag):
    return place.replace("x @ @", "x \x02 @").replace("@", frag).replace("\x01", "@").replace("\x02", "@")


def cross(rng, count, depth=3):
    """Every fragment in every place: all of them when count is None, else a sample; and deeper ones."""
    pairs = []
    for f in FRAGS:
        for p in PLACES:
            pairs.append((rng.choice(["file", "eval"]), put(p, f)))
        for p in STATEMENTS:
            pairs.append(("file", put(p, f)))
        for p in CLAUSES:
            pairs.append(("raw", put(p, f)))
        for p in FUNCS:
            pairs.append(("func", put(p, f)))
    if count is not None and count < len(pairs):
        pairs = rng.sample(pairs, count)
    for m, t in pairs:
        yield ("file", t + "\n") if m == "file" else ("file", t) if m == "raw" else (m, t)
    for _ in range((count or 6000) // 4):
        t = rng.choice(FRAGS)
        for _ in range(rng.randint(2, depth + 1)):
            t = put(rng.choice(PLACES), t)
        yield rng.choice([("file", put(rng.choice(STATEMENTS), t) + "\n"), ("file", put(rng.choice(CLAUSES), t)), ("eval", t), ("func", put(rng.choice(FUNCS), t))])


def around(rng, frags, places, count):
    """The given fragments in all places, and all fragments in the given places."""
    out = [put(p, f) for f in frags for p in PLACES + STATEMENTS] + [put(p, f) for f in FRAGS for p in places]
    for t in (out if count is None or count >= len(out) else rng.sample(out, count)):
        yield "file", t + "\n"


BINARY = ["or", "and", "<", "==", "in", "not in", "is", "is not", "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "//", "%", "@", "**"]
UNARY = ["not ", "-", "+", "~", "await ", "lambda: ", "lambda a, *b: ", "yield ", "*", "**"]
PRIMARIES = ["a", "1", "'s'", "(a, b)", "(yield)", "[a for b in c]", "{a: b}", "a.b", "a(b)", "a[b:c]", "(a := b)"]


def of_two():
    """Expressions with two operators of every kind."""
    for u in UNARY:
        for v in UNARY:
            yield u + v + "a"
        for o in BINARY:
            yield u + "a " + o + " b"
            yield "a " + o + " " + u + "b"
        yield u + "a if b else c"
        yield "a if " + u + "b else c"
        yield "a if b else " + u + "c"
        yield u + "a, b"
        yield "a, " + u + "b"
        yield u + "a := b"
        yield "a := " + u + "b"
    for o in BINARY:
        for q in BINARY:
            yield "a " + o + " b " + q + " c"
        yield "a " + o + " b if c else d"
        yield "a if b " + o + " c else d"
        yield "a if b else c " + o + " d"
        yield "a " + o + " b, c"
        yield "a, b " + o + " c,"
        yield "a := b " + o + " c"
        yield "a " + o + " b := c"
        for x in PRIMARIES:
            yield x + " " + o + " b"
            yield "a " + o + " " + x
    for x in PRIMARIES:
        for u in UNARY:
            yield u + x
        for y in PRIMARIES:
            yield x + " if " + y + " else c"
            yield x + ", " + y
            yield x + " := " + y
            yield x + " " + y


def everywhere(frags):
    for f in frags:
        for p in PLACES:
            yield "eval", put(p, f)
        for p in STATEMENTS:
            yield "file", put(p, f) + "\n"
        for p in CLAUSES:
            yield "file", put(p, f)
        for p in FUNCS:
            yield "func", put(p, f)


def contexts(rng, deep, inner):
    """Two operators in every place, fragments in places in places, two statements in a row everywhere."""
    import programs
    out = dict.fromkeys(everywhere(dict.fromkeys(of_two())))
    for _ in range(deep):
        t = put(rng.choice(PLACES), rng.choice(FRAGS))
        if rng.random() < 0.3:
            t = put(rng.choice(PLACES), t)
        x = rng.random()
        if x < 0.3:
            c = "eval", put(rng.choice(PLACES), t)
        elif x < 0.7:
            c = "file", put(rng.choice(STATEMENTS), t) + "\n"
        elif x < 0.93:
            c = "file", put(rng.choice(CLAUSES), t)
        else:
            c = "func", put(rng.choice(FUNCS), t)
        out[c] = None
    every = [x + "\n" for x in programs.LINES] + [x if x.endswith("\n") else x + "\n" for x in programs.BLOCKS if x.strip()]
    for a in every:
        for b in every:
            out["file", a + b] = None
    for _ in range(inner):
        a, b, h = rng.choice(every), rng.choice(every), rng.choice(HEADS)
        if rng.random() < 0.2:
            a += rng.choice(every)
        if rng.random() < 0.3:
            h2 = rng.choice(HEADS)
            a = h2 + "\n" + indent(a, " ") + rng.choice(TAILS)
        out["file", h + "\n" + indent(a, "  ") + rng.choice(["", "  "]) + rng.choice(TAILS) + b if rng.random() < 0.5 else h + "\n" + indent(a + b, "  ") + rng.choice(TAILS)] = None
    return list(out)


def nested(rng):
    """Places in places in places, where no bracket keeps the inner ones apart from the outer ones."""
    flat = [p for p in PLACES if p[0] not in "([{f" and not (p.startswith("x[") and p != "x[y][@]") and p not in ("@(x)", "@[x]")]
    flat += ["yield @", "yield from @", "*@", "**@", "x := @", "@ := x", "x, @", "@, x", "@,", "lambda *, x=@: y", "lambda x, /, y=@: z", "lambda *x, y=@, **z: w", "lambda x: @, y", "x = @", "x for y in @", "@ for x in y"]
    out = {}
    for q in flat:
        for r in flat:
            t = put(q, put(r, "a" if rng.random() < 0.6 else rng.choice(FRAGS)))
            for p in PLACES:
                out["eval", put(p, t)] = None
            for p in STATEMENTS:
                out["file", put(p, t) + "\n"] = None
            for p in CLAUSES:
                out["file", put(p, t)] = None
            for p in rng.sample(FUNCS, 3):
                out["func", put(p, t)] = None
    return list(out)


TWO = """with <1> as <2>: x|async with <1> as <2>:\\n  x|with <1>, <2>: x|with <1> as x, <2>: y|with (<1> as x, <2>): y|with (x as <1>, y as <2>): z|for <1> in <2>: x|for <1>, x in <2>: y\\nelse: z
for x in <1>, <2>: y|async for <1> in <2>: x|assert <1>, <2>|raise <1> from <2>|<1> = <2>|<1> = x = <2>|x = <1> = <2>|x, <1> = <2>|x = <1>, <2>|<1> += <2>|<1>: <2>|<1>: x = <2>|x: <1> = <2>|(<1>): <2>|return <1>, <2>
del <1>, <2>|yield <1>, <2>|x = yield <1>, <2>|if <1>: <2>|while <1>: <2>|if <1>: x\\nelif <2>: y|while <1>: x\\nelse: <2>|<1>; <2>|class A(<1>, <2>): x|class A(<1>, k=<2>):\\n  x|def f() -> <1>: <2>|@x(<1>, <2>)\\ndef f(): y
@x.y(k=<1>, *<2>)\\nclass A: y|try: x\\nexcept <1>: y\\nexcept <2>: z|try: x\\nexcept <1> as y: <2>|try: x\\nexcept* <1> as y: z\\nexcept* <2>: w|<1>, <2> = x|<1>, x = <2>"""
TWO_EVAL = """<1> if <2> else x|<1> if x else <2>|x if <1> else <2>|<1>[<2>]|x[<1>:<2>]|x[<1>, <2>]|x[:<1>:<2>]|x[<1>::<2>]|x[<1>:, <2>]|f(<1>, <2>)|f(<1>=<2>)|f(k=<1>, l=<2>)|f(*<1>, **<2>)|f(<1>, k=<2>)|f(<1>)(<2>)|{<1>: <2>}|{<1>: x, **<2>}|{x: <1>, <2>: y}|{<1>, <2>}
[<1>, <2>]|(<1>, <2>)|[<1> for x in <2>]|(x for <1> in <2>)|[x for y in <1> if <2>]|[x for y in z if <1> if <2>]|(<1> for x in y if <2>)|[x for y in <1> for z in <2>]|f(<1> for x in <2>)|lambda x=<1>: <2>|lambda x=<1>, y=<2>: z|lambda *x, y=<1>: <2>|(<1> := <2>)
(yield <1>, <2>)|(yield from <1>, <2>)|<1> <2>|<1>, <2>|<1>.x[<2>]|await <1> ** <2>|-<1> ** <2>|not <1> in <2>|<1> < x == <2>|<1> and x or <2>|<1> or x and <2>|<1> + x * <2>|<1> ** x ** <2>|lambda: <1> if <2> else x"""


def two():
    """Constructs with two expressions: all pairs of fragments."""
    frags = [f for f in FRAGS if f not in ("a or b or c", "a - b - c", "a % b @ c", "not not a", "a.b.c", "a(b, c,)", "a[b,]", "a & b", "a / b // c", "a is b")]
    for mode, ts in (("file", [t.replace("\\n", "\n") + "\n" for l in TWO.split("\n") for t in l.split("|")]),
                     ("eval", [t for l in TWO_EVAL.split("\n") for t in l.split("|")] + ["<1> %s <2>" % o for o in OPERATORS]), ("func", ["(<1>, <2>) -> x", "(<1>) -> <2>", "(*<1>, **<2>) -> x", "(x, *<1>, <2>) -> y"])):
        for t in ts:
            for a in frags:
                for b in frags:
                    yield mode, t.replace("<1>", a).replace("<2>", b)


# --------------------------------------------------------------------------- statements in blocks

HEADS = ["if a:", "while a:", "for a in b:", "try:", "with a:", "def f():", "class A:", "async def f():", "async for a in b:", "async with a as b:", "@a\ndef f():", "@a\n@b.c()\nclass A(b):",
         "def f() -> a:", "for a in b: # type: int", "def f(): # type: () -> a", "with a as b, c:", "class A():", "if a:\n  b\nelif c:", "if a: b\nelse:", "while a:\n  b\nelse:", "for a in b: c\nelse:",
         "try: a\nexcept:", "try:\n  a\nexcept b:", "try: a\nexcept b as c:", "try: a\nexcept* b:", "try: a\nexcept* b: c\nexcept* d as e:", "try: a\nexcept b: c\nexcept:", "try: a\nfinally:",
         "try: a\nexcept b: c\nelse:", "try: a\nexcept b: c\nfinally:", "try: a\nexcept* b: c\nelse: d\nfinally:"]
TAILS = ["", "", "", "else:\n  z\n", "elif y: z\n", "except:\n  z\n", "except y: z\n", "except* y: z\n", "finally: z\n", "z\n", "else: y\nfinally: z\n", "except y: z\nelse: w\n", "\n# c\n", "  z\n"]


def indent(t, by):
    return "".join(by + l if l.strip() else l for l in t.splitlines(True))


def blocks(rng, count, simple, compound, depth=3):
    """Statements in the suites of others, followed by clauses that may or may not fit."""
    for k in range(count):
        body = rng.choice(simple) + "\n" if rng.random() < 0.6 else rng.choice(compound)
        for _ in range(rng.choice([1, 1, 1, 2, 2, depth])):
            head, by = rng.choice(HEADS), rng.choice(["  ", "  ", "    ", " ", "\t"])
            more = rng.random()
            if more < 0.25:
                body += rng.choice(simple) + "\n"
            elif more < 0.4:
                body = rng.choice(simple) + "\n" + body
            if "\n" not in body.strip("\n") and rng.random() < 0.2:
                body = head + " " + body.strip("\n") + "\n"
            else:
                body = head + "\n" + indent(body, by)
            body += rng.choice(TAILS)
        yield "file", body


def every_block(simple, compound):
    """Every statement in every suite."""
    for s in [x + "\n" for x in simple] + compound:
        for h in HEADS:
            yield "file", h + "\n" + indent(s, "  ")
            yield "file", h + "\n" + indent(s, "  ") + "z\n"
            if "\n" not in s.strip("\n"):
                yield "file", h + " " + s.strip("\n") + "\n"
    for s in compound:
        for tail in TAILS:
            yield "file", s + tail


# --------------------------------------------------------------------------- repetition

# (properties, mode, before, units, separator, ends, after)
REPEATS = [
    ("C12 C22", "eval", "(", ["a", "a", "*b", "c if d else e", "f := g", "(h)", "1"], ", ", [",", ""], ")"),
    ("C12 C22", "eval", "[", ["a", "a", "*b", "lambda: c", "[d]", "e.f", "'s'"], ", ", ["", ","], "]"),
    ("C12", "eval", "{", ["a", "a", "*b", "c | d", "e()"], ", ", ["", ","], "}"),
    ("C12 C22", "eval", "{", ["a: b", "a: b", "**c", "d: lambda: e", "(f,): [g]"], ", ", ["", ","], "}"),
    ("C12", "eval", "(a", [" for b in c", " for b in c", " if d", " async for e, f in g", " if h if i"], "", [""], ")"),
    ("C12", "eval", "[a", [" for b in c", " if d", " if e or f", " async for g in h"], "", [""], "]"),
    ("C12", "eval", "f(a", [" for b in c", " if d", " async for g in h"], "", [""], ")"),
    ("C12", "eval", "", ["'s'", '"t"', "b'u'"], " ", [""], ""),
    ("C12 C16", "file", "", ["a", "*b", "c.d", "(e)"], ", ", ["", ","], "\n"),
    ("C12", "eval", "(" , ["(", "[", "{a: ", "{", "(b, ", "[*c, "], "", [""], ""),
    ("C13 C22", "eval", "a", [".b", "(c)", "[d]", "()", "[e:f]", "(*g)"], "", [""], ""),
    ("C13", "eval", "f(", ["a", "b=c", "*d", "**e", "(g)", "h := i", "j if k else l"], ", ", ["", ","], ")"),
    ("C13", "eval", "f(", ["a", "a", "*d", "[b]"], ", ", ["", ","], ")"),
    ("C13", "eval", "f(", ["k=a", "**d", "m=n()"], ", ", ["", ","], ")"),
    ("C13 C22", "eval", "a[", ["b", "c:d", ":", "e:f:g", "::h", "i:", ":j", "k::l", ":m:"], ", ", ["", ","], "]"),
    ("C13 C20", "file", "class A(", ["a", "k=b", "*c", "**d"], ", ", ["", ","], "): pass\n"),
    ("C13", "eval", "await a", [".b", "(c)", "[d]"], "", [""], " ** e"),
    ("C14", "eval", "", ["a if b else", "lambda:", "lambda c:", "not", "lambda *d, e=1:"], " ", [""], " z"),
    ("C14", "eval", "lambda ", ["a", "b=1", "*c", "**d", "/", "*", "e"], ", ", ["", ","], ": f"),
    ("C14", "eval", "lambda ", ["a", "b", "c=1", "d=e"], ", ", ["", ","], ": f"),
    ("C14", "eval", "lambda a, /, b, ", ["c", "d=1", "*e", "**f"], ", ", ["", ","], ": g"),
    ("C14", "eval", "lambda *a, ", ["c", "d=1", "e"], ", ", ["", ","], ": g"),
    ("C14", "eval", "lambda *, ", ["c", "d=1", "e", "**f"], ", ", ["", ","], ": g"),
    ("C14", "eval", "lambda a=1, ", ["b=2", "c=3", "/", "d"], ", ", ["", ", *e", ", **f", ", *e, g=4, **f"], ": g"),
    ("C14", "eval", "", ["a if b", "c if d or e"], " else ", [" else z", ""], ""),
    ("C14", "file", "", ["(a := ", "(b := "], "", ["c"], ""),
    ("C11", "eval", "a", [" %s b" % o for o in OPERATORS], "", [""], ""),
    ("C11", "eval", "", ["-", "+", "~", "- ", "not "], "", [""], "a"),
    ("C11", "eval", "a", [" ** b", " ** -c", " ** ~+d"], "", [""], " * e"),
    ("C11", "eval", "a", [" or b", " and c", " and not d"], "", [""], ""),
    ("C11", "eval", "a", [" < b", " not in c", " is not d", " == e", " is f", " in g"], "", [""], ""),
    ("C11", "eval", "a", [" + b", " - c", " * d", " / e", " ** f"], "", [""], ""),
    ("C11", "eval", "a", [" | b", " & c", " ^ d", " << e", " >> f"], "", [""], ""),
    ("C15", "file", "", ["a", "pass", "del b", "break", "return c", "raise", "global d", "assert e, f", "import g", "h = i", "yield j", "k += l"], "; ", ["", ";"], "\n"),
    ("C15", "file", "global ", ["a", "b"], ", ", [""], "\n"),
    ("C15", "file", "nonlocal ", ["a", "b"], ", ", [""], "\n"),
    ("C15", "file", "del ", ["a", "b.c", "d[e]", "(f)", "(g, h)"], ", ", ["", ","], "\n"),
    ("C15", "file", "return ", ["a", "*b", "c or d", "lambda: e"], ", ", ["", ","], "\n"),
    ("C15", "file", "yield ", ["a", "*b", "c or d"], ", ", ["", ","], "\n"),
    ("C16 C22", "file", "", ["a", "b.c", "d, e", "*f, g", "[h]"], " = ", [" = i", " = yield j", " = k # type: int", " = l, m"], "\n"),
    ("C16", "file", "", ["a", "*b", "(c)", "d[e]"], ", ", [" = f", ", = g", " += h", ": i", " = j # type: int"], "\n"),
    ("C16", "file", "a = ", ["b", "c or d", "e.f", "(g,)"], ", ", ["", ",", " # type: int", ", # type: int"], "\n"),
    ("C16", "file", "a += ", ["b", "c or d", "e.f"], ", ", ["", ","], "\n"),
    ("C16", "file", "a: b = ", ["b", "c or d", "e.f"], ", ", ["", ","], "\n"),
    ("C17", "file", "import ", ["a", "b.c", "d as e", "f.g.h as i"], ", ", [""], "\n"),
    ("C17", "file", "from a import ", ["b", "c as d"], ", ", [""], "\n"),
    ("C17 C22", "file", "from .a import (", ["b", "c as d"], ", ", ["", ","], ")\n"),
    ("C17", "file", "from ", [".", "...", ". ", " ... "], "", ["a import b", " import c", "a.b import (c,)", "a import *"], "\n"),
    ("C17", "file", "import ", ["a", "b"], ".", ["", " as c"], "\n"),
    ("C17", "file", "from ", ["a", "b"], ".", [" import c", " import *"], "\n"),
    ("C18", "file", "if a: b\n", ["elif c: d\n", "elif e:\n  f\n  g\n", "elif h: i; j\n"], "", ["", "else: k\n", "else:\n  l\n", "else: m\nelse: n\n"], ""),
    ("C18", "file", "try: a\n", ["except b: c\n", "except d as e:\n  f\n", "except (g, h): i\n"], "", ["", "except: k\n", "else: l\n", "finally: m\n", "else: n\nfinally:\n  o\n"], ""),
    ("C19", "file", "try: a\n", ["except* b: c\n", "except* d as e:\n  f\n", "except* (g, h): i\n"], "", ["", "except: k\n", "else: l\n", "finally: m\n", "else: n\nfinally:\n  o\n", "except l: m\n"], ""),
    ("C19", "file", "", ["try: a\nexcept* b: c\n", "try:\n  a\nexcept b: c\n", "try: a\nfinally: b\n", "if a:\n  try: b\n  except* c: d\n"], "", ["", "e\n"], ""),
    ("C18 C22", "file", "with ", ["a", "b as c", "d() as e.f", "g as (h, i)"], ", ", [""], ": j\n"),
    ("C18", "file", "with (", ["a", "b as c", "d() as e.f"], ", ", ["", ","], " as z): j\n"),
    ("C18", "file", "for ", ["a", "*b", "c.d", "(e, f)"], ", ", ["", ","], " in g: h\n"),
    ("C18", "file", "for a in ", ["a", "*b", "c.d", "(e, f)"], ", ", ["", ","], ": h\n"),
    ("C18 C22", "file", "if a:\n", ["  b\n", "  c; d\n", "\n", "  # e\n", "  if f: g\n"], "", ["  h\ni\n"], ""),
    ("C18", "file", "", ["if a:\n  b\n", "while c: d\n", "for e in f:\n  g\nelse: h\n", "i\n", "\n", "# j\n", "try: k\nfinally: l\n", "with m: n\n"], "", [""], ""),
    ("C20 C22", "file", "", ["@a\n", "@b.c\n", "@d(e)\n", "@f.g.h(*i, j=k)\n", "@l()\n"], "", ["def m(): pass\n", "class n: pass\n", "async def o(): pass\n", "p\n"], ""),
    ("C20", "file", "class a:\n", ["  b: c\n", "  def d(): pass\n", "  @e\n  def f(): pass\n", "  async def g(): h\n", "  class i: j\n", "  pass\n"], "", [""], ""),
    ("C20", "file", "", ["def a(): b\n", "class c: d\n", "async def e(): f\n", "async for g in h: i\n", "async with j: k\n", "@l\nclass m: n\n", "o\n"], "", [""], ""),
    ("C20", "file", "", ["@a(", "@b(c, "], "", ["d)\nclass e: f\n"], ""),
    ("C21", "func", "(", ["a", "b[c]", "d.e", "lambda: f"], ", ", ["", ", *g", ", **h", ", *i, **j"], ") -> k"),
    ("C21", "file", "", ["a\n", "b; c\n", "\n", "# d\n", "pass\n", "if e: f\n"], "", [""], ""),
    ("C21", "eval", "a", ["\n", "\n", "# c\n", " \n"], "", ["", "b", " "], ""),
    ("C21", "func", "() -> a", ["\n", "# c\n"], "", ["", "b"], ""),
    ("C21", "eval", "", ["a", "*b", "c if d else e", "lambda: f"], ", ", ["", ","], "\n"),
    ("C21", "single", "", ["a", "pass", "b = c", "del d"], "; ", ["", ";"], "\n"),
]
MORE = [
    ("file", "with (", ["a", "b as c", "d() as e.f", "(g)", "h as (i, j)"], ", ", ["", ","], "): k\n"),
    ("file", "with (", ["a", "b as c"], ", ", ["", ","], "):\n  k\n  l\nm\n"),
    ("file", "async with ", ["a", "b as c"], ", ", [""], ": j\n"),
    ("file", "def f():\n", ["  a\n", "  b; c\n", "  if d: e\n", "  def g(): h\n", "  # i\n", "\n"], "", ["  z\n", "  z\ny\n", "  z"], ""),
    ("file", "def f(): # type: () -> a\n", ["  a\n", "  b; c\n"], "", ["", "y\n"], ""),
    ("file", "def f():\n  # type: () -> a\n", ["  a\n", "  b; c\n", "  @d\n  class e: f\n"], "", ["", "y\n"], ""),
    ("file", "while a:\n", ["  b\n", "  continue\n", "  while c: d\n"], "", ["", "else:\n  z\n"], ""),
    ("file", "for a in b:\n", ["  b\n", "  break\n", "  for c in d: e\n"], "", ["", "else: z\n"], ""),
    ("file", "with a:\n", ["  b\n", "  c = d\n"], "", ["", "z\n"], ""),
    ("file", "try:\n", ["  b\n", "  raise c\n"], "", ["finally:\n  z\n", "except a:\n  z\n"], ""),
    ("file", "try: a\nexcept b:\n", ["  b\n", "  raise c\n"], "", ["finally:\n  z\n", "except a:\n  z\n", ""], ""),
    ("file", "try: a\nfinally:\n", ["  b\n", "  c\n"], "", ["", "z\n"], ""),
    ("file", "try: a\n", ["except b: c\n", "except (d, e) as f: g\n"], "", ["except: h\nelse: i\nfinally: j\n", "except* h: i\n", "else: k\nfinally: l\n"], ""),
    ("file", "if a: b\nelse:\n", ["  b\n", "  c\n"], "", ["", "z\n"], ""),
    ("file", "if a: ", ["b", "c = d", "pass"], "; ", ["\n", ";\n", ";\nelse: z\n", "\nelif y: x; w;\n"], ""),
    ("file", "class A: ", ["b", "c = d", "pass"], "; ", ["\n", ";\n"], ""),
    ("func", "(", ["a", "b[c]", "d if e else f"], ", ", ["", ",", ", *g", ", **h", ", *i, **j", ", *k, l"], ") -> m"),
    ("func", "(*a, ", ["b", "c.d"], ", ", ["", ", **h", ","], ") -> m"),
    ("func", "(a) -> b", ["\n", "# c\n", "\r"], "", [""], ""),
    ("single", "", ["a", "b = c", "(d)"], "; ", ["\n", ";\n", " # c\n"], ""),
    ("single", "if a:\n", ["  b\n", "  c; d\n"], "", ["\n", "else: e\n\n"], ""),
    ("eval", "lambda a, b=1, /, ", ["c", "d=1"], ", ", ["", ",", ", *e", ", *, f"], ": g"),
    ("eval", "lambda ", ["a", "b=1"], ", ", [", /", ", /,", ", /, c", ", /, *c", ", /, **c", ", /, *, c", ", /, c=1, *d, e, **f"], ": g"),
    ("eval", "lambda ", ["a", "b=1"], ", ", [", *", ", *c,", ", *c, d", ", **c", ", *, d", ", *c, d=1, **f,"], ": g"),
    ("eval", "lambda *a, ", ["b", "c=1"], ", ", ["", ",", ", **d", ", **d,"], ": g"),
    ("eval", "lambda *, ", ["b", "c=1"], ", ", ["", ",", ", **d", ", **d,"], ": g"),
    ("eval", "f(a, ", ["*b", "**c", "k=d", "e"], ", ", ["", ","], ")(g)"),
    ("eval", "f(", ["*b", "**c", "k=d"], ", ", [", a for x in y", ", a"], ")"),
    ("eval", "[x for ", ["a", "*b", "c.d", "(e)"], ", ", ["", ","], " in f]"),
    ("eval", "[*a, ", ["b", "*c"], ", ", ["", ","], "]"),
    ("eval", "{*a, ", ["b", "*c"], ", ", ["", ","], "}"),
    ("eval", "{**a, ", ["b: c", "**d"], ", ", ["", ","], "}"),
    ("eval", "{a: b", [" for c in d", " if e", " async for f in g"], "", [""], "}"),
    ("eval", "{a", [" for c in d", " if e", " if lambda: f"], "", [""], "}"),
    ("eval", "(a := b", [", c", ", *d", ", e := f"], "", ["", ","], ")"),
    ("eval", "(yield ", ["a", "*b"], ", ", ["", ","], ")"),
    ("eval", "x[", ["a", "b:c", "d:e:f", "*g"], ", ", ["", ","], "][0]"),
    ("eval", "not ", ["a and", "b or", "not"], " ", [" z"], ""),
    ("eval", "a", [" if b else c", " or d"], "", [""], ""),
    ("file", "a: b = ", ["c", "*d"], ", ", ["", ","], "\n"),
    ("file", "a.b[c] = ", ["d", "*e", "f = g"], ", ", ["", ","], "\n"),
    ("file", "raise a from ", ["b", "c"], ".", [""], "\n"),
    ("file", "assert a, ", ["b or", "not"], " ", [" c"], "\n"),
    ("file", "", ["@a\n", "@b.c.d(e)\n"], "", ["class f: g\n", "async def f():\n  # type: g\n  h\n"], ""),
    ("file", "@a", [".b", ".c"], "", ["\ndef d(): e\n", "()\ndef d(): e\n", "(d, e)\nclass f: g\n"], ""),
    ("file", "@a(", ["b", "c=d", "*e"], ", ", ["", ","], ")\ndef d(): e\n"),
    ("file", "for a in b: c; ", ["d", "break"], "; ", ["", ";"], "\nelse: e\n"),
    ("file", "async for ", ["a", "*b"], ", ", ["", ","], " in c, d: e\n"),
    ("file", "import a.b as c, ", ["d", "e.f"], ", ", [" as g", ", h"], "\n"),
    ("file", "from ... import (a, ", ["b", "c as d"], ", ", ["", ","], ")\n"),
    ("file", "", ["a", "b", "1", "'c'"], " ", [""], "\n"),
]
ONE = [t for t in MORE] + [t[1:] for t in REPEATS]


def counts(rng):
    """Every kind of list with every number of elements, all alike, taking turns, and with one that differs at each place."""
    for mode, pre, units, sep, ends, post in ONE:
        us = list(dict.fromkeys(units))
        long = max(len(u) for u in us) > 12
        for n in [*range(1, 37), 40, 41, 47, 48, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129]:
            if n > 24 and long and n not in (31, 32, 33, 63, 64, 65):
                continue
            rows = [[u] * n for u in us]
            rows += [[us[(k + j) % len(us)] for k in range(n)] for j in range(len(us) if n < 20 else 1)]
            rows += [[rng.choice(us) for _ in range(n)] for _ in range(4 if n < 20 else 1)]
            if 3 <= n <= 12:
                for u in us[:3]:
                    for v in us[:5]:
                        if u != v:
                            rows += [[u] * k + [v] + [u] * (n - 1 - k) for k in (range(n) if n < 9 else rng.sample(range(n), 4))]
            for r in rows:
                body = pre + sep.join(r)
                for e in ends if n < 20 else [rng.choice(ends)]:
                    yield mode, body + e + post


def items(rng):
    """Every kind of list of one to five elements with every fragment at each place, before each end."""
    frags = FRAGS + ["*a", "**a", "a=b", "a:b", "a: b", "a as b", "a for b in c", "x := y", "*a if b else c", "lambda *a: b", "not a in b", "-a ** -b", "a or b if c else d", "(yield)", "yield a"]
    for mode, pre, units, sep, ends, post in ONE:
        if sep.strip() != "," and sep.strip() != "=":
            continue
        us = list(dict.fromkeys(units))
        for f in frags:
            for n in (1, 2, 3, 4, 5):
                for k in range(n):
                    u = us[0] if rng.random() < 0.6 else rng.choice(us)
                    r = [u] * n
                    r[k] = f
                    t = pre + sep.join(r)
                    for e in ends:
                        yield mode, t + e + post
    # The same for what stands behind the list.
    for head, post in (("(*a%s, **", ") -> z"), ("(a%s, *", ") -> z"), ("(a%s, *", ", **b) -> z"), ("(a%s, *b, **", ") -> z"), ("(*a%s) -> ", ""), ("(a%s) -> ", "")):
        for n in range(9):
            for f in frags:
                yield "func", head % (", b" * n) + f + post
    for mode, head, post in (("eval", "lambda *a%s, k=", ": z"), ("eval", "lambda *%s, k=", ": z"), ("eval", "lambda a%s, k=", ": z"), ("eval", "lambda a%s: ", ""), ("eval", "lambda a%s, *, k=", ", **b: z"), ("eval", "lambda a%s, /, k=", ", *b: z"), ("eval", "f(a%s, k=", ")"),
                             ("eval", "f(a%s, **", ")"), ("eval", "f(a%s, *", ",)"), ("eval", "{**a%s, **", "}"), ("eval", "[a%s][", "]"), ("eval", "a[b%s, c:", "]"), ("eval", "a[b%s, ::", "]"), ("eval", "a[b%s, ", ":]"), ("eval", "[*a%s, *", "]"), ("eval", "(a%s, b := ", ")"), ("eval", "[x for a%s in ", "]"),
                             ("eval", "[x for a%s in b if ", "]"), ("file", "a%s = ", "\n"), ("file", "a%s = b = ", "\n"), ("file", "for a%s in ", ": z\n"), ("file", "del a%s, ", "\n"), ("file", "with a%s, ", " as y: z\n"), ("file", "with (a%s, ", " as y): z\n"), ("file", "with (a%s, x as ", "): z\n"), ("file", "class A(a%s, k=", "): z\n"), ("file", "@a(b%s, *", ")\ndef f(): z\n"),
                             ("file", "return a%s, ", "\n"), ("file", "x: y = a%s, ", "\n"), ("file", "x += a%s, ", "\n"), ("file", "import a%s, ", "\n"), ("file", "from x import a%s, ", "\n"), ("file", "global a%s, ", "\n"), ("eval", "(yield a%s, ", ")"), ("eval", "a%s, ", ",")):
        for n in range(7):
            for f in frags:
                yield mode, head % (", b" * n if "{**" not in head else ", b: c" * n) + f + post
    for mode, head, unit, post in (("file", "x = %s", "a = ", "\n"), ("file", "%s", "a.b = ", " # type: z\n"), ("file", "if a: b\n%selif ", "elif c: d\n", ": z\n"), ("file", "try: a\n%sexcept ", "except b: c\n", ": z\n"), ("file", "try: a\n%sexcept* ", "except* b as c: d\n", " as y: z\n"), ("file", "@x\n%s@a(", "@b.c\n", ")\ndef f(): z\n"), ("file", "%s", "a; ", "; z\n"),
                                   ("file", "if a: %s", "b; ", "\nelse: z\n"), ("file", "def f():\n%s  return ", "  a\n", "\nz\n"), ("eval", "[x%s for y in ", " for a in b", "]"), ("eval", "[x%s if ", " if b", "]"), ("eval", "[x%s if ", " for a in b if c", "]"), ("eval", "a%s[", ".b(c)", "]"), ("eval", "a%s(", "[b].c", ")"), ("eval", "a%s(*", "()", ")"), ("eval", "%s", "a if b else ", ""), ("eval", "%s", "lambda a: ", ""), ("eval", "%s", "not ", ""),
                                   ("eval", "%s", "a or ", ""), ("eval", "%s", "a and not ", ""), ("eval", "%s", "a < ", ""), ("eval", "%s", "a is not ", ""), ("eval", "%s", "a | ", ""), ("eval", "%s", "a - ", ""), ("eval", "%s", "a * ", ""), ("eval", "%s", "a ** ", ""), ("eval", "%s", "-", ""), ("eval", "%s", "'s' ", ""), ("eval", "{a: b%s for x in ", " for y in z", "}")):
        for n in range(7):
            for f in frags:
                yield mode, head % (unit * n) + f + post


NESTS = [("C18 C22", "file", ["if a:", "while b:", "for c in d:", "with e:", "try:", "def f():", "class g:"]), ("C19", "file", ["try:"]), ("C20", "file", ["class a:", "def b():", "async def c():", "@d\nclass e(f):"])]
HANDLERS = {"try:": ["except a: b\n", "except* a: b\n", "except: a\n", "finally: a\n", "except* a:\n  b\nelse: c\n", "except a:\n  b\nfinally: c\n"]}


def repeats(prop, rng, th):
    small = prop not in ("C22", "C23", "C26", "C24", "C25")
    ns = list(range(1, 13)) + [16, 17, 24, 33, 48, 65, 100] + ([130, 200, 257] if th else [])
    for props, mode, pre, units, sep, ends, post in REPEATS:
        own = prop in props.split()
        for n in ns if own else ([3, 6, 14] if not th else [2, 3, 5, 6, 9, 14, 33]):
            for k in range((12 if th else 4 if n < 20 else 2) if own else 1):
                us = [rng.choice(units) for _ in range(n)]
                if k % 4 == 1 or n > 60:
                    us = [units[k % len(units)]] * n
                yield mode, pre + sep.join(us) + (ends[0] if k == 0 else rng.choice(ends)) + post
    closes = {"(": ")", "[": "]", "{": "}"}
    for n in ns:
        if n > 45 or not (prop == "C12" or th or n in (4, 9)):
            continue
        for _ in range(8 if prop == "C12" else 1):
            t, shut = "", ""
            for _ in range(n):
                o, c = rng.choice([("(", ")"), ("[", "]"), ("{", "}"), ("{a: ", "}"), ("(b, ", ")"), ("[*c, ", "]"), ("f(", ")"), ("x[", "]"), ("(", ",)"), ("{**d, e: ", ",}"), ("[", " for y in z]"), ("(lambda: ", ")")])
                t, shut = t + o, c + shut
            yield "eval", t + rng.choice(["a", "", "a, b", "*a"]) + shut
    for props, mode, heads in NESTS:
        own = prop in props.split()
        for n in (ns if own else [3, 7]):
            if n > 33:
                continue
            for _ in range(6 if own else 1):
                out, stack = [], []
                for k in range(n):
                    h = rng.choice(heads)
                    out.append(indent(h + "\n", "  " * k))
                    stack.append((h, k))
                out.append("  " * n + "z\n")
                for h, k in reversed(stack):
                    if h == "try:":
                        for _ in range(rng.choice([1, 1, 2])):
                            out.append(indent(rng.choice(HANDLERS[h]), "  " * k))
                    elif h[:2] in ("if", "wh", "fo") and rng.random() < 0.5:
                        out.append("  " * k + rng.choice(["else: y\n", "elif x: y\n" if h[:2] == "if" else "else:\n" + "  " * k + "  y\n"]))
                    if rng.random() < 0.3:
                        out.append("  " * k + "w\n")
                yield mode, "".join(out)


STATEMENT_PROPERTIES = ("C15", "C16", "C17", "C18", "C19", "C20", "C21")


def cases(prop, rng, th, lean=False):
    """What a property adds to its own sentences."""
    import programs
    comp = [x for x in programs.BLOCKS if x.strip()]
    out = list(repeats(prop, rng, th))
    if th:
        out += list(cross(rng, None)) + list(every_block(programs.LINES, comp)) + list(blocks(rng, 6000, programs.LINES, comp))
    elif lean:
        out = rng.sample(out, min(len(out), 300))
        out += list(cross(rng, 300)) + list(blocks(rng, 200, programs.LINES, comp))
    elif prop in STATEMENT_PROPERTIES:
        out += list(cross(rng, 900)) + list(blocks(rng, 700, programs.LINES, comp)) + rng.sample(list(every_block(programs.LINES, comp)), 900)
    else:
        out += list(cross(rng, 2400)) + list(blocks(rng, 150, programs.LINES, comp)) + rng.sample(list(every_block(programs.LINES, comp)), 150)
    return out
