"""Hand-written programs: every construct, valid and broken, and longer mixtures."""

LINES = r'''
pass
a
a, b
a, b,
*a, b
a = b
a = b = c
a, b = c, d
a = yield b
a += b
a, b += c
a -= yield b
a: int
a: int = b
a: int = b, c
a = b  # type: int
del a, b
del (a, b)
pass; a; b
pass;
break
continue
return
return a, *b
raise
raise a
raise a from b
yield a
yield a, b
yield from a
global a, b
nonlocal a
assert a
assert a, b
import a
import a.b.c as d, e
from a import b
from a.b import b as c, d
from a import *
from . import a
from .. import (a, b)
from ...a import (a as b,)
from .... import a
from . ... .a import a
a if b else c
a if b else c if d else e
lambda: a
lambda a, b=c, *d, e, f=1, **g: h
lambda *, a: a
lambda a, /, b: a
lambda a, /: b
lambda *a, **b: c
lambda **b: c
lambda a, : c
lambda a=1, /, b=2, *, c: d
a or b or c
a and b and c
not a
not not a
a or b and not c
a < b < c
a in b
a not in b
a is b
a is not b
a is not b not in c
a | b | c ^ d & e << f >> g + h - i * j / k // l % m @ n
-a ** -b ** c
- + ~ a
a ** b ** c
await a ** b
await a.b
a.b.c(d)[e].f
f()
f(a, *b, **c, d=e)
f(a for b in c)
f(a := b, c)
f(a,)
a[b]
a[b:c]
a[b:c:d]
a[:]
a[::]
a[::d, b, c:]
a[:c]
a[b:]
a[b::d]
()
(a)
(a,)
(a, b)
(*a, b)
(yield a)
(yield from a)
(a := b)
(a for b in c)
(a for b in c if d if e for f in g)
[a async for b in c]
[a for b, c in d if lambda: e]
[]
[a, *b, c]
{}
{a}
{a, b, *c}
{*a, b,}
{a: b}
{a: b, **c, d: e,}
{**a}
"a" 'b'
1 + 2.0 + 0xff
...
None, True, False
'''.strip().split('\n')
BLOCKS = [
"if a:\n  b\n","if a: b\n","if a: b\nelif c: d\nelif e: f\nelse: g\n","if a:\n  b\n  c\nelif c:\n  d\nelse:\n  e\n",
"while a: b\n","while a:\n  b\nelse:\n  c\n","for a in b: c\n","for a, *b in c, d:\n  e\nelse:\n  f\n","for a in b: # type: int\n  c\n",
"try:\n  a\nexcept:\n  b\n","try: a\nfinally: b\n","try:\n a\nexcept a: b\nexcept b as c: d\nelse: e\nfinally: f\n","try: a\nexcept* b: c\nexcept* d as e: f\n",
"try:\n  try: a\n  except* b: c\nexcept d: e\n","with a: b\n","with a as b, c as d: e\n","with (a as b, c): d\n","with (a as b, c as d,):\n  e\n",
"def f(): pass\n","def f() -> a: pass\n","def f():\n  a\n  return b\n","def f(): # type: () -> int\n  a\n","def f():\n  # type: () -> int\n  a\n",
"class A: pass\n","class A(): pass\n","class A(b, c=d):\n  e\n","@a\ndef f(): pass\n","@a.b(c)\n@d()\nclass A: b\n","@a\nasync def f(): pass\n",
"async def f(): pass\n","async for a in b: c\n","async with a as b: c\n","if a:\n  if b:\n    c\n  else:\n    d\nelse:\n  e\n","","\n","\n\n# a\n","  # b\na\n",
"if a:\n  b # x\n # y\n\n  c\n# z\nd\n","a = (b,\n  c)\n","a \\\n + b\n", "if a: b; c;\nd\n","a +\n","if a\n","a b\n","(a\n","a)\n","import a,\n","from a import b,\n","from import a\n","f(**a, *b, c)\n","try: a\n","try: a\nexcept* : b\n","try: a\nexcept* b: c\nexcept d: e\n",
"if a: if b: c\n","else: a\n","lambda *: a\n","a = *b\n","del\n","@a def f(): pass\n","async a\n","x = lambda: (yield a)\n","a[*b]\n","def f(a): pass\n",
]
EVALS = ["a","a\n","a, b","a\n\n","lambda: a","a = b","","a b","(a,)","a if b else c","*a","a +","a,"]
FUNCS = ["() -> a","(a) -> b\n","(a, b) -> c","(*a, **b) -> c","(a, *b) -> c","(a, *b, **c) -> d","(**a) -> b","(a,) -> b","(*a, b) -> c","(a) -> b\n\n","(a)","(a) -> ","a -> b","(a, **b) -> c"]
SINGLES = ["a\n","pass\n","a; b\n","\n","if a: b\n\n","a = b\n","a","# c\n","a b\n"]

LONG = [
    """import os, sys as s
from . import a
from .b.c import (d, e as f,)

@deco(1, *a, k=v)
@other.one
class A(B, metaclass=M):
    x: int = 3
    def f() -> a[1:2, ::3]:
        # a comment
        if x and not y or z:
            return -x ** -y
        elif (n := g()) > 3 < 4:
            pass; del a, b[0]; global q, r
        else:
            while a is not b:
                for i, *j in k, l:
                    continue
                else:
                    break
            raise E from None
        try:
            with a as b, c as d:
                yield from e
        except (A, B) as x:
            assert a, 'm'
        except:
            nonlocal z
        else: pass
        finally:
            a = b = yield c
        return lambda a, b=1, /, c=2, *d, e, **f: (a, *b, {**c, 'd': e}, {f, *g}, [h for i in j if k if l async for m in n])
async def g(): await a.b(c)[d] ** 2
x += 1; y //= 2
""",
    """if a:
  if b:
    c
  else:
    d
else:
  try: a
  except* b: c
  except* d as e:
    try: f
    except g: h
    finally: i
while a:
        b
else: c
@a
async def f():
    async with a as b, c:
        async for d in e:
            return f
        else:
            return
class C: pass
""",
    """a = (b,
     c,  # two

     d)
e = [
  # first
  f,
  g  # last
]
h = {i: j,
  **k,
}
l \\
  = \\
m
""",
    """def f(): # type: () -> int
  pass
def g():
  # type: () -> List[int]
  x = [] # type: List[a]
  for i in x: # type: int
    y = i
""",
]


def all_cases():
    out = [("file", x + "\n") for x in LINES] + [("file", x) for x in BLOCKS + LONG] + [("eval", x) for x in EVALS]
    out += [("func", x) for x in FUNCS] + [("single", x) for x in SINGLES]
    out += [("eval", x) for x in LINES[:3]]
    return out


def cases(prop):
    return all_cases()
