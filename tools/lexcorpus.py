"""What each scanner property explores: all texts over small alphabets of pieces, and random longer ones."""
import itertools, re
import render
from mktables import OPS, KW, LETTERS, DIGITS, OTHERS

KEYWORDS = list(KW)
OPERATORS = list(OPS)
OPCHARS = sorted({c for o in OPERATORS for c in o if c not in "()[]{}"})


def exhaust(pieces, n, pre="", post="", least=1):
    for k in range(least, n + 1):
        for t in itertools.product(pieces, repeat=k):
            yield pre + "".join(t) + post


def mixed(rng, pieces, count, lo, hi, pre="", post=""):
    for _ in range(count):
        yield pre + "".join(rng.choice(pieces) for _ in range(rng.randint(lo, hi))) + post


# Comments with a meaning somewhere.
IDIOMS = ["# type: ignore", "# type:ignore", "# type: ignore[x]", "#type: ignore", "#!/usr/bin/python", "# -*- coding: utf-8 -*-", "# noqa", "# vim: ts=4", "#: a", "# type: (int) -> str",
          "# type: List[int]", "# TYPE: a", "# type : a", "#%%", "# pragma: no cover", "# type: ignored", "#\t type: a", "# fmt: off", "# type: # type: ignore", "# encoding: latin-1"]
FRAG = ["a", "if", "x1", "名", "é_b", "1", "0x1f", "1.5e3", "2j", "'s'", '"t"', "b'u'", '"""v\nw"""', "+", "**=", "//", "->", ":=", ":", ",",
        "(", ")", "[", "]", "{", "}", " ", "  ", "\t", "\n", "\n  ", "\n\t", "\n\n", "# c", "# type: int", "\\\n", ".", "...", ";", "=", "not", "lambda",
        "🐍", "rb'x'", "@"]


WIDE_LETTERS, WIDE_DIGITS, WIDE_OTHERS = [[chr(c) for c in x] for x in (LETTERS, DIGITS, OTHERS)]
WIDE = WIDE_LETTERS + WIDE_DIGITS + WIDE_OTHERS
ASCII = [chr(c) for c in range(32, 127)]
CONTROL = [chr(c) for c in range(32) if chr(c) not in "\t\n\r"] + ["\x7f"]
# What comes before a place: every kind of state the scanner can be in there.
BEFORE = ["", "a ", "a\n", "(", "([", "{[(", "if a:\n  b\n  ", "1 ", "'s' ", "a\t", "# c\n", "a \\\n ", "(\n # c\n  ", "a # type: b\n", "é", ") ", "\n\n  \n",
          "\"\"\"\n\"\"\"", "not ", "...", "{a:", "f(x)[", " ", "a;", "-> ", "= ", "(a,\n\n", "\r", "lambda:", "b''", "0x1F ", "if a: # c\n\tb\n\t"]


def word(rng):
    x = rng.random()
    if x < 0.45:
        return rng.choice(["a", "b", "x1", "_", "spam", "self", "é", "名前", "a_b", "If", "iff", "long_name_of_a_variable", "r", "b2", "Rb", "e1", "j"])
    if x < 0.6:
        return rng.choice(["1", "0", "42", "0x1F", "1.5", "1e3", "2.5j", "1_000", "0b1_0", "0o17", ".5", "3.", "1E-5", "00", "0.0", "1_0e+1_0J"])
    if x < 0.75:
        q = rng.choice(["'", '"', "'''", '"""'])
        body = rng.choice(["", "s", "a b", "#", "\\n", "\\\\", "é", "(", "if", "a\\\nb", "{x}", "x" * rng.randint(1, 20)])
        if len(q) == 3 and rng.random() < 0.5:
            body += rng.choice(["\n", "\n  # no comment\n", "\nx\n", "'' \"\" ."])
            body = body.rstrip(q[0])
        return rng.choice(["", "", "", "r", "b", "u", "f", "Rb", "bR", "fr", "F", "U"]) + q + body + q
    if x < 0.85:
        return rng.choice(KEYWORDS)
    return rng.choice(["...", "None", "True"])


def pieces(rng, depth):
    """One operand or a bracketed list of them, possibly over several lines."""
    if depth < 4 and rng.random() < 0.25:
        o, c = rng.choice(["()", "[]", "{}"])
        out = [o]
        for _ in range(rng.randint(0, 4)):
            if rng.random() < 0.3:
                out.append(rng.choice(["\n", "\n    ", " # c\n", "\n\n", "\n\t# é\n  ", " # type: x\n", " \\\n"]))
            out.append(pieces(rng, depth + 1) + rng.choice([",", ", ", ":", " , ", "", " "]))
        return "".join(out) + c
    return word(rng)


def rich(rng, lines):
    """A text with the look of a program: blocks, brackets over lines, comments, joined lines."""
    out, cols = [], [""]
    for _ in range(lines):
        x = rng.random()
        if x < 0.12:
            out.append(rng.choice(["", "  ", "\t", "    # c", "# c", "#", "        # é", " \t "]) + "\n")
            continue
        if x < 0.4 and len(cols) > 1:
            del cols[rng.randint(1, len(cols) - 1):]
        line = cols[-1]
        for k in range(rng.randint(1, 5)):
            if k:
                line += rng.choice([" ", "", "  ", "\t", " \\\n  ", " "]) + rng.choice(OPERATORS[:19] + [",", "=", "."] + OPERATORS[30:]).strip("()[]{}") + rng.choice([" ", " ", "", "\t "])
            line += pieces(rng, 0)
        line += rng.choice(["", "", "", ";", " # c", "  # type: int", " ", "\t", "#", " " + rng.choice(IDIOMS)])
        if x > 0.7:
            line += rng.choice([":", ": # c", ":  "])
            cols.append(cols[-1] + rng.choice(["  ", "    ", "\t", " ", "        ", " \t"]))
        out.append(line + "\n")
    t = "".join(out)
    if rng.random() < 0.2:
        t = t[:rng.randint(0, len(t))]
    if rng.random() < 0.15:
        t = t.replace("\n", "\r")
    return t


def common(rng, th):
    """Texts every scanner property looks at."""
    for n in ([1, 2, 3, 5, 8] if not th else [1, 2, 3, 4, 5, 6, 8, 12, 16]):
        for _ in range(1200 if th else 70):
            yield rich(rng, n)
    yield from mixed(rng, FRAG, 4000 if th else 250, 2, 14)
    yield from mixed(rng, FRAG + WIDE, 4000 if th else 250, 2, 9)
    yield from mixed(rng, FRAG + ["\0", "\f", "\f", "\v", "\x1b"], 3000 if th else 150, 2, 9)
    # Long and deep texts.
    for n in [17, 40, 70, 130, 260]:
        for o, c in ["()", "[]", "{}"]:
            yield "a" + o * n + "b" + c * n + "\n"
            yield o * n + "\n  a\n" + c * (n - 1) + "\n b" + c + "\n"
            yield o * n + c * (n + 1)
        yield "([{" * (n // 3) + "\n" + "}])" * (n // 3) + "\nb\n"
        yield "é" * n + " " + "x1" * n + "\n"
        yield "1" * n + " " + "1_" * n + "0 0x" + "f" * n + " ." + "5" * n + "e" + "1" * n + "j\n"
        yield "'" + "s" * n + "' b\"" + "\\x" * n + "\" r'''" + "\n" * n + "''' " + "a\n"
        yield "# " + "c" * n + "\n" + "a" + " " * n + "# type: " + "x" * n + "\n"
        yield "+" * n + "*" * n + "<" * n + "." * n + "=" * n + ">" * n + "-" * n + ":" * n + "/" * n + "!=" * n
        yield "\n" * n + "a" + "\\\n" * n + "b\n"
        yield "# c\n" * n + " " * n + "a\n" + " " * n + "b\nc\n"
        yield "\t" * n + "a\n" + "\t" * n + "b\n" + "c"
        yield "a\n" + "  \n\t# c\n" * n + " b\n"
        yield "a; " * n + "\n" + "b\n" * n
        if n <= 130:
            yield "".join(" " * k + "a\n" for k in range(n)) + "b\n"
            yield "".join(" " * k + "a\n" for k in range(n)) + " " * (n // 2) + "c\n" + "b"
            yield "".join(" " * k + "a\n" for k in range(n)) + " " * (n // 2) + "c\n" + " " * n + "d\n"
            yield "".join("\t" * k + "if a:\n" for k in range(n)) + "\t" * n + "(\n)\n"


def words(rng, thorough):
    """Words around the keywords: every single edit, every case change, and their neighbours."""
    out = set()
    letters = "aefinorstEIT_1é"
    for w in KEYWORDS + ["match", "case", "type", "print", "exec", "self", "_", "None_", "nonlocals"]:
        flip = lambda *ks: "".join(c.swapcase() if k in ks else c for k, c in enumerate(w))
        out |= {w, w.upper(), w.lower(), w.capitalize(), w.swapcase()}
        out |= {flip(k) for k in range(len(w))} | {flip(j, k) for j in range(len(w)) for k in range(j)}
        out |= {w[:k] + w[k + 1:] for k in range(len(w))}
        out |= {w[:k] + c + w[k:] for k in range(len(w) + 1) for c in letters}
        out |= {w[:k] + c + w[k + 1:] for k in range(len(w)) for c in "aeinE_1"}
        out |= {w[:k] + w[k + 1] + w[k] + w[k + 2:] for k in range(len(w) - 1)}
        out |= {w + v for v in KEYWORDS} | {w + "_" + w, w * 2}
    out = sorted(x for x in out if x and not x[0].isdigit())
    ends = ["", "\n", " ", "(", ".", "=", "#", "'", "\"", "+", "\t", ":", "é", "1", "_"]
    for i, w in enumerate(out):
        pre = ["", "a ", "\n", "(", "1+", ".", "\t", "é ", "'s' "][i % 9]
        if w in KEYWORDS or (thorough and w.lower() in KEYWORDS):
            for e in ends:
                yield w + e
                yield pre + w + e
        else:
            yield pre + w + rng.choice(ends)
            if thorough:
                for e in ends:
                    yield w + e


def lines(rng, n, heads, bodies, count=None, end=("\n",)):
    """Texts made of lines: a head (indentation) and a body each."""
    space = [h + b for h in heads for b in bodies]
    if count is None:
        for t in itertools.product(space, repeat=n):
            yield "".join(t)
    else:
        for _ in range(count):
            yield "".join(rng.choice(space)[:-1] + rng.choice(end) for _ in range(n))


RUNS = [*range(2, 71), 127, 128, 129, 255, 256, 257]


def long_numbers(rng):
    """Digit runs of many lengths in every part of a number, all the same digit or not, ending in another one or not."""
    forms = ["{z}", "{z}1", "{z}.", "{z}.5", "{z}e1", "{z}j", "{z}7j", "{z}_0", "{z}9e1", "1{z}", "{d}", "{d}.{d}", "{d}e{z}1", "{d}e-{d}", ".{d}", ".{z}1j", "0x{z}1", "0x{d}", "0X{z}", "0b{z}1", "0b{o}",
             "0B{o}2", "0o{z}7", "0o{p}", "0O{p}8", "{u}", "{u}_", "0x{v}", "0b{w}", "1.{u}", "1e{u}", "{d}J", "{z}8", "{z}_1"]
    for n in RUNS:
        for f in forms:
            t = f.format(z="0" * n, o="1" * n, p="".join(rng.choice("01234567") for _ in range(n)), d=rng.choice("123456789") + "".join(rng.choice("0123456789") for _ in range(n - 1)),
                         u="_".join(rng.choice("123456789") for _ in range(n)), v="_".join(rng.choice("0aF9") for _ in range(n)), w="_".join(rng.choice("01") for _ in range(n)))
            yield rng.choice(["", "", "", "a = ", "(", "-"]) + t + rng.choice(["", "", "\n", " ", "+1", ")"])


def last_lines(rng):
    """Blocks with blanks of every amount behind their last line end."""
    for depth in range(1, 6):
        for unit in (" ", "  ", "    ", "\t"):
            head = "".join(unit * k + "a\n" for k in range(depth))
            for n in [*range(21), 33, 64]:
                for blank in (" " * n, "\t" * (n // 2) + " " * (n % 2), " " * (n // 2) + "\f" + " " * (n - n // 2)):
                    if n > 1 or blank:
                        yield head + blank
                yield head + " " * n + rng.choice(["# c", "\n", "\n" + " " * n, "\\\n", "\f", "b", "# c\n" + " " * n, "\r", ")", "\n" + " " * n + "# c"])


def deep_blocks(rng):
    """Blocks of every depth up to 70, closed to every level, or to none."""
    for d in range(1, 71):
        for unit in (" ", "  ", "\t"):
            if len(unit) == 2 and d > 40 and d % 3:
                continue
            head = "".join(unit * k + "a\n" for k in range(d + 1))
            for k in rng.sample(range(d + 1), min(d + 1, 6)) + [d, d - 1, 0]:
                yield head + unit * k + "b\n" + rng.choice(["", unit * max(0, k - 1) + "c\n", unit * k + "c\n", unit * (k + 1) + "c\n" + unit * k + "d\n", "c\n", "  # c\n"])
            yield head + unit * rng.randrange(d + 1) + " b\n"
            yield head
        widths, col = [], 0
        for _ in range(min(d, 40)):
            widths.append(col)
            col += rng.randint(1, 9)
        yield "".join(" " * w + "a\n" for w in widths) + "".join(" " * w + "b\n" for w in sorted(rng.sample(widths, min(len(widths), 5)), reverse=True))
        yield "".join("\t" * (w // 8) + " " * (w % 8) + "a\n" for w in widths) + " " * rng.choice(widths) + "b\n"


def deep_brackets(rng):
    """Brackets of every depth up to 70, with one wrong, missing or superfluous at any place."""
    shut = {"(": ")", "[": "]", "{": "}"}
    for d in range(1, 71):
        for k in range(8):
            o = [rng.choice("([{") for _ in range(d)] if k > 2 else ["([{"[k]] * d
            c = [shut[b] for b in reversed(o)]
            sep = rng.choice(["", "", "\n", " ", "a", "\n  "])
            yield sep.join(o) + "a" + sep.join(c) + "\nb\n"
            w = list(c)
            j = rng.randrange(d)
            w[j] = rng.choice(")]}")
            yield sep.join(o) + "a" + "".join(w) + "\n"
            yield "".join(o) + "".join(c[:j]) + rng.choice(["\nb\n", "\n  b\n", ""])
            yield "".join(o) + "".join(c) + rng.choice(")]}") + "\n"
            yield "if a:\n  b" + "".join(o) + "\n" + "a,\n" * (d % 5) + "".join(c) + "\n  c\nd\n"


ROW = [*range(1, 34), 47, 48, 49, 59, 60, 61, 62, 63, 64, 65, 66, 69, 70, 71, 72, 73, 76, 77, 78, 79, 80, 81, 99, 100, 101, 119, 120, 121, 126, 127, 128, 129, 130, 255, 256, 257]


def rows(rng, kind):
    """The same character, or two taking turns, many times: in comments, strings or names."""
    chars = {"comment": ASCII + ["\t", " ", "é", "名", "# ", "-=", "* ", "+-", "type: ", "# type: ", "a "], "string": ASCII + ["\t", " ", "é", "🐍", "\\n", "\\\\", "a ", "{}", "%s", "ab"],
             "name": list("aAzZ_0919éλ名") + ["a_", "_a", "a1", "if", "é1", "aB", "__"]}[kind]
    for c in chars:
        for n in ROW:
            if rng.random() < (0.5 if kind != "name" else 0.9):
                w = c * n
                if kind == "comment":
                    yield rng.choice(["", "", "a ", "  ", "(", "if a:\n  "]) + rng.choice(["#", "# ", "# type: ", "#a"]) + w + rng.choice(["", "\n", "\n", "\r", "a\nb", " \n", "\n# c\n"])
                elif kind == "string" and c not in ("\\", "\r", "\n"):
                    q = rng.choice(["'", '"', "'''", '"""', "'", '"'])
                    yield rng.choice(["", "", "b", "rb", "a = ", "f(", "\n"]) + q + w + rng.choice(["", "", "", "\\" + q[0], "a", " "]) + q + rng.choice(["", "\n", " + b", ")", q, "\n'c'"])
                elif kind == "name":
                    yield rng.choice(["", "", "a.", "(", "if ", "_"]) + w + rng.choice(["", "\n", "(", " ", ".b", "'", "1", "é"])


def joins(rng):
    """Lines inside brackets of every depth: how the line ends, and what the next one begins with."""
    ends = ["\n", "\r", "\r\r", "\n\n", "# c\n", "# c\r", "\\\n", "\\\r", "a\n", ",\r", "\n# c\n", "\r\n"]
    heads = ["", " ", "  ", "\t", "    ", "\f", "a", " a", "  a", "\ta", "# c\n", "  # c\n", " \\\n", "\n", " )", "  ]", "'b'", " 1"]
    for depth in range(7):
        opened = [rng.choice("([{") for _ in range(depth)]
        for e in ends:
            for h in heads:
                if rng.random() < 0.4:
                    opened = [rng.choice("([{") for _ in range(depth)]
                if h in (" )", "  ]"):
                    h = h[:-1]
                shut = [{"(": ")", "[": "]", "{": "}"}[b] for b in reversed(opened)]
                for pre in ("", "if a:\n  ") if e != "\r\n" else ("",):
                    o = rng.choice(["".join(opened), " ".join(opened), "a" + "b, ".join(opened)])
                    yield pre + o + e + h + "".join(shut) + rng.choice(["", "\n", "\nb", "\n  b\n"])
                    if depth and rng.random() < 0.3:
                        yield pre + "".join(opened) + "a" + shut[0] + e + h + "".join(shut[1:]) + "\nb\n"


def c06(rng, th):
    yield from deep_blocks(rng)
    yield from last_lines(rng)
    for k in range(0, 26):
        for f in ("\f", "\f ", "\f\t", " \f ", "\t\f\f  "):
            h = rng.choice([" " * k, " " * k, "\t" * (k // 4) + " " * (k % 4)]) + f
            yield "a\n" + h + "b\n" + rng.choice([h, " " * k, "", " ", "  "]) + "c\nd\n"
            yield " b\n" + " " * k + "c\n" + h + "d\n"
    yield from lines(rng, 4, ["", " ", "  "], ["a\n", "#\n"])
    yield from lines(rng, 3, ["", " ", "\t", "        ", " \t", "\t "], ["a\n"])
    yield from lines(rng, 4, ["", "\t", "    ", "        ", "         "], ["a\n"])
    yield from exhaust([" ", "a", "\n", "#", "\t"], 6 if th else 5)
    yield from exhaust([" ", "a", "\n", "\f"], 6 if th else 5)
    yield from exhaust([" a", "\f", "\n", "  a", "#", "\\\n"], 5 if th else 4)
    yield from exhaust([" a", "  a", "a", "\n", "(", ")", "  "], 6 if th else 5)
    heads = ["", " ", "  ", "   ", "    ", "\t", "\t\t", "  \t", "        ", "\t  ", "      ", "\f  ", "   \f"]
    # Every head of up to four blanks and tabs, and longer ones, against a line at every near column.
    heads4 = ["".join(h) for k in range(1, 5) for h in itertools.product(" \t", repeat=k)]
    heads4 += [f + " " * k for k in range(4) for f in ["\f", "  \f", "\t\f", "    \f\f"]]
    heads4 += [" " * k for k in range(5, 20)] + [" " * k + "\t" + " " * j for k in range(4, 13) for j in range(3)] + ["\t" * k + " " * j for k in range(2, 5) for j in range(6)]
    heads4 = list(dict.fromkeys(heads4))
    width = lambda h: len(h.split("\f")[-1].expandtabs(4))
    for h in heads4:
        for d in range(-2, 3):
            n = width(h) + d
            if n > 0:
                yield "a\n" + h + "b\n" + " " * n + "c\nd\n"
                if th:
                    yield "a\n" + " " * n + "b\n" + h + "c\nd\n"
        yield "a\n b\n" + h + "c\n"
        yield "a\n\tb\n" + h + "c\n \n" + h + "d"
        yield "a\n" + h + "# c\n" + h + "b\n" + h + "\n" + h + "c\n" + h
    for _ in range(20000 if th else 500):
        a, b = rng.choice(heads4), rng.choice(heads4)
        yield "a\n" + a + "b\n" + b + "c\n" + rng.choice([a, b, ""]) + "d\n"
    bodies = ["a\n", "if a:\n", "# c\n", "\n", "a \\\n b\n", "(\n)\n", "(a,\n   b)\n", "'''\n x'''\n", "# type: x\n", "pass # c\n"]
    for n in range(3, 9):
        yield from lines(rng, n, heads, bodies, 4000 if th else 220)
    # Blocks that open and close regularly, with one line shifted.
    for _ in range(8000 if th else 900):
        stack, out, unit = [0], [], rng.choice([1, 2, 4, 8])
        for _ in range(rng.randint(3, 12)):
            x = rng.random()
            if x < 0.4:
                stack.append(stack[-1] + rng.choice([1, 2, unit, unit]))
            elif x < 0.7 and len(stack) > 1:
                del stack[rng.randint(1, len(stack) - 1):]
            col = stack[-1]
            if rng.random() < 0.03:
                col = max(0, col + rng.choice([-1, 1]))
            ind = " " * col if rng.random() < 0.8 else "\t" * (col // 8) + " " * (col % 8)
            out.append(ind + rng.choice(["a", "a", "a # c", "(b,\n c)"]) + "\n")
            if rng.random() < 0.2:
                out.append(rng.choice(["\n", "   # c\n", "# c\n", "      \n", "\t\n"]))
        t = "".join(out)
        yield t if rng.random() < 0.7 else t.rstrip("\n") + rng.choice(["", "  ", "\n  ", "\n    # c", "\n#"])


def crlf(rng, count):
    """CR LF inside strings, with and without a backslash before it."""
    for p in ["", "r", "b", "u", "f", "Rb", "bR", "fr"]:
        for q in ["'", '"', "'''", '"""']:
            for body in ["\r\n", "\\\r\n", "a\r\nb", "a\\\r\nb", "abcdef\\\r\nghi", "abcdef\r\nghi", "\\\r\n\\\r\n", "a\\\\\\\r\nb", "a\\\\\r\nb", "\r\n\r\n", "\r\r\n", "\n\r", "é\\\r\né", "a\\\r", "\\\r\n# c\n"]:
                yield p + q + body + q + " a\n"
                yield "x = (b, " + p + q + body + q + ")\n"
                yield p + q + body
            if len(q) == 3 or p in ("", "b"):
                yield from mixed(rng, ["\r\n", "\\\r\n", "a", "bcd", " ", "\\\\", "\n", "\r", "\\n", "é", "#"], count, 1, 12, p + q, q + " + 1\n")
    yield from exhaust(["\r\n", "\\", "a", "'"], 5, "'''a", "'''")
    yield from exhaust(["\r\n", "\\", "a", "\n"], 4, "b'", "'\n")


def c05(rng, th):
    yield from rows(rng, "string")
    for w in render.STRINGS:
        for pre, post in [("", ""), ("a = ", "\n"), ("(", ",\n" + w + ")"), (rng.choice(render.STRINGS), rng.choice(render.STRINGS)), (rng.choice("abfru1_"), " if"), ("", rng.choice("'\"a1\\")), ("if a:\n  ", "\n  b\n")]:
            yield pre + w + post
    yield from exhaust(["'", '"', "\\", "\n", "a"], 6 if th else 5)
    yield from exhaust(["'", "\\", "\n", "a", "\r"], 5 if th else 4, "'", "")
    yield from exhaust(['"', "\\", "a", "'"], 6 if th else 5, '"', "")
    yield from exhaust(["'", "\\", "\n"], 8 if th else 6, "'''", "")
    yield from exhaust(['"', "\\", "a"], 8 if th else 6, '"""', "")
    yield from exhaust(["'", '"', "\\", "\n", " "], 5 if th else 4, '"""', '"""')
    # Every body of one character and some of two, after every kind of start, in every state.
    starts = ["'", '"', "'''", '"""', "r'", 'B"', "u'''", 'Rb"""', "f'", 'bR"', "fR'''"]
    k = 0
    for c in ASCII + ["\t", "\n", "\r", "\\\n", "\\\r", "\\'", '\\"', "\\\\", "é", "🐍", "\x7f", "\x01"]:
        for s in starts:
            k += 1
            q = s.lstrip("rRbBuUfF")
            yield BEFORE[k % len(BEFORE)] + s + c + q + ["", " a", "\n", "+1", ")", "'x'", ".b", "é"][k % 8]
            if th or k % 3 == 0:
                yield s + c + rng.choice(ASCII) + q
    for s in starts:
        q = s.lstrip("rRbBuUfF")
        for n in [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300]:
            yield s + "x" * n + q + " a\n"
            yield "b = " + s + "\\" * (n + n % 2) + q + "\n"
            if n < 70:
                yield s + "\\" + q[0] + "y" * n + q + "\n"
                yield s + ("" if len(q) == 1 else q[0] + "\n" + q[0] * 2) + "é" * n + q + "c\n"
    pre = sorted({a + b + c for a in "rRbBuUfF" for b in ["", *"rRbBuUfF"] for c in ["", "r", "B", "1", "x"]})
    for p in pre:
        for q in ["'", '"', "'''", '"""']:
            yield p + q + "x" + q
            if th:
                yield "a=" + p + q + q + "\n"
        yield p + "''+1"
        yield p
    bits = ["'", '"', "'''", '"""', "\\", "\\'", '\\"', "\\\\", "\n", "a", "é", "#", " ", "\\\n", "{", "\t", "r", "名", "\\n", "(", ")"]
    for q in ["'", '"', "'''", '"""']:
        for p in ["", "r", "b", "Rb", "f"]:
            yield from mixed(rng, bits, 600 if th else 60, 1, 9, p + q, q)
            yield from mixed(rng, bits, 200 if th else 25, 1, 9, "x = " + p + q, q + "\n")
            yield from mixed(rng, bits + ["\r\n", "\\\r\n", "\r", "\\\r"] * 4, 400 if th else 50, 1, 9, p + q, q)
    yield from crlf(rng, 400 if th else 60)


def c04(rng, th):
    yield from long_numbers(rng)
    for w in render.NUMBERS:
        for pre, post in [("", ""), ("-", "\n"), ("a[", ":" + w + "]"), (rng.choice(render.NUMBERS) + " ", "," + rng.choice(render.NUMBERS)), ("a", " if"), ("(", ")."), (".", "_1"), ("", rng.choice("eEjJ.x_")), ("", ".real")]:
            yield pre + w + post
    m = 1 if th else 0
    # All parts of a number against one another, with what follows.
    ints = ["", "0", "00", "7", "12", "1_0", "0_0", "1_2_3", "08", "10", "1_", "0_7"]
    fracs = ["", ".", ".5", ".0", ".12", ".1_0", "._1", ".1_", ".5.", ".9_9_9"]
    exps = ["", "e5", "E5", "e+5", "E-5", "e-1_0", "e1_0", "e", "e+", "e_5", "e5_", "E+05", "e-0"]
    sufs = ["", "j", "J", "jj", "_j"]
    ends = ["", "\n", "+1", " ", ")", ".", "a", "_", "é", "e1", "-", "1", "if", ","]
    k = 0
    for a in ints:
        for b in fracs:
            for c in exps:
                for d in sufs:
                    if not a and b[:1] != ".":
                        continue
                    n = a + b + c + d
                    for _ in range(4 if th else 1):
                        k += 1
                        if d in ("jj", "_j") and k % 3 and not th:
                            continue
                        yield ["", "", "(", "-", "a = ", "é ", "[", "x\n"][k // 3 % 8] + n + ends[k % len(ends)]
    bases = [("0x", "0123456789abcdefABCDEF"), ("0X", "0aF9"), ("0o", "01234567"), ("0O", "07"), ("0b", "01"), ("0B", "01")]
    for p, ds in bases:
        for x in ds + "_89gG.ej":
            for y in ["", "_", "1", "8", "2", "F", "g", "_1", "__1", "_8", ".", "e1", "j", "l"]:
                k += 1
                yield ["", "(", "a+"][k % 3] + p + x + y + ends[k % len(ends)]
                yield p + "_" + x + y + ends[(k + 5) % len(ends)]
                yield p + "1" * (k % 7) + x + y + ends[(k + 9) % len(ends)]
    yield from exhaust(list("01_.eE"), 5 + m)
    yield from exhaust(list("019_"), 6 + m)
    yield from exhaust(list("1_.ej+"), 4 + m)
    yield from exhaust(list("xXaFg_0"), 4 + m, "0")
    yield from exhaust(list("bB01_2"), 4 + m, "0")
    yield from exhaust(list("oO078_"), 4 + m, "0")
    yield from exhaust(list("1.e-_J"), 4 + m, "1")
    yield from exhaust(list("0.e_j9"), 4 + m, ".")
    digits = list("0123456789")
    for d in digits:
        for x in ["0x", "0X", "0o", "0O", "0b", "0B", "1e", "1E+", "1.", ".", "0", "00", "1_", "1"]:
            for post in ["", " ", "+1", ")", "j", "a", ".", "_", "é", "\n", ".a", "e", "x"]:
                yield x + d + post
    for h in "abcdefABCDEFgG":
        yield "0x" + h
        yield "0x1" + h + "_" + h
    bits = digits + ["_", ".", "e", "E", "j", "J", "x", "0x", "0b", "0o", "e+", "e-", "00", "12", "+", "a", "_1"]
    for pre in ["", "1", "0", ".", "0x", "(", "a = ", "-"]:
        yield from mixed(rng, bits, 2500 if th else 250, 2, 8, pre, rng.choice(["", "\n", " ", "+2"]))


def c02(rng, th):
    yield from exhaust(OPCHARS, 3 if th else 2)
    yield from exhaust(list("<>=!"), 6 if th else 5)
    yield from exhaust(list("*/=.-"), 5 if th else 4)
    yield from exhaust(list(".:=>-"), 5 if th else 4)
    yield from exhaust(list("&|^~@%=+"), 4 if th else 3)
    k = 0
    for o in OPERATORS:
        for post in ASCII + WIDE_DIGITS + rng.sample(WIDE, 12):
            k += 1
            yield BEFORE[k % len(BEFORE)] + o + post
            if th:
                for pre in BEFORE:
                    yield pre + o + post + rng.choice(OPERATORS)
    for pre in BEFORE:
        for o in OPERATORS:
            yield pre + o + rng.choice(["", "a", "=", "\n", " "])
    for c in [".", "-", "<", "*", "="]:
        for w in WIDE:
            yield rng.choice(BEFORE) + c + w
    for o in OPERATORS:
        for pre in ["", "a", "1 ", "(", ".", " ", "é", "'s'", "\\\n", "b\n"]:
            for post in ["", "a", "1", " ", "=", "\n", ".", "'s'", "#", "é", "==", "~", "\\", ">"]:
                yield pre + o + post
    yield from mixed(rng, [o for o in OPERATORS if o not in "([{)]}"], 20000 if th else 1200, 2, 8)
    yield from mixed(rng, OPCHARS + [" ", "a"], 20000 if th else 1500, 3, 9)
    for _ in range(20000 if th else 1200):
        yield rng.choice(BEFORE) + "".join(rng.choice(OPERATORS + OPCHARS + ["a", " "]) for _ in range(rng.randint(2, 6)))
    yield from mixed(rng, OPERATORS + ["a", "1", " "], 3000 if th else 600, 3, 9, "(", ")")


def c07(rng, th):
    yield from deep_brackets(rng)
    yield from joins(rng)
    yield from exhaust(list("()[]{}"), 6 if th else 5)
    yield from exhaust(["(", "]", ")", "\n", " ", "a"], 6 if th else 4)
    yield from exhaust(["{", "[", "}", "]", "\n", "  a"], 6 if th else 4)
    yield from exhaust(["(", ")", "\n", "  ", "#", "a"], 5 if th else 4, "if a:\n  b", "\n")
    bits = ["(", "(", "[", "{", ")", ")", "]", "}", "\n", "\n  ", "\n      ", "\n\t", "a", ",", "# c\n", "# )\n", "'('", "\\\n", " ", "1", "# type: (\n"]
    for pre in ["", "a = (", "if a:\n  ", "if a:\n    b\n  "]:
        yield from mixed(rng, bits, 6000 if th else 500, 4, 14, pre, rng.choice(["", "\n", ")\n"]))
    # Balanced nestings with one bracket changed now and then.
    for _ in range(10000 if th else 1200):
        out, stack = [], []
        for _ in range(rng.randint(4, 20)):
            if rng.random() < 0.5:
                b = rng.choice("([{")
                stack.append({"(": ")", "[": "]", "{": "}"}[b])
                out.append(b)
            elif stack:
                c = stack.pop()
                out.append(c if rng.random() < 0.97 else rng.choice(")]}"))
            out.append(rng.choice(["", "", "a", "\n", "\n  ", " ", "#]\n"]))
        t = "".join(out) + "".join(reversed(stack))
        yield rng.choice(["", "if a:\n  b\n  ", " "]) + t + rng.choice(["", "\n", "\n  c\n", "\nd"])


def c08(rng, th):
    yield from exhaust(["\n", "\r", "\\", " ", "a", "#"], 6 if th else 5)
    yield from exhaust(["\n", "\r\n", "a", "(", ")"], 5 if th else 4)
    yield from exhaust(["\r", "a", ";", "# c", "  "], 5)
    yield from exhaust(["\\\n", "\\\r", "\\", "a", " ", "\n"], 5 if th else 4)
    yield from crlf(rng, 20)
    bits = ["a", "a", "b;", "\n", "\n", "\r", "\n\n", "# c\n", "\\\n", "\\\r", " ", "\t", "(", ")", "'''\n'''", "# type: x\n", "+", "# c\r", "'\\\n'"]
    yield from mixed(rng, bits, 15000 if th else 2500, 4, 14, "", "")
    yield from mixed(rng, bits, 8000 if th else 1200, 3, 10, "if a:\n  ", "\n")
    yield from mixed(rng, bits + ["\r\n"], 600 if th else 120, 3, 10, "", "\r\n")


def c09(rng, th):
    yield from rows(rng, "comment")
    for c in ASCII + ["\t", "é", "\0"]:
        for k, w in enumerate(["", "a", c, " b", "/bin/x", "x" * 20, "coding: utf-8"]):
            yield "#" + c + w + ["\n", "", "\na", "\n\n"][(k + ord(c)) % 4]
            if rng.random() < 0.3:
                yield rng.choice(["\n", "a\n", " ", "#\n", "a = 1 ", "(", "if a:\n  b\n  "]) + "#" + c + w + rng.choice(["\n", "", "\nb"])
    for w in render.COMMENTS:
        for pre, post in [("", ""), ("a ", "\n"), ("(\n", "\n)"), ("if a: ", "\n  " + w + "\n  b\n"), ("'", "'"), (" ", "\n"), ("\t", "\rb"), ("#", ""), ("a = [ ", "\n]" + w)]:
            yield pre + w + post
    yield from exhaust([" ", "\t", "#", "\n", "a"], 6 if th else 5)
    yield from exhaust([" ", "# c", "\n", "a", "\\\n", "("], 6 if th else 5)
    yield from exhaust(["# type: x", "# type:", "#type: x", "\n", "a", " "], 4, "", "")
    yield from exhaust(["\r", "# c", "a", " ", "("], 5)
    yield from exhaust(["\f", "# c", "a", " ", "\n", "\t"], 5 if th else 4)
    for i in IDIOMS:
        for pre in BEFORE:
            yield pre + i + rng.choice(["\n", "\na", "", "\n\n  b\n", "\r", " \n"])
    yield from mixed(rng, IDIOMS + ["\n", "\n", "\n", "a", " ", "\n  ", "(", ")"], 4000 if th else 900, 3, 9)
    bits = [" ", "  ", "\t", "\f", "# c", "#", "# type: int", "# type:", "# types: a", "#type:x", "# TYPE: x", "#  type: x", "\n", "\n", "\n  ", "\n\t", "a", "a",
            "\\\n", "\\\n  ", "(", ")", "+", "# é", "\r", "1", "'s'", "# a # b", "# type: # c"]
    yield from mixed(rng, bits, 15000 if th else 3500, 3, 12)
    yield from mixed(rng, bits, 8000 if th else 1500, 2, 9, "if a:\n  b", "\nc\n")
    yield from mixed(rng, bits, 6000 if th else 1000, 2, 9, "(", ")\n")
    yield from mixed(rng, bits + ["\r\n"], 100, 2, 6, "a", "\r\n")


def c03(rng, th):
    yield from rows(rng, "name")
    yield from alike(rng, 4000 if th else 600)
    for w in WIDE:
        for pre, post in [("", ""), ("i", ""), ("if", ""), ("", "if"), ("not", "1"), ("_", "_"), ("a", " in b")]:
            yield pre + w + post
    for w in KEYWORDS:
        for pre in BEFORE:
            yield pre + w + rng.choice(["", " ", "\n", "(", ":", "'", "1", "_", "é"])
        for c in ASCII:
            yield rng.choice(["", "a ", "(", "  "]) + w + c
    for k in list(range(1, 40)) + [63, 64, 65, 127, 128, 255, 256]:
        yield "a" * k + " " + "名" * k + "\n"
        yield "_" * k + "if\n"
    for w in render.SPECIAL:
        for pre, post in [("", ""), ("a.", "(b)"), ("if ", ":\n " + w + "\n"), ("(", ")" + w), (rng.choice(KEYWORDS) + " ", " " + rng.choice(KEYWORDS)), (rng.choice(render.SPECIAL) + ",", "=" + rng.choice(render.SPECIAL))]:
            yield pre + w + post
    yield from words(rng, th)
    yield from exhaust(list("ifn_1é"), 5 if th else 4)
    yield from exhaust(list("iasInO"), 5 if th else 4)
    chars = list("abfinorstuyzABEINOTZ_0159é名λß")
    yield from mixed(rng, chars, 8000 if th else 1500, 1, 14)
    yield from mixed(rng, KEYWORDS + ["_", "1", " ", " ", "a", "(", "\n", "é"], 8000 if th else 1500, 2, 7)


def alike(rng, count):
    """Lexemes that differ in little, in one text: names, numbers, strings, comments."""
    letters = "abcdefghijklmnopqrstuvwxyz_"
    for _ in range(count):
        n = rng.choice([2, 4, 7, 8, 9, 12, 13, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65, 130, 260])
        kind = rng.choice(["%s", "%s", "%s", "'%s'", '"""%s"""', "1%s", "# %s\n", "b'%s'", "# type: %s\n"])
        pool = "0123456789" if kind == "1%s" else letters if kind == "%s" else letters + " 19"
        if rng.random() < 0.2 and "1" not in kind:
            pool += "é名"
        w = [rng.choice(pool[:26] if k == 0 else pool) for k in range(n)]
        few = [w]
        for _ in range(rng.choice([1, 2, 3])):
            v = list(rng.choice(few))
            x = rng.random()
            if x < 0.6:
                m = len(v)
                v[rng.choice([rng.randrange(m), m - 1, 0, m // 2]) if pool[0] == "0" or kind != "%s" else rng.randrange(1, m)] = rng.choice(pool)
            elif x < 0.75:
                v.append(rng.choice(pool))
            elif x < 0.9 and len(v) > 2:
                del v[rng.randrange(1, len(v))]
            else:
                k = rng.randrange(1, len(v))
                v[k:] = v[k:][::-1]
            few.append(v)
        texts = [kind % "".join(v) for v in few + [few[0]]]
        yield rng.choice([" ", " = ", ", ", "\n", ")(", " + "]).join(texts) + "\n"


def c01(rng, th):
    k = 0
    yield from alike(rng, 9000 if th else 1500)
    for w in WIDE:
        for pre, post in [("", ""), ("a", "b"), ("'", "'"), ("# ", "\n"), ("1", ""), ("x = ", " y\n"), ("'''\n", "\n''' a\n"), ("if ", ":\n  a\n"), ("r\"", "\" z"),
                          ("# type: ", "\nb"), ("(", "\n)"), ("_", "_1 ")]:
            yield pre + w + post
        yield w + rng.choice(WIDE) + rng.choice(ASCII) + rng.choice(WIDE)
    for c in ASCII + CONTROL + ["\t", "\n", "\r", "é", "🐍"]:
        for pre in BEFORE:
            k += 1
            yield pre + c + ["", "a", " ", "\n", "=", "'", "1", "#", ")"][k % 9]
    for c in CONTROL:
        for pre, post in [("'", "'"), ("'a\\", "b'"), ('"""\n', '""" x'), ("'''\\", "'''"), ("# ", "\na"), ("# type: ", "\n"), ("#", ""), ("1", ""), ("a", "b"), ("\\", "\n"),
                          ("a\n ", " b\n"), ("if a:\n  b\n", "  c\n"), ("(\n", "a)"), ("=", "="), ("0x", "1"), ("r'", "'"), ("b", "'x'"), ("'", ""), ("'\\", ""), ("a\n", "\n"), ("", "# c\na")]:
            yield pre + c + post
    yield from exhaust(["'", "\\", "\0", "a", "\n"], 5)
    yield from exhaust(["#", "\0", " ", "a", "\n"], 4)
    yield from exhaust(["a", " ", "\n", "1", "("], 5)
    yield from exhaust(["é", "'", "#", "\n", "名"], 5)
    yield from exhaust(["a", "\\\n", "  ", "\n", "'\n"], 5 if th else 4)
    yield from exhaust(["+", "a", "\t", "\r", "🐍", "# type: é"], 4)
    yield from mixed(rng, FRAG, 20000 if th else 3500, 2, 14)
    yield from mixed(rng, FRAG, 5000 if th else 800, 3, 12, "if é:\n  ", "\n")
    yield from mixed(rng, ["é", "名", "🐍", "a", "'é'", "'名", "'", " ", "\n", "+", "# é", "1"], 5000 if th else 1500, 2, 10)
    yield from mixed(rng, ["a", "\r\n", "1", " ", "#c", "\r\n  "], 100, 2, 6, "", "\r\n")


CONF = {
    "C01": (c01, ["span", "text", "trivia"]),
    "C02": (c02, ["span"]),
    "C03": (c03, ["span", "text"]),
    "C04": (c04, ["span", "text"]),
    "C05": (c05, ["span", "text"]),
    "C06": (c06, []),
    "C07": (c07, []),
    "C08": (c08, ["span", "text"]),
    "C09": (c09, ["trivia", "span"]),
}


# Texts outside what the scanner's specification covers (see DESIGN.md).
KNOWN_WIDE = set(WIDE)


def in_scope(t):
    return all(ord(c) < 128 or c in KNOWN_WIDE for c in t)


def texts(prop, rng, th):
    make = CONF[prop][0]
    return list(dict.fromkeys(t for g in (make(rng, th), common(rng, th)) for t in g if in_scope(t)))
