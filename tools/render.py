"""Turns token kind sequences (as the specification generates them) into source texts."""
import random
from mktables import OPS, KW

SPELL = {}
for _s, _k in list(OPS.items()) + list(KW.items()):
    SPELL.setdefault(_k, _s)
KINDS = {s: k for s, k in list(OPS.items()) + list(KW.items())}
KINDS.update({"a": "AtomName", "1": "AtomNumber", "s": "AtomString", "NL": "Newline", "IND": "Indent", "DED": "Dedent",
              "TC": "TypeComment", "EOF": "EOF"})


def kinds(spec):
    """'a + ( NL' -> token kinds."""
    return [KINDS[w] for w in spec.split()]


NAMES = "a b c d e f g h k m n p q r t v w x y z".split()
WIDE = ["é", "ßx", "名", "λ1", "_", "__a", "i1", "If", "ifx", "in_", "matchx", "r", "bu", "𝕏"]
# Names that mean something elsewhere, that begin or end as something else does, and long ones.
SPECIAL = ("print exec type case Match match_ self cls super object int str list dict set range len open eval isinstance staticmethod property Exception ValueError "
           "__init__ __name__ __debug__ __class__ __future__ __all__ __ ___ _1 _a_ annotations none true false TRUE NONE nonE True_ None1 Falsey nil null undefined "
           "in1 isx is_ notx not_ orr or_ and_ andy asx as_ assertion asyncio awaits breaks classes continued definition deleted elifs elsewhere excepts finallyx format fromage globals iff imports "
           "lambda_ lambdas nonlocals passed raised returns tryx trying whiles withx yields yielded Def DEF Class Yield Lambda rb Rb br fr f F u U b B R rf ur e E j J l L x X o O e5 E1 e10 x0 o7 b1 xff nan inf "
           "a0 a1 A AB aB a_b A1_ i I ii ª é1 名名 éa aé _é 𝕏1 x1y2z3").split()
SPECIAL += ["n" * n for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256)] + ["_" * 20, "é" * 40, "a" + "1" * 40]
NUMS = ["1", "0", "23", "0x1F", "1.5", "1e3", "2j", "0b10", "1_0", ".5", "3.", "0o7"]
NUMBERS = ("00 000 0_0 2 7 9 10 42 100 127 128 255 256 999 1000 1024 32767 65535 65536 2147483647 2147483648 4294967296 9223372036854775807 9223372036854775808 18446744073709551616 1_000_000 "
           "0x0 0X0 0xdead_BEEF 0x_1 0xe 0xE1 0xffffffffffffffffff 0b0 0B1 0b_1_0 0o0 0O17 0o_7 0.0 0. .0 1. 1.0 1.e5 1.0e-5 1E+5 0e0 1e0 1e-0 12.34 .1_2 1_2.3_4 3.14j 1e5j .5J 0j 0J 1.j 1_0j 1e1_0 123456789012345678901234567890").split()
STRS = ['"s"', "'t'", '""', "b'u'", 'R"\\n"', '"""x\ny"""', "f'v'", "''''''", "rb'w'", "'#'", "'é'"]
STRINGS = ["''", "'a'", "' '", "'\\''", "'\"'", '"\'"', '"\\""', "'\\\\'", "'\\n\\t\\x41\\u00e9\\N{DASH}'", "r''", "b''", "u''", "f''", "F'{a}'", "f'{a!r:>{b}}'", "f'{{}}'", "Rb''", "bR\"\"", "rf'x'", "fR'{x}'",
           "U'é'", "r'\\'", "r'\\''", "'(' ", "'['", "'}'", "')'", "'a b'", "'if'", "'# type: int'", "'='", "':'", "','", "';'", "'...'", "'->'", "'1'", "'\\\n'", "'a\\\nb'", '""""""', '"""a"""', '""" " """', "'''\n'''", "'''\n  a\n'''",
           "'''#'''", "'''(\n'''", '"""\\"""" """', "b\"\"\"x\"\"\"", "'名🐍'", "'" + "s" * 64 + "'", "'" + "s" * 255 + "'", "'''" + "x\n" * 40 + "'''", "'\t'", "'{}'", "'%s'", "'__main__'"]
STRINGS = [w.strip() for w in STRINGS]
TCS = ["# type: int", "# type: List[a]", "# type: () -> a", "# type: ignored"]
COMMENTS = TCS + ["# type: a", "# type:a", "#type: a", "# type:  a, b", "# type: (int) -> str", "# type: (*a, **b) -> c", "# type: 名", "# type: # c", "# type: type: x", "# type: 'a'", "# type: " + "x" * 300, "# type: a\t", "# type: ignore1", "# type: Ignore"]


class Layout:
    """How the tokens of a text are laid out. plain: one blank between tokens."""

    def __init__(self, rng, level):
        self.rng, self.level = rng, level      # level: "plain", "tight", "wild"
        self.unit = [rng.choice(["  ", " ", "    ", "\t"]) if level == "wild" else "  "]

    def gap(self, depth, newline="\n"):
        if self.level == "plain":
            return " "
        r = self.rng
        if self.level == "tight":
            return r.choice(["", "", " "])
        x = r.random()
        if x < 0.35:
            return ""
        if x < 0.75:
            return r.choice([" ", "  ", "\t", " \t", " ", "  ", "\t", " \f"])
        if depth and x < 0.92:
            return r.choice(["", " "]) + r.choice(["", "# c", "#"]) + newline + r.choice(["", " ", "\t", "     "]) + r.choice(["", newline])
        return " \\" + newline + r.choice(["", " ", "   "])


WORDY = ("AtomName", "AtomNumber", "AtomString")


def words_of(seq, rng, rich=False):
    """The text of every token but line ends and indentation."""
    out, names, last = [], 0, "a"
    for k in seq:
        if k in ("Newline", "Indent", "Dedent", "EOF"):
            w = None
        elif k == "AtomName":
            w = NAMES[names % len(NAMES)]
            if rich:
                x = rng.random()
                w = rng.choice(WIDE) if x < 0.12 else rng.choice(SPECIAL) if x < 0.3 else last if x < 0.4 else w
                last = w
            names += 1
        elif k == "AtomNumber":
            w = rng.choice(NUMS if rng.random() < 0.5 else NUMBERS) if rich else "1"
        elif k == "AtomString":
            w = rng.choice(STRS if rng.random() < 0.5 else STRINGS) if rich else '"s"'
        elif k == "TypeComment":
            w = rng.choice(COMMENTS) if rich else "# type: int"
        else:
            w = SPELL[k]
        out.append(w)
    return out


def lay_out(seq, words, rng, level="plain", newline="\n"):
    lay = Layout(rng, level)
    out, indents, depth = [], [""], 0
    fresh, prev = True, None
    for k, w in zip(seq, words):
        if k == "EOF":
            break
        if k == "Indent":
            indents.append(indents[-1] + (rng.choice(["  ", " ", "    ", "\t"]) if level == "wild" else "  "))
            continue
        if k == "Dedent":
            if len(indents) > 1:
                indents.pop()
            continue
        if k == "Newline":
            if level == "wild" and rng.random() < 0.25 and prev != "TypeComment":
                out.append(rng.choice(["", " ", "  "]) + rng.choice(["# c", "#", "", "# end"]))
            out.append(newline)
            if level == "wild" and rng.random() < 0.2:
                out.append(rng.choice(["", "  ", "\t", " # x", "# y", "      # z"]) + newline)
            fresh, prev = True, k
            continue
        if fresh:
            if level == "wild" and rng.random() < 0.03:
                out.append(rng.choice(["\f", "  \f", "\t\f"]))
            out.append(indents[-1])
        else:
            g = lay.gap(depth, newline)
            last = out[-1]
            if g == "" and last and touches(last, w):
                g = " "
            out.append(g)
        out.append(w)
        if k in ("PyLeftParen", "PyLeftBracket", "PyLeftCurly"):
            depth += 1
        if k in ("PyRightParen", "PyRightBracket", "PyRightCurly"):
            depth = max(0, depth - 1)
        fresh, prev = False, k
    return "".join(out)


def text_of(seq, rng, level="plain", rich=False, newline="\n"):
    """A source text for the sequence of token kinds (the final EOF is nothing)."""
    return lay_out(seq, words_of(seq, rng, rich), rng, level, newline)


def touches(a, b):
    """Whether the two tokens would read differently without a blank between them."""
    x, y = a[-1], b[0]
    word = lambda c: c.isalnum() or c == "_"
    if word(x) and (word(y) or y in "\"'."):
        return True
    if x in "\"'" and (y in "\"'" or word(y)):
        return True
    if x == "." and (y == "." or y.isdigit()):
        return True
    if word(y) and x == ".":
        return a[0].isdigit()
    return not word(x) and not word(y) and x not in "()[]{},;~\"'" and y not in "()[]{},;~\"'#"
