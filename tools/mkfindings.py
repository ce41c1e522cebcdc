#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; checks only read it)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def dev(id, props, deviation, what): F.append(dict(id=id, properties=props, deviation=deviation, what=what))
def text(id, props, what, *inputs): F.append(dict(id=id, properties=props, what=what, inputs=list(inputs)))
def i(mode, t, shows="E"): return dict(mode=mode, text=t, shows=shows)

dev("crlf3", ["C01", "C08", "C09", "C26"], "crlf3",
    "a carriage return with a line feed is taken as three characters: the NEWLINE token or trivia spans one character too many, and the first character of the next line is lost (unit tests pin this span)")
dev("bsl", ["C06", "C08", "C26"], "bsl",
    "a line that starts with a backslash continuation neither opens nor closes blocks: its indentation is not analysed")
text("parameters", ["C20"], "a function with parameters is rejected (typed argument lists are not implemented)",
     i("file", "def f(a): pass\n"), i("file", "def f(a, b=1, *c, d, **e):\n  return a\n"))
text("comprehension-in-braces", ["C12"], "dictionary and set comprehensions are rejected",
     i("eval", "{a: b for a in c}"), i("eval", "{a for a in b}"))
text("bare-yield", ["C15"], "a yield without a value is rejected", i("file", "yield\n"), i("file", "a = yield\n"))
text("starred-value", ["C16"], "a starred element on the right of '=' is rejected (unit tests pin the node kind of the right side)",
     i("file", "a = *b, c\n"), i("file", "a = b = *c,\n"), i("file", "a += *b\n"), i("file", "a: b = *c\n"))
text("starred-iterable", ["C18"], "a starred element in the iterable of a for statement is rejected (unit tests pin the node kind of the iterable)",
     i("file", "for a in *b: c\n"), i("file", "for a in b, *c:\n  d\n"))
text("with-paren", ["C18"], "a with item that starts with a parenthesis is taken for the parenthesized form of the statement",
     i("file", "with (a) as b: pass\n"), i("file", "with (a).b: pass\n"), i("file", "with (a, b) as c: pass\n"))
text("match", ["C15"], "a statement that starts with the name 'match' is rejected (the match statement is not implemented)",
     i("file", "match = 1\n"), i("file", "match(a)\n"))
text("no-final-newline", ["C21"], "a last statement without a line end is rejected", i("file", "a"), i("file", "if a: pass"))
F.append(dict(id="deep-nesting", properties=["C24"], what="nesting deeper than the stack of the thread allows (here 100000 levels in 8 MB) ends the process instead of an error",
              inputs=[dict(mode="eval", repeat=["(", 100000, ""], stack=8 << 20, shows="A"), dict(mode="eval", repeat=["-", 100000, "a"], stack=8 << 20, shows="A")]))

FIX = """43519bc C04;1a56365 C04;5d4ccf3 C04;c1ebcf5 C06;ce5de42 C09;86e80f3 C09;e9ecc85 C05;79688ab C05;57391d8 C24;915ac18 C12;d915d9e C12;61c7343 C13;37b07bc C13;5d41622 C12;0622c51 C13;3495c7f C18;29876d2 C15;2e96b06 C16;414b4eb C23;fdcea1f C16;9146c09 C14;e8756a8 C14;614ab90 C17;469c55e C17;52f100e C15;f809bda C18;d6a955a C19;606dcfb C19;e1c9123 C20;bb7c26d C20;5060f07 C20;3bbb2f1 C20;12e34fc C06;fcf14cf C04;f4fa729 C14;bc2107d C14;cbb91d2 C24;d99e5b2 C06;1f8c75b C14;063b07f C05;f291814 C09;8f2b88a C27"""
fixed = []
for p in FIX.split(";"):
    c, prop = p.split()
    s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%H %s", c], capture_output=True, text=True).stdout.strip()
    h, _, subj = s.partition(" ")
    fixed.append("fixed: property=%s %s %s" % (prop, h[:12], subj.replace("fix: ", "", 1)))
json.dump(dict(findings=F, fixed=fixed), open(os.path.join(HERE, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
