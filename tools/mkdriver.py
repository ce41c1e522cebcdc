#!/usr/bin/env python3
"""Generates harness/src/tables.rs (serializer match arms) from the enums of the original tree.
Run by hand when the enums grow; the generated file is committed."""
import re, sys
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
def variants(path):
    t = open(path).read()
    body = t[t.index("pub enum"):]
    body = body[body.index("{")+1:]
    out = []
    i = 0
    while True:
        m = re.compile(r"\s*([A-Z]\w*)\(").match(body, i)
        if not m: break
        d = 1; j = m.end(); fields = []; cur = ""; ang = 0
        while d:
            c = body[j]
            if c in "(": d += 1
            if c in ")": d -= 1
            if c == "<": ang += 1
            if c == ">": ang -= 1
            if d == 0: break
            if c == "," and d == 1 and ang == 0: fields.append(cur.strip()); cur = ""
            else: cur += c
            j += 1
        if cur.strip(): fields.append(cur.strip())
        out.append((m.group(1), fields))
        i = j + 1
        while i < len(body) and body[i] in ", \n\r": i += 1
    return out
toks = variants(repo + "/src/parser/tokens.rs"); nodes = variants(repo + "/src/parser/nodes.rs")
o = ["// Generated by tools/mkdriver.py from the Token and ASTNode enums.", "use crate::parser::nodes::ASTNode;", "use crate::parser::tokens::Token;", "use crate::driver::*;", "",
     "#[allow(unreachable_patterns)]", "pub fn token_view(t: &Token) -> TokView<'_> {", "    match t {"]
for n, f in toks:
    if n in ("AtomName", "AtomNumber", "TypeComment"):
        o.append(f'        Token::{n}(s, e, t, x) => TokView::new("{n}", Some((*s, *e)), t, Some(&**x), None),')
    elif n == "AtomString":
        o.append(f'        Token::{n}(s, e, t, x, p) => TokView::new("{n}", Some((*s, *e)), t, Some(&**x), p.as_deref()),')
    elif n == "Newline":
        o.append(f'        Token::{n}(s, e, t, a, b) => TokView::newline("{n}", (*s, *e), t, *a, *b),')
    elif n in ("Indent", "Dedent"):
        o.append(f'        Token::{n}(t) => TokView::new("{n}", None, t, None, None),')
    elif n == "EOF":
        o.append(f'        Token::{n}(s, t) => TokView::new("{n}", Some((*s, *s)), t, None, None),')
    else:
        o.append(f'        Token::{n}(s, e, t) => TokView::new("{n}", Some((*s, *e)), t, None, None),')
o += ['        _ => TokView::unknown(),', "    }", "}", "", "#[allow(unreachable_patterns)]", "pub fn node_view(n: &ASTNode) -> NodeView<'_> {", "    match n {"]
for n, f in nodes:
    vs = [f"f{i}" for i in range(len(f) - 2)]
    o.append(f'        ASTNode::{n}({", ".join(["s", "e"] + vs)}) => NodeView::new("{n}", *s, *e)' + "".join(f".field({v})" for v in vs) + ",")
o += ['        _ => NodeView::new("?", 0, 0),', "    }", "}", ""]
open("/verif/harness/src/tables.rs", "w").write("\n".join(o))
print(len(toks), len(nodes))
