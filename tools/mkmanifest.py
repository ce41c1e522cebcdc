#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCAN = "TLA+ specification of the scanner (specs/Lexer.tla); TLC checks its invariants and that every recorded trace of the real scanner is one of its behaviours (LexConform.tla)"
TREE = "TLA+ specification of scanner and pushdown parser (Lexer, Grammar, Parser); TLC generates sentences from it (Gen.tla) and checks the trees the real parser builds for them against it (TreeConform.tla)"
TECH = {"C10": "TLA+ specification of two scanners called under a schedule (Onward.tla over Lexer.tla); TLC checks that every recorded sequence of calls of the real scanners is one of its behaviours",
        "C24": "TLA+ specification of scanner and parser; TLC checks the recorded outcome of every text against the outcome of the machines (Outcome.tla)",
        "C25": "TLA+ specification of the scanner; TLC checks that every text it refuses is refused by the real parser (Outcome.tla)",
        "C26": "TLA+ specification of the scanner; TLC checks that pairs of texts with the same tokens have the same recorded tree (Layout.tla, TreeConform.tla)",
        "C27": "TLA+ specification of scanner and parser run side by side over the text; TLC checks that the offset the real error names is the beginning of the token the machine refuses or of a part that is open there or has just ended (Where.tla)"}
TECH["C28"] = "TLA+ specification of scanner and pushdown parser, the parser started on single productions one after the other (Part.tla); TLC checks the trees the real productions build when called at tokens of a text, and where they leave the parser, against it"
TECH["C29"] = "TLA+ specification of several cursors under a sequence of calls (Buffer.tla); TLC checks that every recorded history of calls of the real buffers is one of its behaviours"
TECH["C30"] = "TLA+ specification of the scanner with its position between calls (Position.tla over Lexer.tla); TLC checks that every recorded sequence of tokens and positions of the real scanner is one of its behaviours"
TECH["C31"] = "TLA+ specification of several parsers in one program (Joint.tla over the machines of TreeConform.tla and Part.tla); TLC checks that every recorded schedule of calls, in turns and in threads, is one of its behaviours"
NOTE_JOINT = "What each parser answers alone is decided by the specification of the language; what it answers among others, in generated schedules, after a hundred parses of the same text, and in threads running at the same time, must be the same. Schedules and texts are samples, and threads are interleaved by the operating system, not exhaustively. Trusted: TLC and the harness that makes the calls."
NOTE_POS = "Texts of all scanner corpora are run through the real scanner, asking for its position before the first and after every call, three times at the end; beyond the bounds of those corpora the texts are samples. For INDENT, DEDENT and errors only a range is required. Trusted: TLC and the harness that makes the calls."
NOTE_PART = "Productions are called at every token of hand-written and generated programs, alone and in short sequences; which production where is a sample. The unfinished production for typed argument lists is left out, and the ones that assume their first token (lambda) are only called there. What a call does when the text after its phrase cannot be scanned is left open. Trusted: TLC and the harness that makes the calls and prints trees."
NOTE_BUF = "All histories of up to four calls (longer ones sampled) on short texts, random histories of 120 calls on up to three buffers, and positions up to 66000. Behind the end the position is only required not to be inside the text. Trusted: TLC and the harness that makes the calls."
NOTE_DUO = "Pairs of texts under generated schedules (one after the other, in turns, in bursts, at random, with parses in between, beyond the ends) are run through real scanners in one process; schedules and texts are samples. What a call after an error returns is left open. Trusted: TLC and the harness that makes the calls."
NOTE_WHERE = "Programs and generated sentences broken off or altered after every token are given to the real entry points; only the offset in the message is compared. Which of the surrounding constructs an error names is left open. Texts with the name 'match' are left out, because the match statement is not implemented. Trusted: TLC, the harness that takes the first number of the message."
NOTE_SCAN = "All texts over small alphabets of pieces up to a bound, and random longer ones, are run through the real scanner and decided by the specification; beyond the bounds the texts are samples. Trusted: TLC, the harness that prints tokens, the keyword and operator tables written down from the language."
NOTE_TREE = "All token sequences of the grammar (and the shortest wrong ones) up to a bound per construct, random walks through the grammar and altered sequences are run through the real parser and decided by the specification; beyond the bounds the texts are samples. Trusted: TLC, the harness that prints trees; a text is left out where the specified subset and CPython's grammar disagree."
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    scan = p <= "C10"
    checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=TECH.get(p, SCAN if scan else TREE), level="model_checking",
                       level_note=NOTE_DUO if p == "C10" else NOTE_WHERE if p == "C27" else NOTE_PART if p == "C28" else NOTE_BUF if p == "C29" else NOTE_POS if p == "C30" else NOTE_JOINT if p == "C31" else NOTE_SCAN if scan or p == "C25" else NOTE_TREE))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the harness includes /repo/src/main.rs as its crate root, so it sees private modules without a change to /repo.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
