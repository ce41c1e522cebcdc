"""The library: texts together with a digest of the trace the real code recorded for each, kept only where
TLC found that trace to be a behaviour of the specification (tools/mklibrary.py). A verdict depends on
nothing but the specification, the text and the trace; so a text whose trace still has the digest needs no
second verdict, and all others are decided by TLC as any text is. A library made with another specification
is not used."""
import hashlib, json, lzma, os, subprocess
import vlib
from vlib import Broken

DIR = os.path.join(vlib.VERIF, "library")
MODES = {"lex": "l", "file": "f", "eval": "e", "single": "s", "func": "t",
         "at-file": "F", "at-eval": "E", "at-single": "S", "at-func": "T"}
NAMES = {v: k for k, v in MODES.items()}
SCANNER = ("Tables", "Lexer", "LexConform")
BOTH = SCANNER + ("Grammar", "Parser", "TreeConform")
PART = ("Tables", "Lexer", "Grammar", "Parser", "Part")
WHERE = ("Tables", "Lexer", "Grammar", "Parser", "Where")


def key(name):
    """What the verdicts depend on."""
    h = hashlib.sha256()
    for m in SCANNER if name.startswith("lex") else WHERE if name == "at" else PART if name == "part" else BOTH:
        h.update(open(os.path.join(vlib.SPECS, m + ".tla"), "rb").read())
    return h.hexdigest()


def encode(case):
    m, t = case
    return ("p" + m[5:] + " " if m.startswith("part-") else MODES[m]) + t.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r")


def decode(line):
    if line[0] == "p":
        mode, t = line.split(" ", 1)
        mode = "part-" + mode[1:]
    else:
        mode, t = NAMES[line[0]], line[1:]
    if "\\" not in t:
        return mode, t
    out, k = [], 0
    while k < len(t):
        if t[k] == "\\":
            k += 1
            out.append({"n": "\n", "r": "\r"}.get(t[k], t[k]))
        else:
            out.append(t[k])
        k += 1
    return mode, "".join(out)


def masks(aspects):
    """The fields of token and node events that the aspects compare."""
    t, n = 3, 1
    t |= 12 if "span" in aspects else 0
    t |= 48 if "text" in aspects else 0
    t |= 64 if "trivia" in aspects else 0
    n |= 2 if "tree" in aspects else 0
    n |= 12 if "range" in aspects else 0
    n |= 16 if "places" in aspects else 0
    return t, n


def path(name, suffix):
    return os.path.join(DIR, name + suffix)


def sums(aspects):
    return ".%x%02x.sum" % masks(aspects)


def order(cases):
    """Neighbours resemble each other: short ones first, then by text."""
    return sorted(set(cases), key=lambda c: (c[0], len(c[1]) // 8, c[1]))


def save(name, cases, letters, digests):
    """digests: per list of aspects, the three bytes of every text."""
    os.makedirs(DIR, exist_ok=True)
    for f in os.listdir(DIR):
        if f.startswith(name + "."):
            os.remove(os.path.join(DIR, f))
    for suffix, data in ((".xz", "\n".join(map(encode, cases)).encode()), (".out.xz", letters)):
        with open(path(name, suffix), "wb") as f:
            f.write(lzma.compress(data, preset=9 | lzma.PRESET_EXTREME))
    for aspects, data in digests:
        with open(path(name, sums(aspects)), "wb") as f:
            f.write(data)
    with open(path(name, ".json"), "w") as f:
        json.dump(dict(key=key(name), texts=len(cases)), f)
        f.write("\n")


def usable(name):
    p = path(name, ".json")
    return os.path.exists(p) and json.load(open(p))["key"] == key(name)


def run(binary, lib, count, work, tag, aspects, shards=8, stack=256 << 20, limit=10):
    """(letters of the last events, digests) of the traces of all lines; '?' where there is no answer."""
    n = max(1, min(shards, count // 500))
    cut = [count * k // n for k in range(n + 1)]
    running = []
    t, m = masks(aspects)

    def start(a, b, k):
        o = os.path.join(work, "%s.%d.%d" % (tag, k, a))
        if os.path.exists(o):
            os.remove(o)
        p = subprocess.Popen([binary, "digest", lib, str(a), str(b), o, str(stack), str(limit), str(t), str(m)],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=vlib._limits)
        running.append((p, o, a, b, k))

    for k in range(n):
        start(cut[k], cut[k + 1], k)
    failures = 0
    whole = bytearray(b"\0\0\0?" * count)
    while running:
        p, o, a, b, k = running.pop(0)
        err = p.communicate()[1]
        got = open(o, "rb").read() if os.path.exists(o) else b""
        got = got[:len(got) // 4 * 4]
        if os.path.exists(o):
            os.remove(o)
        whole[4 * a:4 * a + len(got)] = got
        done = a + len(got) // 4
        if done < b:
            if p.returncode == 0:
                raise Broken("harness stopped early: " + err.decode(errors="replace")[-300:])
            failures += 1
            if failures <= 12 and done + 1 < b:
                start(done + 1, b, k)
    letters = bytes(whole[3::4])
    digests = bytearray(3 * count)
    for j in range(3):
        digests[j::3] = whole[j::4]
    return letters, bytes(digests)


def unpack(name, work):
    body = lzma.open(path(name, ".xz")).read()
    lib = os.path.join(work, name + ".lib")
    with open(lib, "wb") as f:
        f.write(body)
    return lib, body.decode().split("\n")


def differing(binary, name, work, aspects, outcome=False):
    """(number of texts, cases whose trace is another one than the one TLC has accepted); with outcome:
    whose trace ends with another kind of event."""
    lib, lines = unpack(name, work)
    letters, digests = run(binary, lib, len(lines), work, name, aspects)
    os.remove(lib)
    old = lzma.open(path(name, ".out.xz")).read()
    if outcome:
        return len(lines), [decode(l) for k, l in enumerate(lines) if old[k] != letters[k]]
    want = open(path(name, sums(aspects)), "rb").read()
    if want == digests and old == letters:
        return len(lines), []
    return len(lines), [decode(l) for k, l in enumerate(lines) if old[k] != letters[k] or want[3 * k:3 * k + 3] != digests[3 * k:3 * k + 3]]
