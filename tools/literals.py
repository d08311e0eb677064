#!/usr/bin/env python3
"""The words and numbers of the code under test that were not in it when this was written.

They are offered to the bounded searches as inputs to try (names, texts, sizes); no verdict depends
on them. `python3 tools/literals.py` rewrites the list of known ones, tools/literals.json,
and the list of functions and constants the code had, tools/known_fns.json."""
import glob, json, os, re, subprocess
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
KNOWN = os.path.join(HERE, "tools", "literals.json")
NAMES = os.path.join(HERE, "tools", "known_fns.json")

TOKEN = re.compile(r'''
  (?P<comment> //[^\n]* | /\*.*?\*/ )
| (?P<raw> b?r(?P<h>\#*)"(?P<rawtext>.*?)"(?P=h) )
| b?"(?P<str> (?:\\.|[^"\\])* )"
| b?'(?P<char> \\x[0-7][0-9a-fA-F] | \\u\{[0-9a-fA-F]+\} | \\. | [^'\\\n] )'
| (?P<max> \b[ui](?:8|16)::MAX\b )
| (?P<num> \b(?:0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b )
| (?P<word> [A-Za-z_][A-Za-z_0-9]* )
''', re.X | re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    def one(m):
        e = m.group(0)
        if e.startswith("\\x"):
            return chr(int(e[2:], 16))
        if e.startswith("\\u"):
            c = int(e[3:-1], 16)
            return chr(c) if c < 0x110000 and not 0xD800 <= c < 0xE000 else ""
        if e.startswith("\\\n"):
            return ""
        return ESC.get(e[1], e[1])
    return re.sub(r"\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\\n\s*|\\.", one, s, flags=re.S)


def literals():
    out = Counter()
    for crate in ("static-xml", "static-xml-derive"):
        for f in sorted(glob.glob(os.path.join(REPO, crate, "src", "**", "*.rs"), recursive=True)):
            for m in TOKEN.finditer(open(f, encoding="utf-8", errors="replace").read()):
                if m.group("comment") or m.group("word"):
                    continue
                if m.group("raw"):
                    out["s" + m.group("rawtext")] += 1
                elif m.group("str") is not None:
                    out["s" + unescape(m.group("str"))] += 1
                elif m.group("char") is not None:
                    out["s" + unescape(m.group("char"))] += 1
                elif m.group("max"):
                    out["n%d" % {"u8": 255, "i8": 127, "u16": 65535, "i16": 32767}[m.group("max").split(":")[0]]] += 1
                elif m.group("num"):
                    t = re.sub(r"[ui](8|16|32|64|128|size)$", "", m.group("num")).replace("_", "")
                    n = int(t, 0) if t.startswith("0x") else int(t)
                    out["n%d" % n] += 1
                    if m.group("num").startswith("0x") and n < 0x80:
                        out["s" + chr(n)] += 1
    return out


def new():
    """(texts, numbers) that are new, or occur more often than before."""
    try:
        known = Counter(json.load(open(KNOWN)))
        d = literals() - known
    except (OSError, ValueError):
        return [], []
    return sorted({k[1:] for k in d if k[0] == "s" and k != "s"}), sorted({int(k[1:]) for k in d if k[0] == "n" and 1 < int(k[1:]) <= 70000})


def write(path):
    texts, nums = new()
    with open(path, "w") as f:
        for t in texts[:60]:
            f.write("s\t" + t.encode("utf-8", "surrogatepass").hex() + "\n")
        for n in nums[:12]:
            f.write(f"n\t{n}\n")
    return texts, nums


def names():
    """The functions and constants of each file: what is not among them is put back where it is used (tools/extract/src/inline.rs)."""
    files = [f for crate in ("static-xml", "static-xml-derive")
             for f in sorted(glob.glob(os.path.join(REPO, crate, "src", "**", "*.rs"), recursive=True))]
    o = subprocess.run([os.path.join(HERE, "build", "extract", "release", "extract"), "names"] + files, check=True, capture_output=True, text=True).stdout
    return {os.path.relpath(f, REPO): v for f, v in json.loads(o).items()}


if __name__ == "__main__":
    json.dump(names(), open(NAMES, "w"), indent=0)
    json.dump(dict(sorted(literals().items())), open(KNOWN, "w"), indent=0, ensure_ascii=True)
    print(len(literals()), "known")
