"""The literals of the library's source: words and numbers it may treat specially.  They only guide
which inputs are generated (as the dictionary of a fuzzer does); no verdict depends on them.  Those
that the tree did not have when this was written are used more often."""
import glob
import json
import os
import re

SRC = "/repo/src"
KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def unescape(s):
    def one(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16))
        if x[0] == "u":
            try:
                return chr(int(x[2:-1].replace("_", ""), 16))
            except ValueError:
                return ""
        return ESC.get(x, "")
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", one, s, flags=re.S)


def number(s):
    s = s.replace("_", "")
    try:
        return int(s, 0) if s[:2].lower() in ("0x", "0b", "0o") else int(s)
    except ValueError:
        return None


def scan(src=SRC):
    strs, nums = set(), set()
    for f in sorted(glob.glob(os.path.join(src, "**", "*.rs"), recursive=True)):
        try:
            t = open(f, encoding="utf-8").read()
        except (OSError, UnicodeDecodeError):
            continue
        t = re.split(r"#\[cfg\(test\)\]\s*mod\b", t)[0]
        t = re.sub(r"^\s*//[^\n]*", "", t, flags=re.M)
        for q in re.findall(r"'(\\?\")'", t):
            strs.add('"')
        t = re.sub(r"'\\?\"'", "' '", t)
        for m in re.finditer(r'(?<!\w)b?r(#*)"(.*?)"\1', t, flags=re.S):
            strs.add(m.group(2))
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', t, flags=re.S):
            s = unescape(m.group(1))
            strs.add(s)
            strs.update(x for x in re.split(r"\{[^{}]*\}", s) if x)
        t = re.sub(r'"((?:[^"\\]|\\.)*)"', '""', t, flags=re.S)
        for m in re.finditer(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^'\\])'", t):
            strs.add(unescape(m.group(1)))
        num = r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:_?(?:usize|isize|[ui]\d+))?(?![\w.])"
        for m in re.finditer(num, t):
            n = number(m.group(1))
            if n is not None:
                nums.add(n)
        for m in re.finditer(num + r"(?:\s*(\*|<<|\+|-)\s*" + num + r")+", t):
            try:
                n = eval(re.sub(r"[^\d*<+\-x]", "", re.sub(r"(?:_?(?:usize|isize|[ui]\d+))", "", m.group(0))).replace("_", ""), {"__builtins__": {}})
                if isinstance(n, int) and 0 <= n < 1 << 40:
                    nums.add(n)
            except Exception:
                pass
    return {s for s in strs if 0 < len(s) <= 200}, {n for n in nums if 0 <= n < 1 << 40}


def load():
    """(words, numbers, words that are new, numbers that are new)"""
    strs, nums = scan()
    try:
        k = json.load(open(KNOWN))
    except OSError:
        k = {"strs": [], "nums": []}
    fs = sorted(strs - set(k["strs"]))
    fn = sorted(nums - set(k["nums"]))
    if os.environ.get("LITERALS"):       # to try out how the checks behave with others
        x = json.loads(os.environ["LITERALS"])
        fs, fn = sorted(set(fs) | set(x["strs"])), sorted(set(fn) | set(x["nums"]))
    return sorted(strs), sorted(nums), fs[:40], fn[:40]


if __name__ == "__main__":
    s, n = scan()
    with open(KNOWN, "w") as f:
        json.dump({"strs": sorted(s), "nums": sorted(n)}, f, indent=0, ensure_ascii=True)
        f.write("\n")
