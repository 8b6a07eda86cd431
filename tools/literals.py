"""Numbers written in the crate's source: a dictionary for the generators (lengths, counts, values).

Only a source of inputs worth trying: nothing is concluded from it."""
import os, re, struct, sys

INT = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?"


def strip(src):
    src = re.sub(r"/\*.*?\*/", " ", src, flags=re.S)
    src = re.sub(r"//[^\n]*", " ", src)
    src = re.sub(r'"(?:\\.|[^"\\])*"', '""', src)
    m = re.search(r"#\[cfg\(test\)\]\s*mod\s", src)
    return src[: m.start()] if m else src


def num(t):
    t = re.sub(r"(?<![0-9a-fA-F])[iu](?:8|16|32|64|128|size)$", "", t.replace("_", ""))
    t = re.sub(r"[iu](?:8|16|32|64|128|size)$", "", t)
    return int(t, 0) if t.startswith(("0x", "0b")) else int(t)


def literals(root):
    ints, floats = set(), set()
    for d, dirs, files in os.walk(os.path.join(root, "src")):
        for f in files:
            if not f.endswith(".rs"):
                continue
            s = strip(open(os.path.join(d, f), errors="replace").read())
            for m in re.finditer(r"(?<![\w.])\d[\d_]*(?:\.\d[\d_]*(?:[eE][-+]?\d+)?|[eE][-+]?\d+|\.(?![\w.]))(?:_?f(?:32|64))?|(?<![\w.])\d[\d_]*_?f(?:32|64)", s):
                try:
                    floats.add(float(re.sub(r"_?f(?:32|64)$", "", m.group()).replace("_", "")))
                except ValueError:
                    pass
            for m in re.finditer(r"(?<![\w.])%s(?![\w.])(?:\s*(?:<<|\*|\+|-)\s*%s(?![\w.]))*" % (INT, INT), s):
                parts = re.findall(r"<<|[*+-]|" + INT, m.group())
                try:
                    vals = [num(p) for p in parts[::2]]
                except ValueError:
                    continue
                ints.update(v for v in vals if v < 1 << 64)
                if len(vals) > 1:
                    expr = " ".join(str(num(p)) if i % 2 == 0 else p for i, p in enumerate(parts))
                    expr = re.sub(r"(\d+) << (\d+)", lambda k: str(int(k[1]) << min(int(k[2]), 64)), expr)
                    try:
                        v = eval(expr, {"__builtins__": {}})
                    except Exception:
                        continue
                    if 0 <= v < 1 << 64:
                        ints.add(v)
    for v in list(ints):
        # bit patterns of numbers
        if 1 << 24 < v < 1 << 32:
            f = struct.unpack("<f", struct.pack("<I", v))[0]
        elif v >= 1 << 52:
            f = struct.unpack("<d", struct.pack("<Q", v))[0]
        else:
            continue
        if f == f and abs(f) < 1e300:
            floats.add(f)
    return {"ints": sorted(v for v in ints if v < 1 << 40), "floats": sorted(floats)}


if __name__ == "__main__":
    print(literals(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
