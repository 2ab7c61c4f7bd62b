#!/usr/bin/env python3
"""Lists small mechanical mutants of the program's sources, to measure what the checks miss.
mutants.py list SRC > mutants.json ; mutants.py apply SRC mutants.json N (in place)"""
import json, re, sys, os, random

SKIP = ("error.rs", "consts.rs")
def files(root):
    for d, _, fs in os.walk(os.path.join(root, "src")):
        for f in sorted(fs):
            if f.endswith(".rs") and f not in SKIP:
                yield os.path.relpath(os.path.join(d, f), root)

def stmts(src):
    """(start, end) of statements: text between a line start and the ; ending it at depth 0"""
    out = []
    lines = src.split("\n")
    pos = 0
    offs = []
    for l in lines:
        offs.append(pos); pos += len(l) + 1
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith(("//", "use ", "pub ", "mod ", "}", "#", "fn ", "if ", "else", "match", "for ", ")", ".", "let ")):
            continue
        # find the end
        depth = 0
        for j in range(i, min(i + 14, len(lines))):
            for ch in lines[j]:
                depth += ch in "([{"; depth -= ch in ")]}"
            if depth < 0: break
            if depth == 0:
                if lines[j].rstrip().endswith(";"):
                    out.append((offs[i], offs[j] + len(lines[j])))
                break
    return out

RULES = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\.lt\(", ".le("), (r"\.gt\(", ".ge("), (r"\.le\(", ".lt("), (r"\.ge\(", ".gt("),
    (r"\.eq\(", ".ne("), (r"\.ne\(", ".eq("), (r"if !", "if "), (r"if (?=[a-z_]+[.(])(?!let)", "if !"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
    (r"checked_sub", "checked_add"), (r"checked_add", "checked_sub"), (r"saturating_sub", "saturating_add"), (r"saturating_add", "saturating_sub"),
    (r"\.max\(", ".min("), (r"\.min\(", ".max("),
    (r"AccountMeta::new\(", "AccountMeta::new_readonly("), (r"AccountMeta::new_readonly\(", "AccountMeta::new("),
    (r"Some\(", "None.or_else(|| Some(_X_"),
    (r"Less\b", "Greater"), (r"Greater\b", "Less"),
    (r"\.is_empty\(\)", ".is_empty().eq(&false)"),
]
def gen(root):
    out = []
    for f in files(root):
        src = open(os.path.join(root, f)).read()
        code_end = src.find("#[cfg(test)]")
        lim = code_end if code_end >= 0 else len(src)
        def add(kind, a, b, new):
            if a >= lim: return
            line = src.count("\n", 0, a) + 1
            ls = src.rfind("\n", 0, a) + 1
            l = src[ls:src.find("\n", a)]
            if l.strip().startswith(("//", "use ", "msg!", "#")): return
            out.append(dict(file=f, line=line, kind=kind, a=a, b=b, old=src[a:b], new=new))
        for pat, new in RULES:
            if "_X_" in new: continue
            for m in re.finditer(pat, src):
                add("op", m.start(), m.end(), new)
        for m in re.finditer(r"(?<![\w.\"\[])(\d[\d_]*)(?![\w\"\.])", src):
            v = int(m.group(1).replace("_", ""))
            add("num", m.start(), m.end(), str(v + 1))
            if v > 1: add("num", m.start(), m.end(), str(v - 1))
        for a, b in stmts(src):
            if "msg!" in src[a:b]: continue
            add("del", a, b, "")
        # swapped neighbouring arguments
        for m in re.finditer(r"(?<=[(,\s])(&?\*?[a-z_][\w.]*)(,\s*)(&?\*?[a-z_][\w.]*)(?=[,)])", src):
            if m.group(1) != m.group(3):
                add("swap", m.start(), m.end(), m.group(3) + m.group(2) + m.group(1))
        # an account of the instruction for another
        accs = re.search(r"let \[([^\]]*)\]", src)
        if accs and "processor" in f:
            names = [x.strip() for x in accs.group(1).split(",") if re.match(r"^[a-z_]+$", x.strip()) and not x.strip().startswith("_")]
            rnd = random.Random(f)
            for m in re.finditer(r"\b(" + "|".join(map(re.escape, names)) + r")\b", src[accs.end():lim] if names else ""):
                a = accs.end() + m.start(); b = accs.end() + m.end()
                other = rnd.choice([n for n in names if n != m.group(1)] or [m.group(1)])
                add("acct", a, b, other)
    return out

if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = gen(sys.argv[2])
        json.dump(ms, sys.stdout, indent=0)
    else:
        root, ms, n = sys.argv[2], json.load(open(sys.argv[3])), int(sys.argv[4])
        m = ms[n]; p = os.path.join(root, m["file"]); s = open(p).read()
        assert s[m["a"]:m["b"]] == m["old"]
        open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])
