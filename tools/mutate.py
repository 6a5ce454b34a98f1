#!/usr/bin/env python3
"""Development aid (not a check): plants small random edits in a scratch copy of /repo and lists those that the mapped checks do not notice.
usage: mutate.py OUT.jsonl --n N --seed S --workers W [--files a.c,b.c] [--why OPERATOR,...] [--scale 0.3]"""
import argparse, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "sha256.c": "A02 A03 B04", "spasm_ZZp.c": "A01 C01 D01", "spasm_prng.c": "A03 C06 D08", "spasm_certificate.c": "D07 D08 D06 B05",
 "spasm_dm.c": "E02 E03 G03", "spasm_echelonize.c": "D01 D02 F01 C06 D06 F02 F03", "spasm_io.c": "B04 B05 B06 B03 G03",
 "spasm_kernel.c": "D04 F01 F02", "spasm_rref.c": "D03 F01 D04", "spasm_matching.c": "E01 E02", "spasm_permutation.c": "B02 E02 E03",
 "spasm_pivots.c": "C04 F01 D01 D02", "spasm_reach.c": "C03 C04 D01", "spasm_scatter.c": "C01 C02", "spasm_scc.c": "E03 E02",
 "spasm_schur.c": "C05 C06 F01 D01 D02", "spasm_solve.c": "D05 F01 D07", "spasm_spmv.c": "C01 D06", "spasm_submatrix.c": "B02 B03",
 "spasm_transpose.c": "B02 B03", "spasm_triangular.c": "C02 C03 D05", "spasm_triplet.c": "B01 B03", "spasm_util.c": "B03 B01 F02 F03 D01 E02",
 "spasm_ffpack.cpp": "C07 D01 D02", "bitmap.c": "G03", "check_cert.c": "G01", "common.c": "G02 G01 G03", "dm.c": "G03", "echelonize.c": "G02",
 "kernel.c": "G02", "rank.c": "G01", "solve.c": "G02", "stack.c": "G03", "transpose.c": "G03", "vertical_swap.c": "G03", "spasm.h": "A01 B01 C05"}
REL = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}
def mutants(path, src):
    out = []; lines = src.split("\n"); incomment = False; skip = 0
    for ln, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#if 0"): skip = 1
        if s.startswith("#endif"): skip = 0; continue
        if skip: continue
        if s.startswith("/*") and "*/" not in s: incomment = True; continue
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith("//") or s.startswith("*") or (s.startswith("#") and "pragma" not in s): continue
        if "fprintf(stderr" in s or s.startswith("assert") or "spasm_human_format" in s or s.startswith("warn") or "fflush" in s: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group(0)), l); code = re.sub(r"//.*$|/\*.*?\*/", lambda m: "\x01" * len(m.group(0)), code)
        def put(a, b, new, why): out.append((ln, l[:a] + new + l[b:], why))
        if "#pragma omp" in s:
            if any(w in s for w in ("critical", "atomic", "flush", "for")): put(0, len(l), "", "drop pragma")
            continue
        for m in re.finditer(r"(?<![<>=!\-+])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if m.start() and code[m.start()-1] == "-": continue
            if "#include" in code: continue
            put(m.start(), m.end(), REL[m.group(0)], "rel")
        for m in re.finditer(r" (\+|-|\*|/|%) ", code):
            op = m.group(1); new = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[op]
            if op == "*" and re.match(r"\s*(const |struct |static |extern )*\w+\s*$", code[:m.start()]): continue
            put(m.start(1), m.end(1), new, "arith")
        for m in re.finditer(r" \+ 1\b| - 1\b", code): put(m.start(), m.end(), "", "drop1")
        for m in re.finditer(r"&&|\|\|", code): put(m.start(), m.end(), "||" if m.group(0) == "&&" else "&&", "bool")
        for m in re.finditer(r"(?<![\w.\x01])(\d+)(?![\w.])", code):
            v = int(m.group(1)); put(m.start(), m.end(), str(v + 1), "const+1")
            if v > 0: put(m.start(), m.end(), str(v - 1), "const-1")
        for m in re.finditer(r"\+=|-=", code): put(m.start(), m.end(), "-=" if m.group(0) == "+=" else "+=", "acc"); put(m.start(), m.end(), "=", "acc=")
        for m in re.finditer(r"\b(i64|long long)\b(?= \w+ =)", code): put(m.start(), m.end(), "int", "narrow")
        for m in re.finditer(r"\(i64\) ?", code): put(m.start(), m.end(), "", "nocast")
        for m in re.finditer(r"\btrue\b|\bfalse\b", code): put(m.start(), m.end(), "false" if m.group(0) == "true" else "true", "bool const")
        mm = re.match(r"(\s*)(?:\} else )?if \((.*)\)\s*(\{?)\s*$", code)
        if mm and code.count("(") == code.count(")"):
            a, b = mm.start(2), mm.end(2); put(a, b, "0", "if0"); put(a, b, "1", "if1")
        if re.match(r"\s*[\w>\-\.\[\]\(\)\* ]*(=|\+=|-=|\+\+|--|\()[^;]*;\s*$", code) and not re.match(r"\s*(const |static |struct |extern |unsigned |return|for|while|else|if)", code) and not re.match(r"\s*(int|i64|u32|u64|u8|bool|char|double|float|void|spasm_\w+|size_t|FILE) [\w\*]", code):
            put(0, len(l), re.match(r"\s*", l).group(0) + ";", "delete")
        SW = {"n": "m", "m": "n", "i": "j", "j": "i", "r": "n", "npiv": "n", "tail": "head", "head": "tail", "U": "A", "A": "U", "px": "k", "Uqinv": "qinv", "qinv": "pinv", "pinv": "qinv", "p_in": "p", "top": "m", "rank": "n", "Sm": "m", "Sn": "n", "L": "U", "height": "width", "width": "height"}
        for m in re.finditer(r"(?<![\w.>\x01])([A-Za-z_]\w*)\b(?!\s*\()", code):
            if m.group(1) in SW: put(m.start(), m.end(), SW[m.group(1)], "name")
        for m in re.finditer(r"->(n|m|p|q|j|x|nz|nzmax|i)\b", code): put(m.start(1), m.end(1), {"n": "m", "m": "n", "p": "q", "q": "p", "j": "i", "i": "j", "nz": "nzmax", "nzmax": "nz", "x": "x"}[m.group(1)], "field")
        mm = re.match(r"\s*for \(.*?< ([^;]*);", code)
        if mm: put(mm.end(1), mm.end(1), " - 1", "last iteration"); put(mm.start(1), mm.end(1), "spasm_min(%s, 40)" % l[mm.start(1):mm.end(1)], "cap"); put(mm.start(1), mm.end(1), "spasm_min(%s, 600)" % l[mm.start(1):mm.end(1)], "cap")
        mm = re.match(r"\s*for \([\w ]*= ([^;]*);", code)
        if mm: put(mm.end(1), mm.end(1), " + 1", "first iteration")
        mm = re.match(r"(\s*)(?:\} else )?if \((.*)\)\s*(\{?)\s*$", code)
        if mm and code.count("(") == code.count(")"):
            put(mm.end(2), mm.end(2), " && n > 3", "if rare"); put(mm.end(2), mm.end(2), " && !(n % 7 == 5)", "if rare"); put(mm.end(2), mm.end(2), " || n == 37", "if rare")
        if re.match(r"\s*(continue|break);", code): put(0, len(l), re.match(r"\s*", l).group(0) + ";", "delete"); 
        if re.match(r"\s*break;", code): put(0, len(l), l.replace("break", "continue"), "brk->cont")
        if re.match(r"\s*continue;", code): put(0, len(l), l.replace("continue", "break"), "cont->brk")
    return [(path, ln, lines[ln], new, why) for ln, new, why in out]
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--n", type=int, default=400); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--files"); ap.add_argument("--why"); ap.add_argument("--scale", type=float, default=0.3); ap.add_argument("--only", help="re-run the survivors listed in this file"); a = ap.parse_args()
    ms = []
    if a.only:
        for l in open(a.only):
            d = json.loads(l)
            if d["verdict"] == "survived": ms.append((d["path"], d["line"] - 1, d["old"], d["new"], d["why"]))
    else:
        for root in ("src", "tools"):
            for f in sorted(os.listdir("/repo/" + root)):
                if f in MAP and (not a.files or f in a.files.split(",")): ms += mutants(root + "/" + f, open("/repo/%s/%s" % (root, f)).read())
        ms = [m for m in ms if m[2] != m[3] and (not a.why or m[4] in a.why.split(","))]; random.Random(a.seed).shuffle(ms); print(len(ms), "mutants in all"); ms = ms[:a.n]
    out = open(a.out, "a"); t0 = time.time(); import queue as Q, threading
    free = Q.Queue(); lock = threading.Lock(); cnt = {}
    for w in range(a.workers):
        d = "/tmp/vt-mut/w%d" % w; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for sub in ("src", "tools"): shutil.copytree("/repo/" + sub, d + "/" + sub)
        free.put(w)
    def one(m):
        w = free.get(); d = "/tmp/vt-mut/w%d" % w; p = d + "/" + m[0]; orig = open("/repo/" + m[0]).read(); v = "survived"; by = None; t = time.time()
        try:
            ls = orig.split("\n")
            if ls[m[1]] != m[2]: v = "stale"
            else:
                ls[m[1]] = m[3]; open(p, "w").write("\n".join(ls))
                env = dict(os.environ, VT_REPO=d, VT_BUILD="/tmp/vt-mut/b%d" % w, VT_BUILD_MAX=str(400 << 20))
                for c in MAP[os.path.basename(m[0])].split():
                    r = subprocess.run(["nice", "timeout", "200", sys.executable, VERIF + "/harness/run.py", c, "--first", "--no-evidence", "--scale", str(a.scale)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 2: v = "nobuild"; break
                    if r.returncode: v = "killed"; by = c; break
        finally: open(p, "w").write(orig); free.put(w)
        with lock:
            out.write(json.dumps(dict(path=m[0], line=m[1] + 1, old=m[2], new=m[3], why=m[4], verdict=v, by=by, t=round(time.time() - t, 1))) + "\n"); out.flush(); cnt[v] = cnt.get(v, 0) + 1
    with ThreadPoolExecutor(max_workers=a.workers) as ex: list(ex.map(one, ms))
    print(cnt, round(time.time() - t0), "s")
main()
