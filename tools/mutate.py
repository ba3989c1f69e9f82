"""Mutation sweep: plant one small change at a time in a scratch copy of /repo and see which check notices.

python3 tools/mutate.py OUT.jsonl [--n 400] [--seed 0] [--workers 2] [--jobs 4] [--files regex]
A tool for strengthening the checks; no registered check uses it.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = ["C01", "C02", "C03", "C04"]
MAP = [  # file -> checks, the cheapest first
    ("psgrid/integrate", ["C01"]), ("common/NC", ["C01"]), ("psgrid/initialize", ["C03", "C01", "C02", "C06"]),
    ("psgrid/finite_diff", ["C02"]), ("common/finite_diff", ["C02"]), ("psgrid/operators", ["C02", "C03", "C06"]),
    ("psgrid/mirror", ["C04"]), ("psgrid/square", ["C04"]), ("psgrid/spinflip", ["C04"]), ("psgrid/plotter", ["C04"]),
    ("psgrid/sigma", ["C05"]), ("psgrid/reduced", ["C05"]), ("psgrid/factor", ["C06"]), ("psgrid/psgrid", G + ["C05", "C06", "C22"]),
    ("common/coulomb", ["C03"]), ("hartree/", ["C06", "C22"]), ("libxc/", ["C12", "C22"]),
    ("pssolver/calc_density", ["C09", "C10"]), ("pssolver/calc_energy", ["C10", "C13"]),
    ("pssolver/calc_ked", ["C10"]), ("pssolver/calc_orb", ["C07", "C08", "C14", "C15"]), ("pssolver/calc_resp", ["C11"]),
    ("pssolver/get_homo", ["C10"]), ("pssolver/iter", ["C08", "C13"]), ("pssolver/norm", ["C07", "C09", "C08"]),
    ("pssolver/pssolver", ["C07", "C09", "C21", "C08", "C10", "C16", "C11"]),
    ("kohnsham/kohnsham", ["C10", "C21", "C13", "C14", "C15", "C22", "C09", "C20", "C27", "C31"]), ("kohnsham/scf", ["C21", "C13", "C14", "C22", "C20", "C30", "C27"]),
    ("inverter/", ["C16", "C21", "C25", "C26", "C30"]),
    ("partition/scf", ["C17", "C19", "C23", "C21", "C18", "C22", "C25", "C20", "C29", "C30"]),
    ("partition/energy", ["C19", "C23", "C18", "C17"]), ("partition/ep_nuc", ["C24", "C18"]), ("partition/vp_nuc", ["C24", "C18"]),
    ("partition/partition_pot", ["C24", "C18", "C19", "C25"]), ("partition/partition_en", ["C18", "C24"]),
    ("partition/ep_hxc", ["C24", "C18", "C23"]), ("partition/vp_hxc", ["C24", "C18"]), ("partition/vp_over", ["C24"]),
    ("partition/EnsCor", ["C24", "C23"]), ("partition/ep_kin", ["C25", "C18", "C23"]), ("partition/vp_kin", ["C25", "C26"]),
    ("partition/initialguess", ["C26", "C25", "C16", "C18"]),
    ("partition/partition", ["C17", "C19", "C21", "C23", "C24", "C03", "C18", "C20", "C22"]),
]
SKIP = r"tests/|examples/|_version|paramke|functionals/|__init__|vp_surprise|get_ts_WFI|get_ked_WFI|inverter/simple|inverter/get_Ts"
# lines that cannot matter (printing) or paths DESIGN.md lists as unreachable
SKIPLINE = re.compile(r"\bprint\(|warn\(|disp|DISP|surpris|paramke|libxcke|potential_inversion|overlap_hxc_2|raise |import |^\s*#|hfs")


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def rep(n, new, kind):
        s, e = pos(n)
        out.append((n.lineno, kind, s, e, new))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(id(n.value))
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp):
            l, r = seg(n.left), seg(n.right)
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: None}.get(type(n.op))
            if sw:
                s, e = pos(n.left)[1], pos(n.right)[0]
                mid = b[s:e].decode()
                sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}[type(n.op)]
                if sym in mid and "\n" not in mid:
                    out.append((n.lineno, "binop", s, e, mid.replace(sym, sw, 1)))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e = pos(n.left)[1], pos(n.comparators[0])[0]
            mid = b[s:e].decode()
            for a, c in (("is not", "is"), ("!=", "=="), ("<=", "<"), (">=", ">"), ("==", "!="), ("not in", "in"), ("<", "<="), (">", ">="), ("is", "is not"), ("in", "not in")):
                if mid.strip() == a:
                    out.append((n.lineno, "cmp", s, e, mid.replace(a, c)))
                    break
        elif isinstance(n, ast.BoolOp):
            s, e = pos(n.values[0])[1], pos(n.values[1])[0]
            mid = b[s:e].decode()
            if " and " in mid:
                out.append((n.lineno, "bool", s, e, mid.replace(" and ", " or ")))
            elif " or " in mid:
                out.append((n.lineno, "bool", s, e, mid.replace(" or ", " and ")))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "const")
            elif isinstance(v, int):
                rep(n, str(v + 1), "const")
                if v == 1:
                    rep(n, "0", "const")
            elif isinstance(v, float):
                rep(n, repr(v * 1.1 if v else 1.0), "const")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            rep(n, seg(n.operand), "neg")
        elif isinstance(n, ast.AugAssign):
            s, e = pos(n.target)[1], pos(n.value)[0]
            mid = b[s:e].decode()
            if "+=" in mid:
                out.append((n.lineno, "aug", s, e, mid.replace("+=", "-=")))
                out.append((n.lineno, "aug", s, e, mid.replace("+=", "=")))
            elif "-=" in mid:
                out.append((n.lineno, "aug", s, e, mid.replace("-=", "+=")))
            elif "*=" in mid:
                out.append((n.lineno, "aug", s, e, mid.replace("*=", "=")))
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            tw = {"KSa": "KSb", "KSb": "KSa", "KSA": "KSa", "KSB": "KSb", "va": "vb", "vb": "va", "na_frac": "nb_frac", "nb_frac": "na_frac", "nu_a": "nu_b",
                  "Za": "Zb", "Zb": "Za", "Xa": "Xr", "Xr": "Xa", "ha": "hr", "hr": "ha", "Na": "Nr", "Nr": "Na", "h1": "h3", "h3": "h1",
                  "vnuc": "vext", "vext": "vnuc", "exchange": "correlation", "correlation": "exchange"}.get(n.attr)
            if tw and isinstance(n.ctx, ast.Load):
                rep(n, "self." + tw, "attr")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                rep(n, seg(n.func.value), "nocopy")
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("mirror", "spinflip") and n.args:
                rep(n, seg(n.args[0]), "nomirror")
            elif isinstance(n.func, ast.Name) and n.func.id in ("max", "min"):
                rep(n.func, {"max": "min", "min": "max"}[n.func.id], "minmax")
            elif isinstance(n.func, ast.Name) and n.func.id == "copy" and n.args:
                rep(n, seg(n.args[0]), "nocopy")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(n, "pass", "delete")
    res = []
    for line, kind, s, e, new in out:
        if SKIPLINE.search(lines[line - 1]):
            continue
        t = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        if t != src:
            res.append({"file": path, "line": line, "kind": kind, "old": b[s:e].decode(), "new": new, "text": lines[line - 1].strip(), "src": t})
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=400)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--files", default=".")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--redo", help="rerun the survivors of an earlier output")
    a = ap.parse_args()
    todo = []
    root = "/repo/CADMium"
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), root)
            if f.endswith(".py") and not re.search(SKIP, p) and re.search(a.files, p):
                todo += mutants(p, open(os.path.join(d, f)).read())
    rnd = random.Random(a.seed)
    rnd.shuffle(todo)
    print(len(todo), "mutants")
    if a.redo:
        want = {(r["file"], r["line"], r["kind"], r["old"], r["new"]) for r in map(json.loads, open(a.redo)) if r["status"] == "survived"}
        todo = [t for t in todo if (t["file"], t["line"], t["kind"], t["old"], t["new"]) in want]
    # the same number from every file, as far as they go
    by = {}
    for t in todo:
        by.setdefault(t["file"], []).append(t)
    order = []
    while any(by.values()):
        for f in sorted(by):
            if by[f]:
                order.append(by[f].pop())
    order = order[:a.n]
    if a.list:
        for f in sorted({t["file"] for t in order}):
            print(f, sum(t["file"] == f for t in order))
        return
    lock = threading.Lock()
    q = list(reversed(order))
    # a frozen copy of the checks
    base = tempfile.mkdtemp(prefix="mut")
    shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns(".git", "out", "seeded", "evidence"))

    def work(k):
        wd = "%s/w%d" % (base, k)
        os.makedirs(wd)
        shutil.copytree("/repo", wd + "/repo", ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(base + "/verif", wd + "/verif")
        env = dict(os.environ, VERIF_REPO=wd + "/repo", VERIF_JOBS=str(a.jobs), VERIF_FAILFAST="1", VERIF_SEED="1", OPENBLAS_NUM_THREADS="1")
        while True:
            with lock:
                if not q:
                    break
                t = q.pop()
            p = wd + "/repo/CADMium/" + t["file"]
            orig = open("/repo/CADMium/" + t["file"]).read()
            open(p, "w").write(t["src"])
            r = {k2: v for k2, v in t.items() if k2 != "src"}
            r["status"], r["tried"] = "survived", []
            t0 = time.time()
            try:
                if re.match("psgrid|common", t["file"]):
                    e2 = dict(env, PYTHONPATH=wd + "/repo:" + wd + "/verif/env", PYTHONDONTWRITEBYTECODE="1")
                    x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                        "CADMium/tests/test_psgrid.py", "CADMium/tests/test_psgrid_Li2.py"],
                                       cwd=wd + "/repo", env=e2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                    if x.returncode:
                        r["status"] = "killed by the tests"
                if r["status"] == "survived":
                    for c in next(v for kk, v in MAP if t["file"].startswith(kk)):
                        pr = subprocess.Popen([wd + "/verif/check.sh", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                              text=True, start_new_session=True)
                        try:
                            o, _ = pr.communicate(timeout=900)
                            rc = pr.returncode
                        except subprocess.TimeoutExpired:
                            os.killpg(pr.pid, 9)
                            rc, o = 99, ""
                        r["tried"].append([c, rc])
                        if rc == 1:
                            r["status"] = "caught"
                            break
                        if rc != 0:
                            r.setdefault("note", o[-300:])
            except Exception as e:
                r["status"] = "error %r" % e
            r["s"] = round(time.time() - t0, 1)
            open(p, "w").write(orig)
            with lock:
                with open(a.out, "a") as f:
                    f.write(json.dumps(r) + "\n")
    th = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    for x in th:
        x.start()
    for x in th:
        x.join()
    shutil.rmtree(base, ignore_errors=True)


main()
