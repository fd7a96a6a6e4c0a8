#!/opt/venv/bin/python
"""mutants.py make DIR | run DIR [WORKERS]: small changes to the code, one by one, to find those no check sees.

make: writes DIR/<n>.json for every mutant of the readers and writers.
run:  for each, in a scratch copy: the stable tests; where they pass, the quick checks (tools/quickly.py).
"""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
FILES = ["ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"]
PY = "/opt/venv/bin/python"
ORDER = "C02 C08 C11 C10 C19 C01 C04 C12 C03 C07 C09 C18 C06 C20 C13 C05 C15 C16 C14 C17".split()
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for x in lines:
        offs.append(offs[-1] + len(x.encode()) + 1)
    data = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def add(n, new, what, at=None):
        a, b = at or span(n)
        out.append(dict(file=path, line=n.lineno, what=what, a=a, b=b, old=data[a:b].decode(), new=new))

    docs = set()
    for n in ast.walk(tree):
        body = getattr(n, "body", None)
        if isinstance(body, list):
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    docs.add(id(s.value))
                    docs.add(id(s))
    raises = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            for k in ast.walk(n):
                raises.add(id(k))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in raises and not isinstance(n, (ast.Raise, ast.JoinedStr)):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            op = data[a:b].decode()
            for new in CMP.get(type(n.ops[0]), []):
                if "(" not in op and ")" not in op:
                    add(n, " %s " % new, "cmp", (a, b))
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                rest = [text(x) for j, x in enumerate(n.values) if j != i]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "drop operand")
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % text(v) for v in n.values) + ")", "and/or")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), "not")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                add(t, "True", "filter")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int")
                if n.value:
                    add(n, str(n.value - 1), "int")
            elif isinstance(n.value, str) and data[span(n)[0]:span(n)[0] + 1] in b"\"'":
                add(n, '""' if n.value else '"X"', "str")
                if n.value.upper() != n.value:
                    add(n, repr(n.value.upper()), "str")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = span(n.left)[1], span(n.right)[0]
            if isinstance(n.op, ast.Add):
                add(n, text(n.left), "drop right")
                add(n, text(n.right), "drop left")
            else:
                add(n, " + ", "sub", (a, b))
                add(n, text(n.left), "drop right")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and len(n.args) <= 1 and n.func.attr in (
                "strip", "upper", "lower", "rstrip", "lstrip", "sort", "split"):
            add(n, text(n.func.value), "drop ." + n.func.attr)
        if isinstance(n, ast.Call) and len(n.args) > 1:
            for i, a in enumerate(n.args[1:], 1):
                add(n, "%s(%s)" % (text(n.func), ", ".join([text(x) for j, x in enumerate(n.args) if j != i] + [
                    ("%s=%s" % (k.arg, text(k.value)) if k.arg else "**" + text(k.value)) for k in n.keywords])), "drop arg")
        if isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                add(n, "%s(%s)" % (text(n.func), ", ".join([text(x) for x in n.args] + [
                    ("%s=%s" % (q.arg, text(q.value)) if q.arg else "**" + text(q.value)) for q in n.keywords if q is not k])), "drop keyword")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)):
            add(n, "pass", "drop statement")
        if isinstance(n, ast.Continue):
            add(n, "break", "continue")
        if isinstance(n, ast.Break):
            add(n, "continue", "break")
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "return")
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts)):
                o, c = ("[", "]") if isinstance(n, ast.List) else ("(", ",)")
                add(n, o + ", ".join(text(x) for j, x in enumerate(n.elts) if j != i) + c, "drop element")
            for i in range(len(n.elts) - 1):
                o, c = ("[", "]") if isinstance(n, ast.List) else ("(", ")")
                e = [text(x) for x in n.elts]
                e[i], e[i + 1] = e[i + 1], e[i]
                add(n, o + ", ".join(e) + c, "swap elements")
        if isinstance(n, ast.Slice):
            for part in ("lower", "upper"):
                v = getattr(n, part)
                if v is not None:
                    add(v, "", "drop bound")
    seen, res = set(), []
    for x in out:
        new = data[:x["a"]] + x["new"].encode() + data[x["b"]:]
        k = bytes(new)
        if k in seen or new == data:
            continue
        seen.add(k)
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except (SyntaxError, ValueError):
            continue
        res.append(x)
    return res


def make(d):
    os.makedirs(d, exist_ok=True)
    n = 0
    for f in FILES:
        for x in mutants(f, open("/repo/" + f, encoding="utf-8").read()):
            n += 1
            json.dump(x, open("%s/%04d.json" % (d, n), "w"))
    print(n, "mutants")


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b.get("stable") or b.get("tests"))


STABLE = stable()


def run_one(path):
    res = path[:-5] + ".result"
    if os.path.exists(res):
        return
    x = json.load(open(path))
    work = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        wt = work + "/repo"
        os.mkdir(wt)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + wt, shell=True, check=True)
        p = os.path.join(wt, x["file"])
        data = open(p, "rb").read()
        assert data[x["a"]:x["b"]].decode() == x["old"]
        open(p, "wb").write(data[:x["a"]] + x["new"].encode() + data[x["b"]:])
        env = {"HOME": "/root", "LANG": "C.UTF-8", "PATH": os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "NDM_REPO": wt, "QUICKLY_PART": "6"}
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=wt, env=env, capture_output=True, text=True, timeout=200)
            ok = r.returncode == 0
            tail = r.stdout[-300:]
        except subprocess.TimeoutExpired:
            ok, tail = False, "timeout"
        if not ok:
            verdict = dict(tests="fail", tail=tail)
        else:
            try:
                r = subprocess.run([PY, HERE + "/quickly.py", "/tmp/cache", *ORDER], env=env, capture_output=True, text=True, timeout=1500)
                last = (r.stdout.strip().split("\n") or [""])[-1]
                verdict = dict(tests="pass", code=r.returncode, last=last[:300], err=r.stderr[-1500:] if r.returncode == 3 else "")
            except subprocess.TimeoutExpired:
                verdict = dict(tests="pass", code="timeout")
        json.dump(verdict, open(res, "w"))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        with ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 3) as ex:
            todo = sorted(glob.glob(sys.argv[2] + "/*.json"))
            random.Random(1).shuffle(todo)
            list(ex.map(run_one, todo))
