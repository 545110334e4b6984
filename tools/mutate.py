#!/usr/bin/env python3
"""Mutation analysis of the checks (development aid; no check uses it).

mutate.py list FILE...            number of mutants per file
mutate.py run OUT.jsonl FILE...   run the checks of each file against its mutants
mutate.py retest OUT.jsonl IN.jsonl   run them again against the survivors of IN
environment: FROM, DEPTH (which of the checks of the file), SCALE (cases), WORKERS, FRAC

Small syntactic changes of one place each; a mutant that survives is either equivalent or shows
what no check looks at. Works on clones of /repo under /tmp."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CHECKS = {
    "t_iss.py": "C05 C30 C13 C03 C28 C01 C27 C14 C15 C02 C04",
    "auxiva_ip.py": "C06 C30 C13 C28 C01 C27 C14 C15 C02 C04",
    "auxiva_ip2.py": "C07 C30 C13 C28 C01 C27 C14 C02 C04",
    "five.py": "C08 C30 C13 C28 C01 C27 C02 C04",
    "wpe.py": "C09 C30 C15 C28 C01 C27 C02 C04",
    "beamformer.py": "C10 C11 C12 C30 C13 C28 C01 C27 C02 C04",
    "linalg.py": "C18 C19 C28 C01 C27 C04 C06",
    "scaling.py": "C20 C01 C28 C27",
    "stft.py": "C16 C23 C01",
    "fftconvolve.py": "C17 C01",
    "utils.py": "C29 C19 C01",
    "dtypes.py": "C19 C27",
    "base.py": "C02 C13 C29 C05 C06 C08",
    "nn.py": "C23 C24 C02 C01",
    "loader.py": "C24 C25",
    "separate.py": "C26",
    "parameters.py": "C20 C28",
    "models/classic.py": "C21 C02 C28",
    "models/simple.py": "C22 C24 C01",
    "models/blstm.py": "C22 C01",
    "models/glu.py": "C22 C01",
}


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []

    def pos(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def seg(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((a, b, new, kind, n.lineno))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            return
        self.add(n, "pass", "del-stmt")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "del-raise")

    def visit_Assert(self, n):
        return

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, ast.Name):
            names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            if t.id in names:
                self.add(n, "pass", "del-self-assign")
        elif isinstance(t, (ast.Subscript,)):
            self.add(n, "pass", "del-item-assign")
        self.visit(n.value)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "bool")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "int+1")
            if v > 0:
                self.add(n, str(v - 1), "int-1")
        elif isinstance(v, float):
            self.add(n, repr(v * 30 if v < 0.1 else v * 1.5), "float*")
        elif v is None:
            pass

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and \
                isinstance(n.operand.value, int):
            self.add(n, str(-n.operand.value - 1) if n.operand.value > 1 else "-2", "neg-int")
            return
        if isinstance(n.op, ast.USub):
            self.add(n, "+" + self.seg(n.operand), "usub")
        if isinstance(n.op, ast.Not):
            self.add(n, self.seg(n.operand), "not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.MatMult: None,
             ast.FloorDiv: "/", ast.Pow: "*"}.get(type(n.op))
        if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, "(%s) %s (%s)" % (self.seg(n.left), m, self.seg(n.right)), "binop")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
                 ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
                 ast.NotIn: "in"}[type(n.ops[0])]
            self.add(n, "%s %s %s" % (self.seg(n.left), m, self.seg(n.comparators[0])), "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        j = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, j.join("(%s)" % self.seg(v) for v in n.values), "boolop")
        for i in range(len(n.values)):
            self.add(n, self.seg(n.values[i]), "bool-one")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, "True", "if-true")
        self.add(n.test, "False", "if-false")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "(%s)" % self.seg(n.body), "ifexp-body")
        self.add(n, "(%s)" % self.seg(n.orelse), "ifexp-else")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if isinstance(f, ast.Attribute) and name in (
                "conj", "clone", "detach", "real", "contiguous", "square", "sqrt", "abs",
                "cpu", "copy", "to", "type_as", "expand", "strip", "lower", "resolve"):
            self.add(n, self.seg(f.value), "drop-" + name)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and \
                f.value.id in ("torch", "pt") and n.args and name in (
                    "conj", "clamp", "sqrt", "square", "reciprocal", "abs", "maximum", "log",
                    "flip", "minimum", "sgn"):
            self.add(n, self.seg(n.args[0]), "drop-" + name)
        if name in ("hermite", "divide", "tensor_H") and n.args:
            self.add(n, self.seg(n.args[0]), "drop-" + name)
        swap = {"sum": "mean", "mean": "sum", "min": "max", "max": "min", "argmax": "argmin",
                "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like",
                "ones_like": "zeros_like", "all": "any", "any": "all", "maximum": "minimum",
                "minimum": "maximum"}
        if name in swap:
            a, b = self.pos(f)
            s = self.seg(f)
            self.out.append((a, b, s[: len(s) - len(name)] + swap[name], "swap-" + name,
                             n.lineno))
        for k in n.keywords:
            if k.arg in ("dtype", "device"):
                continue
            a, b = self.pos(k)
            # swallow a following comma
            j = b
            while self.b[j:j + 1] in (b" ", b"\n"):
                j += 1
            if self.b[j:j + 1] == b",":
                self.out.append((a, j + 1, "", "drop-kw " + str(k.arg), n.lineno))
            else:
                self.out.append((a, b, "", "drop-kw " + str(k.arg), n.lineno))
        if len(n.args) >= 2 and all(isinstance(x, ast.Name) for x in n.args[:2]):
            a = self.pos(n.args[0])[0]
            b = self.pos(n.args[1])[1]
            self.out.append((a, b, "%s, %s" % (self.seg(n.args[1]), self.seg(n.args[0])),
                             "swap-args", n.lineno))
        self.generic_visit(n)

    def visit_Slice(self, n):
        self.generic_visit(n)


def mutants(path):
    src = open(path).read()
    c = Collect(src)
    c.visit(ast.parse(src))
    seen = set()
    res = []
    for a, b, new, kind, line in c.out:
        if c.b[a:b].decode() == new:
            continue
        key = (a, b, new)
        if key in seen:
            continue
        seen.add(key)
        m = (c.b[:a] + new.encode() + c.b[b:]).decode()
        try:
            if ast.dump(ast.parse(m)) == ast.dump(ast.parse(src)):
                continue
        except SyntaxError:
            continue
        res.append(dict(kind=kind, line=line, old=c.b[a:b].decode()[:200], new=new[:200], src=m))
    return res


def run(out, files, frac, only=None):
    """only: survivors of an earlier run; they get the checks after DEPTH as well"""
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["kind"], d["old"], d["new"]))
    q = queue.Queue()
    W = int(os.environ.get("WORKERS", "7"))
    for i in range(W):
        d = "/tmp/mut-%d" % i
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", REPO, d], check=True)
        q.put(d)
    jobs = []
    rng = random.Random(5)
    for f in files:
        for m in mutants(os.path.join(REPO, "torchiva", f)):
            k = (f, m["line"], m["kind"], m["old"], m["new"])
            if only is not None and k not in only:
                continue
            if k not in done and rng.random() < frac:
                jobs.append((f, m))
    print(len(jobs), "mutants", flush=True)
    fh = open(out, "a")

    def one(job):
        f, m = job
        d = q.get()
        p = os.path.join(d, "torchiva", f)
        orig = open(p).read()
        killed = None
        try:
            open(p, "w").write(m["src"])
            r = subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, %r);"
                                "import torchiva" % d], capture_output=True, cwd=d,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
            if r.returncode:
                killed = "import"
            else:
                for c in CHECKS[f].split()[int(os.environ.get("FROM", "0")):
                                           int(os.environ.get("DEPTH", "4"))]:
                    env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS="1", OMP_NUM_THREADS="1",
                               VERIF_SCALE=os.environ.get("SCALE", "0.12"), VERIF_SEED="1")
                    try:
                        r = subprocess.run(["bash", "check.sh", c, "quick"], cwd=VERIF, env=env,
                                           capture_output=True, text=True, timeout=400)
                    except subprocess.TimeoutExpired:
                        killed = c + " timeout"
                        break
                    if r.returncode:
                        killed = c + ("" if r.returncode == 1 else " rc%d" % r.returncode)
                        break
        finally:
            open(p, "w").write(orig)
            q.put(d)
        fh.write(json.dumps(dict(file=f, line=m["line"], kind=m["kind"], old=m["old"],
                                 new=m["new"], killed=killed)) + "\n")
        fh.flush()

    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, jobs))
    for i in range(W):
        shutil.rmtree("/tmp/mut-%d" % i, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        t = 0
        for f in sys.argv[2:] or CHECKS:
            n = len(mutants(os.path.join(REPO, "torchiva", f)))
            t += n
            print(f, n)
        print(t)
    elif sys.argv[1] == "retest":
        ks = [json.loads(l) for l in open(sys.argv[3])]
        ks = {(d["file"], d["line"], d["kind"], d["old"], d["new"]) for d in ks
              if d["killed"] is None or "rc" in d["killed"] or "timeout" in d["killed"]}
        run(sys.argv[2], sorted({k[0] for k in ks}), 1, ks)
    else:
        run(sys.argv[2], sys.argv[3:] or list(CHECKS), float(os.environ.get("FRAC", "1")))
