"""Development tool: automatic mutants of hydraxmpm, to find what the checks miss.

    mutate.py list [FILE ...]                 print the mutants
    mutate.py run OUT.jsonl [--jobs N] [--per-file K] [--seed S] [--only GLOB]

Each mutant is a copy of /repo/hydraxmpm under /tmp/mut/<n> with one change; the
checks mapped to the file run on it (VERIF_REPO) until one reports a violation.
Survivors are listed in OUT.jsonl for a human to look at: equivalent, outside
the properties, or a hole in a check.
"""
import ast
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = "/tmp/mut"
CHECKS = {
    "shapefunctions/linear.py": "C01 C02", "shapefunctions/quadratic.py": "C01",
    "shapefunctions/cubic.py": "C01", "shapefunctions/mapping.py": "C02 C01 C05 C07",
    "solvers/usl.py": "C05 C03 C04 C08 C07 C22", "solvers/usl_asflip.py": "C05 C04 C08 C07",
    "solvers/solver.py": "C05", "solvers/coupling.py": "C08 C05",
    "forces/gravity.py": "C24 C08", "forces/damping.py": "C24", "forces/force.py": "C24 C08",
    "forces/sdf_collider.py": "C22 C21 C23", "sdf/sdfobject.py": "C20 C21 C22",
    "sdf/sdfcollection.py": "C20 C23", "sdf/gridsdf.py": "C20",
    "common/sim_io.py": "C25", "common/vtk_io.py": "C30", "common/rerun.py": "C30",
    "common/simstate.py": "C08 C25 C31", "common/builder.py": "C08 C31 C24 C26",
    "utils/generate_body.py": "C26", "grid/grid.py": "C29 C01",
    "material_points/material_points.py": "C31 C27 C05", "utils/math_helpers.py": "C27 C28 C10 C12 C15",
    "constitutive_laws/newtonfluid.py": "C12 C17 C10 C28", "constitutive_laws/mu_i_rheology.py": "C13 C17 C10 C28",
    "constitutive_laws/druckerprager.py": "C14 C10 C17 C28",
    "constitutive_laws/modifiedcamclay.py": "C15 C16 C17 C10 C28",
    "constitutive_laws/constitutive_law.py": "C11 C14 C15 C12", "constitutive_laws/linearelastic.py": "C11 C17 C10",
    "element_tests/driver.py": "C18", "element_tests/triaxial_test.py": "C19",
}
SKIP_FUNCS = {"__repr__", "summary", "__str__"}
ATTR_SWAP = {"maximum": "minimum", "minimum": "maximum", "sin": "cos", "cos": "sin", "max": "min", "min": "max",
             "sum": "max", "floor": "ceil", "ceil": "floor", "arctan2": "hypot", "argmin": "argmax", "argmax": "argmin",
             "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "ones_like": "zeros_like",
             "logical_and": "logical_or", "logical_or": "logical_and", "mean": "sum", "tan": "sin"}
DROP_CALL = {"abs", "clip", "sqrt", "exp", "log", "square", "stop_gradient", "nan_to_num", "trace", "sign", "log1p",
             "get_dev_strain", "transpose", "flip", "cumsum", "norm"}
NAME_SWAP = {"moment_nt_stack": "moment_stack", "moment_stack": "moment_nt_stack", "velocity_stack": "force_stack",
             "volume_stack": "volume0_stack", "volume0_stack": "volume_stack", "L_stack": "F_stack",
             "old_velocity_stack": "velocity_stack"}


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()))
        self.b = src.encode()
        self.out = []
        self.stack = []

    def pos(self, node):
        return (self.off[node.lineno - 1] + node.col_offset, self.off[node.end_lineno - 1] + node.end_col_offset)

    def seg(self, node):
        a, b = self.pos(node)
        return self.b[a:b].decode()

    def rep(self, node, text, kind):
        a, b = self.pos(node)
        self.out.append((a, b, text, kind, node.lineno, ".".join(self.stack)))

    def visit_FunctionDef(self, node):
        if node.name in SKIP_FUNCS:
            return
        self.stack.append(node.name)
        for d in node.args.defaults + [k for k in node.args.kw_defaults if k]:
            self.visit(d)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.visit(s)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and not isinstance(s.value, ast.Call):
                self.visit(s.value)
        self.stack.pop()

    def visit_Raise(self, node):
        pass

    def visit_Assert(self, node):
        pass

    def visit_JoinedStr(self, node):
        pass

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_BinOp(self, node):
        swaps = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["*"],
                 ast.Pow: ["*"]}
        l, r = self.seg(node.left), self.seg(node.right)
        for op in swaps.get(type(node.op), []):
            self.rep(node, f"(({l}) {op} ({r}))", "binop")
        if isinstance(node.op, (ast.Add, ast.Sub)):
            self.rep(node, f"({l})", "drop right")
        if isinstance(node.op, ast.MatMult):
            self.rep(node, f"(({r}) @ ({l}))", "swap matmul")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        t, v = self.seg(node.target), self.seg(node.value)
        op = {ast.Add: "-", ast.Sub: "+"}.get(type(node.op))
        if op:
            self.rep(node, f"{t} {op}= {v}", "augassign")
        self.rep(node, "pass", "delete aug")
        self.visit(node.value)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            o = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<=", ast.Eq: "!=", ast.NotEq: "=="}.get(type(node.ops[0]))
            l, r = self.seg(node.left), self.seg(node.comparators[0])
            if o:
                self.rep(node, f"(({l}) {o} ({r}))", "compare")
            b = {ast.Lt: "<=", ast.Gt: ">=", ast.LtE: "<", ast.GtE: ">"}.get(type(node.ops[0]))
            if b:
                self.rep(node, f"(({l}) {b} ({r}))", "boundary")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = " or " if isinstance(node.op, ast.And) else " and "
        self.rep(node, "(" + op.join(f"({self.seg(v)})" for v in node.values) + ")", "boolop")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            self.rep(node, f"({self.seg(node.operand)})", "drop unary")
        if not isinstance(node.operand, ast.Constant):
            self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            self.rep(node, str(not v), "bool")
        elif isinstance(v, int):
            self.rep(node, str(v + 1), "int+1")
            if v > 0:
                self.rep(node, str(v - 1), "int-1")
        elif isinstance(v, float) and v != 0:
            self.rep(node, repr(v * 1.1 if abs(v) > 1e-6 else 1e-2), "float")
        elif isinstance(v, float):
            self.rep(node, "0.1", "float0")

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr in ATTR_SWAP:
                a, b = self.pos(f)
                self.out.append((b - len(f.attr), b, ATTR_SWAP[f.attr], "call swap", node.lineno, ".".join(self.stack)))
            if f.attr in ("add", "set", "subtract") and isinstance(f.value, ast.Subscript):
                a, b = self.pos(f)
                self.out.append((b - len(f.attr), b, {"add": "set", "set": "add", "subtract": "add"}[f.attr], "at swap",
                                 node.lineno, ".".join(self.stack)))
            if f.attr in DROP_CALL and node.args:
                self.rep(node, f"({self.seg(node.args[0])})", "drop call")
            if f.attr == "where" and len(node.args) == 3:
                c, x, y = (self.seg(a) for a in node.args)
                self.rep(node, f"({self.seg(f)}({c}, {y}, {x}))", "where swap")
                self.rep(node, f"({x})", "where first")
                self.rep(node, f"({y})", "where second")
            if f.attr == "cond" and len(node.args) >= 3:
                c, x, y = (self.seg(a) for a in node.args[:3])
                rest = "".join(", " + self.seg(a) for a in node.args[3:])
                self.rep(node, f"({self.seg(f)}({c}, {y}, {x}{rest}))", "cond swap")
            if f.attr == "tree_at" and len(node.args) >= 3:
                self.rep(node, f"({self.seg(node.args[1])})", "drop tree_at")
        elif isinstance(f, ast.Name) and f.id in DROP_CALL and node.args:
            self.rep(node, f"({self.seg(node.args[0])})", "drop call")
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            x, y = node.args[0], node.args[1]
            if not isinstance(x, ast.Lambda):
                a, b = self.pos(x)[0], self.pos(y)[1]
                mid = self.b[self.pos(x)[1]:self.pos(y)[0]].decode()
                self.out.append((a, b, self.seg(y) + mid + self.seg(x), "swap args", node.lineno, ".".join(self.stack)))
        for k in node.keywords:
            if k.arg:
                a, b = self.pos(k)
                end = b
                while end < len(self.b) and self.b[end:end + 1] in (b" ", b"\n"):
                    end += 1
                if self.b[end:end + 1] == b",":
                    b = end + 1
                self.out.append((a, b, "", f"drop kw {k.arg}", node.lineno, ".".join(self.stack)))
        self.generic_visit(node)

    def visit_Attribute(self, node):
        if node.attr in NAME_SWAP:
            a, b = self.pos(node)
            self.out.append((b - len(node.attr), b, NAME_SWAP[node.attr], "attr swap", node.lineno, ".".join(self.stack)))
        if node.attr == "T":
            self.rep(node, f"({self.seg(node.value)})", "drop T")
        self.generic_visit(node)

    def visit_If(self, node):
        self.rep(node.test, f"(not ({self.seg(node.test)}))", "negate if")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.rep(node.test, f"(not ({self.seg(node.test)}))", "negate ifexp")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            n = node.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(node.value)):
                self.rep(node, "pass", "delete reassign")
        self.visit(node.value)


def mutants(rel):
    path = os.path.join(REPO, "hydraxmpm", rel)
    src = open(path).read()
    c = Collect(src)
    c.visit(ast.parse(src))
    seen, res = set(), []
    for a, b, text, kind, line, where in c.out:
        new = c.b[:a] + text.encode() + c.b[b:]
        try:
            t = ast.dump(ast.parse(new.decode()))
        except SyntaxError:
            continue
        h = hashlib.sha1(t.encode()).hexdigest()
        if h in seen:
            continue
        seen.add(h)
        res.append(dict(file=rel, line=line, where=where, kind=kind, old=c.b[a:b].decode(), new=text, a=a, b=b))
    return res


def run_one(args):
    i, m, procs = args
    d = f"{WORK}/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(f"{REPO}/hydraxmpm", f"{d}/repo/hydraxmpm", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/repo/hydraxmpm/{m['file']}"
    b = open(p, "rb").read()
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
    env = dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_EVIDENCE=f"{d}/ev", VERIF_REPLAYS=f"{d}/rp",
               VERIF_FAILFAST="1", VERIF_PROCS=str(procs), VERIF_SEED="1", VERIF_TIER="quick", VERIF_BUDGET="120")
    m = dict(m, results={})
    t0 = time.time()
    m["status"] = "survived"
    for c in CHECKS[m["file"]].split():
        try:
            r = subprocess.run([f"{ROOT}/run.sh", c], env=env, capture_output=True, text=True, timeout=1500, cwd=ROOT)
            out = r.stdout
        except subprocess.TimeoutExpired:
            m["results"][c] = "timeout"
            continue
        m["results"][c] = r.returncode
        if r.returncode == 1:
            v = [x for x in out.splitlines() if x.startswith(c + "/") and ": " in x and "distinct" not in x]
            m["status"], m["by"], m["msg"] = "killed", c, (v[:1] or [""])[0][:300]
            break
        if r.returncode == 2:
            m["err"] = r.stderr[-400:]
    m["wall"] = round(time.time() - t0, 1)
    shutil.rmtree(d, ignore_errors=True)
    return m


def main():
    if sys.argv[1] == "list":
        tot = 0
        for f in sys.argv[2:] or CHECKS:
            ms = mutants(f)
            tot += len(ms)
            if len(sys.argv) > 2:
                for m in ms:
                    print(f"{f}:{m['line']} {m['where']} [{m['kind']}] {m['old'][:80]!r} -> {m['new'][:80]!r}")
            print(f, len(ms))
        print(tot)
        return
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--procs", type=int, default=2)
    ap.add_argument("--per-file", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--rerun", default="", help="jsonl: run only the survivors of that file again")
    a = ap.parse_args()
    todo = []
    if a.rerun:
        todo = [{k: v for k, v in m.items() if k not in ("results", "status", "by", "msg", "wall", "err")}
                for m in map(json.loads, open(a.rerun)) if m["status"] == "survived"]
        a.only = a.only.split(",") if a.only else []
        todo = [m for m in todo if not a.only or m["file"] in a.only]
    else:
        rnd = random.Random(a.seed)
        for f in CHECKS:
            if a.only and f not in a.only.split(","):
                continue
            ms = mutants(f)
            rnd.shuffle(ms)
            todo += ms[:a.per_file]
        rnd.shuffle(todo)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            m = json.loads(l)
            done.add((m["file"], m["a"], m["b"], m["new"]))
    todo = [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in done]
    print(len(todo), "mutants", flush=True)
    base = os.getpid() * 10000
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for m in ex.map(run_one, [(base + i, m, a.procs) for i, m in enumerate(todo)]):
            with open(a.out, "a") as f:
                f.write(json.dumps(m) + "\n")
            if m["status"] == "survived":
                print(f"SURVIVED {m['file']}:{m['line']} {m['where']} [{m['kind']}] {m['old'][:90]!r} -> {m['new'][:90]!r} {m['results']} {m['wall']}", flush=True)


main()
