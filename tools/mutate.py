"""Mutation campaign (development tool, no check uses it).

tools/mutate.py list                     numbers of mutants per file
tools/mutate.py again IN OUT              second stage for the survivors
tools/mutate.py run OUT [--files F,..] [--jobs N] [--slice i/n]
Each mutant is one small change of a Python or Fortran source file of a scratch copy of
/repo; the checks mapped to the file are run until one reports a violation."""
import ast, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = {  # property or property:harness, in the order in which they are run
    "correlation.py": "C04 C10:impulses",
    "__init__.py": "C01 C02 C03 C22:preparation C28:functions C28:wrong_calls",
    "basis/_basis_features.py": "C17 C28:functions C28:wrong_calls",
    "basis/_local_features.py": "C17 C28:functions C28:wrong_calls",
    "basis/_multidim_basis.py": "C17 C07 C28:functions C28:wrong_calls",
    "basis/_data_describe.py": "C17 C05 C08 C16",
    "basis/_fem_features.py": "C18",
    "basis/_mesh_utils.py": "C18",
    "fit_memory.py": "C26",
    "fit_prony.py": "C26",
    "gle_integrate.py": "C25 C24",
    "gle_estimation.py": "C08 C09 C05 C10 C12 C15 C13 C27 C14 C23 C28:wrong_calls",
    "models.py": "C08 C09 C10 C14 C15 C27 C23 C19 C28:wrong_calls",
    "fkernel.f90": "C15 C23 C13 C27 C11 C14",
}
FULL = {  # second stage, for the survivors
    "__init__.py": "C22 C28",
    "gle_estimation.py": "C11 C20 C16 C06 C07 C21 C22 C24 C28",
    "models.py": "C11 C20 C16 C21 C22 C24 C28",
    "fkernel.f90": "C22 C28",
    "basis/_basis_features.py": "C16 C22 C28",
    "basis/_local_features.py": "C16 C22 C28",
    "basis/_multidim_basis.py": "C16 C28",
    "basis/_data_describe.py": "C22 C28",
}
SKIP_FUNCS = {"pmf_num_int_eval", "markovian_friction", "BGLEIntegrator", "Integrator_posgle", "PosColoredNoiseGenerator", "find_element_2D"}


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.depth = 0

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, what, n.lineno))

    def generic(self, n):
        for c in ast.iter_child_nodes(n):
            self.visit(c)

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in SKIP_FUNCS:
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.If) and "__main__" in self.text(n.test):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and self.text(n.value.func) in ("print", "warnings.warn"):
            return
        if isinstance(n, ast.If) and "verbose" in self.text(n.test):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        m = getattr(self, "m_" + type(n).__name__, None)
        if m:
            m(n)
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults:
                self.visit(d)
            for s in n.body:
                self.visit(s)
            return
        self.generic(n)

    def m_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "flip")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const+1")
            if v > 0:
                self.add(n, str(v - 1), "const-1")
        elif isinstance(v, float):
            self.add(n, repr(2 * v if v else 1.0), "const*2")

    def m_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "*"}.get(type(n.op))
        if sw and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, "(%s) %s (%s)" % (self.text(n.left), sw, self.text(n.right)), "binop " + sw)

    def m_Compare(self, n):
        if len(n.ops) != 1:
            return
        sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}[type(n.ops[0])]
        self.add(n, "%s %s %s" % (self.text(n.left), sw, self.text(n.comparators[0])), "cmp " + sw)

    def m_BoolOp(self, n):
        sw = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, sw.join("(%s)" % self.text(v) for v in n.values), "boolop")

    def m_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, "(%s)" % self.text(n.operand), "unary")

    def m_If(self, n):
        self.add(n.test, "True", "if True")
        self.add(n.test, "False", "if False")

    def m_IfExp(self, n):
        self.add(n, "(%s)" % self.text(n.body), "ifexp body")
        self.add(n, "(%s)" % self.text(n.orelse), "ifexp else")

    def m_Call(self, n):
        f = self.text(n.func)
        sw = {"min": "max", "max": "min", "np.minimum": "np.maximum", "np.maximum": "np.minimum", "np.sin": "np.cos", "np.cos": "np.sin"}.get(f)
        if sw:
            self.add(n.func, sw, "call " + sw)
        for k in n.keywords:
            if k.arg in ("dask", "dask_gufunc_kwargs", "verbose"):
                continue
            t = self.text(n)
            a, b = self.span(n)
            ka = self.off[k.lineno - 1] + k.col_offset
            kb = self.off[k.end_lineno - 1] + k.end_col_offset
            pre = self.b[a:ka].decode().rstrip()
            post = self.b[kb:b].decode()
            if pre.endswith(","):
                pre = pre[:-1]
            elif post.lstrip().startswith(","):
                post = post.lstrip()[1:]
            self.out.append((a, b, pre + post, "drop " + str(k.arg), n.lineno))

    def m_Slice(self, n):
        lo, up, st = [self.text(x) if x else "" for x in (n.lower, n.upper, n.step)]
        if n.lower:
            self.add(n, ":" + up + (":" + st if st else ""), "slice lower")
        if n.upper:
            self.add(n, lo + ":" + (":" + st if st else ""), "slice upper")
        if n.step:
            self.add(n, lo + ":" + up, "slice step")

    def stmt(self, n):
        self.add(n, "pass", "delete")

    def m_Assign(self, n):
        self.stmt(n)

    def m_AugAssign(self, n):
        self.stmt(n)
        op = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
        if op:
            self.add(n, "%s %s %s" % (self.text(n.target), op, self.text(n.value)), "augop")

    def m_Expr(self, n):
        self.stmt(n)


def fortran(src):
    out = []
    pos = 0
    sub = None
    for i, l in enumerate(src.splitlines(True), 1):
        code = l.split("!")[0]
        m = re.match(r"\s*subroutine\s+(\w+)", code)
        if m:
            sub = m.group(1)
        body = sub and not sub.startswith(("kernel_first_kind_simpson", "kernel_second_kind_simpson")) and not re.match(r"\s*(double|integer|use|implicit|subroutine|end|call DGET)", code) and code.strip()
        if body:
            o = pos
            for m in re.finditer(r"(?<=[\w)\]])\s*([-+*/])\s*(?=[\w(])", code):
                sw = {"+": "-", "-": "+", "*": "+", "/": "*"}[m.group(1)]
                if code[m.end() - 1 : m.end() + 1] == "**" or code[max(0, m.start(1) - 1)] == "*":
                    continue
                out.append((o + len(code[: m.start(1)].encode()), o + len(code[: m.end(1)].encode()), sw, "op " + sw, i))
            for m in re.finditer(r"(?<![\w.])(\d+)(\.\d*)?(?![\w.])", code):
                t = m.group(0)
                new = str(int(m.group(1)) + 1) + (m.group(2) or "")
                out.append((o + len(code[: m.start()].encode()), o + len(code[: m.end()].encode()), new, "const", i))
            for m in re.finditer(r"\b(min|max)\(", code):
                out.append((o + len(code[: m.start()].encode()), o + len(code[: m.start() + 3].encode()), "max" if m.group(1) == "min" else "min", "minmax", i))
            if "=" in code and not re.match(r"\s*(do|if|else)", code) and "&" not in code:
                out.append((o, o + len(code.rstrip().encode()), "  continue", "delete", i))
        pos += len(l.encode())
    return out


def mutants(f):
    src = open(os.path.join(REPO, "VolterraBasis", f), encoding="utf8").read()
    if f.endswith(".f90"):
        return src.encode(), fortran(src)
    c = Collect(src)
    c.visit(ast.parse(src))
    return c.b, c.out


def job(f, k, b, m, outdir, table=MAP, workers="1"):
    a, e, new, what, line = m
    t = tempfile.mkdtemp(prefix="mut")
    r = {"file": f, "k": k, "line": line, "what": what, "old": b[a:e].decode()[:80], "new": new[:80]}
    try:
        shutil.copytree(os.path.join(REPO, "VolterraBasis"), os.path.join(t, "VolterraBasis"), ignore=shutil.ignore_patterns("__pycache__"))
        nb = b[:a] + new.encode() + b[e:]
        with open(os.path.join(t, "VolterraBasis", f), "wb") as g:
            g.write(nb)
        if f.endswith(".py"):
            try:
                compile(nb, f, "exec")
            except SyntaxError:
                r["status"] = "syntax"
                return r
        t0 = time.time()
        r["status"] = "SURVIVED"
        for p in table[f].split():
            env = dict(os.environ, VB_REPO=t, VB_FIRST="1", OMP_NUM_THREADS="1", VERIF_TIER="quick", VB_EVIDENCE=t)
            try:
                q = subprocess.run([os.path.join(V, "run.sh"), p.split(":")[0], "--workers", workers] + (["--harness", p.split(":")[1].replace("_", " ")] if ":" in p else []), cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                r["status"] = "timeout " + p
                break
            if q.returncode == 1 and "VIOLATION" in q.stdout:
                r["status"] = "killed"
                r["by"] = p
                break
            if q.returncode == 3:
                r["status"] = "nobuild"
                break
            if q.returncode != 0:
                r["status"] = "ERROR %s %d" % (p, q.returncode)
                r["tail"] = q.stdout[-600:]
                break
        r["s"] = round(time.time() - t0, 1)
        return r
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        n = 0
        for f in MAP:
            k = len(mutants(f)[1])
            n += k
            print(f, k)
        print(n)
    elif sys.argv[1] == "again":  # mutate.py again IN OUT: second stage
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {(d["file"], d["k"]) for d in map(json.loads, open(sys.argv[3]))}
        with open(sys.argv[3], "a") as g:
            for l in open(sys.argv[2]):
                d = json.loads(l)
                if d["status"] != "SURVIVED" or d["file"] not in FULL or (d["file"], d["k"]) in done:
                    continue
                b, ms = mutants(d["file"])
                g.write(json.dumps(job(d["file"], d["k"], b, ms[d["k"]], None, FULL, "8")) + "\n")
                g.flush()
    else:
        out = sys.argv[2]
        opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
        files = opt.get("--files", ",".join(MAP)).split(",")
        i, n = map(int, opt.get("--slice", "0/1").split("/"))
        done = set()
        if os.path.exists(out):
            for l in open(out):
                d = json.loads(l)
                done.add((d["file"], d["k"]))
        work = []
        for f in files:
            b, ms = mutants(f)
            for k, m in enumerate(ms):
                if k % n == i and (f, k) not in done:
                    work.append((f, k, b, m))
        print(len(work), "mutants")
        with ThreadPoolExecutor(int(opt.get("--jobs", "8"))) as ex, open(out, "a") as g:
            for r in ex.map(lambda w: job(*w, None), work):
                g.write(json.dumps(r) + "\n")
                g.flush()
