"""Mutation campaign: python3 tools/mutate.py OUT.log COUNT SEED [FILE-SUBSTRING] [JOBS]

Plants small random changes in scratch clones of /repo, drops those the stable tests notice, and runs the checks whose
last evidence names the changed function until one reports a violation.  Survivors are printed for inspection."""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "/"}
METH = {"mean": "sum", "sum": "mean", "max": "min", "min": "max", "head": "tail", "first": "last", "copy": None, "abs": None, "any": "all",
        "all": "any", "append": None, "std": "var", "argmax": "argmin", "argmin": "argmax", "reset_index": None, "unique": None,
        "union": "intersection", "intersection": "union", "idxmax": "idxmin", "dropna": None, "lower": None, "sqrt": "abs", "square": "abs"}
# checks tried per file (a surviving mutant runs them all)
NEAR = {"_handler": "C12 C13 C14 C15 C22 C23", "pd_calculator": "C01 C02 C03 C04 C24 C29", "performance_metrics": "C26", "zenplot": "C24",
        "additivity": "C07 C02 C10 C27 C29 C30", "comparator": "C17 C18 C22 C30", "importance_methods/model_agnostic/_pdp": "C06 C02 C10 C27",
        "permutational": "C09 C10 C11 C26 C29", "_minimal_depth": "C15 C14 C21 C22", "gb_trees": "C12 C13 C16 C22 C23",
        "_split_score": "C12 C13 C22", "_friedman": "C03 C04 C02 C22 C25", "greenwell": "C05 C02", "_based/_pdp": "C02 C10 C24 C27 C22",
        "sejong": "C08 C10 C11 C26 C29", "visualizer/_vis": "C19 C20 C21 C22 C23 C25 C28", "configuration": "C28 C25 C20", "pdp_vis": "C24 C28",
        "ops.py": "C01 C03 C04 C06 C10 C27", "interactions_methods/_method": "C16 C22 C10 C11"}
STR = {"Feature 1": "Feature 2", "Feature 2": "Feature 1", "parent_name": "split_feature", "split_feature": "parent_name", "left_child":
       "right_child", "right_child": "left_child", "root_variable": "variable", "variable": "root_variable", "first": "mean", "gain": "cover",
       "cover": "gain", "mean": "sum", "pearson": "spearman", "left": "inner", "depth": "tree", "tree": "depth", "Importance": "Feature"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []
    fn = {}

    def walk(n, stack):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            stack = stack + [n.name]
        fn[n] = ".".join(stack)
        for c in ast.iter_child_nodes(n):
            walk(c, stack)
    walk(tree, [])
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
        for a in ("annotation", "returns"):
            t = getattr(n, a, None)
            if t is not None:
                docs.update(ast.walk(t))

    def rep(n, new, what):
        s, e = pos(n)
        out.append((fn[n], n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))
    for n in ast.walk(tree):
        if n in docs or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "operator")
            if isinstance(n.op, (ast.Sub, ast.Div)):
                rep(n, "%s %s %s" % (seg(n.right), "-" if isinstance(n.op, ast.Sub) else "/", seg(n.left)), "swap")
        elif isinstance(n, ast.BoolOp):
            rep(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values), "bool")
            rep(n, seg(n.values[0]), "drop condition")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "flag")
            elif isinstance(v, int):
                rep(n, str(v + 1), "const+1")
                if v > 0:
                    rep(n, str(v - 1), "const-1")
            elif isinstance(v, float):
                rep(n, repr(v * 2), "const*2")
            elif isinstance(v, str) and v in STR and seg(n)[0] in "'\"":
                rep(n, repr(STR[v]), "string")
        elif isinstance(n, ast.UnaryOp):
            rep(n, seg(n.operand), "unary")
        elif isinstance(n, ast.IfExp):
            rep(n, seg(n.orelse), "else")
            rep(n, seg(n.body), "then")
        elif isinstance(n, ast.If):
            rep(n.test, "True", "if True")
            rep(n.test, "False", "if False")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                s0, e0 = pos(n.args[0])
                s1, e1 = pos(n.args[1])
                s, e = pos(n)
                new = b[s:s0] + b[s1:e1] + b[e0:s1] + b[s0:e0] + b[e1:e]
                rep(n, new.decode(), "swap arguments")
            for k in n.keywords:
                if k.arg:
                    kk = [seg(a) for a in n.args] + [("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords if q is not k]
                    rep(n, "%s(%s)" % (seg(n.func), ", ".join(kk)), "drop keyword " + k.arg)
            if isinstance(n.func, ast.Attribute) and n.func.attr in METH:
                m = METH[n.func.attr]
                s, e = pos(n)
                ve = pos(n.func.value)[1]
                fe = pos(n.func)[1]
                rep(n, seg(n.func.value) if m is None else (b[s:ve] + b"." + m.encode() + b[fe:e]).decode(), "method")
            if isinstance(n.func, ast.Name) and n.func.id in ("max", "min", "sorted", "any", "all", "set", "abs"):
                m = {"max": "min", "min": "max", "any": "all", "all": "any", "sorted": "list", "set": "list", "abs": "float"}[n.func.id]
                rep(n.func, m, "function")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n not in docs and fn[n]:
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
                rep(n, "pass", "delete statement")
        elif isinstance(n, (ast.For,)):
            rep(n.iter, "list(%s)[1:]" % seg(n.iter), "skip first")
        elif isinstance(n, ast.comprehension) and n.ifs:
            pass
    good = []
    for f, l, w, s in out:
        try:
            ast.parse(s)
            if s != src:
                good.append((f, l, w, s))
        except SyntaxError:
            pass
    return good


def cover():
    m = {}
    for f in glob.glob(VERIF + "/evidence/C*.json"):
        e = json.load(open(f))
        c = e["property"]
        for q in e["coverage"]["functions_executed_symbolically"]:
            m.setdefault(q, set()).add(c)
    return m


def one(job):
    rel, f, line, what, text, checks = job
    t = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    r = t + "/r"
    try:
        subprocess.check_call(["git", "clone", "-q", REPO, r])
        p = os.path.join(r, rel)
        open(p, "w").write(text)
        d = subprocess.run(["git", "-C", r, "diff", "-U0"], capture_output=True, text=True).stdout
        d = "\n".join(x for x in d.splitlines() if x[:1] in "+-" and x[:3] not in ("+++", "---"))
        x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "test/test_variable_importance.py"],
                           cwd=r, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if x.returncode:
            return "tests  %s:%d %s" % (rel, line, what)
        # scratch copy of the checks: evidence of parallel runs must not collide
        v = t + "/v"
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "__pycache__"))
        os.makedirs(v + "/evidence")
        for c in checks:
            x = subprocess.run(["bash", v + "/check.sh", c, "quick", "--budget", "60", "--jobs", str(JOBS)],
                               env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            if x.returncode == 1:
                lab = [q for q in x.stdout.splitlines() if " violated: " in q]
                return "killed %s:%d %s by %s | %s" % (rel, line, what, c, lab[:1])
            if x.returncode:
                return "BROKEN %s:%d %s %s rc %d\n%s\n%s" % (rel, line, what, c, x.returncode, d, x.stdout[-300:] + x.stderr[-300:])
        return "SURVIVED %s:%d %s [%s] checks %s\n%s" % (rel, line, what, f, checks, d)
    except Exception as e:
        return "ERROR %s:%d %s %r" % (rel, line, what, e)
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    JOBS = int(sys.argv[5]) if len(sys.argv) > 5 else 4
    cov = cover()
    speed = "C26 C27 C07 C09 C01 C21 C13 C16 C10 C08 C15 C14 C04 C17 C06 C20 C19 C12 C03 C11 C05 C02 C22 C24 C23 C18 C29 C28 C25 C30".split()
    rel = {}
    jobs = []
    for root, _, fs in os.walk(REPO + "/artemis"):
        for f in fs:
            if f.endswith(".py") and f != "__init__.py":
                p = os.path.join(root, f)
                r = os.path.relpath(p, REPO)
                if sub not in r:
                    continue
                for fn, l, w, s in mutants(p):
                    checks = cov.get(r + ":" + fn, set()) or cov.get(r + ":" + fn.split(".")[0], set()) or cov.get(r + ":<module>", set())
                    near = next((v for k, v in NEAR.items() if k in r), "").split()
                    jobs.append((r, fn, l, w, s, [c for c in speed if c in checks and c in near] or [c for c in speed if c in checks]))
    print(len(jobs), "mutants")
    random.Random(seed).shuffle(jobs)
    with open(out, "a") as fh, ThreadPoolExecutor(max(1, 8 // JOBS)) as ex:
        for res in as_completed([ex.submit(one, j) for j in jobs[:count]]):
            fh.write(res.result() + "\n")
            fh.flush()
