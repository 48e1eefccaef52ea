"""Mutation survey: python3 tools/mutate.py OUT.jsonl FILE[:fn-regex] IDS [fraction] [offset]
Every small syntactic change of the given source file (every k-th of them) is run against the shards of the given checks, with a time limit;
changes no check notices are run against the existing tests; those which pass these too are written down for inspection (most are equivalent).
Not used by any check."""
import warnings
warnings.filterwarnings("ignore")
import ast, os, re, sys, json, shutil, subprocess, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def put(node, new, what):
        a, b = pos(node)
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((node.lineno, what, s))
    CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.BitOr: "&", ast.BitAnd: "|"}
    stack = []

    def visit(node, fn):
        doc = None
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [node.name]
        for f, v in ast.iter_fields(node):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    n0 = len(out)
                    visit(c, fn)
        n0 = len(out)
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            put(node, "%s %s %s" % (text(node.left), CMP[type(node.ops[0])], text(node.comparators[0])), "compare")
        elif isinstance(node, ast.BoolOp):
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                put(node, (" and " if isinstance(node.op, ast.And) else " or ").join("(%s)" % text(v) for v in rest), "drop operand %d" % i)
            put(node, (" or " if isinstance(node.op, ast.And) else " and ").join("(%s)" % text(v) for v in node.values), "and/or")
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            put(node, "(%s)%s(%s)" % (text(node.left), BIN[type(node.op)], text(node.right)), "operator")
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            put(node, repr(not node.value), "bool")
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            put(node, repr(node.value + 1), "const+1")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, "(%s)" % text(node.operand), "drop not")
        elif isinstance(node, ast.If) or isinstance(node, ast.IfExp):
            put(node.test, "True", "if True")
            put(node.test, "False", "if False")
        elif isinstance(node, (ast.Assign, ast.AugAssign)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            put(node, "pass", "delete statement")
        elif isinstance(node, ast.Continue):
            put(node, "break", "continue->break")
        elif isinstance(node, ast.Break):
            put(node, "continue", "break->continue")
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("set", "list", "sorted", "tuple", "int", "float", "str", "abs", "copy") and len(node.args) == 1 and not node.keywords:
            put(node, "(%s)" % text(node.args[0]), "drop call")
        elif isinstance(node, ast.Call) and node.keywords:
            for k in node.keywords:
                if k.arg:
                    rest = [text(x) for x in node.args] + ["%s%s" % (x.arg + "=" if x.arg else "**", text(x.value)) for x in node.keywords if x is not k]
                    put(node, "%s(%s)" % (text(node.func), ",".join(rest)), "drop argument " + k.arg)
        for i in range(n0, len(out)):
            out[i] = out[i] + (".".join(fn),) if len(out[i]) == 3 else out[i]
    visit(tree, [])
    out.sort(key=lambda m: m[0])
    return out


CHILD = r'''
import sys, os, time, random, importlib, signal
verif, ids, budget = sys.argv[1], sys.argv[2].split(","), float(sys.argv[3])
sys.path.insert(0, verif); os.chdir(verif)
from mc import core
core.setup_path()
for pid in ids:
    mod = importlib.import_module("checks." + pid.lower())
    known = core.load_known(pid)
    shards = list(mod.shards("quick", 1))
    random.Random(7).shuffle(shards)
    t = time.time()
    for s in shards:
        r = core._worker((mod.__name__, s, "quick", 1))
        bad = [f for f in r["fails"] if f["key"] not in known]
        if bad:
            print("KILLED", pid, flush=True)
            os._exit(1)
        if time.time() - t > budget:
            break
print("SURVIVED", flush=True)
os._exit(0)
'''


def main():
    outp, target, ids = sys.argv[1:4]
    frac = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    off = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    budget = float(os.environ.get("MUT_BUDGET", "25"))
    jobs = int(os.environ.get("MUT_JOBS", "4"))
    path, _, fnre = target.partition(":")
    src = open("/repo/" + path).read()
    ms = [m for m in mutants(src) if re.search(fnre or ".", m[3] or "-")]
    ms = ms[off::frac]
    base = "/dev/shm/mut_%d" % os.getpid()
    os.makedirs(base)
    vc = base + "/verif"
    os.makedirs(vc)
    for x in ("mc", "checks"):
        shutil.copytree(HERE + "/../" + x, vc + "/" + x)
    shutil.copy(HERE + "/../known_findings.txt", vc)

    def one(arg):
        i, (line, what, new, fn) = arg
        d = "%s/m%d" % (base, i)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "doc*", "__pycache__", "build"))
        try:
            open(d + "/" + path, "w").write(new)
            env = dict(os.environ, MC_REPO=d, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            if os.path.isdir("/opt/venv/mplconfig"):
                env["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
            try:
                r = subprocess.run(["nice", PY, "-W", "ignore", "-c", CHILD, vc, ids, str(budget)], env=env, capture_output=True, text=True, timeout=budget * (len(ids.split(",")) + 3) + 60)
                res = r.stdout.strip().split("\n")[-1]
                if not res.startswith("SURVIVED"):
                    return i, res or "CRASH"
            except subprocess.TimeoutExpired:
                return i, "TIMEOUT"
            try:
                r = subprocess.run(["nice", PY, "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "pymnet/tests", "--deselect", "pymnet/tests/sampling_test.py"], cwd=d, env=env, capture_output=True, text=True, timeout=400)
                if "sampling" not in path:      # slow
                    return i, "SURVIVED-ALL" if r.returncode == 0 else "TESTS"
                r2 = subprocess.run(["nice", PY, "-W", "ignore", "-m", "pytest", "-q", "-p", "no:cacheprovider", "pymnet/tests/sampling_test.py"], cwd=d, env=env, capture_output=True, text=True, timeout=400)
                ok = r.returncode in (0, 5) and "4 failed" in r2.stdout.split("\n")[-2]
            except (subprocess.TimeoutExpired, IndexError):
                ok = False
            return i, "SURVIVED-ALL" if ok else "TESTS"
        finally:
            shutil.rmtree(d, ignore_errors=True)
    n = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for i, res in ex.map(one, list(enumerate(ms))):
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            if res.startswith(("SURVIVED", "TIMEOUT", "CRASH")):
                line, what, new, fn = ms[i]
                nl = new.split("\n")
                with open(outp, "a") as f:
                    f.write(json.dumps(dict(file=path, line=line, fn=fn, what=what, res=res, old=src.split("\n")[line - 1].strip(), new=nl[line - 1].strip())) + "\n")
    shutil.rmtree(base, ignore_errors=True)
    print(target, len(ms), n)


main()
