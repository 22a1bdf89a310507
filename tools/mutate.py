"""Random mutants of lingam against the checks: which small changes does nothing notice?

usage: mutate.py N SEED [FILE...]      N mutants per file; survivors go to /tmp/mut/survivors.txt
Development aid only: no check uses it.  Everything runs in clones under /tmp/mut.
"""
import ast, copy, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

MAP = {
    "bootstrap.py": "C08 C09", "base.py": "C04 C06 C18 C09 C01", "direct_lingam.py": "C03 C02 C01 C05 C28",
    "ica_lingam.py": "C03 C05 C10 C28", "bottom_up_parce_lingam.py": "C16 C02 C06 C09 C28",
    "camuv.py": "C15 C28", "multi_group_camuv.py": "C15 C28", "rcd.py": "C14 C06 C09 C28",
    "multi_group_rcd.py": "C14 C06 C09 C28", "utils/_rcd.py": "C14", "causal_based_simulator.py": "C20",
    "causal_effect.py": "C19", "high_dim_direct_lingam.py": "C27 C01 C28", "hsic.py": "C18", "lim.py": "C25",
    "lina.py": "C25", "longitudinal_lingam.py": "C13 C08 C09 C01 C28",
    "multi_group_direct_lingam.py": "C02 C03 C06 C09 C18 C28 C01", "resit.py": "C17 C09 C28", "var_lingam.py": "C11 C08 C09 C28 C10",
    "varma_lingam.py": "C12 C08 C09 C28 C10", "experimental/cdg.py": "C21", "experimental/oct.py": "C22",
    "tools/__init__.py": "C24", "utils/__init__.py": "C07 C23 C26 C02 C04 C25", "utils/_f_correlation.py": "C18",
    "utils/_visualize_nonlinear_causal_effect.py": "C26",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "mean": "median", "median": "mean", "any": "all",
         "all": "any", "union": "intersection", "std": "var", "triu": "tril", "tril": "triu", "hstack": "vstack", "floor": "ceil",
         "append": "insert0", "zeros": "ones", "abs": "asarray", "copy": "view", "intersection": "union"}


def sites(tree):
    out = []
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare):
            out.append((node, "cmp"))
            if type(node.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                out.append((node, "cmpflip"))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            if isinstance(node.right, ast.Constant) and isinstance(node.right.value, str):
                continue
            out.append((node, "bin"))
        elif isinstance(node, ast.BoolOp):
            out.append((node, "bool"))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            out.append((node, "unary"))
        elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
            out.append((node, "const"))
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            out.append((node, "flag"))
        elif isinstance(node, ast.Attribute) and node.attr in NAMES:
            out.append((node, "attr"))
        elif isinstance(node, ast.Name) and node.id in NAMES and isinstance(node.ctx, ast.Load):
            out.append((node, "name"))
        elif isinstance(node, (ast.AugAssign, ast.Continue, ast.Break)):
            out.append((node, "stmt"))
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Subscript):
            out.append((node, "stmt"))
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            out.append((node, "stmt"))
        elif isinstance(node, ast.If):
            out.append((node, "iftrue"))
            out.append((node, "iffalse"))
        elif isinstance(node, ast.Call) and node.keywords:
            out.append((node, "kw"))
    return out


class Swap(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return ast.copy_location(self.new, n)
        return self.generic_visit(n)


def mutate(src, rng):
    tree = ast.parse(src)
    s = [x for x in sites(tree) if hasattr(x[0], "lineno")]
    node, kind = rng.choice(s)
    new = copy.copy(node)
    if kind == "cmp":
        new.ops = [CMP[type(node.ops[0])]()] + node.ops[1:]
    elif kind == "cmpflip":
        new.ops = [{ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(node.ops[0])]()] + node.ops[1:]
    elif kind == "bin":
        new.op = BIN[type(node.op)]()
    elif kind == "bool":
        new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "unary":
        new = node.operand
    elif kind == "const":
        v = node.value
        new = ast.Constant(rng.choice([v + 1, v - 1]) if isinstance(v, int) else rng.choice([v * 2, v / 10, 0.0]))
    elif kind == "flag":
        new = ast.Constant(not node.value)
    elif kind == "attr":
        new.attr = NAMES[node.attr]
    elif kind == "name":
        new.id = NAMES[node.id]
    elif kind == "stmt":
        new = ast.Pass()
    elif kind == "iftrue":
        new.test = ast.Constant(True)
    elif kind == "iffalse":
        new.test = ast.Constant(False)
    elif kind == "kw":
        new.keywords = list(node.keywords)
        new.keywords.pop(rng.randrange(len(node.keywords)))
    a = ast.unparse(node)
    b = ast.unparse(new)
    lines = src.splitlines()
    where = lines[node.lineno - 1].strip()
    if "raise" in where or "warn" in where or "f\"" in where and kind == "const":
        return None
    t2 = ast.fix_missing_locations(Swap(node, new).visit(tree))
    try:
        out = ast.unparse(t2)
        compile(out, "x", "exec")
    except Exception:
        return None
    first = lambda s: s.splitlines()[0][:150]
    return out, f"L{node.lineno} {kind}: {first(a)}  ->  {first(b)}   | {where[:140]}"


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or sorted(MAP)
    os.makedirs("/tmp/mut", exist_ok=True)
    jobs, seen = [], set()
    for f in files:
        rng = random.Random(f"{seed}{f}")
        src = open(f"/repo/lingam/{f}").read()
        k = tries = 0
        while k < n and tries < 50 * n:
            tries += 1
            m = mutate(src, rng)
            if m is None or (f, m[1]) in seen:
                continue
            seen.add((f, m[1]))
            jobs.append((f, m[0], m[1], len(jobs)))
            k += 1
    random.Random(0).shuffle(jobs)
    log = open(f"/tmp/mut/survivors-{seed}.txt", "a")
    stat = {"caught": 0, "survived": 0, "error": 0}

    def one(job):
        f, code, what, i = job
        d = f"/tmp/mut/r{seed}-{i}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        open(f"{d}/lingam/{f}", "w").write(code)
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE_DIR=f"{d}/ev", VERIF_SEED="1", VERIF_TIER="quick")
        res = "survived"
        t = time.time()
        for c in MAP[f].split():
            try:
                r = subprocess.run(["python3", "/verif/pbt/run.py", c, "--jobs", "2"], env=env, capture_output=True, text=True, timeout=700)
            except subprocess.TimeoutExpired:
                res = "timeout " + c
                break
            if "VIOLATION" in r.stdout:
                res = "caught"
                break
            if r.returncode not in (0, 1):
                res = f"error {c} {(r.stdout + r.stderr)[-200:]!r}"
                break
        shutil.rmtree(d, ignore_errors=True)
        stat[res.split()[0] if res.split()[0] in stat else "error"] += 1
        if res != "caught":
            log.write(f"{res} {f} {what} ({time.time()-t:.0f}s)\n")
            log.flush()
        print(stat, f, res[:60], flush=True)

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, jobs))


main()
