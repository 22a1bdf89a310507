"""Build and confirm planted bugs.

usage: plant.py build SPEC.py [ID...]     make /verif/seeded/ID from a spec and confirm it
       plant.py check [ID...]             run the bug's check against it; results go to tools/caught.json
       plant.py table                     write the table at the end of DESIGN.md from tools/caught.json
A spec module defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, what, demo)].
Everything is done in scratch clones under /tmp; /repo is never touched.
"""
import importlib.util, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
SEEDED = "/verif/seeded"
CAUGHT = "/verif/tools/caught.json"


def clone(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", dst], check=True)


def tests(dst):
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "-n",
                        os.environ.get("PLANT_N", "8"), "--randomly-seed=1", "--randomly-dont-reorganize"],
                       cwd=dst, env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-600:]


def demo(bdir, repo):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    t = time.time()
    r = subprocess.run(["bash", os.path.join(bdir, "demo.sh")], cwd=repo, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, time.time() - t, (r.stdout + r.stderr)[-400:]


RUN = """
import json, sys
import numpy as np
def plain(v):
    if isinstance(v, dict): return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)): return sorted(plain(x) for x in v)
    if isinstance(v, (list, tuple)): return [plain(x) for x in v]
    if isinstance(v, np.ndarray): return plain(v.tolist())
    if isinstance(v, (np.floating, float)): return None if np.isnan(v) else float(v)
    if isinstance(v, (np.integer, np.bool_)): return int(v)
    return v
def attempt(s):
    try: return plain(probe(s))
    except Exception as e: return "raised " + type(e).__name__
"""
SAME = """
def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-5 * (1 + abs(b))
    return a == b
"""


def make_demo(b, clean, patched):
    """A demonstration from a probe: the seeds on which the change is visible."""
    ns = {}
    exec(SAME, ns)
    vals = []
    for repo in (clean, patched):
        code = b["probe"] + RUN + f"print('@@' + json.dumps([attempt(s) for s in range({b.get('n', 40)})]))"
        env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([PY, "-W", "ignore", "-c", code], cwd=repo, env=env, capture_output=True, text=True)
        o = [l for l in r.stdout.splitlines() if l.startswith("@@")]
        if not o:
            return None, r.stderr[-500:]
        vals.append(json.loads(o[-1][2:]))
    diff = [i for i, (x, y) in enumerate(zip(*vals)) if not ns["same"](y, x) and not (isinstance(x, str) and x.startswith("raised") and not b.get("raises"))]
    if not diff:
        return None, "no seed differs"
    keep = diff[:4]
    exp = {i: vals[0][i] for i in keep}
    return (b["probe"].strip() + "\n" + RUN + SAME + f"EXPECT = {exp!r}\n"
            "bad = [s for s, want in EXPECT.items() if not same(attempt(s), want)]\n"
            "print('wrong results for', bad)\nsys.exit(int(bool(bad)))\n"), f"{len(diff)} of {len(vals[0])} differ"


def build(spec, ids):
    s = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    for b in m.BUGS:
        if ids and b["id"] not in ids:
            continue
        d = f"/tmp/plant-{b['id']}"
        clone(d)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(b["id"], "EDIT matches", t.count(old), "times:", old[:60])
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        bd = os.path.join(SEEDED, b["id"])
        os.makedirs(bd, exist_ok=True)
        open(os.path.join(bd, "patch.diff"), "w").write(
            subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout)
        open(os.path.join(bd, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        clone("/tmp/plant-clean")
        note = ""
        if "probe" in b:
            code, note = make_demo(b, "/tmp/plant-clean", d)
            if code is None:
                print(b["id"], "PROBE:", note, flush=True)
                shutil.rmtree(bd)
                shutil.rmtree(d)
                continue
            b["demo"] = code
        open(os.path.join(bd, "demo.py"), "w").write(b["demo"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(os.path.join(bd, "meta.json"), "w"), indent=1)
        c = demo(bd, "/tmp/plant-clean")
        p = demo(bd, d)
        if c[0] != 0 or p[0] == 0:
            print(b["id"], "DEMO wrong: clean", c, "patched", p, flush=True)
            shutil.rmtree(bd)
            shutil.rmtree(d)
            continue
        t, tail = tests(d)
        print(b["id"], "tests", "pass" if t else "FAIL " + tail, f"demo {c[1]:.0f}s", note, flush=True)
        if not t:
            shutil.rmtree(bd)
        shutil.rmtree(d)
    shutil.rmtree("/tmp/plant-clean", ignore_errors=True)


def check(ids, allc=False):
    ids = ids or sorted(os.listdir(SEEDED))
    found = {}

    def one(i):
        prop = json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]
        d = f"/tmp/plant-chk-{i}"
        clone(d)
        subprocess.run(["git", "apply", f"{SEEDED}/{i}/patch.diff"], cwd=d, check=True)
        t = time.time()
        r = subprocess.run([PY, "/verif/pbt/run.py", prop, "--jobs", "4"], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_EVIDENCE_DIR=d))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        shutil.rmtree(d)
        found[i] = {"property": prop, "caught": bool(r.returncode == 1 and v),
                    "clauses": sorted({os.path.basename(l.split("replay=")[1]).split("-")[1] for l in v})}
        print(i, prop, "CAUGHT" if r.returncode == 1 and v else f"missed rc={r.returncode}", f"{time.time()-t:.0f}s", len(v), flush=True)

    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, ids))
    old = json.load(open(CAUGHT)) if os.path.exists(CAUGHT) else {}
    old.update(found)
    json.dump({k: v for k, v in sorted(old.items()) if os.path.isdir(f"{SEEDED}/{k}")}, open(CAUGHT, "w"), indent=0)


def table():
    old = json.load(open(CAUGHT))
    rows = ["| change | what it breaks | caught by (quick tier, seed 1) |", "|---|---|---|"]
    for i in sorted(os.listdir(SEEDED)):
        m = json.load(open(f"{SEEDED}/{i}/meta.json"))
        r = old.get(i)
        how = "not run" if r is None else f"{r['property']}: {', '.join(r['clauses'])}" if r["caught"] else "missed"
        rows.append(f"| {i} | {m['what_it_breaks']} | {how} |")
    p = "/verif/DESIGN.md"
    t = open(p).read().split("<!-- table -->")[0]
    open(p, "w").write(t + "<!-- table -->\n" + "\n".join(rows) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "build":
        build(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "table":
        table()
    else:
        check(sys.argv[2:])
