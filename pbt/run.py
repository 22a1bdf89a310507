#!/opt/venv/bin/python
"""Entry point:  run.py <property> [--tier quick|thorough] [--replay FILE] [--clause NAME]

Runs the generated-input search for one property against /repo's current
working tree and writes evidence/<property>.json.

exit 0  the property held on everything that was explored
exit 1  a violation was found (a VIOLATION line names the replay file)
exit 2  the harness itself failed (no verdict)
"""
import os
import sys

_WANT = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONWARNINGS": "ignore",
}
PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if any(os.environ.get(k) != v for k, v in _WANT.items()) or os.path.realpath(
        sys.executable
    ) != os.path.realpath(PYTHON) or sys.prefix != "/opt/venv":
        env = dict(os.environ)
        env.update(_WANT)
        exe = PYTHON if os.path.exists(PYTHON) else sys.executable
        if os.environ.get("_PBT_REEXEC") == "1":
            pass
        else:
            env["_PBT_REEXEC"] = "1"
            os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

    import atexit
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix="pbt-")
    owner = os.getpid()
    atexit.register(
        lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True)
    )
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])

    libs = os.path.join(scratch, "libs")
    os.makedirs(libs)
    site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if os.path.isdir(os.path.join(site, "hypothesis")):
        for name in (
            "hypothesis", "sortedcontainers", "_hypothesis_ftz_detector.py",
            "_hypothesis_globals.py", "attr", "attrs",
        ):
            src = os.path.join(site, name)
            if os.path.exists(src):
                os.symlink(src, os.path.join(libs, name))
    else:
        import glob
        import zipfile

        for pat in ("hypothesis-*cp312-cp312*", "sortedcontainers-*", "attrs-*"):
            for whl in glob.glob("/opt/veriftools/wheels/" + pat):
                zipfile.ZipFile(whl).extractall(libs)

    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.path.append(libs)
    os.chdir(scratch)

    import core

    code = core.cli(sys.argv[1:], scratch, REPO)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
