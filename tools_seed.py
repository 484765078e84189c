#!/opt/venv/bin/python
"""developer helper (not used by any check): make and validate planted bugs.

tools_seed.py make FILE.py    FILE.py defines SEEDS = {id: dict(property, needs, what_it_breaks, edits=[(file, old, new)], demo=PY_SOURCE)}
tools_seed.py validate [ids]  tests + demo with and without the patch in a scratch copy
tools_seed.py catch [ids]     run the property's check against a scratch copy with the patch (PYVC_REPO)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = HERE + "/seeded"
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the planted change
here="$(cd "$(dirname "$0")" && pwd)"
exec env OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$here/demo.py"
'''
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter('ignore')\n"


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d


def make(f):
    ns = {}
    exec(open(f).read(), ns)
    for sid, s in ns["SEEDS"].items():
        d = scratch()
        try:
            for fn, old, new in s["edits"]:
                p = f"{d}/repo/{fn}"
                t = open(p).read()
                assert t.count(old) == 1, (sid, fn, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", d + "/repo", "diff"], capture_output=True, text=True).stdout
        finally:
            shutil.rmtree(d)
        o = f"{SEED}/{sid}"
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(DEMO)
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.py", "w").write(HEAD + s["demo"])
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(o + "/meta.json", "w"), indent=1)


def run(sid, mode):
    d = scratch()
    repo = d + "/repo"
    meta = json.load(open(f"{SEED}/{sid}/meta.json"))
    out = {"id": sid, "property": meta["property"]}
    try:
        demo = ["bash", f"{SEED}/{sid}/demo.sh"]
        if mode == "validate":
            r = subprocess.run(demo, cwd=repo, capture_output=True, text=True, timeout=300)
            out["demo_clean"] = r.returncode
            if r.returncode:
                out["err"] = (r.stdout + r.stderr)[-800:]
        a = subprocess.run(["git", "-C", repo, "apply", f"{SEED}/{sid}/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            out["apply"] = a.stderr
            return out
        if mode == "validate":
            r = subprocess.run(demo, cwd=repo, capture_output=True, text=True, timeout=300)
            out["demo_patched"] = r.returncode
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            t = open("/opt/vp/test.sh").read().replace("/repo", repo).replace("/opt/vp/run.", d + "/run.")
            open(d + "/test.sh", "w").write(t)
            subprocess.run(["bash", d + "/test.sh", d + "/out.json"], capture_output=True)
            got = json.load(open(d + "/out.json"))
            out["tests_failed"] = sorted(set(base) - set(got["passed"]))
        else:
            env = dict(os.environ, PYVC_REPO=repo)
            r = subprocess.run(["/opt/venv/bin/python", f"{HERE}/check.py", meta["property"]], capture_output=True, text=True, env=env)
            out["exit"] = r.returncode
            out["lines"] = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violated" in l or " failed " in l or "unknown" in l or "NOTE" in l]
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        from concurrent.futures import ThreadPoolExecutor

        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        with ThreadPoolExecutor(3 if sys.argv[1] == "validate" else 2) as ex:
            for o in ex.map(lambda i: run(i, sys.argv[1]), ids):
                print(json.dumps(o, indent=1), flush=True)
