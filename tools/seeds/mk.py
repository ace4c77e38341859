"""mk.py [ids]: builds /verif/seeded/<id> from seeds.py and validates each one in a scratch copy of /repo."""
import os, sys, json, shutil, subprocess, tempfile
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, H)
from seeds import SEEDS
try:
    from seeds2 import SEEDS2
    SEEDS = SEEDS + SEEDS2
except ImportError:
    pass
want = sys.argv[1:]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR="/opt/venv/mplconfig")


def special(s, repo):
    p = os.path.join(repo, "nosnoc", "rk_utils.py")
    t = open(p).read()
    i = t.index("n_s == 7")
    import re
    m = list(re.finditer(r"0\.(\d{15})", t[i:]))[10]
    a = m.group(0)
    b = a[:-9] + a[-8] + a[-9] + a[-7:]
    assert a != b, a
    t = t[:i + m.start()] + b + t[i + m.end():]
    open(p, "w").write(t)


for s in SEEDS:
    if want and s["id"] not in want and s["property"] not in want:
        continue
    sc = "/tmp/seedrepo"
    shutil.rmtree("/tmp/seedrepo", ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", sc], check=True)
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        if s["edits"] is None:
            special(s, sc)
        else:
            for f, a, b in s["edits"]:
                p = os.path.join(sc, "nosnoc", f); t = open(p).read()
                assert t.count(a) >= 1, ("pattern not found", a)
                open(p, "w").write(t.replace(a, b, 1))
    except AssertionError as e:
        print(s["id"], "EDIT FAILED", e); shutil.rmtree(d); continue
    diff = subprocess.run(["git", "-C", sc, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
    shutil.copy(os.path.join(H, "dh.py"), d)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec timeout 250 /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what_it_breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True, env=env)
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=sc, capture_output=True, text=True, env=env)
    e2 = dict(env, PYTHONPATH=sc)
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "test", "-q", "-n", "8", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=/tmp/seed.xml"], cwd=sc, capture_output=True, text=True, env=e2)
    tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", "/tmp/seed.json", "junit:/tmp/seed.xml"], capture_output=True)
    ok = r0.returncode == 0 and r1.returncode != 0
    try:
        res = json.load(open("/tmp/seed.json")); passed = set(res.get("passed", res.get("pass", [])))
        lost = sorted(base - passed) if passed else ["?"]
    except Exception as e:
        lost = [repr(e)]
    print(("OK  " if ok and not lost else "BAD ") + s["id"], r0.returncode, r1.returncode, tail, lost[:3])
    if not ok:
        print((r0.stdout + r0.stderr)[-600:], "\n---\n", (r1.stdout + r1.stderr)[-300:])
    if not ok or lost:
        shutil.move(d, "/tmp/badseed_" + s["id"]) if not os.path.exists("/tmp/badseed_" + s["id"]) else shutil.rmtree(d)
shutil.rmtree("/tmp/seedrepo", ignore_errors=True)
