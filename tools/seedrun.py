"""seedrun.py [ids]: runs the check of the property of each planted bug against a scratch copy with the bug; prints caught / missed."""
import os, sys, json, shutil, subprocess, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))


def one(i):
    d = "%s/seeded/%s" % (V, i)
    m = json.load(open(d + "/meta.json"))
    sc = "/tmp/seedrun_" + i
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", sc], check=True)
    subprocess.run(["git", "-C", sc, "apply", d + "/patch.diff"], check=True)
    r = subprocess.run(["/opt/venv/bin/python", V + "/check.py", m["property"]], cwd=V, capture_output=True, text=True,
                       env=dict(os.environ, NOSNOC_REPO=sc, VERIF_EVIDENCE="/tmp/ev_" + i, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    shutil.rmtree(sc, ignore_errors=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return i, m["property"], r.returncode, (v[0] if v else r.stdout[-200:] + r.stderr[-200:])[:230]


with cf.ThreadPoolExecutor(int(os.environ.get("SEED_JOBS", "2"))) as ex:
    for i, p, rc, v in ex.map(one, ids):
        print("CAUGHT" if rc == 1 and "VIOLATION property=%s" % p in v else "MISSED rc=%d" % rc, i, p, v, flush=True)
