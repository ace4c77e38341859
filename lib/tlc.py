"""Thin wrapper around TLC: runs a module with a config, collects printed tags and statistics."""
import os, re, subprocess, shutil, tempfile, json

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(RuntimeError):
    """TLC could not complete: machinery failure (never a verdict)."""


class TlcResult:
    def __init__(self, out, states, distinct, depth):
        self.out, self.states, self.distinct, self.depth = out, states, distinct, depth
        self.tags = re.findall(r'^<<"([A-Z_]+)", (.*)>>$', out, re.M)

    def tagged(self, tag):
        return [v for t, v in self.tags if t == tag]


def run(module, cfg, env=None, workers=8, scratch=None, timeout=800, simulate=None, depth=None, seed=None, heap="6g"):
    """Model check spec/<module>.tla with the given config text."""
    if os.environ.get("VERIF_TIER") == "thorough":
        timeout *= 3
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "M.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        cmd += [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on %s" % module)
        out = p.stdout
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        ok = "Model checking completed. No error has been found" in out or (simulate and p.returncode == 0)
        if not ok:
            k = min([i for i in (out.find("Error:"), out.find("*** "), out.find("Lexical error"), out.find("Was expecting")) if i >= 0] or [-1])
            if k < 0:
                k = max(0, len(out) - 3000)
            raise TlcError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, out[k:k + 4000]))
        st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if simulate:
            mm = re.findall(r"The number of states generated: (\d+)", out)
            st = (int(mm[-1]), int(mm[-1])) if mm else st
        dep = re.findall(r"depth of the complete state graph search is (\d+)", out)
        return TlcResult(out, st[0], st[1], int(dep[-1]) if dep else 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_cases(path):
    """Reads the cases written by the specification (one JSON value per CSV line)."""
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    v = json.loads(line)
                    res.append(json.loads(v) if isinstance(v, str) else v)
    return res


def write_traces(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
