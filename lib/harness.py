"""Check context: specification runs, trace validation, verdicts, evidence."""
import os, sys, json, time, tempfile, shutil, random, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import tlc


class Machinery(RuntimeError):
    """The check itself failed (never a verdict)."""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.tlevel = 1 if self.quick else 2
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = []
        self.known = []
        try:
            for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
                if k.get("property") == pid and k.get("status") == "known":
                    self.known.append(k)
        except FileNotFoundError:
            pass

    # ---- specification runs
    def tlc(self, module, cfg, **kw):
        try:
            r = tlc.run(module, cfg, scratch=self.scratch, **kw)
        except tlc.TlcError as e:
            raise Machinery(str(e)) from None
        self.states += r.distinct
        self.transitions += max(r.states - 1, 0)
        return r

    def generate(self, module, init="Init", next="Next", invariants=(), consts=None, env=None, **kw):
        """Model checks module; returns what it emitted."""
        out = os.path.join(self.scratch, "%s_%d.csv" % (module, len(os.listdir(self.scratch))))
        cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, next)
        for k, v in (consts or {}).items():
            cfg += "CONSTANT %s = %s\n" % (k, v)
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        e = dict(OUT=out)
        e.update(env or {})
        self.tlc(module, cfg, env=e, **kw)
        cases = tlc.read_cases(out)
        if os.path.exists(out):
            os.remove(out)
        return cases

    def validate(self, module, recs, canaries=(), init="TInit", next="TNext", emit="Emit", consts=None, workers=8, key="id",
                 count=True, constraints=()):
        """Checks the recorded observations against the specification. Every record and every canary (a record with a known
        wrong observation) needs a verdict; canaries have to be rejected. Returns {id: verdict} of the rejected records."""
        recs, canaries = list(recs), list(canaries)
        if not recs:
            raise Machinery("no observations recorded")
        allr = []
        for i, r in enumerate(recs + canaries):
            r = dict(r)
            r["id"] = i + 1
            allr.append(r)
        # the records are independent of each other: large recordings are validated in pieces that fit TLC's heap
        pieces, size = [[]], 0
        for r in allr:
            n = len(json.dumps(r))
            if size + n > 40e6 and pieces[-1]:
                pieces.append([])
                size = 0
            pieces[-1].append(r)
            size += n
        res = []
        for piece in pieces:
            path = os.path.join(self.scratch, "trace_%d.ndjson" % len(os.listdir(self.scratch)))
            tlc.write_traces(path, piece)
            res += self.generate(module, init=init, next=next, invariants=[emit] if emit else [], consts=consts,
                                 env=dict(TRACE=path), workers=workers)
            os.remove(path)
        verd = {}
        for v in res:
            verd.setdefault(v["id"], []).extend(v["bad"] if isinstance(v["bad"], list) else [v["bad"]])
        missing = [i for i in range(1, len(allr) + 1) if i not in verd]
        if missing:
            raise Machinery("no verdict for %d of %d records of %s (first: %s)" %
                            (len(missing), len(allr), module, json.dumps(allr[missing[0] - 1])[:1500]))
        clean = not self.violations and not any(verd[i] for i in range(1, len(recs) + 1))
        for k in range(len(canaries)):
            # (on a tree that misbehaves, corrupting an observation may repair it)
            if clean and not verd[len(recs) + 1 + k]:
                raise Machinery("corrupted record accepted by %s: %s" % (module, json.dumps(canaries[k])[:1500]))
        if count:
            self.traces += len(recs)
        self.notes["corrupted_records_rejected"] = self.notes.get("corrupted_records_rejected", 0) + len(canaries)
        return {i - 1: v for i, v in verd.items() if v and i <= len(recs)}

    # ---- verdicts
    def violation(self, what, record, key=None):
        """what: one line; record: JSON-able replay data; key: identification for known findings."""
        self.violations.append((what, record, key or what))

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def finish(self, level="model_checking"):
        new, known = [], {}
        for what, rec, key in self.violations:
            k = next((k for k in self.known if k.get("match") and all(m in key for m in
                      ([k["match"]] if isinstance(k["match"], str) else k["match"]))), None)
            if k:
                known[k["id"]] = k
            else:
                new.append((what, rec, key))
        for k in self.known:
            if k["id"] in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            d = os.path.join(HERE, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + ".json")
            with open(path, "w") as f:
                json.dump([dict(what=w, record=r) for w, r, _ in new[:50]], f, indent=1, default=str)
            for w, _, _ in new[:8]:
                print("  " + w[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1 if new else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
