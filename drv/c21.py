"""C21: step equilibration (spec/StepEq.tla)."""
import traceback
from collections import defaultdict
import numpy as np
import nos, c02

TICK = 1 / 12.0
RHO = 3.0


def job(a):
    cfg, dc, cases = a
    try:
        extra = dict(step_equilibration=dc["mode"], rho_h=RHO, step_equilibration_sigma=1e-6, gamma_h=1.0)
        P = c02.make(dict(cfg, fesd=dc["fesd"]), dc, extra)
        res = {}
        groups = defaultdict(list)
        for i, c in enumerate(cases):
            groups[tuple(c["c0"])].append(i)
        S = [2 if dc["pss"] != "STEWART" else 2 ** n for n in cfg["sys"]]
        N = [2 * n if dc["pss"] != "STEWART" else 2 ** n for n in cfg["sys"]]
        nus = float(np.prod([float(s) ** (2 * q) for s, q in zip(S, N)])) if dc["mode"] == "L2_RELAXED" else 1.0
        for c0, idx in groups.items():
            c02.set_initial(P, c0, [1.0])
            cs = [cases[i] for i in idx]
            H = np.array([c["hs"] for c in cs], dtype=float) * TICK
            W = c02.realise(P, cfg, c0, cs, [1.0], H=H if dc["fesd"] else None)
            f, _ = P.eval(W)
            for i, r, q in zip(idx, P.resid(W), f):
                pen = q / RHO / TICK ** 2 * nus
                if abs(pen) > 1e9 or not np.isfinite(pen):
                    pi = -2
                else:
                    pi = int(round(pen))
                    if abs(pi - pen) > 1e-5 * max(1.0, abs(pen)):
                        pi = -3
                res[i] = (bool(r < 1e-6), pi)
        return dict(ok=True, acc=res)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("StepEq", "SInit", "SNext", consts=dict(Tier=ctx.tlevel),
                         invariants=["RelaxedVanishes", "EqualAlwaysOk", "SEmit"])
    if ctx.quick and len(cases) > 9000:
        ctx.rng.shuffle(cases)
        cases = cases[:9000]
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[str(sorted(c["cfg"].items()))].append(i)
    jobs, meta = [], []
    reps, crs = list(nos.REPS), list(nos.CROSS)
    q = ctx.rng.randrange(100)
    for k in sorted(by):
        cfg = cases[by[k][0]]["cfg"]
        dcs = []
        for mode in ("DIRECT", "HEURISTIC_MEAN", "HEURISTIC_DELTA", "L2_RELAXED", "L2_RELAXED_SCALED", "DIRECT_COMPLEMENTARITY"):
            for pss in ("STEWART", "STEP"):
                q += 1
                mp = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER"][q % 3]
                if mode == "DIRECT_COMPLEMENTARITY":
                    mp = "SCHOLTES_EQ"
                dcs.append(dict(mode=mode, pss=pss, rep=reps[q % 3], cross=crs[(q // 3) % 2], mpcc=mp, fesd=True))
        for mode in ("DIRECT", "L2_RELAXED", "HEURISTIC_MEAN"):
            dcs.append(dict(mode=mode, pss="STEP", rep=reps[q % 3], cross="SUM", mpcc="SCHOLTES_INEQ", fesd=False))
        for dc in dcs:
            idx = by[k]
            if not dc["fesd"]:
                idx = [i for i in idx if all(h == 12 // n for h, n in zip(cases[i]["hs"], [l for l in cfg["lay"] for _ in range(l)]))]
            if idx:
                jobs.append((cfg, dc, [cases[i] for i in idx]))
                meta.append((idx, dc))
    obs = [defaultdict(list) for _ in cases]
    for (idx, dc), j, r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (j[0], dc, r["err"].strip().splitlines()[-1]), dict(cfg=j[0], dc=dc, err=r["err"]))
            continue
        for i, (acc, pen) in r["acc"].items():
            obs[idx[i]][(dc["mode"], dc["pss"], dc["fesd"], acc, pen)].append(dc)
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(c, obs=[dict(mode=a, pss=b, fesd=f, acc=d, pen=e) for a, b, f, d, e in sorted(obs[i])]))
            rid.append(i)
    can = []
    for r in recs[:: max(1, len(recs) // 6)]:
        o = [dict(x) for x in r["obs"] if x["mode"] == "HEURISTIC_MEAN" and x["fesd"]]
        if o:
            o[0]["pen"] += 1
            can.append(dict(r, obs=o[:1]))
    r = next((r for r in recs if r["hs"][0] != r["hs"][1] and any(o["mode"] == "DIRECT" and not o["acc"] for o in r["obs"])), None)
    if r:
        can.append(dict(r, obs=[dict(mode="DIRECT", pss=o["pss"], fesd=True, acc=True, pen=0) for o in r["obs"] if o["mode"] == "DIRECT" and not o["acc"]]))
    bad = ctx.validate("StepEq", recs, can, init="STInit", next="STNext", emit="STEmit", consts=dict(Tier=ctx.tlevel))
    for k, vs in bad.items():
        c = cases[rid[k]]
        for v in vs:
            o = v["o"]
            d = obs[rid[k]][(o["mode"], o["pss"], o["fesd"], o["acc"], o["pen"])]
            ctx.violation("%s: mode %s %s lengths %s layout %s, first config %s" % (v["clause"], o["mode"], o["pss"], c["hs"], c["cfg"]["lay"], d[:1]),
                          dict(case=c, o=o, configs=d))
    ctx.notes.update(patterns=len(cases), problems_built=len(jobs))
    for c in cases[:3]:
        ctx.sample(c)
    ctx.assumptions += ["patterns are realised through free algebraic variables; unit multipliers"]
