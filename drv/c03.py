"""C03: exact trajectories that switch at element boundaries are feasible, others are not (spec/Fesd.tla)."""
import traceback
import numpy as np
import nos, fesdlib as fl
from collections import defaultdict


def job(a):
    fam, cfg, dc, cases = a
    try:
        P = fl.make(fam, cfg, dc)
        res = {}
        groups = defaultdict(list)
        for i, c in enumerate(cases):
            if dc["fesd"] or fl.nominal(cfg, c):
                groups[tuple(c["x0"])].append(i)
        for x0, idx in groups.items():
            P.solver.set("x0", np.array(x0, dtype=float) * fl.UX)
            P.repose()
            W = fl.realise(P, fam, cfg, [cases[i] for i in idx])
            for i, r in zip(idx, P.resid(W)):
                res[i] = bool(r < 1e-6)
        return dict(ok=True, acc=res)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    out = ctx.generate("FesdGen", "GInit", "GNext", consts=dict(Tier=ctx.tlevel),
                       invariants=["TypeOK", "GoodIsExact", "FaultIsRejected", "CrossEqFilippov", "Emit", "EmitFam"])
    fams = {c["fam"]: c["def"] for c in out if "def" in c}
    cases = [c for c in out if "els" in c]
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[str(sorted(c["cfg"].items()))].append(i)
    jobs, meta = [], []
    for k in sorted(by):
        idx = by[k]
        cfg = cases[idx[0]]["cfg"]
        fam = fams[cfg["fam"]]
        if cfg["sot"] == "GLOBAL" and ctx.rng.random() < 0:
            continue
        for dc in fl.driver_configs(fam, ctx.rng, ctx.quick):
            jobs.append((fam, cfg, dc, [cases[i] for i in idx]))
            meta.append((idx, dc, cfg, fam))
    obs = [defaultdict(list) for _ in cases]
    nacc = nrej = 0
    for (idx, dc, cfg, fam), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s %s): %s" %
                          (fam["name"], cfg, dc, r["err"].strip().splitlines()[-1]), dict(cfg=cfg, dc=dc, err=r["err"]))
            continue
        for j, acc in r["acc"].items():
            sc = dc["scheme"] == "RADAU"
            obs[idx[j]][(sc, dc["fesd"], acc)].append(dc)
            nacc += acc
            nrej += not acc
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(cfg=c["cfg"], x0=c["x0"], us=c["us"], sots=c["sots"], els=c["els"],
                             obs=[dict(sc=a, fesd=b, acc=d) for a, b, d in sorted(obs[i])]))
            rid.append(i)
    can = []
    for fault in ("none", "region", "u", "jump"):
        r = next((recs[k] for k, i in enumerate(rid) if cases[i]["fault"] == fault and cases[i]["x0"] is not None), None)
        if r:
            can.append(dict(r, obs=[dict(sc=True, fesd=True, acc=fault != "none")]))
    bad = ctx.validate("FesdTrace", recs, can, consts=dict(Tier=ctx.tlevel))
    for k, vs in bad.items():
        c = cases[rid[k]]
        for v in vs:
            dcs = obs[rid[k]][(v["o"]["sc"], v["o"]["fesd"], v["o"]["acc"])]
            ctx.violation("%s: family %s, layout %s, fault %s, x0 %s, %d configuration(s), first %s" %
                          (v["clause"], fams[c["cfg"]["fam"]]["name"], c["cfg"]["lay"], c["fault"], c["x0"], len(dcs), dcs[0]),
                          dict(case=c, configs=dcs, clause=v["clause"]))
    ctx.notes.update(trajectories=len(cases), problems_built=len(jobs), nlp_points_accepted=nacc, nlp_points_rejected=nrej)
    for f in ("none", "region", "jump"):
        c = next(c for c in cases if c["fault"] == f)
        ctx.sample(dict(cfg=c["cfg"], x0=c["x0"], fault=f, els=c["els"]))
    ctx.assumptions += ["piecewise constant systems with integer data; the accepted set is probed at natural multipliers",
                        "NLP residual below 1e-6 counts as feasible"]
