"""C05: element lengths, speed of time, clock (spec/Horizon.tla)."""
import traceback, json
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet
HS = 12


def make(cfg, dc):
    import nosnoc
    x = ca.SX.sym("x", 2)
    u = ca.SX.sym("u")
    f = ca.vertcat(1, u)
    x0 = np.array(dc["x0"], dtype=float)
    kw = dict(x=x, x0=x0 + 0.625 if dc["later"] else x0.copy(), u=u, c=[x[0] + 10])
    if dc["pss"] == "FX":
        al = ca.SX.sym("al")
        kw.update(f_x=[f * al], alpha=[al])
    else:
        kw.update(F=[ca.horzcat(f, -f)], S=[np.array([[1.0], [-1.0]])])
    if cfg["tf"]:
        kw["t_var"] = x[1]
    tick = dc["tick"]
    o = mkopts(terminal_time=len(cfg["lay"]) * HS * tick, N_stages=len(cfg["lay"]), Nfe_list=list(cfg["lay"]), n_s=dc["ns"],
               irk_scheme=dc["scheme"], irk_representation=dc["rep"], pss_mode="STEWART" if dc["pss"] == "STEWART" else "STEP",
               cross_comp_mode=dc["cross"], use_fesd=cfg["fesd"], equidistant_control_grid=cfg["eq"], gamma_h=cfg["gamma"] / 4,
               speed_of_time_variables=cfg["sot"], speed_of_time_min=0.75, speed_of_time_max=1.5, time_freezing=cfg["tf"],
               time_freezing_tolerance=100 * tick / 192, rho_h=0.0, sigma_0=0.0, max_iter_homotopy=1, step_equilibration=dc["seq"])
    with quiet():
        P = Prob(o, nosnoc.NosnocModel(**kw), nosnoc.NosnocOcp(f_q=1 + 2 * u), solve=False)
        if dc["later"]:                                     # the clock starts where the current initial state says
            P.solver.set("x0", x0)
        P.repose()
    return P


def job(a):
    cfg, cases, dc = a
    try:
        P = make(cfg, dc)
        n, tick = len(cases), dc["tick"]
        W = P.base(n)
        hs = np.array([c["hs"] for c in cases], dtype=float) * tick
        so = np.array([c["sots"] for c in cases], dtype=float) / 4
        us = np.array([c["us"] for c in cases], dtype=float) / 48
        for k, iu in enumerate(P.u):
            W[:, iu] = us[:, k:k + 1]
        for k, i in enumerate(P.sot):
            W[:, i] = so[:, k]
        x = np.tile(np.array(dc["x0"], dtype=float), (n, 1))
        for i, fe in enumerate(P.fes):
            v = np.stack([so[:, fe.k], so[:, fe.k] * us[:, fe.k]], axis=1)
            h = hs[:, i:i + 1]
            Xs = [x + h * c * v for c in P.tau]
            x = x + h * v
            P.put_x(W, fe, Xs, x)
            P.put_v(W, fe, [v] * len(P.tau))
            if fe.h is not None:
                W[:, fe.h] = hs[:, i]
            for j in range(max(len(fe.lam), len(fe.ln))):
                c = ((Xs[j] if j < len(Xs) else x)[:, :1]) + 10
                if len(fe.lam[j][0]):
                    W[:, fe.lam[j][0]] = np.hstack([0 * c, 2 * c])
                    W[:, fe.mu[j][0]] = c
                    if j < len(Xs):
                        W[:, fe.th[j][0]] = [1, 0]
                else:
                    W[:, fe.ln[j][0]] = 0
                    W[:, fe.lp[j][0]] = c
                    if j < len(Xs):
                        W[:, fe.al[j][0]] = 1
        f, _ = P.eval(W)
        cost = f * 192 / tick
        res = P.resid(W)
        return dict(ok=True, acc=[bool(r < 1e-6) for r in res],
                    cost=[int(round(c)) if abs(c) < 1e8 and abs(c - round(c)) < 1e-4 else -1 for c in cost])
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("Horizon", consts=dict(Tier=ctx.tlevel),
                         invariants=["Partition", "Equidistant", "WithinBounds", "ClockTime", "GammaZero", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    rng = ctx.rng
    q = rng.randrange(36)
    for k in sorted(by):
        for w in range(1 if ctx.quick else 3):
            q += 1
            dc = dict(scheme=["RADAU", "GAUSS"][q % 2], ns=1 + q // 2 % 3, rep=list(nos.REPS)[q // 3 % 3], pss=["STEWART", "STEP", "FX"][q % 3],
                      cross=["ALL", "SUM"][q // 5 % 2], tick=[0.25, 0.125, 1 / 3, 0.05][q % 4], x0=[0.5 * rng.randrange(-3, 4), 0.375 * rng.randrange(-2, 4)],
                      later=q // 2 % 2 == 0, seq=["HEURISTIC_DELTA", "HEURISTIC_MEAN", "L2_RELAXED", "L2_RELAXED_SCALED"][q // 7 % 4])
            jobs.append((cases[by[k][0]]["cfg"], [cases[i] for i in by[k]], dc))
            meta.append((by[k], dc))
    obs = [[] for _ in cases]
    cnt = [0, 0]
    for (idx, dc), j, r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (j[0], dc, r["err"].strip().splitlines()[-1]), dict(cfg=j[0], dc=dc, err=r["err"]))
            continue
        for i, acc, c in zip(idx, r["acc"], r["cost"]):
            obs[i].append(dict(acc=acc, cost=c, dc=dc))
            cnt[acc] += 1
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(c, obs=[dict(acc=o["acc"], cost=o["cost"]) for o in obs[i]]))
            rid.append(i)
    if recs:
        can = [dict(r, obs=[dict(acc=not r["obs"][0]["acc"], cost=r["obs"][0]["cost"])]) for r in recs[:: max(1, len(recs) // 6)]][:6]
        can += [dict(r, obs=[dict(acc=r["obs"][0]["acc"], cost=r["obs"][0]["cost"] + 1)]) for r in [r for r in recs if r["cfg"]["fesd"]][:: max(1, len(recs) // 3)]][:3]
        for k, vs in ctx.validate("Horizon", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            c = cases[rid[k]]
            ctx.violation("%s: %s lengths %s, speeds of time %s, clock rates %s (%s)" %
                          (", ".join(vs), c["cfg"], c["hs"], c["sots"], c["us"], obs[rid[k]][0]), dict(case=c, obs=obs[rid[k]], clause=vs))
    ctx.notes.update(configurations=len(by), problems_built=len(jobs), grids=len(cases), grids_accepted=cnt[1], grids_rejected=cnt[0])
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["NLP residual below 1e-6 counts as feasible", "lengths are multiples of a tick (1/12 of a control stage)"]
