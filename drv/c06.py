"""C06: objective (spec/Objective.tla)."""
import traceback, json
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet
HS, T4, PG, VG = 12, 0.25, 2.0, -3.0


def make(cfg, dc, tv, lsq=False):
    import nosnoc
    x, u, p1, p2, v = (ca.SX.sym(n) for n in ("x", "u", "p1", "p2", "v"))
    f = u + p1
    kw = dict(x=x, x0=np.array([1.0]), u=u, c=[x], p_time_var=p1, p_global=p2, v_global=v,
              p_time_var_val=np.array(tv, dtype=float).reshape(-1, 1), p_global_val=np.array([PG]))
    if dc["fx"]:
        al = ca.SX.sym("al")
        kw.update(f_x=[f * al], alpha=[al])
    else:
        kw.update(F=[ca.horzcat(f, -f)], S=[np.array([[1.0], [-1.0]])])
    m = cfg["meth"]
    N = len(cfg["lay"])
    o = mkopts(terminal_time=N * HS * T4, N_stages=N, Nfe_list=list(cfg["lay"]), n_s=m["s"], irk_scheme=m["sch"],
               irk_representation=dc["rep"], pss_mode=cfg["pss"], use_fesd=cfg["fesd"], cross_comp_mode=dc["cross"],
               speed_of_time_variables=cfg["sot"], step_equilibration=cfg["seq"], rho_h=3.0, step_equilibration_sigma=0.02,
               mpcc_mode=dc["mpcc"], objective_scaling_direct=cfg["ela"] == "direct", sigma_0=2.0 ** -dc["e"], sigma_N=2.0 ** -dc["e"], max_iter_homotopy=1,
               equidistant_control_grid=dc["eq"], constraint_handling="LEAST_SQUARES" if lsq else "EXACT")
    q = x * (1 + u) + 3 * u + 5 * p1 + 7 * p2 + 11 * v
    with quiet():
        return Prob(o, nosnoc.NosnocModel(**kw), nosnoc.NosnocOcp(f_q=q, f_terminal=x * (2 + p1) + 3 * p2 + v))


def job(a):
    cfg, cases, dc = a
    try:
        P = make(cfg, dc, cases[0]["tv"])
        Q = make(cfg, dc, cases[0]["tv"], True) if dc["lsq"] else None
        tvs = defaultdict(list)
        for i, c in enumerate(cases):
            tvs[tuple(c["tv"])].append(i)
        F = np.zeros(len(cases)); L = np.zeros(len(cases), dtype=int)
        for tv, idx in tvs.items():
            for R in (P, Q):
                if R is not None:
                    with quiet():
                        R.solver.set("p_time_var", np.array(tv, dtype=float).reshape(-1, 1))
                    R.repose()
            cs = [cases[i] for i in idx]
            n = len(cs)
            A = lambda g: np.array([g(c) for c in cs], dtype=float)
            W = P.base(n) + 0.0
            W[:, P.vg] = VG
            for k, iu in enumerate(P.u):
                W[:, iu] = A(lambda c: [c["us"][k]])
            for k, i in enumerate(P.sot):
                W[:, i] = A(lambda c: c["sots"][k]) / 4
            if len(P.elastic):
                W[:, P.elastic] = A(lambda c: [c["slack"]])
            xp = np.full(n, 1.0)
            for i, fe in enumerate(P.fes):
                h, a_, m_, b_, e_, t_ = (A(lambda c: c["els"][i][nm]) for nm in ("h", "a", "m", "b", "e", "t"))
                l_ = A(lambda c: c["els"][i]["l"])
                h = h * T4
                Xs = [a_ + (m_ + 1) * b_ * np.power(tau, m_) for tau in P.tau]
                xe = Xs[-1] if P.scheme == "RADAU" else e_
                P.put_x(W, fe, [X[:, None] for X in Xs], xe[:, None])
                V = np.linalg.solve(P.A, np.stack([X - xp for X in Xs])) / h
                P.put_v(W, fe, [w[:, None] for w in V])
                xp = xe
                if fe.h is not None:
                    W[:, fe.h] = h
                for j in range(max(len(fe.lam), len(fe.ln))):
                    if len(fe.lam[j][0]):
                        W[:, fe.lam[j][0]] = l_
                    else:
                        W[:, fe.ln[j][0]], W[:, fe.lp[j][0]] = l_[:, :1], l_[:, 1:]
                    if j < len(P.tau):
                        if len(fe.th[j][0]):
                            W[:, fe.th[j][0]] = np.stack([t_, 1 - t_], axis=1)
                        else:
                            W[:, fe.al[j][0]] = t_[:, None]
            f, g = P.eval(W)
            F[idx] = f
            if Q is not None:
                f2, g2 = Q.eval(W)
                s = (g ** 2).sum(axis=1)
                L[idx] = (np.abs(f2 - f - s) > 1e-8 * (1 + s + np.abs(f))) | (g2.shape[1] > 0)
        f = F * 64 * (2.0 ** dc["e"] if cfg["ela"] == "scaled" else 1)
        return dict(ok=True, f=[int(round(v)) if abs(v) < 1e9 and abs(v - round(v)) < 1e-4 * (1 + abs(v) * 1e-6) else 2 ** 30 for v in f],
                    lsq=[int(v) for v in L])
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("Objective", consts=dict(Tier=ctx.tlevel),
                         invariants=["StageSum", "NoPenaltyOff", "PenaltyNonneg", "Divisible", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(36)
    for k in sorted(by):
        cfg = cases[by[k][0]]["cfg"]
        for w in range(1 if ctx.quick else 2):
            q += 1
            ela = ["ELASTIC_EQ", "ELASTIC_INEQ", "ELASTIC_TWO_SIDED"]
            oth = ["SCHOLTES_EQ", "SCHOLTES_INEQ", "FISCHER_BURMEISTER", "BOOLEAN"]
            mp = oth[q % 4] if cfg["ela"] == "none" else ela[q % 3]
            dc = dict(rep=list(nos.REPS)[q // 2 % 3], fx=cfg["pss"] == "STEP" and q % 3 == 0, mpcc=mp, cross=["ALL", "SUM"][q // 3 % 2],
                      eq=q % 5 != 0, e=[2, 20, 11][(q + q // 3) % 3], lsq=mp in ("ELASTIC_EQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER"))
            jobs.append((cfg, [cases[i] for i in by[k]], dc))
            meta.append((by[k], dc))
    obs = [[] for _ in cases]
    nl = 0
    for (idx, dc), j, r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (j[0], dc, r["err"].strip().splitlines()[-1]), dict(cfg=j[0], dc=dc, err=r["err"]))
            continue
        nl += dc["lsq"]
        for i, f, l in zip(idx, r["f"], r["lsq"]):
            obs[i].append(dict(f=f, lsq=l, dc=dc))
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(c, obs=[dict(f=o["f"], lsq=o["lsq"], e=o["dc"]["e"]) for o in obs[i]]))
            rid.append(i)
    if recs:
        st = max(1, len(recs) // 5)
        can = [dict(r, obs=[dict(f=r["obs"][0]["f"] + 4, lsq=0, e=r["obs"][0]["e"])]) for r in recs[::st]][:5]
        can += [dict(r, obs=[dict(f=r["obs"][0]["f"], lsq=1, e=r["obs"][0]["e"])]) for r in recs[::st]][:2]
        for k, vs in ctx.validate("Objective", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            c = cases[rid[k]]
            ctx.violation("%s: %s, probe %s (%s)" % (", ".join(vs), c["cfg"], c["probe"], obs[rid[k]][0]), dict(case=c, obs=obs[rid[k]], clause=vs))
    ctx.notes.update(configurations=len(by), problems_built=len(jobs) + nl, points=len(cases), least_squares_problems=nl)
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["objective compared as an integer multiple of 1/64 with tolerance 1e-4/64",
                        "the relaxed step equilibration weight is the product over all weight/multiplier pairs of the summed products (as documented in the code)"]
