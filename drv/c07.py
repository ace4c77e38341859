"""C07: user constraints (spec/PathCons.tla)."""
import traceback, json
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet
TV, PG, V1, OFF = [-10.0, 10.0, 30.0, 20.0], 7.0, 3.0, [25.0, -30.0, 5.0, -12.0]


def make(cfg, dc):
    import nosnoc
    x, z, u, v = ca.SX.sym("x", 2), ca.SX.sym("z", 3), ca.SX.sym("u", 3), ca.SX.sym("v", 2)
    p1, p2 = ca.SX.sym("p1"), ca.SX.sym("p2")
    N = len(cfg["lay"])
    f = z[:2]
    kw = dict(x=x, x0=np.zeros(2), u=u, z=z, lbz=np.array([-1e5, -1e5, -1]), ubz=np.array([1e5, 1e5, 1.0]), c=[x[1] + 100], p_time_var=p1, p_global=p2, v_global=v,
              p_time_var_val=np.array(TV[:N]).reshape(-1, 1), p_global_val=np.array([PG]))
    if dc["pss"] == "FX":
        al = ca.SX.sym("al")
        kw.update(f_x=[f * al], alpha=[al])
    else:
        kw.update(F=[ca.horzcat(f, -f)], S=[np.array([[1.0], [-1.0]])])
    xt = x[0] + u[0] - p1 - p2 - v[0]
    ocp = nosnoc.NosnocOcp(g_path=ca.vertcat(xt ** 2, u[1] - 2 * p1 - 3 * p2 - 5 * v[0], xt ** 2), lbg=np.array([4, 0, -np.inf]), ubg=np.array([10000, 0, 6400.0]),
                           g_terminal=x[1] - 0.05 * p1 - 0.5 * v[0], lbx=np.array([-np.inf, -5]), ubx=np.array([np.inf, 5.0]),
                           lbu=np.array([-np.inf, -np.inf, -1]), ubu=np.array([np.inf, np.inf, 1.0]),
                           lbv_global=np.array([-10, -2.0]), ubv_global=np.array([10, 2.0]))
    o = mkopts(terminal_time=float(N), N_stages=N, Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme=cfg["sch"], irk_representation=cfg["rep"],
               pss_mode="STEWART" if dc["pss"] == "STEWART" else "STEP", cross_comp_mode=dc["cross"], use_fesd=cfg["fesd"], mpcc_mode=dc["mpcc"],
               g_path_at_fe=cfg["fe"], g_path_at_stg=cfg["stg"], sigma_0=0.0, max_iter_homotopy=1)
    with quiet():
        return Prob(o, nosnoc.NosnocModel(**kw), ocp)


def draw(rng, good):
    s = rng.choice([-1, 1])
    if good:
        return s * rng.uniform(2.3, rng.choice([9, 40, 78]))
    return s * rng.choice([rng.uniform(0, 1.8), rng.uniform(82, 98), rng.uniform(102, 180)])


def cls(v):
    v = abs(v)
    return True if 2.1 < v < 79 else False if v < 1.9 or v > 81 else None


def chain(rng, els, offs, s, radau, D, D0):
    """stage values and end states with the wanted pattern, restarted when it runs into a dead end"""
    for attempt in range(200):
        xp, out = 0.0, []
        for pat, off in zip(els, offs):
            best = None
            for t in range(300):
                X = np.array([draw(rng, pat[j]) - off for j in range(s)])
                if t > 20 and not radau:               # steer the first stage so that the end is where it has to be
                    X[0] = (draw(rng, pat[s]) - off - D0 * xp - D[1:] @ X[1:]) / D[0]
                xe = X[-1] if radau else D0 * xp + D @ X
                if (radau or cls(xe + off) == pat[s]) and cls(X[0] + off) == pat[0]:
                    if best is None or abs(xe) < abs(best[1]):
                        best = X, xe
                    if radau or abs(xe) < 60:
                        break
            if best is None:
                break
            out.append(best)
            xp = best[1]
        else:
            return out
    raise RuntimeError("pattern not realised")


def job(a):
    import random
    cfg, cases, dc, seed = a
    rng = random.Random(seed)
    try:
        P = make(cfg, dc)
        n, s, N = len(cases), cfg["s"], len(cfg["lay"])
        radau = cfg["sch"] == "RADAU"
        W = P.base(n)
        W[:, P.vg] = [V1, 0]
        Ainv = np.linalg.inv(P.A)
        D = P.b @ Ainv                                # end = (1 - sum D) xp + D X
        D0 = 1 - D.sum()
        for r, case in enumerate(cases):
            row = W[r:r + 1]
            f = case["fault"]
            w, sg = f["w"][:-1] if f["w"][-1] in "+-" else f["w"], 1 if f["w"][-1] == "+" else -1
            if w == "v":
                row[:, P.vg] = [V1, 2.5 * sg]
            for k, iu in enumerate(P.u):
                u = [OFF[k] + TV[k] + PG + V1, 2 * TV[k] + 3 * PG + 5 * V1, 0.5]
                if w == "u" and f["i"] == k + 1:
                    u[2] = 1.5 * sg
                if w == "data" and f["i"] == k + 1:
                    u[1] += 1
                row[:, iu] = u
            xp, yp = 0.0, 0.0
            target = 0.05 * TV[N - 1] + 0.5 * V1
            plan = chain(rng, case['els'], [OFF[fe.k] for fe in P.fes], s, radau, D, D0)
            for i, fe in enumerate(P.fes):
                X, xe = plan[i]
                last = i == len(P.fes) - 1
                ye = target if last else 0.3 * ((i % 3) - 1)
                if w == "terminal" and last:
                    ye += 0.5 * sg
                pt = f["pt"] if w == "x" and f["i"] == i + 1 else 0
                if pt == (s if radau else s + 1):
                    ye = 5.5 * sg
                Y = yp + (ye - yp) * P.tau
                if pt and pt <= s and not (radau and pt == s):
                    for t in range(500):
                        Y = np.array([rng.uniform(-4.9, 4.9) for _ in range(s)]) if not radau else Y.copy()
                        Y[pt - 1] = 5.5 * sg
                        ye = Y[-1] if radau else (1 - D.sum()) * yp + D @ Y
                        if radau or abs(ye) < 4.9:
                            break
                h = 1.0 / cfg["lay"][fe.k]
                XX = np.stack([X, Y], axis=1)
                V = Ainv @ (XX - np.array([xp, yp])) / h
                xp, yp = xe, ye
                E = np.array([[xe, ye]])
                P.put_x(row, fe, [q[None, :] for q in XX], E)
                P.put_v(row, fe, [q[None, :] for q in V])
                if fe.h is not None:
                    row[:, fe.h] = h
                for j in range(len(fe.z)):
                    z3 = 0.25
                    if w == "z" and f["i"] == i + 1 and f["pt"] == j + 1:
                        z3 = 1.5 * sg
                    row[:, fe.z[j]] = np.append(V[j] if j < s else [0.0, 0.0], z3)
                for j in range(max(len(fe.lam), len(fe.ln))):
                    c = (Y[j] if j < s else ye) + 100
                    if len(fe.lam[j][0]):
                        row[:, fe.lam[j][0]] = [0, 2 * c]
                        row[:, fe.mu[j][0]] = c
                        if j < s:
                            row[:, fe.th[j][0]] = [1, 0]
                    else:
                        row[:, fe.ln[j][0]] = 0
                        row[:, fe.lp[j][0]] = c
                        if j < s:
                            row[:, fe.al[j][0]] = 1
        if len(P.elastic):
            W[:, P.elastic] = 0
        W = P.bools(W)
        return dict(ok=True, acc=[bool(v < 1e-6) for v in P.resid(W)])
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("PathCons", consts=dict(Tier=ctx.tlevel),
                         invariants=["BaseAccepted", "FlipMatters", "StageEndsPromised", "MorePromisesRestrictMore", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    mp = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_TWO_SIDED", "FISCHER_BURMEISTER", "BOOLEAN", "ELASTIC_EQ", "ELASTIC_INEQ"]
    for k in sorted(by):
        for w in range(1 if ctx.quick else 3):
            q += 1
            dc = dict(pss=["STEWART", "STEP", "FX"][q % 3], cross=["ALL", "SUM"][q // 3 % 2], mpcc=mp[q % 7])
            jobs.append((cases[by[k][0]]["cfg"], [cases[i] for i in by[k]], dc, ctx.rng.randrange(10 ** 9)))
            meta.append((by[k], dc))
    obs = [defaultdict(list) for _ in cases]
    cnt = [0, 0]
    for (idx, dc), j, r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (j[0], dc, r["err"].strip().splitlines()[-1]), dict(cfg=j[0], dc=dc, err=r["err"]))
            continue
        for i, acc in zip(idx, r["acc"]):
            obs[i][acc].append(dc)
            cnt[acc] += 1
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(c, obs=sorted(obs[i])))
            rid.append(i)
    if recs:
        can = [dict(r, obs=[not r["obs"][0]]) for r in recs[:: max(1, len(recs) // 6)] if len(r["obs"]) == 1][:6]
        for k, vs in ctx.validate("PathCons", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            c = cases[rid[k]]
            ctx.violation("%s: %s, satisfied at %s, other fault %s (%s)" % (", ".join(vs), c["cfg"], c["els"], c["fault"], dict(obs[rid[k]])),
                          dict(case=c, obs={str(a): b for a, b in obs[rid[k]].items()}, clause=vs))
    ctx.notes.update(configurations=len(by), problems_built=len(jobs), points=len(cases), points_accepted=cnt[1], points_rejected=cnt[0])
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["NLP residual below 1e-6 counts as feasible", "stage values are made free by algebraic rates"]
