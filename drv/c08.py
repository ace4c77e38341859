"""C08: user path complementarity pairs (spec/UserComp.tla)."""
import traceback, json
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet


def make(cfg, dc, loop=False):
    import nosnoc
    S = ca.SX.sym
    x, z, u, v, t, g = S("x", 2), S("z", 4), S("u", 2), S("v", 2), S("t", 2), S("g", 2)
    N = len(cfg["lay"])
    cl = dict(x=x, z=z[2:], u=u, v=v, t=t, g=g)
    f = z[:2]
    kw = dict(x=x, x0=np.zeros(2), u=u, z=z, c=[x[0] + x[1] + 100], p_time_var=t, p_global=g, v_global=v,
              p_time_var_val=np.zeros((N, 2)), p_global_val=np.zeros(2))
    named = any("w" in p for p in cfg["pairs"])       # the user names the weights of a second, undecided switching system
    if dc["pss"] == "FX":
        al = S("al", 3 if named else 1)
        kw.update(f_x=[f * al[0]], alpha=[al])
        if named:
            kw.update(c=[ca.vertcat(kw["c"][0], 0, 0)])
            cl["w"] = al[1:]
    else:
        kw.update(F=[ca.horzcat(f, -f)], S=[np.array([[1.0], [-1.0]])])
        if named:
            kw.update(F=kw["F"] + [ca.SX.zeros(2, 4)], c=kw["c"] + [ca.SX.zeros(2)], S=kw["S"] + [np.array([[1.0, 1], [1, -1], [-1, 1], [-1, -1]])])
            if dc["pss"] == "STEP":
                kw.update(alpha=[S("al1", 1), S("al2", 2)])
                cl["w"] = kw["alpha"][1]
            else:
                kw.update(theta=[S("th1", 2), S("th2", 4)])
                cl["w"] = kw["theta"][1][:2]
    # affine pairs that are zero / positive with their quantity (a constant factor distinguishes nothing)
    pairs = [ca.horzcat(cl[p][0] * dc["fa"], cl[q][1] * dc["fb"]) for p, q in cfg["pairs"]]
    ocp = nosnoc.NosnocOcp(g_path_comp=ca.vertcat(*pairs)) if pairs else nosnoc.NosnocOcp()
    o = mkopts(terminal_time=float(N), N_stages=N, Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme=cfg["sch"], irk_representation=cfg["rep"],
               pss_mode="STEWART" if dc["pss"] == "STEWART" else "STEP", cross_comp_mode=dc["cross"], use_fesd=cfg["fesd"], mpcc_mode=dc["mpcc"],
               **(dict(sigma_0=1.0, sigma_N=1e-9, comp_tol=1e-6, max_iter_homotopy=2, initialization_strategy="EXTERNAL") if loop else dict(sigma_0=0.0, max_iter_homotopy=1)))
    with quiet():
        return Prob(o, nosnoc.NosnocModel(**kw), ocp, solve=not loop)


def job(a):
    import random
    cfg, cases, dc, seed = a
    rng = random.Random(seed)
    try:
        P = make(cfg, dc)
        s, N = cfg["s"], len(cfg["lay"])
        Ainv = np.linalg.inv(P.A)
        D = P.b @ Ainv
        W = P.base(len(cases))
        if len(P.elastic):
            W[:, P.elastic] = 0
        groups = defaultdict(list)
        for r, case in enumerate(cases):
            row = W[r:r + 1]
            on = lambda q, c: rng.choice([0.5, 1.0, 2.5]) if q["cl"] == c else 0.0
            T, G, V = np.zeros((N, 2)), np.zeros(2), np.zeros(2)
            Wt = np.zeros((len(P.fes), s, 2))
            U, X, Z = np.zeros((N, 2)), np.zeros((len(P.fes), s, 2)), np.zeros((len(P.fes), s + 1, 2))
            for k, q in enumerate((case["a"], case["b"])):
                val = rng.choice([0.5, 1.0, 2.5])
                c, i, j = q["cl"], q["i"] - 1, q["j"] - 1
                if c == "x":
                    X[i, j, k] = val
                elif c == "z":
                    Z[i, j, k] = val
                elif c == "w":
                    Wt[i, j, k] = min(val, 1.0) / 2
                elif c == "u":
                    U[i, k] = val
                elif c == "t":
                    T[i, k] = val
                elif c == "g":
                    G[k] = val
                else:
                    V[k] = val
            groups[(tuple(map(tuple, T)), tuple(G))].append(r)
            row[:, P.vg] = V
            for k, iu in enumerate(P.u):
                row[:, iu] = U[k]
            xp = np.zeros(2)
            for i, fe in enumerate(P.fes):
                h = 1.0 / cfg["lay"][fe.k]
                xe = X[i, -1] if cfg["sch"] == "RADAU" else (1 - D.sum()) * xp + D @ X[i]
                v = Ainv @ (X[i] - xp) / h
                xp = xe
                P.put_x(row, fe, [q[None, :] for q in X[i]], xe[None, :])
                P.put_v(row, fe, [q[None, :] for q in v])
                if fe.h is not None:
                    row[:, fe.h] = h
                for j in range(len(fe.z)):
                    row[:, fe.z[j]] = np.append(v[j] if j < s else [0.0, 0.0], Z[i, j])
                for j in range(max(len(fe.lam), len(fe.ln))):
                    c = (X[i, j] if j < s else xe).sum() + 100
                    if len(fe.lam[j][0]):
                        row[:, fe.lam[j][0]] = [0, 2 * c]
                        row[:, fe.mu[j][0]] = c
                        if j < s:
                            row[:, fe.th[j][0]] = [1, 0]
                    else:
                        row[:, fe.ln[j][0]] = 0
                        row[:, fe.lp[j][0]] = 0
                        row[:, fe.lp[j][0][0]] = c
                        if j < s:
                            row[:, fe.al[j][0][0]] = 1
                            if len(fe.al[j][0]) > 1:
                                row[:, fe.al[j][0][1:]] = Wt[i, j]
                    if len(fe.lam[j]) > 1:
                        for ind in (fe.lam, fe.mu, fe.ln, fe.lp):
                            if len(ind[j][1]):
                                row[:, ind[j][1]] = 0
                        if j < s and len(fe.lam[j][1]):
                            row[:, fe.th[j][1]] = [Wt[i, j, 0], Wt[i, j, 1], 0, 1 - Wt[i, j].sum()]
                        elif j < s:
                            row[:, fe.al[j][1]] = Wt[i, j]
        acc, more = [None] * len(cases), [None] * len(cases)
        L = make(cfg, dc, loop=True)
        B = P.bools(W)
        for (T, G), idx in groups.items():
            with quiet():
                P.solver.set("p_time_var", np.array(T))
                P.solver.set("p_global", np.array(G))
            P.repose()
            for r, v in zip(idx, P.resid(P.bools(W[idx]))):
                acc[r] = bool(v < 1e-6)
            # the homotopy goes on exactly if a pair is violated: NLPs answered by this point
            with quiet():
                L.solver.set("p_time_var", np.array(T))
                L.solver.set("p_global", np.array(G))
            for r in idx:
                if (r + seed) % dc["every"] and acc[r]:
                    continue
                L.fake.calls.clear()
                L.fake.script = lambda i, call: dict(x=B[r].copy())
                with quiet():
                    L.solver.solve()
                more[r] = len(L.fake.calls) == 2
        return dict(ok=True, acc=acc, more=more)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("UserComp", consts=dict(Tier=ctx.tlevel), invariants=["Sound", "NotEarly", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    mp = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_TWO_SIDED", "FISCHER_BURMEISTER", "BOOLEAN", "ELASTIC_EQ", "ELASTIC_INEQ"]
    for k in sorted(by):
        for w in range(1 if ctx.quick else 2):
            q += 1
            dc = dict(pss=["STEWART", "STEP", "FX"][q % 3], cross=["ALL", "SUM"][q // 3 % 2], mpcc=mp[q % 7], fa=[1, 2, 0.5][q % 3], fb=[1, 3][q % 2], every=7 if ctx.quick else 3)
            jobs.append((cases[by[k][0]]["cfg"], [cases[i] for i in by[k]], dc, ctx.rng.randrange(10 ** 9)))
            meta.append((by[k], dc))
    obs = [defaultdict(list) for _ in cases]
    goon = [set() for _ in cases]
    measured = 0
    cnt = [0, 0]
    for (idx, dc), j, r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (j[0], dc, r["err"].strip().splitlines()[-1]), dict(cfg=j[0], dc=dc, err=r["err"]))
            continue
        for i, acc, m in zip(idx, r["acc"], r["more"]):
            obs[i][acc].append(dc)
            if m is not None:
                goon[i].add(m)
                measured += 1
            cnt[acc] += 1
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(c, obs=sorted(obs[i]), more=sorted(goon[i])))
            rid.append(i)
    if recs:
        can = [dict(r, obs=[not r["obs"][0]]) for r in recs[:: max(1, len(recs) // 6)] if len(r["obs"]) == 1][:6]
        can += [dict(r, more=[not r["more"][0]]) for r in [r for r in recs if len(r["more"]) == 1][::max(1, measured // 6)]][:6]
        for k, vs in ctx.validate("UserComp", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            c = cases[rid[k]]
            ctx.violation("%s: %s, positive: A=%s B=%s (%s)" % (", ".join(vs), c["cfg"], c["a"], c["b"], dict(obs[rid[k]])),
                          dict(case=c, obs={str(a): b for a, b in obs[rid[k]].items()}, clause=vs))
    ctx.notes.update(configurations=len(by), problems_built=len(jobs), points=len(cases), points_accepted=cnt[1], points_rejected=cnt[0], residuals_measured=measured)
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(dict(c, cfg=dict(c["cfg"], pairs=len(c["cfg"]["pairs"]))))
    ctx.assumptions += ["NLP residual below 1e-6 counts as feasible", "stage values are made free by algebraic rates"]
