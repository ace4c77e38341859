"""C02: cross complementarity between weights and multipliers (spec/CrossComp.tla)."""
import traceback, itertools
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet


def smatrix(n):
    return np.array(list(itertools.product([1, -1], repeat=n)), dtype=float)


def make(cfg, dc, extra=None):
    """Switching functions c = x + z with free z: their values can be chosen at every point."""
    import nosnoc
    K = sum(cfg["sys"])
    x = ca.SX.sym("x", K); z = ca.SX.sym("z", K)
    rate = 1.0 + 0.5 * np.arange(K)
    cs, Ss, Fs, al, o = [], [], [], [], 0
    ns = len(cfg["sys"])
    for n in cfg["sys"]:
        cs.append(x[o:o + n] + z[o:o + n])
        Ss.append(smatrix(n))
        Fs.append(ca.repmat(ca.DM(rate) / ns, 1, 2 ** n))
        al.append(ca.SX.sym("al%d" % o, n))
        o += n
    kw = dict(x=x, x0=np.zeros(K), z=z, c=cs)
    if dc["pss"] == "FX":
        parts = np.array_split(np.arange(K), ns)
        kw.update(f_x=[ca.SX(ca.DM(rate[p])) for p in parts], alpha=al)
    else:
        kw.update(F=Fs, S=Ss)
    N = len(cfg["lay"])
    oo = mkopts(terminal_time=float(N), N_stages=N, Nfe_list=list(cfg["lay"]), n_s=cfg["ns"],
                irk_scheme="RADAU" if cfg["sc"] else "GAUSS", irk_representation=dc["rep"],
                pss_mode="STEP" if dc["pss"] == "FX" else dc["pss"], cross_comp_mode=dc["cross"], use_fesd=cfg["fesd"],
                mpcc_mode=dc["mpcc"], sigma_0=0.0, max_iter_homotopy=1, **(extra or {}))
    with quiet():
        m = nosnoc.NosnocModel(**kw)
        P = Prob(oo, m, nosnoc.NosnocOcp())
    P.rate = rate
    P.Ss = Ss
    return P


def thetas(al, S):
    """products of the step variables (n, nc) over the rows of S"""
    return np.stack([np.prod(np.where(row > 0, al, 1 - al), axis=1) for row in S], axis=1)


def realise(P, cfg, c0, cases, mag, H=None, alpha=None):
    """c: signs times magnitudes; H: element lengths (n, NE) (default: nominal)."""
    n, K = len(cases), sum(cfg["sys"])
    W = P.base(n)
    t = np.zeros(n)
    N = len(cfg["lay"])
    nom = [1.0 / l for l in cfg["lay"] for _ in range(l)]
    sysr, o = [], 0
    for q in cfg["sys"]:
        sysr.append(slice(o, o + q)); o += q
    for i, fe in enumerate(P.fes):
        h = np.full(n, nom[i]) if H is None else H[:, i]
        xs = t[:, None] * P.rate
        Xs = [(t + h * tau)[:, None] * P.rate for tau in P.tau]
        t = t + h
        xe = t[:, None] * P.rate
        P.put_x(W, fe, Xs, xe)
        P.put_v(W, fe, [np.tile(P.rate, (n, 1))] * len(P.tau))
        if fe.h is not None:
            W[:, fe.h] = h
        npt = len(fe.z)
        for p in range(npt):
            c = np.array([case["els"][i]["c"][p] if p < len(case["els"][i]["c"]) else [0] * K for case in cases], dtype=float)
            c = c * mag[(i * 7 + p) % len(mag)]
            X = Xs[p] if p < len(Xs) else xe
            W[:, fe.z[p]] = c - X
            for s, sl in enumerate(sysr):
                if len(fe.lam[p][s]):
                    lam, mu = nos.stewart_mult(-c[:, sl] @ P.Ss[s].T)
                    W[:, fe.lam[p][s]] = lam
                    W[:, fe.mu[p][s]] = mu
                if len(fe.ln[p][s]):
                    ln, lp = nos.step_mult(c[:, sl])
                    W[:, fe.ln[p][s]] = ln
                    W[:, fe.lp[p][s]] = lp
        for j in range(len(P.tau)):
            al = np.array([case["els"][i]["al"][j] for case in cases], dtype=float) / 2
            for s, sl in enumerate(sysr):
                if fe.th and len(fe.th[j][s]):
                    W[:, fe.th[j][s]] = thetas(al[:, sl], P.Ss[s])
                if fe.al and len(fe.al[j][s]):
                    W[:, fe.al[j][s]] = al[:, sl]
    if len(P.elastic):
        W[:, P.elastic] = 0
    return P.bools(W)


def set_initial(P, c0, mag):
    """switching values c0 at the initial state (x0 = 0, so through the initial algebraic variables)"""
    P.model.z0 = np.array(c0, dtype=float) * mag[3 % len(mag)]
    P.repose()


def job(a):
    cfg, dc, cases, mag = a
    try:
        P = make(cfg, dc)
        groups = defaultdict(list)
        for i, c in enumerate(cases):
            groups[tuple(c["c0"])].append(i)
        res = {}
        for c0, idx in groups.items():
            set_initial(P, c0, mag)
            W = realise(P, cfg, c0, [cases[i] for i in idx], mag)
            for i, r in zip(idx, P.resid(W)):
                res[i] = bool(r < 1e-6)
        return dict(ok=True, acc=res)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


MP = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_TWO_SIDED", "FISCHER_BURMEISTER", "BOOLEAN", "ELASTIC_EQ", "ELASTIC_INEQ",
      "FISCHER_BURMEISTER_IP_AUG"]


def configs(ctx, cfg, n):
    res = []
    reps, crs, pss = list(nos.REPS), list(nos.CROSS), ["STEWART", "STEP", "FX"]
    r0, m0, c0 = ctx.rng.randrange(3), ctx.rng.randrange(8), ctx.rng.randrange(2)
    allc = list(itertools.product(range(3), range(2)))          # pss x cross
    for q in range(n):
        p, c = allc[q % 6]
        m = MP[(m0 + q + q // 8) % 8]
        cr = crs[(c + c0) % 2]
        if m == "FISCHER_BURMEISTER_IP_AUG" and cr == "SUM":
            m = MP[(m0 + 2 * q) % 7]
        res.append(dict(rep=reps[(r0 + q + q // 3) % 3], pss=pss[p], cross=cr, mpcc=m))
    return res


def run(ctx):
    cases = ctx.generate("CrossComp", consts=dict(Tier=ctx.tlevel), invariants=["PairwiseOk", "NoInteriorSwitch", "SwitchAtZero", "Emit"])
    mag = [0.5 + 0.25 * ctx.rng.randrange(0, 9) for _ in range(13)]
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[str(sorted(c["cfg"].items()))].append(i)
    jobs, meta = [], []
    for k in sorted(by):
        cfg = cases[by[k][0]]["cfg"]
        for dc in configs(ctx, cfg, 6 if ctx.quick else 24):
            jobs.append((cfg, dc, [cases[i] for i in by[k]], mag))
            meta.append((by[k], dc))
    obs = [defaultdict(list) for _ in cases]
    cnt = [0, 0]
    for (idx, dc), j, r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (j[0], dc, r["err"].strip().splitlines()[-1]), dict(cfg=j[0], dc=dc, err=r["err"]))
            continue
        for i, acc in r["acc"].items():
            obs[idx[i]][acc].append(dc)
            cnt[acc] += 1
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(c, obs=sorted(obs[i])))
            rid.append(i)
    can = [dict(r, obs=[not r["obs"][0]]) for r in recs[:: max(1, len(recs) // 5)] if len(r["obs"]) == 1][:5]
    bad = ctx.validate("CrossComp", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel))
    for k, vs in bad.items():
        for v in vs:
            d = obs[rid[k]][v["acc"]]
            ctx.violation("%s: %s, c0 %s, %d configuration(s), first %s, pattern %s" %
                          (v["clause"], cases[rid[k]]["cfg"], cases[rid[k]]["c0"], len(d), d[0], cases[rid[k]]["els"]),
                          dict(case=cases[rid[k]], configs=d, clause=v["clause"]))
    ctx.notes.update(patterns=len(cases), problems_built=len(jobs), nlp_points_accepted=cnt[1], nlp_points_rejected=cnt[0])
    for k in sorted(by)[:3]:
        ctx.sample(cases[by[k][0]])
    ctx.assumptions += ["signs of the switching functions are realised through free algebraic variables",
                        "NLP residual below 1e-6 counts as feasible"]
