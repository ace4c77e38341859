"""C01: region selection by the algebraic equations (spec/Dcs.tla)."""
import traceback, itertools
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet
from c02 import MP


def make(fam, data, dc):
    import nosnoc
    ny = fam["ny"]
    x = ca.SX.sym("x", ny + 1)
    u, tv, pg, vg = (ca.SX.sym(n) for n in ("u", "tv", "pg", "vg"))
    kw = dict(x=x, x0=np.zeros(ny + 1), u=u, p_time_var=tv, p_global=pg, v_global=vg,
              p_time_var_val=np.array([[float(d["tv"])] for d in data]), p_global_val=np.array([float(data[0]["pg"])]))
    y = [x[i] if i < ny else 0 for i in range(3)]
    cs = [ca.SX(ca.vertcat(*[sum(a * b for a, b in zip(c["a"], y)) + c["b"] for c in s["c"]])) for s in fam["sys"]]
    col = lambda r: ca.vertcat(ca.SX.zeros(ny), r["k"] + r["u"] * u + r["tv"] * tv + r["pg"] * pg + r["vg"] * vg)
    if fam["kind"] == "fx":
        al = [ca.SX.sym("al%d" % i, len(s["c"])) for i, s in enumerate(fam["sys"])]
        av = ca.vertcat(*al)
        f = 0
        for m in fam["f"]:
            t = m["k"]
            for q in m["s"]:
                t = t * av[q - 1]
            f = f + t
        full = ca.vertcat(ca.SX.zeros(ny), f)
        parts = np.array_split(np.arange(ny + 1), len(fam["sys"]))
        kw.update(f_x=[full[int(p[0]):int(p[-1]) + 1] for p in parts], alpha=al, c=cs)
    else:
        kw.update(F=[ca.horzcat(*[col(r) for r in s["F"]]) for s in fam["sys"]])
        if fam["kind"] == "gS":
            kw.update(g_Stewart=cs)
        else:
            kw.update(c=cs, S=[np.array(s["S"], dtype=float) for s in fam["sys"]])
    N = len(data)
    o = mkopts(terminal_time=1.0 * N, N_stages=N, Nfe_list=dc["lay"], n_s=dc["ns"], irk_scheme=dc["scheme"], irk_representation=dc["rep"],
               pss_mode=dc["pss"], cross_comp_mode=dc["cross"], use_fesd=dc["fesd"], mpcc_mode=dc["mpcc"], sigma_0=0.0,
               max_iter_homotopy=1)
    with quiet():
        m = nosnoc.NosnocModel(**kw)
        return Prob(o, m, nosnoc.NosnocOcp())


def realise(P, fam, data, y, cases, places, dc):
    """places: per case (elements, stage or -1 for all, boundary point?)"""
    n, ny, ns = len(cases), fam["ny"], len(fam["sys"])
    W = P.base(n)
    W[:, P.vg] = data[0]["vg"]
    for k, iu in enumerate(P.u):
        W[:, iu] = data[k]["u"]
    if len(P.elastic):
        W[:, P.elastic] = 0.0
    yv = np.array(list(y[:ny]), dtype=float)
    yy = np.array(y, dtype=float)
    q = np.zeros(n)
    pert = np.array([c["pert"] for c in cases])
    slope = np.array([c["slope"] for c in cases], dtype=float) / 8
    fslope = np.array([c["fslope"] for c in cases], dtype=float) / 8
    full = lambda s: np.hstack([np.tile(yv, (n, 1)), s[:, None]])
    for i, fe in enumerate(P.fes):
        h = 1.0 / dc["lay"][fe.k]
        hit = [np.array([i in e and (s in (-1, j) if s != -2 else False) for e, s in places]) for j in range(len(P.tau))]
        end = np.array([i in e and s == -2 for e, s in places])
        V = [np.where(hit[j], slope[:, fe.k] + (pert == "slope") * 1.0, fslope[:, fe.k]) for j in range(len(P.tau))]
        Xs = [full(q + h * sum(P.A[j, r] * V[r] for r in range(len(V)))) for j in range(len(V))]
        q = q + h * sum(P.b[r] * V[r] for r in range(len(V)))
        P.put_x(W, fe, Xs, full(q))
        P.put_v(W, fe, [np.hstack([np.zeros((n, ny)), v[:, None]]) for v in V])
        if fe.h is not None:
            W[:, fe.h] = h
        npts = max(len(fe.lam), len(fe.ln))
        for s, sy in enumerate(fam["sys"]):
            c = np.array([np.dot(r["a"], yy) + r["b"] for r in sy["c"]], dtype=float)[None, :]
            g = c if fam["kind"] == "gS" else (-c @ np.array(sy["S"], dtype=float).T if sy["S"] else None)
            w = np.array([k["cand"][s] for k in cases], dtype=float)
            fl = np.array([k["fill"][s] for k in cases], dtype=float)
            for j in range(npts):
                m = hit[j] if j < len(P.tau) else end
                if j < len(P.tau):
                    th = np.where(m[:, None], w, fl)
                    if fe.th and len(fe.th[j][s]):
                        W[:, fe.th[j][s]] = th / 4
                    if fe.al and len(fe.al[j][s]):
                        W[:, fe.al[j][s]] = th / 2
                sh = np.where(m & (pert == "shift+"), 1.0, np.where(m & (pert == "shift-"), -1.0, 0.0)) if s == ns - 1 else np.zeros(n)
                en = np.where(m & (pert == "entry"), 1.0, 0.0) if s == ns - 1 else np.zeros(n)
                if len(fe.lam[j][s]):
                    lam, mu = nos.stewart_mult(g)
                    W[:, fe.lam[j][s]] = lam + sh[:, None]
                    W[:, fe.mu[j][s]] = mu + sh[:, None]
                    W[:, fe.lam[j][s][-1]] += en
                if len(fe.ln[j][s]):
                    ln, lp = nos.step_mult(c)
                    W[:, fe.ln[j][s]] = ln + sh[:, None]
                    W[:, fe.lp[j][s]] = lp + sh[:, None]
                    W[:, fe.lp[j][s][-1]] += en
    return P.bools(W)


def places(P, dc, rng, case):
    """where the weights/multipliers of the case are put: one stage of one element, an element, or everything"""
    r = rng.randrange(8)
    e, j = rng.randrange(len(P.fes)), rng.randrange(dc["ns"])
    if r == 0:
        return (set(range(len(P.fes))), -1)
    if r == 1:
        return ({e}, -1)
    if r == 2 and case["pert"] in ("shift+", "shift-", "entry"):
        ends = [i for i, fe in enumerate(P.fes) if max(len(fe.lam), len(fe.ln)) > dc["ns"]]
        if ends:
            return ({ends[e % len(ends)]}, -2)
    return ({e}, j)


def job(a):
    fam, data, dc, groups, seed = a
    import random
    rng = random.Random(seed)
    try:
        P = make(fam, data, dc)
        res = []
        for y, cases in groups:
            P.model.x0 = np.array(list(y[:fam["ny"]]) + [0.0], dtype=float)
            P.repose()
            pl = [places(P, dc, rng, c) for c in cases]
            W = realise(P, fam, data, y, cases, pl, dc)
            r = P.resid(W) < 1e-6
            res.append([(bool(b), str(p)) for b, p in zip(r, pl)])
        return dict(ok=True, res=res)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def configs(ctx, pss, n):
    reps, crs = list(nos.REPS), list(nos.CROSS)
    base = list(itertools.product(("RADAU", "GAUSS"), (1, 2, 3)))
    r0, m0, c0, b0 = (ctx.rng.randrange(k) for k in (3, 8, 2, 6))
    res = []
    for q in range(n):
        sc, ns = base[(b0 + q) % 6]
        cr, m = crs[(c0 + q + q // 6) % 2], MP[(m0 + q + q // 8) % 8]
        if m == "FISCHER_BURMEISTER_IP_AUG" and cr == "SUM":
            m = "SCHOLTES_INEQ"
        res.append(dict(scheme=sc, ns=ns, rep=reps[(r0 + q + q // 3) % 3], pss=pss, cross=cr, mpcc=m, fesd=q % 4 != 3,
                        lay=[[2, 1], [1, 2], [2, 2], [1, 1]][q % 4]))
    return res


def run(ctx):
    out = ctx.generate("Dcs", init="GInit", next="GNext", consts=dict(Tier=ctx.tlevel),
                       invariants=["SelectsRegion", "FillSolves", "SystemsIndependent", "Emit", "EmitFam"])
    fams = {c["family"]: c["def"] for c in out if "family" in c}
    data = [c["data"] for c in out if "family" in c][0]
    cases = [c for c in out if "family" not in c]
    by = defaultdict(lambda: defaultdict(list))
    for i, c in enumerate(cases):
        by[(c["fi"], c["rep"])][tuple(c["y"])].append(i)
    jobs, meta = [], []
    for (fi, pss) in sorted(by):
        for q, dc in enumerate(configs(ctx, pss, 8 if ctx.quick else 32)):
            idx = sorted(by[(fi, pss)].items())
            jobs.append((fams[fi], data, dc, [(y, [cases[i] for i in l]) for y, l in idx], ctx.rng.randrange(10 ** 9)))
            meta.append((idx, dc))
    obs = [defaultdict(list) for _ in cases]
    cnt = [0, 0]
    for (idx, dc), j, r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (j[0]["kind"], dc, r["err"].strip().splitlines()[-1]), dict(fam=j[0], dc=dc, err=r["err"]))
            continue
        for (y, l), rr in zip(idx, r["res"]):
            for i, (acc, pl) in zip(l, rr):
                obs[i][acc].append((dc, pl))
                cnt[acc] += 1
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(c, obs=sorted(obs[i])))
            rid.append(i)
    if recs:
        can = [dict(r, obs=[not r["obs"][0]]) for r in recs[:: max(1, len(recs) // 7)] if len(r["obs"]) == 1][:7]
        bad = ctx.validate("Dcs", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel))
        for k, vs in bad.items():
            c = cases[rid[k]]
            for v in vs:
                d = obs[rid[k]][v["acc"]]
                ctx.violation("%s: family %d %s, state %s, weights %s, %s, %d configuration(s), first %s" %
                              (v["clause"], c["fi"], c["rep"], c["y"], c["cand"], c["pert"], len(d), d[0]),
                              dict(case=c, family=fams[c["fi"]], configs=d, clause=v["clause"]))
    ctx.notes.update(families=len(fams), cases=len(cases), problems_built=len(jobs), nlp_points_accepted=cnt[1], nlp_points_rejected=cnt[0])
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["NLP residual below 1e-6 counts as feasible", "states, weights and data are small integers/fractions"]
