"""C04: collocation (spec/Collocation.tla)."""
import traceback
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet
TOL = 1e-8


def make(m, ne, dc):
    import nosnoc
    s, p = m["s"], m["p"]
    top = p + (1 if m["over"] else 0)
    nx = top + 1
    x = ca.SX.sym("x", nx)
    t = x[0]
    f = [ca.SX(1)] + [k * x[k - 2] for k in range(2, s + 1)] + [k * t ** (k - 1) for k in range(s + 1, top + 1)] + [x[nx - 1]]
    f = ca.vertcat(*f)
    x0 = np.zeros(nx); x0[-1] = 1.0
    kw = dict(x=x, x0=x0)
    if dc["pss"] == "FX":
        al = ca.SX.sym("al")
        kw.update(f_x=[f * al], alpha=[al], c=[t + 1])
    else:
        kw.update(F=[ca.horzcat(f, -f)], c=[t + 1], S=[np.array([[1.0], [-1.0]])])
    o = mkopts(terminal_time=1.0, N_stages=1 if dc["fesd"] else 1, N_finite_elements=ne, n_s=s, irk_scheme=m["sch"],
               irk_representation=m["rep"], pss_mode="STEWART" if dc["pss"] == "STEWART" else "STEP", use_fesd=dc["fesd"],
               sigma_0=0.0, max_iter_homotopy=1, cross_comp_mode=dc["cross"])
    with quiet():
        return Prob(o, nosnoc.NosnocModel(**kw), nosnoc.NosnocOcp())


def element(m, x0, h, c, A, b):
    """stage values, derivatives, end value of the collocation solution; quadratures above C(s) through A and b"""
    s, p = m["s"], m["p"]
    top = p + (1 if m["over"] else 0)
    ts = x0[0] + h * c
    te = x0[0] + h
    V = np.zeros((s, top + 1)); X = np.zeros((s, top + 1)); E = np.zeros(top + 1)
    for k in range(1, top + 1):
        V[:, k - 1] = k * ts ** (k - 1)
        if k <= s:                        # exact polynomial
            X[:, k - 1] = ts ** k
        else:
            X[:, k - 1] = x0[k - 1] + h * A @ V[:, k - 1]
        E[k - 1] = te ** k if k <= p else x0[k - 1] + h * b @ V[:, k - 1]
    X[:, -1] = np.linalg.solve(np.eye(s) - h * A, np.full(s, x0[-1]))
    V[:, -1] = X[:, -1]
    E[-1] = x0[-1] + h * b @ V[:, -1]
    if m["fixed"]:                        # the last stage is the end
        X[-1] = np.where(np.arange(top + 1) < s, X[-1], E) if p > s else X[-1]
        E = X[-1].copy()
        if p > s:
            E[:p] = te ** np.arange(1, p + 1)
            X[-1] = E
    return X, V, E


def job(a):
    m, cases, dc, delta = a
    try:
        ne = len(cases[0]["els"])
        P = make(m, ne, dc)
        hs = np.array(dc["h"][:ne]) / sum(dc["h"][:ne]) if dc["fesd"] else np.full(ne, 1.0 / ne)
        other = "GAUSS" if m["sch"] == "RADAU" else "RADAU"
        n = len(cases)
        W = P.base(n)
        for r, case in enumerate(cases):
            x = np.array(P.model.x0, dtype=float)
            for fe, h, f in zip(P.fes, hs, case["els"]):
                c, A, b = nos.nodes(other if f["what"] == "nodes" else m["sch"], m["s"])
                X, V, E = element(dict(m, fixed=m["fixed"] and f["what"] != "nodes"), x, h, c, A, b)
                if f["what"] == "over":
                    E[f["c"] - 1] = (x[0] + h) ** f["c"] - x[0] ** f["c"] + x[f["c"] - 1]
                x = E.copy()
                if f["what"] == "X":
                    X[f["j"] - 1, f["c"] - 1] += delta
                    if m["fixed"] and f["j"] == m["s"] and m["rep"] != "DIFFERENTIAL":
                        E = X[-1]
                if f["what"] == "V":
                    V[f["j"] - 1, f["c"] - 1] += delta
                if f["what"] == "E":
                    E = E.copy(); E[f["c"] - 1] += delta
                row = W[r:r + 1]
                P.put_x(row, fe, [v[None, :] for v in X], E[None, :])
                P.put_v(row, fe, [v[None, :] for v in V])
                if fe.h is not None:
                    row[:, fe.h] = h
                npts = max(len(fe.lam), len(fe.ln))
                for j in range(npts):
                    tt = (X[j] if j < m["s"] else E)[0]
                    if len(fe.lam[j][0]):
                        row[:, fe.lam[j][0]] = [0, 2 * (tt + 1)]
                        row[:, fe.mu[j][0]] = tt + 1
                        if j < m["s"]:
                            row[:, fe.th[j][0]] = [1, 0]
                    else:
                        row[:, fe.ln[j][0]] = 0
                        row[:, fe.lp[j][0]] = tt + 1
                        if j < m["s"]:
                            row[:, fe.al[j][0]] = 1
        r = P.resid(W)
        return dict(ok=True, acc=[bool(v < TOL) for v in r], res=[float(v) for v in r])
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def table(sch, s, kind):
    """What the published tables satisfy. kind TABLE: generate_butcher_tableu, INTEGRAL: generate_butcher_tableu_integral,
    OPT-rep: what the options hand to the discretization."""
    import nosnoc
    S = nosnoc.IrkSchemes.RADAU_IIA if sch == "RADAU" else nosnoc.IrkSchemes.GAUSS_LEGENDRE
    A = b = C = D = None
    order, right = 0, False
    flat = lambda v: np.array(v, dtype=float).flatten()
    if kind == "TABLE":
        A, b, c, order = nosnoc.generate_butcher_tableu(s, S)
        t = flat(c)
    elif kind == "INTEGRAL":
        b, C, D, t = nosnoc.generate_butcher_tableu_integral(s, S)
    else:
        o = mkopts(terminal_time=1.0, N_stages=1, N_finite_elements=1, n_s=s, irk_scheme=sch, irk_representation=kind[4:])
        with quiet():
            o.preprocess()
        right = bool(o.right_boundary_point_explicit)
        t = flat(o.irk_time_points)
        if kind == "OPT-INTEGRAL":
            b, C, D = o.B_irk, o.C_irk, o.D_irk
        else:
            A, b = o.A_irk, o.b_irk
    t, b = flat(t), flat(b)
    # digits the tables are given with: about ten times the residual of the correct ones
    tq = 1e-12 if s <= 5 else 5e-12 if s <= 7 else 5e-11
    tc = 1e-11 if s <= 5 else 5e-11 if s == 6 else 1e-9 if s == 7 else 5e-9
    size = len(t) - (0 if C is None else 1)
    ref = nos.nodes(sch, s)[0]
    if C is not None:
        C, D = np.array(C, dtype=float), flat(D)
        right = right if kind != "INTEGRAL" else bool(abs(t[-1] - 1) < 1e-9)
        c, bb = t[1:], b[1:]
        pw = lambda k: t ** k if k else np.ones(len(t))
        stage = [k for k in range(s + 1) if np.max(np.abs(C.T @ pw(k) - (k * t ** (k - 1) if k else 0 * t))[1:]) < tc]
        cont = [k for k in range(s + 1) if abs(D @ pw(k) - 1) < tc] if abs(b[0]) < 1e-12 and t[0] == 0 else []
    else:
        A = np.array(A, dtype=float)
        c, bb = t, b
        stage = [k for k in range(1, s + 1) if np.max(np.abs(k * A @ c ** (k - 1) - c ** k)) < tq]
        cont = []
    quad = [k for k in range(1, 2 * s + 2) if abs(k * bb @ c ** (k - 1) - 1) < tq]
    return dict(sch=sch, s=s, kind="INTEGRAL" if C is not None else kind, quad=quad, stage=stage, cont=cont, order=int(order),
                nodes=[j + 1 for j in range(min(s, len(c))) if abs(c[j] - ref[j]) < 1e-13], right=right, size=size, src=kind)


def tables(ctx):
    recs = []
    for sch in ("RADAU", "GAUSS"):
        for s in range(1, 10):
            for kind in ("TABLE", "INTEGRAL", "OPT-INTEGRAL", "OPT-DIFFERENTIAL", "OPT-LIFT"):
                try:
                    recs.append(table(sch, s, kind))
                except Exception:
                    ctx.violation("no usable coefficients: %s, %d stages, %s: %s" % (sch, s, kind, traceback.format_exc().strip().splitlines()[-1]),
                                  dict(sch=sch, s=s, kind=kind, err=traceback.format_exc()))
    if recs:
        can = [dict(recs[0], quad=[]), dict(recs[1], cont=[]), dict(recs[0], order=recs[0]["order"] + 1), dict(recs[2], right=not recs[2]["right"])]
        for k, vs in ctx.validate("Collocation", recs, can, init="TabInit", next="TabNext", emit="TabEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("coefficient table of %s, %d stages (%s): %s" % (recs[k]["sch"], recs[k]["s"], recs[k]["src"], vs[0]), dict(record=recs[k]))
    ctx.notes.update(tables=len(recs))


def run(ctx):
    tables(ctx)
    cases = ctx.generate("Collocation", consts=dict(Tier=ctx.tlevel), invariants=["Orders", "RightNodes", "FaultIffRejected", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[(c["m"]["sch"], c["m"]["s"], c["m"]["rep"])].append(i)
    jobs, meta = [], []
    hl = [[2, 3, 4], [3, 2, 2], [1, 1, 1], [5, 4, 3]]
    for q, k in enumerate(sorted(by)):
        for w in range(1 if ctx.quick else 4):
            dc = dict(pss=["STEWART", "STEP", "FX"][(q + w + ctx.seed) % 3], fesd=(q // 3 + w + ctx.seed) % 3 != 0,
                      cross=["ALL", "SUM"][(q + w) % 2], h=hl[ctx.rng.randrange(4)])
            delta = ctx.rng.choice([1, -1]) * (0.01 + 0.01 * ctx.rng.randrange(5))
            jobs.append((cases[by[k][0]]["m"], [cases[i] for i in by[k]], dc, delta))
            meta.append((by[k], dc))
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][0]["s"] * jobs[i][0]["p"])
    out = dict(zip(order, nos.pmap(job, [jobs[i] for i in order])))
    recs, src, worst, least = [], [], 0.0, np.inf
    for q in range(len(jobs)):
        r = out[q]
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (jobs[q][0], meta[q][1], r["err"].strip().splitlines()[-1]), dict(m=jobs[q][0], dc=meta[q][1], err=r["err"]))
            continue
        for i, acc, res in zip(meta[q][0], r["acc"], r["res"]):
            recs.append(dict(m=cases[i]["m"], els=cases[i]["els"], acc=acc))
            src.append((q, res))
            if acc:
                worst = max(worst, res)
            else:
                least = min(least, res)
    if recs:
        can = [dict(r, acc=not r["acc"]) for r in recs[:: max(1, len(recs) // 6)]][:6]
        for k, vs in ctx.validate("Collocation", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            m = recs[k]["m"]
            ctx.violation("%s: %s, %d stages, %s, %s, elements %s (residual %.1e)" %
                          (vs[0], m["sch"], m["s"], m["rep"], meta[src[k][0]][1], recs[k]["els"], src[k][1]),
                          dict(record=recs[k], dc=meta[src[k][0]][1], residual=src[k][1]))
    ctx.notes.update(methods=len(by), problems_built=len(jobs), points=len(recs), largest_accepted_residual=worst, smallest_rejected_residual=least)
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["NLP residual below %g counts as feasible" % TOL, "reference nodes from the Legendre polynomials, computed in double precision"]
