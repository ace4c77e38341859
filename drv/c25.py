"""C25: converged simulations are the exact solution (spec/Simulate.tla). The NLPs are solved by IPOPT."""
import traceback, json, copy
from fractions import Fraction
import numpy as np, casadi as ca
import nos
from nos import mkopts, quiet
UNIT = 10000
KIND = dict(stay=("1/2", 1, 2, 0), cross=("3/4", -1, -2, 0), cross_late=("5/4", -1, -1, 0), slide=("1/3", -1, 3, 0), slide_late=(2, "-3/2", 1, 0),
            leave=("5/8", "-3/2", "1/2", 1), held=(0, -2, 1, 0), released=(0, "-3/4", 1, 1))


def motion(m):
    x0, a, b, s = [float(Fraction(v)) for v in KIND[m["k"]]]
    return (x0, a, b, s) if m["up"] else (-x0, -b, -a, -s)


def model(mot, form):
    """states x_1..x_n, y' = x_1, w' = sum of q * share of the positive side, clock"""
    import nosnoc
    n = len(mot)
    x = ca.SX.sym("x", n + 3)
    M = [motion(m) for m in mot]
    clock = x[n + 2]

    def col(qs, sides, smooth):
        e = ca.SX.zeros(n + 3)
        for q, sd in zip(qs, sides):
            e[q] = (M[q][1] if sd > 0 else M[q][2]) + M[q][3] * clock
            e[n + 1] += (q + 1) if sd > 0 else 0
        if smooth:
            e[n], e[n + 2] = x[0], 1
        return e
    x0 = np.array([m[0] for m in M] + [0.0, 0.0, 0.0])
    if form == "joint":
        rows = [[1 - 2 * ((i >> q) & 1) for q in range(n)] for i in range(2 ** n)]
        return nosnoc.NosnocModel(x=x, x0=x0, F=[ca.horzcat(*[col(range(n), r, True) for r in rows])], c=[x[:n]], S=[np.array(rows, dtype=float)]), [np.array(rows)]
    F = [ca.horzcat(col([q], [1], q == 0), col([q], [-1], q == 0)) for q in range(n)]
    kw = dict(c=[x[q] for q in range(n)], S=[np.array([[1.0], [-1.0]])] * n) if form == "separate" else dict(g_Stewart=[ca.vertcat(-x[q], x[q]) for q in range(n)])
    return nosnoc.NosnocModel(x=x, x0=x0, F=F, **kw), None


def shares(prob, w, k, n, rows):
    """mean share of the positive side of every switching function in element k"""
    if prob.opts.pss_mode == nos.PssMode.STEP:
        v = [[w[i] for i in nos.flat(st)] for st in prob.ind_alpha[0][k][:prob.opts.n_s]]
        return np.mean(np.array(v), axis=0)
    out = []
    for st in prob.ind_theta[0][k][:prob.opts.n_s]:
        if rows is not None:
            th = w[st[0]]
            out.append([sum(th[i] for i in range(len(th)) if rows[0][i][q] > 0) for q in range(n)])
        else:
            out.append([w[st[q][0]] for q in range(n)])
    return np.mean(np.array(out), axis=0)


def job(a):
    case, dc = a
    import nosnoc
    try:
        cfg = case["cfg"]
        n, T, N = len(cfg["mot"]), cfg["hor"][0][0] / cfg["hor"][0][1], cfg["hor"][1]
        m, rows = model(cfg["mot"], dc["form"])
        o = mkopts(terminal_time=T, N_stages=1, N_finite_elements=case["nfe"], n_s=dc["s"], irk_scheme=dc["scheme"], irk_representation=dc["rep"],
                   pss_mode=dc["pss"], cross_comp_mode=dc["cross"], mpcc_mode=dc["mpcc"], step_equilibration=dc["steq"],
                   homotopy_update_rule=dc["rule"], comp_tol=1e-8, gamma_h=1.0, print_level=0)
        with quiet():
            S = nosnoc.NosnocSolver(o, m)
            loop = nosnoc.NosnocSimLooper(S, m.x0, N)
            loop.run(stop_on_failure=True)
            r = loop.get_results()
        prob = S.problem
        conv = len(r["status"]) == N and all(s == nosnoc.Status.SUCCESS for s in r["status"])
        if not conv:
            return dict(ok=True, obs=dict(converged=False, segs=[], ends=[]))
        for w in r["w_sim"]:
            conv = conv and prob.comp_res(w, S.p_val).full().flatten()[0] < 1e-6
        if not conv:
            return dict(ok=True, obs=dict(converged=False, segs=[], ends=[]))
        iu = lambda v: int(np.clip(np.round(v * UNIT), -100000, 100000)) if np.isfinite(v) else 100000
        nfe, segs, ends, k = case["nfe"], [], [], 0
        for i in range(N):
            w = np.array(r["w_sim"][i]).flatten()
            for j in range(nfe):
                if r["time_steps"][k] > 2e-3:
                    sh = shares(prob, w, j, n, rows)
                    ph = ["pos" if v > 0.995 else "neg" if v < 0.005 else "slide" for v in sh]
                    if not segs or segs[-1]["ph"] != ph:
                        segs.append(dict(t=iu(r["t_grid"][k]), ph=ph))
                k += 1
            e = np.array(r["X_sim"][(i + 1) * nfe])
            ends.append(dict(x=[iu(v) for v in e[:n]], y=iu(e[n]), w=iu(e[n + 1])))
        return dict(ok=True, obs=dict(converged=True, segs=segs, ends=ends))
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def config(q, case):
    mot = case["cfg"]["mot"]
    dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], scheme=["RADAU", "GAUSS"][q // 3 % 2], pss=["STEWART", "STEP"][q // 2 % 2], s=[2, 3][q // 5 % 2],
              cross=["ALL", "SUM"][q // 7 % 2], mpcc=["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_TWO_SIDED", "ELASTIC_EQ"][q // 11 % 5],
              steq=["HEURISTIC_MEAN", "HEURISTIC_DELTA", "L2_RELAXED_SCALED", "L2_RELAXED"][q // 13 % 4], rule=["LINEAR", "SUPERLINEAR"][q // 4 % 2],
              form=["separate", "indicators", "joint"][q // 6 % 3])
    if dc["mpcc"] in ("SCHOLTES_EQ", "ELASTIC_EQ"):         # one equation per pair has more equations than variables
        dc["cross"] = "SUM"
    if dc["form"] == "joint" and len(mot) > 2:
        dc["form"] = "separate"
    if dc["form"] == "indicators" and dc["pss"] == "STEP":
        dc["form"] = "separate"
    return dc


def run(ctx):
    cases = ctx.generate("Simulate", consts=dict(Tier=ctx.tlevel), invariants=["PhaseHolds", "ShareInRange", "Emit"])
    q = ctx.rng.randrange(10000)
    jobs = [(c, config(q + 7 * i + i // 5 + 1009 * k, c)) for i, c in enumerate(cases) for k in range(1 if ctx.tlevel == 1 else 3)]
    recs, dcs = [], []
    for (c, dc), r in zip(jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("simulation failed (%s %s): %s" % (c["cfg"], dc, r["err"].strip().splitlines()[-1]), dict(case=c, dc=dc, err=r["err"]))
            continue
        recs.append(dict(c, obs=r["obs"]))
        dcs.append(dc)
    good = [r for r in recs if r["obs"]["converged"]]
    if recs:
        can = []
        for n, r in enumerate(good[:: max(1, len(good) // 8)][:8]):
            r = copy.deepcopy(r)
            if n % 2:
                r["obs"]["ends"][-1]["x"][0] += 60
            else:
                r["obs"]["segs"][-1]["t"] += 60
            can.append(r)
        for k, vs in ctx.validate("Simulate", recs, can, init="TInit", next="Next", emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s %s: %s" % (", ".join(vs), recs[k]["cfg"], dcs[k], recs[k]["obs"]), dict(record=recs[k], dc=dcs[k], clause=vs))
        if 3 * len(good) < len(recs):
            ctx.violation("only %d of %d simulations are reported as solved" % (len(good), len(recs)), dict(unsolved=[dict(case=dict(r, obs=0), dc=d) for r, d in zip(recs, dcs) if not r["obs"]["converged"]][:50]))
    ctx.notes.update(simulations=len(recs), converged=len(good))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["IPOPT; nothing is claimed about simulations that it does not report as solved"]
