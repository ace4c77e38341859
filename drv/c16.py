"""C16: the results dictionary (spec/Results.tla)."""
import traceback, json, copy
from collections import defaultdict
import numpy as np, casadi as ca
import nos, homlib, c10
from nos import Prob, mkopts, quiet, flat
HV = [3, 1, 4, 2, 7, 5]


def blocks(p):
    """(label, indices) of all blocks of the primal vector, from the public index lists"""
    out = []
    hs = iter(flat(p.ind_h))
    for k in range(len(p.ind_x)):
        for e in range(len(p.ind_x[k])):
            for nm, L in (("x", p.ind_x), ("v", p.ind_v), ("z", p.ind_z)):
                for j, ix in enumerate(L[k][e]):
                    out.append(([nm, k + 1, e + 1, j + 1, 0], flat(ix)))
            for nm, L in (("theta", p.ind_theta), ("lam", p.ind_lam), ("mu", p.ind_mu), ("alpha", p.ind_alpha), ("lambda_n", p.ind_lambda_n), ("lambda_p", p.ind_lambda_p)):
                for j, st in enumerate(L[k][e]):
                    for q, ix in enumerate(st):
                        out.append(([nm, k + 1, e + 1, j + 1, q + 1], flat(ix)))
    for k, ix in enumerate(p.ind_u):
        out.append((["u", k + 1, 0, 0, 0], flat(ix)))
    for k, ix in enumerate(p.ind_sot):
        out.append((["sot", k + 1, 0, 0, 0], flat(ix)))
    out.append((["v_global", 0, 0, 0, 0], flat(p.ind_v_global)))
    return [(l, [int(i) for i in ix]) for l, ix in out if len(ix)]


def ints(v):
    return [int(round(float(a))) if abs(float(a) - round(float(a))) < 1e-9 else -999 for a in np.asarray(v, dtype=float).flatten()]


def results(P, w, mode):
    """the results for primal vector w: of solve() or of the function that extracts them"""
    if mode:
        P.fake.script = lambda i, c: dict(x=w.copy())
        with quiet():
            return P.solver.solve()
    return nos.nosnoc.get_results_from_primal_vector(P.solver.problem, w)


def job_view(a):
    cfg, mode, cases = a
    try:
        with quiet():
            P = Prob(*c10.make(cfg))
        p = P.P
        start = {ix[0]: (l, ix) for l, ix in blocks(p)}
        w = 1000.5 + np.arange(P.nw)
        if cfg["fesd"]:
            w[flat(p.ind_h)] = HV[:len(flat(p.ind_h))]
        x0 = [-1.25, 901.25][len(p.ind_x) % 2] - np.arange(cfg["dim"]["x"])     # the bounds of the states do not hold for the initial state
        with quiet():
            P.solver.set("x0", x0.copy())
        w_before = w.copy()
        r = results(P, w, mode)

        def lab(v):
            """labels of the blocks whose values stand in v, in order"""
            v = np.asarray(v, dtype=float).flatten()
            if np.array_equal(v, x0):
                return [["x0"]]
            out, i = [], 0
            while i < len(v):
                b = start.get(int(round(v[i] - 1000.5)))
                if b is None or not np.array_equal(v[i:i + len(b[1])], w_before[b[1]]):
                    return [["?"]]
                out.append(b[0])
                i += len(b[1])
            return out
        one = lambda v: (lab(v) + [["none"]])[0] if len(lab(v)) < 2 else ["several"]
        st = cfg["pss"] == "STEWART"
        sysl = lambda L: [[one(s) for s in el] for el in L]
        ob = dict(grid=ints(r["t_grid"]), grid_u=ints(r["t_grid_u"]), steps=ints(r["time_steps"]), x_out=one(r["x_out"]), x_list=[one(v) for v in r["x_list"]],
                  x_traj=[one(v) for v in r["x_traj"]], x_all=[one(v) for v in r["x_all_list"]], u_list=[one(v) for v in r["u_list"]],
                  u_traj=[one(v) for v in r["u_traj"]],
                  weights=sysl(r["theta_list"]) if st else [lab(v) for v in r["alpha_list"]],
                  mults=sysl(r["lambda_list"]) if st else [lab(v) for v in r["lambda_n_list"]],
                  mults_p=[] if st else [lab(v) for v in r["lambda_p_list"]], z_list=[one(v) for v in r["z_list"]],
                  sot=[one(v) for v in r["sot"]] if "sot" in r else [], v_global=one(r["v_global"]), kept=bool(np.array_equal(w, w_before)))
        if mode:
            ob["kept"] = ob["kept"] and bool(np.array_equal(r["w_sol"], w_before))
        return dict(ok=True, obs=[ob])
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def job_switch(a):
    cfg, mode, cases = a
    try:
        N = len(cfg["lay"])
        o = mkopts(terminal_time=12.0 * N, N_stages=N, Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme=cfg["sch"], irk_representation=cfg["rep"],
                   pss_mode="STEWART" if cfg["pss"] == "STEWART" else "STEP", use_fesd=cfg["fesd"], max_iter_homotopy=1, print_level=0)
        P = Prob(o, homlib.model(cfg["pss"]), None, solve=False)
        p = P.P
        st = cfg["pss"] == "STEWART"
        th = {1: np.array([1.0, 0]), 2: np.array([0, 1.0]), 3: np.array([0.5, 0.5])}
        th4 = {1: np.array([1.0, 0, 0, 0]), 2: np.array([0, 0, 0, 1.0])}
        al = {1: np.array([1.0]), 2: np.array([0.0]), 3: np.array([0.5])}
        al4 = {1: np.array([1.0, 1.0]), 2: np.array([0.0, 0.0])}
        out = []
        for ci, case in enumerate(cases):
            w = 0.01 * np.cos(np.arange(P.nw))
            if cfg["fesd"]:
                w[flat(p.ind_h)] = HV[:len(flat(p.ind_h))]
            for i, fe in enumerate(P.fes):
                for j in range(cfg["s"]):
                    a1, a2 = case["pat"][i]
                    if j < cfg["s"] - 1:                 # inside of the element something else may be active
                        a1, a2 = 1 + (a1 + i + ci) % 3, 1 + (a2 + i + ci // 3) % 2
                    eps = 0.04 * ((i + ci) % 2)          # inaccuracy far below a change of the active set
                    if st:
                        w[fe.th[j][0]], w[fe.th[j][1]] = th[a1] * (1 - eps), th4[a2] * (1 - eps)
                    else:
                        w[fe.al[j][0]], w[fe.al[j][1]] = al[a1] * (1 - eps), al4[a2] * (1 - eps)
            r = results(P, w, mode)
            out.append(dict(grid=ints(r["t_grid"]), grid_u=ints(r["t_grid_u"]), steps=ints(r["time_steps"]), switch=ints(r["switch_times"])))
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def job(a):
    return (job_view if a[2][0]["kind"] == "view" else job_switch)(a)


def run(ctx):
    cases = ctx.generate("Results", init="RInit", next="RNext", consts=dict(Tier=ctx.tlevel),
                         invariants=["GridIncreases", "Lengths", "SubGrid", "SwitchInside", "FixedGridEnds", "REmit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    for k in sorted(by):
        q += 1
        jobs.append((cases[by[k][0]]["cfg"], q % 2, [cases[i] for i in by[k]]))
        meta.append((cases[by[k][0]]["cfg"], by[k]))
    recs = []
    for (c0, idx), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("results of a well-formed problem failed (%s): %s" % (c0, r["err"].strip().splitlines()[-1]), dict(cfg=c0, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
    if recs:
        can = []
        vw = [r for r in recs if r["kind"] == "view"]
        sw = [r for r in recs if r["kind"] == "switch"]
        for n, r in enumerate(vw[:: max(1, len(vw) // 8)][:8]):
            r = copy.deepcopy(r)
            f = ["x_out", "x_list", "x_traj", "x_all", "weights", "mults", "grid", "steps"][n]
            if f in ("weights", "mults"):
                r["obs"][f][-1] = r["obs"][f][-1] + [["?"]]
            else:
                r["obs"][f] = r["obs"][f] + r["obs"][f][:1]
            can.append(r)
        for n, r in enumerate(sw[:: max(1, len(sw) // 4)][:4]):
            r = copy.deepcopy(r)
            r["obs"]["switch"].append(1)
            can.append(r)
        for k, vs in ctx.validate("Results", recs, can, init="RTInit", next="RNext", emit="RTEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s %s observed %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["pat"], recs[k]["obs"]), dict(record=recs[k], clause=vs))
    ctx.notes.update(jobs=len(jobs), views=sum(r["kind"] == "view" for r in recs), switch_patterns=sum(r["kind"] == "switch" for r in recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["weights and multipliers of an element are reported at its last point", "a change of an active set changes some weight by at least 0.4, inaccuracies are at most 0.04"]
