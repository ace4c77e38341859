"""C11: the homotopy loop (spec/Homotopy.tla)."""
import traceback, json, copy, math
from collections import defaultdict
import numpy as np, casadi as ca
import nos, homlib
from nos import Prob, mkopts, quiet
from homlib import U
ZERO = 10 ** 9
OK = ["Solve_Succeeded", "Solved_To_Acceptable_Level", "Feasible_Point_Found", "Search_Direction_Becomes_Too_Small"]
BADS = ["Infeasible_Problem_Detected", "Maximum_Iterations_Exceeded", "Restoration_Failed", "Error_In_Step_Computation", "Maximum_CpuTime_Exceeded"]


def units(v):
    if v == 0:
        return ZERO
    if not v > 0:
        return -ZERO
    k = -math.log2(v) * U
    return int(round(k)) if abs(k - round(k)) < 1e-3 else -ZERO


def job(a):
    cfg, cases, dc, seed = a
    import random
    if cfg["kind"] == "resid":
        return job_resid(a)
    rng = random.Random(seed)
    try:
        out = []
        p2 = lambda m: 0.0 if m == ZERO else 2.0 ** (-m / U)
        tol = p2(cfg["c"])
        o = mkopts(terminal_time=1.0, N_stages=dc["N"], N_finite_elements=2, n_s=2, irk_scheme=dc["scheme"], irk_representation=dc["rep"],
                   pss_mode="STEWART" if dc["pss"] == "STEWART" else "STEP", cross_comp_mode=dc["cross"], use_fesd=dc["fesd"], mpcc_mode=dc["mpcc"],
                   initialization_strategy=dc["init"], homotopy_update_rule=cfg["rule"], homotopy_update_slope=p2(cfg["a"]),
                   homotopy_update_exponent=cfg["e"] / 4, sigma_0=p2(cfg["m0"]), sigma_N=p2(cfg["mN"]), comp_tol=tol, max_iter_homotopy=cfg["max"],
                   do_polishing_step=cfg["polish"], print_level=dc["print"])
        P = Prob(o, homlib.model(dc["pss"]), None, solve=False)
        P.fake.limit = 300
        for case in cases:
            P.fake.calls.clear()
            loc = (rng.randrange(len(P.fes)) + 1, rng.randrange(o.n_s) + 1, 1, 1)

            def script(i, call):
                w = call["x0"].copy()
                for ix in (P.P.ind_theta, P.P.ind_lam, P.P.ind_lambda_n, P.P.ind_lambda_p, P.P.ind_alpha):
                    w[nos.flat(ix)] = 0.0
                ans = case["out"][min(i, len(case["out"]) - 1)]
                homlib.place(P, w, *loc, 1.0, "w")
                homlib.place(P, w, *loc, ans["res"] / 4 * tol, "m")
                return dict(x=w, status=(OK if ans["st"] == OK[0] else BADS)[dc["alt"] % 4])
            P.fake.script = script
            with quiet():
                try:
                    P.solver.solve()
                except nos.TooManyCalls:
                    pass
            # this model has no stage parameters: p = (sigma, tau, initial multipliers, initial state)
            out.append(dict(posed=[[units(c["p"][0]), units(c["p"][1])] for c in P.fake.calls], max=int(o.max_iter_homotopy)))
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("Homotopy", consts=dict(Tier=ctx.tlevel), invariants=["NeverTooMany", "StopsForAReason", "NoEarlyStop", "Decreasing", "NeverBelowSigmaN",
                                                                              "AutoReaches", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        k = c["cfg"]["x"] if c["cfg"]["kind"] == "resid" else c["cfg"]
        by[json.dumps(k, sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    mp = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER", "ELASTIC_INEQ"]
    ini = ["ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV", "EXTERNAL"]
    for k in sorted(by):
        q += 1
        c0 = cases[by[k][0]]["cfg"]
        dc = dict(pss=["STEWART", "STEP", "FX"][q % 3], N=1 + q % 2, scheme=["RADAU", "GAUSS"][q // 2 % 2], rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q // 3 % 3],
                  cross=["ALL", "SUM"][q // 3 % 2], fesd=q // 2 % 3 > 0, mpcc=mp[q % 4], init=ini[q % 3], print=q // 5 % 3, alt=q % 5)
        if c0["kind"] == "resid":
            dc["pss"] = ["STEP", "FX"][q % 2]
        elif dc["mpcc"].startswith("ELASTIC") and c0["polish"]:
            dc["mpcc"] = "SCHOLTES_EQ"                     # sigma = 0 divides the objective in this mode
        jobs.append((c0, [cases[i] for i in by[k]], dc, ctx.rng.randrange(10 ** 9)))
        meta.append((c0, by[k], dc))
    recs, rid = [], []
    for (c0, idx, dc), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("solving a well-formed problem failed (%s %s): %s" % (c0, dc, r["err"].strip().splitlines()[-1]), dict(cfg=c0, dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            rid.append((i, dc))
    if recs:
        can = []
        for n, r in enumerate(recs[:: max(1, len(recs) // 8)][:8]):
            r = copy.deepcopy(r)
            if n % 4 == 0 or r["cfg"]["kind"] == "resid":
                r["obs"]["posed"].append([5, 5])
            elif n % 4 == 1:
                r["obs"]["posed"].pop()
            elif n % 4 == 2:
                r["obs"]["posed"][-1][0] += 1
            else:
                r["obs"]["posed"][-1][1] += 1
            can.append(r)
        for k, vs in ctx.validate("Homotopy", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s answers %s, observed %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["out"], recs[k]["obs"]),
                          dict(record=recs[k], dc=rid[k][1], clause=vs))
    ctx.notes.update(solvers_built=len(jobs), solves=len(recs), nlps=sum(len(r["obs"]["posed"]) for r in recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["the NLP solver is replaced by a script that answers with chosen residuals and statuses"]


def job_resid(a):
    """all locations of one discretization on one solver"""
    c0, cases, dc, seed = a
    try:
        x = c0["x"]
        tol = 2.0 ** -20
        o = mkopts(terminal_time=1.0, N_stages=len(x["lay"]), Nfe_list=list(x["lay"]), n_s=x["s"], irk_scheme=x["sch"], irk_representation=dc["rep"],
                   pss_mode="STEWART" if x["pss"] == "STEWART" else "STEP", cross_comp_mode=dc["cross"], use_fesd=x["fesd"], mpcc_mode=dc["mpcc"],
                   initialization_strategy=dc["init"], comp_tol=tol, sigma_0=1.0, homotopy_update_slope=0.5, sigma_N=1e-12, max_iter_homotopy=2)
        P = Prob(o, homlib.model(x["pss"] if x["pss"] == "STEWART" else dc["pss"]), None, solve=False)
        step = x["pss"] != "STEWART"
        out = []
        for case in cases:
            W, L = case["cfg"]["w"], case["cfg"]["l"]
            x0 = np.zeros(3)
            if L["i"] == 0:
                # entry 2 of the initial multiplier: Stewart region 2 / lambda_p (one function) / lambda_n of the second of two functions
                if L["q"] == 1:
                    x0[0] = 2 * tol
                else:
                    x0[2] = 2 * tol * (-1 if step else 1)
            P.fake.calls.clear()

            def script(i, call):
                w = call["x0"].copy()
                for ix in (P.P.ind_theta, P.P.ind_lam, P.P.ind_lambda_n, P.P.ind_lambda_p, P.P.ind_alpha):
                    w[nos.flat(ix)] = 0.0
                if step and L["r"] > L["q"]:           # only the chosen weight may meet the multiplier
                    w[nos.flat(P.P.ind_alpha)] = 1.0
                homlib.place(P, w, W["i"], W["j"], W["q"], W["r"], 1.0, "w")
                if L["i"] > 0:
                    homlib.place(P, w, L["i"], L["j"], L["q"], L["r"], 2 * tol, "m")
                return dict(x=w)
            P.fake.script = script
            with quiet():
                P.solver.set("x0", x0)
                P.solver.solve()
            out.append(dict(posed=[[units(c["p"][0]), units(c["p"][1])] for c in P.fake.calls], max=int(o.max_iter_homotopy)))
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())
