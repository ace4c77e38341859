"""C17: the simulation loop (spec/SimLoop.tla)."""
import traceback, json, copy
from collections import defaultdict
import numpy as np, casadi as ca
import nos, homlib
from nos import Prob, mkopts, quiet, flat
HV = [3, 1, 4, 2, 7, 5]
X00 = 1e-9 * np.array([-1.0, -2.0, -3.0])


def model(pss, N=1, u=False):
    import nosnoc
    x, z, p1, p2 = ca.SX.sym("x", 3), ca.SX.sym("z", 2), ca.SX.sym("p1", 2), ca.SX.sym("p2", 2)
    one = ca.vertcat(1, 1, 1)
    kw = dict(x=x, x0=np.array([7.0, 8.0, 9.0]), z=z, g_z=z - x[:2], p_time_var=p1, p_global=p2, p_time_var_val=np.full((N, 2), -5.0), p_global_val=np.zeros(2))
    if u:
        kw["u"] = ca.SX.sym("u")
        one = one * (1 + kw["u"])
    return nosnoc.NosnocModel(F=[ca.horzcat(one, -one), ca.horzcat(one, -one, 2 * one, -2 * one)], S=[np.array([[1.0], [-1.0]]), homlib.S4], c=[x[0], x[1:]], **kw)


def job_reject(c):
    import nosnoc
    why = c["why"]
    N = 2 if why == "stages" else 1
    with quiet():
        m = model("STEWART", N, why == "controls")
        o = mkopts(terminal_time=12.0, N_stages=N, N_finite_elements=2, n_s=1, print_level=0)
        s, _ = nos.build(o, m, nosnoc.NosnocOcp(f_q=m.x[0] ** 2) if why == "ocp" else None)
        p = {"none-p": np.zeros((3, 2)), "p-too-few-rows": np.zeros((2, 2)), "p-too-many-rows": np.zeros((4, 2)), "p-too-many-columns": np.zeros((3, 4)),
             "p-one-dimensional": np.zeros(3)}.get(why)
        try:
            nosnoc.NosnocSimLooper(s, X00.copy(), 3, p_values=p)
            return dict(ret=True)
        except Exception:
            return dict(ret=False)


def job(a):
    cfg, cases, dc = a
    try:
        if cfg["kind"] == "reject":
            return dict(ok=True, obs=[job_reject(c["cfg"]) for c in cases])
        import nosnoc
        o = mkopts(terminal_time=12.0, N_stages=1, N_finite_elements=cfg["nfe"], n_s=2, irk_scheme=cfg["sch"], irk_representation=dc["rep"], pss_mode=cfg["pss"],
                   use_fesd=cfg["fesd"], mpcc_mode=dc["mpcc"], initialization_strategy=cfg["strat"], comp_tol=1e-6, sigma_0=1.0, homotopy_update_slope=0.5,
                   sigma_N=1e-12, max_iter_homotopy=cfg["max"], do_polishing_step=cfg["polish"], print_level=dc["print"], speed_of_time_variables=dc["sot"])
        P = Prob(o, model(cfg["pss"]), None, solve=False)
        S, prob, nw = P.solver, P.solver.problem, P.nw
        st = cfg["pss"] == "STEWART"
        g0 = np.array(prob.w0, dtype=float).copy()
        ixs = np.array(sorted(set(flat(prob.ind_x))), dtype=int)
        rest = np.array(sorted(set(range(nw)) - set(ixs)), dtype=int)
        out = []
        for case in cases:
            H = case["hist"]
            with quiet():
                prob.w0 = g0.copy()
                S.set("p_global", np.zeros(2))
            tot = [h["n"] + (1 if cfg["polish"] else 0) for h in H]
            own = [(k + 1, i + 1, h) for k, h in enumerate(H) for i in range(tot[k])]
            pts = {}

            def point(idx, k, i, h):
                w = 3.0 * idx + np.arange(nw) / 4096
                w[ixs] = 1e-9 * (idx + np.arange(len(ixs)) / 64)
                for fe in P.fes:
                    for L in (fe.lam, fe.ln, fe.lp):
                        for b in L:
                            for v in b:
                                w[v] = 0.0
                    pat = h["pat"][fe.e]
                    for j in range(2):
                        for q in range(2):
                            if st:
                                w[fe.th[j][q]] = 0.001 * idx
                                w[fe.th[j][q][pat - 1]] = 1 - 0.001 * idx
                            else:
                                w[fe.al[j][q]] = (pat - 1) + 0.001 * idx
                # the complementarity residual decides whether another NLP follows
                if i < h["n"]:
                    fe = P.fes[0]
                    if st:
                        w[fe.lam[0][0]] = 1.0
                    else:
                        w[fe.ln[0][0]] = w[fe.lp[0][0]] = 1.0
                if cfg["fesd"]:
                    w[flat(prob.ind_h)] = [HV[(3 * k + e) % 6] for e in range(1, cfg["nfe"] + 1)]
                # multipliers are told apart by values far below the tolerance
                for fe in P.fes:
                    for L in (fe.lam, fe.ln, fe.lp):
                        for b in L:
                            for q, v in enumerate(b):
                                w[v] += 1e-12 * (idx + q / 8)
                return w

            def script(n, call):
                k, i, h = own[n]
                pts[n + 1] = point(n + 1, k, i, h)
                return dict(x=pts[n + 1].copy(), f=-0.5 * (n + 1), status=h["st"] if i == tot[k - 1] else ["Solve_Succeeded", "Infeasible_Problem_Detected"][n % 2],
                            time=0.125 * (n + 1), iters=1)
            P.fake.calls.clear()
            P.fake.limit = len(own)
            P.fake.script = script
            n = cfg["n"]
            pv = np.array([[100.0 + k, 200.0 + k] for k in range(1, n + 1)]) if cfg["pv"] else None
            wi = [np.full(nw, 50.0 + k) + np.arange(nw) / 4096 for k in range(1, n + 1)] if cfg["winit"] else None
            x0 = X00.copy()
            keep = (None if pv is None else pv.copy(), None if wi is None else [v.copy() for v in wi])
            ret, more = None, 0
            solve, times = type(S).solve, []

            def record():
                r = solve(S)
                times.append([0.0 if v is None else v for v in r["cpu_time_nlp"]])
                return r
            S.solve = record
            with quiet():
                kw = {} if dc["print"] == 2 else dict(print_level=dc["print"] % 2)
                lp = nosnoc.NosnocSimLooper(S, x0, n, p_values=pv, w_init=wi, **kw)
                # (rejected set calls warn by an exception)
                try:
                    ret = lp.run(stop_on_failure=cfg["stop"])
                except nos.TooManyCalls:
                    more = 1
                R = lp.get_results()
            q4 = lambda v: int(round(float(v))) if abs(float(v) - round(float(v))) < 1e-9 else -99
            starts = []
            i = 0
            for t in tot:
                starts.append(i)
                i += t
            starts = [s for s in starts if s < len(P.fake.calls)]

            def xtok(v):
                v = np.asarray(v, dtype=float).flatten()
                if np.array_equal(v, X00):
                    return [0, 0]
                return next(([k, fe.e + 1] for k, w in pts.items() for fe in P.fes if np.array_equal(v, w[fe.xe])), [-9, -9])

            def rtok(w):
                if np.array_equal(w[rest], g0[rest]):
                    return 0
                if wi is not None:
                    for k in range(n):
                        if np.array_equal(w[rest], keep[1][k][rest]):
                            return -1 - k
                return next((k for k, p in pts.items() if np.array_equal(w[rest], p[rest])), -99)

            def ptok(p):
                if np.array_equal(p[:4], [-5, -5, 0, 0]):
                    return 0
                return next((k for k in range(1, n + 1) if np.array_equal(p[:4], [-5, -5, 100.0 + k, 200.0 + k])), -99)

            def tok(val, pick):
                """the point whose picked values stand in val (a nested list)"""
                a = np.concatenate([np.asarray(v, dtype=float).flatten() for v in flat_arrays(val)] or [np.zeros(0)])
                return next((k for k, w in pts.items() if np.array_equal(a, np.concatenate([w[np.array(i, dtype=int)] for i in pick]))), -99)
            m = lambda L: [b for fe in P.fes for b in L(fe)]
            ob = dict(nlps=len(P.fake.calls) + more, ret=True if ret is None else bool(ret), x0=[xtok(P.fake.calls[s]["p"][-3:]) for s in starts],
                      p=[ptok(P.fake.calls[s]["p"]) for s in starts], start=[rtok(P.fake.calls[s]["x0"]) for s in starts],
                      x=[xtok(v) for v in R["X_sim"]], steps=[q4(v) for v in R["time_steps"]], grid=[q4(v) for v in R["t_grid"]], sw=[q4(v) for v in R["switch_times"]],
                      weights=[tok(v, m(lambda fe: (fe.th if st else fe.al)[-1])) for v in (R["theta_sim"] if st else R["alpha_sim"])],
                      mults=[tok(v, m(lambda fe: fe.lam[-1])) for v in R["lambda_sim"]] if st else None,
                      z=[tok(v, m(lambda fe: [fe.z[-1]])) for v in R["z_sim"]], w=[next((k for k, p in pts.items() if np.array_equal(p, w)), -99) for w in R["w_sim"]],
                      alls=[[next((k for k, p in pts.items() if np.array_equal(p, w)), -99) for w in ws[1:]] for ws in R["w_all"]],
                      cost=[q4(v / -0.5) for v in R["cost_vals"]], status=[s.name for s in R["status"]],
                      cpu=[[(-7 if v == times[k][-1] else -9) if cfg["polish"] and j == len(row) - 1 else q4(v / 0.125) for j, v in enumerate(row)]
                          for k, row in enumerate(np.asarray(R["cpu_nlp"])[:len(R["status"])])],
                      sot=[tok(v, [flat(prob.ind_sot)]) for v in R["sot"]] if dc["sot"] != "NONE" else None)
            if not st:
                ob["mults"] = list(ob["w"])
            if dc["sot"] == "NONE":
                ob["sot"] = list(ob["w"])
            ob["caller"] = bool(np.array_equal(x0, X00) and (pv is None or np.array_equal(pv, keep[0])) and (wi is None or all(np.array_equal(a, b) for a, b in zip(wi, keep[1]))))
            out.append(ob)
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def flat_arrays(v):
    if isinstance(v, (list, tuple)):
        return [b for a in v for b in flat_arrays(a)]
    return [v]


def run(ctx):
    cases = ctx.generate("SimLoop", consts=dict(Tier=ctx.tlevel), invariants=["Chained", "Complete", "StopsAtFirst", "Lens", "SwitchOrdered", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by["reject" if c["cfg"]["kind"] == "reject" else json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    for k in sorted(by):
        q += 1
        dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], mpcc=["SCHOLTES_INEQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER", "ELASTIC_INEQ"][q % 4],
                  sot=["NONE", "LOCAL", "GLOBAL"][q // 2 % 3], print=q // 3 % 3)
        jobs.append((cases[by[k][0]]["cfg"], [cases[i] for i in by[k]], dc))
        meta.append((by[k], dc))
    recs, rid = [], []
    for (idx, dc), (c0, _, _), r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("a simulation loop failed (%s %s): %s" % (c0, dc, r["err"].strip().splitlines()[-1]), dict(cfg=c0, dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            rid.append(dc)
    if recs:
        can = []
        rn = [r for r in recs if r["cfg"]["kind"] == "run"]
        for n, r in enumerate(rn[:: max(1, len(rn) // 17)][:17]):
            r = copy.deepcopy(r)
            o = r["obs"]
            f = ["nlps", "ret", "x0", "p", "start", "x", "steps", "grid", "sw", "weights", "mults", "z", "w", "alls", "cost", "status", "cpu"][n % 17]
            if f == "nlps":
                o[f] += 1
            elif f == "ret":
                o[f] = not o[f]
            else:
                o[f] = o[f] + [0]
            can.append(r)
        for k, vs in ctx.validate("SimLoop", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s history %s observed %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["hist"], recs[k]["obs"]), dict(record=recs[k], dc=rid[k], clause=vs))
    ctx.notes.update(solvers_built=len(jobs), loops=len(recs), steps=sum(len(r["hist"]) for r in recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["the NLP solver is replaced by a script that answers with labelled points"]
