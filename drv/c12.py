"""C12: warm starts, reported solution, statistics, status (spec/Report.tla)."""
import traceback, json, copy
from collections import defaultdict
import numpy as np, casadi as ca
import nos, homlib
from nos import Prob, mkopts, quiet


class SolverDied(RuntimeError):
    pass


def job(a):
    cfg, cases, dc = a
    try:
        out = []
        for case in cases:
            kw = dict(terminal_time=1.0, N_stages=dc["N"], N_finite_elements=2, n_s=2, irk_scheme=dc["scheme"], irk_representation=dc["rep"],
                      pss_mode="STEWART" if dc["pss"] == "STEWART" else "STEP", use_fesd=dc["fesd"], mpcc_mode=dc["mpcc"],
                      initialization_strategy=cfg["strat"], comp_tol=1e-6, sigma_0=1.0, homotopy_update_slope=0.5, sigma_N=1e-12,
                      max_iter_homotopy=cfg["max"], do_polishing_step=cfg["polish"], print_level=dc["print"])
            if not out:
                P = Prob(mkopts(**kw), homlib.model(dc["pss"], extra=True, p=dc["N"]), None, solve=False)
                prob = P.solver.problem
                w_init = prob.w0.copy()
                ix = np.array(sorted(set(nos.flat(prob.ind_x))), dtype=int)
                rest = np.array(sorted(set(range(P.nw)) - set(ix)), dtype=int)
                zero = np.array(nos.flat(prob.ind_lam) + nos.flat(prob.ind_lambda_n) + nos.flat(prob.ind_lambda_p), dtype=int)
                lbw, ubw, lbg, ubg = (np.array(v, dtype=float).copy() for v in (prob.lbw, prob.ubw, prob.lbg, prob.ubg))
            with quiet():
                try:
                    P.solver.set("w", w_init.copy())
                except Warning:
                    pass

            def xv(v):
                return 1e-9 * (1 + v + np.arange(3) / 8)

            def point(k, conv):
                w = 3.0 * k + np.arange(P.nw) / 4096.0
                w[zero] = 0.0 if conv else 1.0
                return w
            pts = {}
            answers = [h for h in case["hist"] if h["act"] == "nlp"]
            P.fake.calls.clear()

            def script(i, call):
                h = answers[i]
                if h["raise"]:
                    raise SolverDied()
                pts[i + 1] = point(i + 1, h["conv"])
                return dict(x=pts[i + 1].copy(), f=-0.5 * (i + 1), status=h["st"], iters=i + 1, time=0.125 * (i + 1))
            P.fake.script = script
            P.fake.limit = len(answers)
            nx0 = 0
            with quiet():
                P.solver.set("x0", xv(0))
            obs, res = [], []
            k0 = 0
            for h in case["hist"]:
                if h["act"] == "x0":
                    nx0 += 1
                    with quiet():
                        P.solver.set("x0", xv(nx0))
                elif h["act"] == "solve":
                    n = len(P.fake.calls)
                    raised = False
                    r = None
                    with quiet():
                        try:
                            r = P.solver.solve()
                        except SolverDied:
                            raised = True
                        except nos.TooManyCalls:
                            pass
                    res.append((raised, r, n, len(P.fake.calls)))
            # tokens are read only now: nothing reported may change afterwards

            def tok(w):
                w = np.asarray(w, dtype=float).flatten()
                if w.size != P.nw:
                    return [-99, -99]
                st = rs = -99
                for k, p in [(0, w_init)] + sorted(pts.items()):
                    if np.array_equal(w[ix], p[ix]):
                        st = k
                    if np.array_equal(w[rest], p[rest]):
                        rs = k
                for v in range(nx0 + 1):
                    if all(np.array_equal(w[i], xv(v)) for xs in prob.ind_x for e in xs for i in e):
                        st = -1 - v
                return [st, rs]
            inv = lambda v, s: int(round(v / s)) if v is not None and abs(v / s - round(v / s)) < 1e-9 else -99
            for raised, r, n, m in res:
                o = dict(raised=raised, starts=[tok(c["x0"]) for c in P.fake.calls[n:m]], all=[], iter=[], time=[], w=0, cost=0, status="NONE", view=0)
                o["bounds"] = all(np.array_equal(c["lbg"], lbg) and np.array_equal(c["ubg"], ubg) for c in P.fake.calls[n:m]) and \
                    all(np.array_equal(c["lbx"], lbw) and np.array_equal(c["ubx"], ubw) for c in P.fake.calls[n:m if not cfg["polish"] or raised else m - 1])
                if r is not None:
                    o["all"] = [tok(w) for w in r["w_all"]]
                    t = tok(r["w_sol"])
                    o["w"] = t[0] if t[0] == t[1] else -99
                    o["cost"] = inv(r["cost_val"], -0.5)
                    o["status"] = r["status"].name
                    o["iter"] = [0 if v is None else int(v) for v in r["nlp_iter"]]
                    o["time"] = [0 if v is None else inv(v, 0.125) for v in r["cpu_time_nlp"]]
                    if cfg["polish"] and r["cpu_time_nlp"] and r["cpu_time_nlp"][-1] is not None:
                        v = r["cpu_time_nlp"][-1]
                        o["time"][-1] = -7 if v >= 0 else -99
                    # the remaining fields are read off the returned solution
                    xe = [np.array(r["x_out"]).flatten()] + [np.array(v).flatten() for v in r["u_list"]] + [np.array(v).flatten() for v in r["x_list"]]
                    src = [prob.ind_x[-1][-1][-1]] + list(prob.ind_u) + [P.fes[j].xe for j in range(len(P.fes))]
                    ks = [k for k, p in pts.items() if all(np.array_equal(a, p[np.array(b)]) for a, b in zip(xe, src))]
                    o["view"] = ks[0] if ks else -99
                obs.append(o)
            out.append(obs)
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("Report", consts=dict(Tier=ctx.tlevel), invariants=["ChainOfStarts", "ReportsLast", "OnePerNlp", "GuessKept", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    mp = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER", "ELASTIC_EQ", "ELASTIC_INEQ"]
    for k in sorted(by):
        idx = by[k]
        for part in range(0, len(idx), 120):
            q += 1
            dc = dict(pss=["STEWART", "STEP", "FX"][q % 3], N=1 + q % 2, scheme=["RADAU", "GAUSS"][q // 2 % 2], rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q // 3 % 3],
                      fesd=q // 2 % 3 > 0, mpcc=mp[q % 5], print=q // 5 % 3)
            c0 = cases[idx[0]]["cfg"]
            if dc["mpcc"].startswith("ELASTIC") and c0["polish"]:
                dc["mpcc"] = "SCHOLTES_EQ"
            jobs.append((c0, [cases[i] for i in idx[part:part + 120]], dc))
            meta.append((c0, idx[part:part + 120], dc))
    recs, rid = [], []
    for (c0, idx, dc), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("solving a well-formed problem failed (%s %s): %s" % (c0, dc, r["err"].strip().splitlines()[-1]), dict(cfg=c0, dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            rid.append((i, dc))
    if recs:
        can = []
        for n, r in enumerate([r for r in recs if not r["obs"][-1]["raised"]][:: max(1, len(recs) // 12)][:10]):
            r = copy.deepcopy(r)
            o = r["obs"][-1]
            f = ["starts", "all", "iter", "time", "w", "cost", "status", "view", "bounds"][n % 9]
            if f in ("starts", "all"):
                o[f][-1] = [77, 77]
            elif f in ("iter", "time"):
                o[f][0] = 77
            elif f == "bounds":
                o[f] = False
            elif f == "status":
                o[f] = "SUCCESS" if o[f] == "INFEASIBLE" else "INFEASIBLE"
            else:
                o[f] += 1
            can.append(r)
        for k, vs in ctx.validate("Report", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s history %s, observed %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["hist"], recs[k]["obs"]),
                          dict(record=recs[k], dc=rid[k][1], clause=vs))
    ctx.notes.update(solvers_built=len(jobs), histories=len(recs), nlps=sum(len(s["starts"]) for r in recs for s in r["obs"]))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["the NLP solver is replaced by a script that answers with labelled points"]
