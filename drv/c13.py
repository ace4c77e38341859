"""C13: pinned variables of fix_active_set_fe0 and of the polishing step (spec/Pins.tla)."""
import traceback, json, copy
from collections import defaultdict
import numpy as np, casadi as ca
import nos, homlib
from nos import Prob, mkopts, quiet
CLASSES = ["neg", "zero", "low", "up", "half", "one--", "one-", "one", "one+", "one++"]


def values(tol):
    eps = 10 * tol
    return {"neg": -0.5, "zero": 0.0, "low": eps / 2, "up": 2 * eps, "half": 0.5, "one--": 1 - 2 * eps, "one-": 1 - eps / 2, "one": 1.0, "one+": 1 + eps / 2,
            "one++": 1 + 2 * eps}


KNO = {"theta": 0, "lambda": 3, "alpha": 5, "lambda_n": 6, "lambda_p": 8}


def entries(P):
    """index -> [kind, stage, element, integration stage, subsystem, entry]"""
    out = {}
    for nm, L in (("theta", P.P.ind_theta), ("lambda", P.P.ind_lam), ("alpha", P.P.ind_alpha), ("lambda_n", P.P.ind_lambda_n), ("lambda_p", P.P.ind_lambda_p)):
        for k, a in enumerate(L):
            for e, b in enumerate(a):
                for j, c in enumerate(b):
                    for q, d in enumerate(c):
                        for r, i in enumerate(nos.flat(d)):
                            out[int(i)] = [nm, k + 1, e + 1, j + 1, q + 1, r + 1]
    return out


def job(a):
    cfg, cases, dc = a
    TOL = dc["tol"]
    VAL = values(TOL)
    try:
        o = mkopts(terminal_time=1.0, N_stages=len(cfg["lay"]), Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme=cfg["sch"], irk_representation=dc["rep"],
                   pss_mode="STEWART" if cfg["pss"] == "STEWART" else "STEP", use_fesd=cfg["fesd"], mpcc_mode=dc["mpcc"], cross_comp_mode=dc["cross"],
                   speed_of_time_variables=dc["sot"], initialization_strategy=dc["init"], comp_tol=TOL, sigma_0=1.0, homotopy_update_slope=0.5, sigma_N=1e-12,
                   max_iter_homotopy=2, do_polishing_step=cfg["polish"], fix_active_set_fe0=cfg["fix"], print_level=dc["print"])
        import nosnoc
        m = homlib.model(cfg["pss"], extra=True, p=len(cfg["lay"]))
        ocp = nosnoc.NosnocOcp(g_path_comp=ca.horzcat(m.u[0] + 2, m.z[0] + 2), lbx=-9 * np.ones(3), ubx=9 * np.ones(3)) if dc["ocp"] else None
        P = Prob(o, m, ocp, solve=False)
        prob = P.solver.problem
        ent = entries(P)
        lbw, ubw, lbg, ubg = (np.array(v, dtype=float).copy() for v in (prob.lbw, prob.ubw, prob.lbg, prob.ubg))
        out = []
        g0 = np.array(prob.w0, dtype=float).copy()          # the stored guess; states follow x0
        nx = np.ones(P.nw, dtype=bool)
        nx[nos.flat(prob.ind_x)] = False
        for case in cases:
            obs = []
            for h in case["hist"]:
                w = 0.3 + np.zeros(P.nw)
                # variables that are never pinned take values that would be pinned
                for i in range(P.nw):
                    w[i] = VAL[CLASSES[(i + h["shift"]) % 10]]
                for i, v in ent.items():
                    w[i] = VAL[CLASSES[(KNO[v[0]] + 7 * v[1] + 5 * v[2] + 3 * v[3] + 2 * v[4] + v[5] + h["shift"]) % 10]]
                P.fake.script = lambda i, call: dict(x=w.copy())
                P.fake.calls.clear()
                P.fake.limit = 9
                with quiet():
                    P.solver.set("x0", np.array(h["x"], dtype=float) * TOL)
                    try:
                        P.solver.solve()
                    except nos.TooManyCalls:
                        pass
                r = dict(hom=[], pol=[], rest=True, start=True, par=True)
                for n, c in enumerate(P.fake.calls):
                    pins = []
                    for i in range(P.nw):
                        lo, up = c["lbx"][i], c["ubx"][i]
                        if lo == lbw[i] and up == ubw[i]:
                            continue
                        if lo == up and lo in (0.0, 1.0):
                            pins.append((ent.get(i) or ["other", i, 0, 0, 0, 0]) + [int(lo)])
                        else:
                            r["rest"] = False
                    if not (np.array_equal(c["lbg"], lbg) and np.array_equal(c["ubg"], ubg)):
                        r["rest"] = False
                    s = int(m.p_val_ctrl_stages.size)     # sigma follows the parameters of the control stages
                    pol = c["p"][s] == 0.0
                    (r["pol"] if pol else r["hom"]).append(pins)
                    if not pol and r["pol"]:
                        r["par"] = False
                    if pol:
                        exp = P.fake.calls[n - 1]["p"].copy()
                        exp[s:s + 2] = 0.0
                        r["par"] = r["par"] and np.array_equal(exp, c["p"])
                    if n == 0:                          # the stored guess, except for states and pinned weights
                        free = nx.copy()
                        free[(c["lbx"] != lbw) | (c["ubx"] != ubw)] = False
                        r["start"] = r["start"] and np.array_equal(c["x0"][free], g0[free])
                    else:
                        r["start"] = r["start"] and np.array_equal(c["x0"], w)
                if dc["init"] == "ALL_XCURRENT_WOPT_PREV":
                    g0 = w.copy()
                r["start"] = r["start"] and np.array_equal(np.array(prob.w0, dtype=float)[nx], g0[nx])
                r["stored"] = all(np.array_equal(np.array(a, dtype=float), b) for a, b in ((prob.lbw, lbw), (prob.ubw, ubw), (prob.lbg, lbg), (prob.ubg, ubg)))
                obs.append(r)
            out.append(obs)
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("Pins", consts=dict(Tier=ctx.tlevel), invariants=["OnePin", "OnlyFirst", "NeverAll", "NoMultToOne", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    mp = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER", "ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED", "BOOLEAN"]
    for k in sorted(by):
        q += 1
        dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], mpcc=mp[q % 7], print=q // 5 % 3, sot=["NONE", "LOCAL", "GLOBAL"][q // 2 % 3],
                  cross=["ALL", "SUM"][q // 3 % 2], init=["ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV", "EXTERNAL"][q // 4 % 3], ocp=q // 2 % 2,
                  tol=2.0 ** -[14, 30, 8][q // 3 % 3])
        if dc["mpcc"].startswith("FISCHER"):
            dc["cross"] = "ALL"
        jobs.append((cases[by[k][0]]["cfg"], [cases[i] for i in by[k]], dc))
        meta.append((cases[by[k][0]]["cfg"], by[k], dc))
    recs, rid = [], []
    for (c0, idx, dc), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("solving a well-formed problem failed (%s %s): %s" % (c0, dc, r["err"].strip().splitlines()[-1]), dict(cfg=c0, dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            rid.append((i, dc))
    if recs:
        can = []
        for n, r in enumerate(recs[:: max(1, len(recs) // 10)][:10]):
            r = copy.deepcopy(r)
            o = r["obs"][n % 2]
            if n % 5 == 0:
                o["hom"][0].append(["theta", 1, 1, 1, 2, 9, 0])
            elif n % 5 == 1:
                o["pol"].append([])
            else:
                o[["rest", "start", "par", "stored"][n % 4]] = False
            can.append(r)
        for k, vs in ctx.validate("Pins", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s history %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["hist"]), dict(record=recs[k], dc=rid[k][1], clause=vs))
    ctx.notes.update(solvers_built=len(jobs), histories=len(recs), nlps=sum(len(s["hom"]) + len(s["pol"]) for r in recs for s in r["obs"]))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["the NLP solver is replaced by a script that answers with points whose entries lie on both sides of every threshold"]
