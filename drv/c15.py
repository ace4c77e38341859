"""C15: initialization strategies (spec/InitGuess.tla)."""
import traceback, json, copy
from collections import defaultdict
import numpy as np, casadi as ca
import nos, homlib
from nos import Prob, mkopts, quiet
TOL = 2.0 ** -14


def job(a):
    return (job_rk4 if a[0]["kind"] == "rk4" else job_std)(a)


def job_std(a):
    cfg, cases, dc = a
    try:
        import nosnoc
        N = len(cfg["lay"])
        o = mkopts(terminal_time=1.0, N_stages=N, Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme=cfg["sch"], irk_representation=dc["rep"],
                   pss_mode=cfg["pss"], use_fesd=cfg["fesd"], mpcc_mode=dc["mpcc"], cross_comp_mode=dc["cross"], speed_of_time_variables=dc["sot"],
                   speed_of_time_min=dc["smin"], speed_of_time_max=dc["smax"], gamma_h=dc["gamma"], initialization_strategy=cfg["strat"], comp_tol=TOL,
                   max_iter_homotopy=2, do_polishing_step=cfg["polish"], fix_active_set_fe0=cfg["fix"], print_level=0)
        m = homlib.model(cfg["pss"], extra=True, p=N, x0=np.array([100, 3, 3]) * TOL)
        ocp = nosnoc.NosnocOcp(g_path_comp=ca.horzcat(m.u[0] + 2, m.z[0] + 2)) if dc["ocp"] else None
        X0 = [np.array(v) * TOL for v in ([100, 3, 3], [-100, -3, 3], [0, -100, -100])]
        P = Prob(o, m, ocp, solve=False)
        S, prob, nw = P.solver, P.solver.problem, P.nw
        g0 = np.array(prob.w0, dtype=float).copy()
        own = np.array(nos.flat(prob.ind_theta) + nos.flat(prob.ind_lam) + nos.flat(prob.ind_mu) + nos.flat(prob.ind_alpha) + nos.flat(prob.ind_lambda_n)
                       + nos.flat(prob.ind_lambda_p) + nos.flat(prob.ind_h) + nos.flat(prob.ind_sot) + nos.flat(prob.ind_elastic) + nos.flat(prob.ind_bool), dtype=int)
        lb, ub = np.array(prob.lbw, dtype=float), np.array(prob.ubw, dtype=float)
        inb = bool(np.all(g0[own] >= lb[own]) and np.all(g0[own] <= ub[own]))
        ixs = [np.array(i, dtype=int) for st in prob.ind_x for e in st for i in e]
        ix = np.concatenate(ixs)
        iu = np.array(nos.flat(prob.ind_u), dtype=int)
        th1 = {}
        if cfg["pss"] == "STEWART":
            for j, st in enumerate(prob.ind_theta[0][0]):
                for q, sy in enumerate(st):
                    for r, i in enumerate(sy):
                        th1[int(i)] = (q + 1, r + 1)
        rest = np.array([i for i in range(nw) if i not in set(ix) | set(iu)], dtype=int)
        out = []
        for case in cases:
            with quiet():
                prob.w0 = g0.copy()
                S.set("x0", X0[0])
            P.fake.calls.clear()
            P.fake.limit = 99
            cur = [0]
            ans = lambda k: 5.0 * k + np.arange(nw) / 4096
            # the answer of a solve is that of its last NLP (the polishing step), the homotopy NLPs answer otherwise
            P.fake.script = lambda i, c: dict(x=ans(cur[0]) - (0.0 if not cfg["polish"] or c["p"][3 * N] == 0 else 1000.0))
            first, n, v, us = [], 0, 0, {}
            for pos, act in enumerate(case["hist"]):
                with quiet():
                    if act == "solve":
                        n += 1
                        cur[0] = n
                        first.append(len(P.fake.calls))
                        S.solve()
                    elif act == "u":
                        us[-50 - pos] = 0.5 + np.arange(N)[:, None] / 8
                        S.set("u", us[-50 - pos].copy())
                    else:
                        v = int(act[1]) - 1
                        S.set("x0", X0[v].copy())
            posed = []
            for i in first:
                w = P.fake.calls[i]["x0"]
                zero = sorted({t for j, t in th1.items() if w[j] == 0.0})
                if any(w[j] != 0.0 for j, t in th1.items() if t in zero):
                    zero.append((9, 9))                  # not all integration stages alike
                r = np.array([j for j in rest if not (j in th1 and w[j] == 0.0)], dtype=int)
                tk = lambda idx, more: next((k for k, val in [(0, g0)] + [(k, ans(k)) for k in range(1, n + 1)] + more if np.array_equal(w[idx], val[idx])), -99)
                x = next((-2 - k for k in range(3) if all(np.array_equal(w[b], X0[k]) for b in ixs)), None)
                if cfg["strat"] == "EXTERNAL" and np.array_equal(w[ix], g0[ix]):
                    x = 0
                xs = tk(ix, []) if x is None else x
                ug = []
                for k, val in us.items():
                    t = np.zeros(nw)
                    t[iu] = val.flatten()
                    ug.append((k, t))
                posed.append(dict(x=xs, o=tk(r, []), u=tk(iu, ug), zero=[list(z) for z in zero]))
            out.append(dict(posed=posed, inb=inb))
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def job_rk4(a):
    c0, cases, dc = a
    out = []
    try:
        import nosnoc
        for case in cases:
            c = case["cfg"]
            n, s = c["nfe"], c["s"]
            aa = [v / 1000 for v in c["a"]]
            x = ca.SX.sym("x", 4)
            x0 = np.array([c["x1"] / 1000, 0.25, -0.5, 2.0])
            S2 = np.array([[1.0, 0], [-1, 1], [-1, -1]]) if c["sparse"] else homlib.S4
            half = lambda r: ca.vertcat(0.5, x[0] / 2, x[1] / 2, r)
            m = nosnoc.NosnocModel(x=x, x0=x0 - (1 if dc["reset"] else 0), F=[ca.horzcat(half(1), half(2)), ca.horzcat(*[half(10 * (r + 1)) for r in range(len(S2))])],
                                   S=[np.array([[1.0], [-1.0]]), S2], c=[x[0] - aa[0], ca.vertcat(x[0] - aa[1], aa[2] - x[0])])
            kw = dict(Nfe_list=[n]) if c["given"] else dict(N_finite_elements=n)
            o = mkopts(terminal_time=float(n), N_stages=1, n_s=s, irk_scheme="RADAU", irk_representation=c["rep"], use_fesd=c["fesd"], pss_mode="STEWART",
                       initialization_strategy="RK4_SMOOTHENED", smoothing_parameter=0.01, mpcc_mode=dc["mpcc"], max_iter_homotopy=1, print_level=0, **kw)
            P = Prob(o, m, None, solve=False)
            prob = P.solver.problem
            g0 = np.array(prob.w0, dtype=float).copy()
            if dc["reset"]:
                with quiet():
                    P.solver.solve()
                    P.fake.calls.clear()
                    P.solver.set("x0", x0.copy())
            call = P.repose()
            w = call["x0"]
            cn, _, _ = nos.nodes("RADAU", s)
            tm = {(i + 1, k + 1): i + cn[k] for i in range(n) for k in range(s)}

            def state(t):
                return np.array([x0[0] + t, x0[1] + x0[0] * t + t * t / 2, x0[2] + x0[1] * t + x0[0] * t * t / 2 + t ** 3 / 6])

            def when(v):
                return next((list(k) for k, t in tm.items() if np.max(np.abs(v[:3] - state(t))) < 1e-8), [0, 0])
            ob = dict(t=[], end=[], reg=[], mult=[], rate=[])
            touched = []
            px4, pt = x0[3], 0.0
            for i in range(n):
                fe = P.fes[i]
                tt, rg, ml, rt = [], [], [], []
                for k in range(s):
                    t = tm[(i + 1, k + 1)]
                    if fe.xs is not None:
                        X = w[fe.xs[k]]
                        tt.append(when(X))
                        rt.append(int(round((X[3] - px4) / (t - pt))) if abs((X[3] - px4) / (t - pt) - round((X[3] - px4) / (t - pt))) < 1e-6 else -1)
                        px4, pt = X[3], t
                        touched += list(fe.xs[k])
                    else:
                        tt.append(when(w[fe.xe]) if k == s - 1 else [0, 0])
                        rt.append(-1)
                    regs = []
                    for q in range(2):
                        th = w[fe.th[k][q]]
                        regs.append(int(np.argmax(th)) + 1 if np.max(np.abs(th - np.eye(len(th))[np.argmax(th)])) < 1e-6 else 0)
                        touched += list(fe.th[k][q]) + list(fe.lam[k][q]) + list(fe.mu[k][q])
                    rg.append(regs)

                    def good(t):
                        xv = x0[0] + t
                        for q in range(2):
                            cc = np.array([xv - aa[0]]) if q == 0 else np.array([xv - aa[1], aa[2] - xv])
                            g = -(np.array([[1.0], [-1.0]]) if q == 0 else S2) @ cc
                            lam, mu = nos.stewart_mult(g[None, :])
                            if np.max(np.abs(w[fe.lam[k][q]] - lam[0])) > 1e-8 or abs(w[fe.mu[k][q]][0] - mu[0][0]) > (0.02 if c["sparse"] else 1e-4):
                                return False
                        return True
                    ml.append(next((list(kk) for kk, t in tm.items() if good(t)), [0, 0]))
                touched += list(fe.xe)
                ob["end"].append(when(w[fe.xe]))
                for k, v in (("t", tt), ("reg", rg), ("mult", ml), ("rate", rt)):
                    ob[k].append(v)
            keep = np.array(sorted(set(range(P.nw)) - set(int(i) for i in touched)), dtype=int)
            ob["rest"] = bool(np.array_equal(w[keep], g0[keep]))
            out.append(ob)
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


PAT = dict(two=[[1], [-1]], dense=[[1, 1], [1, -1], [-1, 1], [-1, -1]], sparse=[[1, 0], [-1, 1], [-1, -1]], late=[[1, 1], [-1, 1], [0, -1]],
           deep=[[1, 0, 0], [-1, 1, 0], [-1, -1, 1], [-1, -1, -1]])


def job_smooth(a):
    pat, cases, dc = a
    try:
        import nosnoc
        Ss = [np.array(PAT[p], dtype=float) for p in pat]
        nc, nr = [S.shape[1] for S in Ss], [len(S) for S in Ss]
        C, R = sum(nc), sum(nr)
        x = ca.SX.sym("x", C + R)
        F, c, k = [], [], 0
        for q, S in enumerate(Ss):
            o = sum(nc[:q])
            c.append(x[o:o + nc[q]] - 0.25)
            F.append(ca.horzcat(*[ca.DM.eye(C + R)[:, C + k + i] for i in range(nr[q])]) + 0 * x[0])
            k += nr[q]
        far, sm = dc["far"], dc["smooth"]
        m = nosnoc.NosnocModel(x=x, x0=np.zeros(C + R), F=F, c=c, S=Ss)
        o = mkopts(terminal_time=1.0, N_stages=1, N_finite_elements=1, n_s=1, irk_scheme="RADAU", irk_representation=dc["rep"], use_fesd=dc["fesd"], pss_mode="STEWART",
                   initialization_strategy="RK4_SMOOTHENED", smoothing_parameter=sm, max_iter_homotopy=1, print_level=0)
        P = Prob(o, m, None, solve=False)
        fe, out = P.fes[0], []
        for case in cases:
            cv = np.array([(40 * sm if n > d else -40 * sm) if far else sm / 2 * np.log(n / d) for n, d in case["r"]])
            x0 = np.concatenate([cv + 0.25, np.arange(R) / 8])
            with quiet():
                P.solver.set("x0", x0)
            w = P.repose()["x0"]
            dx = w[fe.xe] - x0
            ok = bool(np.max(np.abs(dx[:C])) < 1e-12)
            theta, dxs, lam, mu = [], [], True, True
            for q, S in enumerate(Ss):
                g = -S @ cv[sum(nc[:q]):sum(nc[:q + 1])]
                theta.append([int(np.round(1e6 * v)) for v in w[fe.th[0][q]]])
                dxs.append([int(np.round(1e6 * v)) if ok else -1 for v in dx[C + sum(nr[:q]):C + sum(nr[:q + 1])]])
                lam = lam and bool(np.max(np.abs(w[fe.lam[0][q]] - (g - g.min()))) < 1e-9)
                v = -w[fe.mu[0][q]][0]
                mu = mu and bool(g.min() - 1e-9 <= v <= (g.min() + 1e-6 * sm if far and np.sum(np.abs(g - g.min()) < sm) == 1 else g.max()) + 1e-9)
            out.append(dict(theta=theta, dx=dxs, lam=lam, mu=mu))
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def smooth(ctx):
    cases = ctx.generate("Smooth", consts=dict(Tier=ctx.tlevel), invariants=["SumToOne", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps([c["pat"], c["far"]])].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    for k in sorted(by):
        q += 1
        dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], fesd=q % 2 == 0, smooth=[0.5, 0.01, 2.0, 0.125][q % 4], far=cases[by[k][0]]["far"])
        jobs.append((cases[by[k][0]]["pat"], [cases[i] for i in by[k]], dc))
        meta.append((by[k], dc))
    recs, dcs = [], []
    for (idx, dc), r in zip(meta, nos.pmap(job_smooth, jobs)):
        if not r["ok"]:
            ctx.violation("RK4_SMOOTHENED initialization of a well-formed problem failed (%s %s): %s" % (cases[idx[0]]["pat"], dc, r["err"].strip().splitlines()[-1]),
                          dict(pat=cases[idx[0]]["pat"], dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            dcs.append(dc)
    if recs:
        can = []
        for n, r in enumerate(recs[:: max(1, len(recs) // 6)][:6]):
            r = copy.deepcopy(r)
            f = ["theta", "dx", "lam", "mu"][n % 4]
            if f in ("lam", "mu"):
                r["obs"][f] = False
            else:
                r["obs"][f][-1][-1] += 100
            can.append(r)
        for k, vs in ctx.validate("Smooth", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: smoothed model %s at %s%s: %s" % (", ".join(vs), recs[k]["pat"], recs[k]["r"], " far" if recs[k]["far"] else "", recs[k]["obs"]),
                          dict(record=recs[k], dc=dcs[k], clause=vs))
    ctx.notes.update(smoothed_points=len(recs))


def run(ctx):
    smooth(ctx)
    cases = ctx.generate("InitGuess", consts=dict(Tier=ctx.tlevel), invariants=["Chronological", "W0Never", "PrevIs", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        k = c["cfg"]
        if k["kind"] == "rk4":
            k = {a: k[a] for a in ("kind", "nfe", "s", "rep", "fesd")}
        by[json.dumps(k, sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    mp = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER", "ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED", "BOOLEAN"]
    for k in sorted(by):
        q += 1
        dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], mpcc=mp[q % 7], sot=["NONE", "LOCAL", "GLOBAL"][q // 2 % 3], smin=[1.0, 2.0, 0.25][q % 3],
                  smax=[25.0, 4.0, 0.5][q % 3], gamma=[1.0, 0.0, 0.3][q // 3 % 3], cross=["ALL", "SUM"][q // 3 % 2], ocp=q // 2 % 2, reset=q % 2)
        if dc["mpcc"].startswith("FISCHER"):
            dc["cross"] = "ALL"
        jobs.append((cases[by[k][0]]["cfg"], [cases[i] for i in by[k]], dc))
        meta.append((cases[by[k][0]]["cfg"], by[k], dc))
    recs, rid = [], []
    for (c0, idx, dc), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("initializing a well-formed problem failed (%s %s): %s" % (c0, dc, r["err"].strip().splitlines()[-1]), dict(cfg=c0, dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            rid.append((i, dc))
    if recs:
        can = []
        std = [r for r in recs if r["cfg"]["kind"] == "std" and r["obs"]["posed"]]
        rk = [r for r in recs if r["cfg"]["kind"] == "rk4"]
        for n, r in enumerate(std[:: max(1, len(std) // 5)][:5]):
            r = copy.deepcopy(r)
            if n == 4:
                r["obs"]["inb"] = False
            elif n == 3:
                r["obs"]["posed"][-1]["zero"].append([2, 7])
            else:
                r["obs"]["posed"][-1]["xou"[n]] += 1
            can.append(r)
        for n, r in enumerate(rk[:: max(1, len(rk) // 5)][:5]):
            r = copy.deepcopy(r)
            f = ["end", "reg", "mult", "rest", "end"][n]
            if f == "rest":
                r["obs"][f] = False
            else:
                r["obs"][f][-1][-1] = [7, 7] if f != "end" else 0
            can.append(r)
        for k, vs in ctx.validate("InitGuess", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s history %s observed %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["hist"], recs[k]["obs"]), dict(record=recs[k], dc=rid[k][1], clause=vs))
    ctx.notes.update(jobs=len(jobs), histories=sum(r["cfg"]["kind"] == "std" for r in recs), simulations=sum(r["cfg"]["kind"] == "rk4" for r in recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["RK4_SMOOTHENED: one control stage, Radau IIA (the supported case), smoothing sharp against the distance of samples from switches"]
