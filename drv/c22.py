"""C22: listing and file of a problem (spec/Inspect.tla)."""
import os, re, pickle, traceback, json, copy, tempfile
from collections import defaultdict
import numpy as np, casadi as ca
import nos, homlib
from nos import Prob, mkopts, quiet
from c14 import rows, nat_lambda
BND = {"in": (0, 2), "at_lower": (1, 2), "at_upper": (0, 1), "free": (-np.inf, np.inf), "below": (2, 3), "above": (-1, 0),
       "crossed_in": (2, 0), "crossed_below": (5, 3), "crossed_above": (0, -1),
       "lower_in": (0, np.inf), "lower_at": (1, np.inf), "lower_below": (2, np.inf), "upper_in": (-np.inf, 2), "upper_at": (-np.inf, 1),
       "upper_above": (-np.inf, 0), "fixed_at": (1, 1), "fixed_below": (2, 2), "fixed_above": (0, 0)}
NUM = r"([-+]?(?:inf|nan|[0-9.]+(?:e[-+]?[0-9]+)?))"


def close(shown, true):
    """shown with a few digits only"""
    return shown == true or (np.isfinite(true) and abs(shown - true) <= 0.006 * abs(true))


def parse(text):
    """rows of the constraints and of the variables, number of errors"""
    gs, ws, err, part = [], [], None, "g"
    for ln in text.splitlines():
        m = re.match(r"\s*errors:\s*(\d+)", ln)
        if m:
            err = int(m.group(1))
        elif re.match(r"\s*w\s", ln):
            part = "w"
        elif re.match(r"\s*cost", ln):
            part = "c"
        elif part == "g":
            m = re.match(r"\s*(\d+):\s+%s\s+%s\s+\S" % (NUM, NUM), ln)
            if m:
                gs.append((int(m.group(1)), float(m.group(2)), float(m.group(3))))
        elif part == "w":
            m = re.match(r"\s*(\d+):\s+(\S+)\s+%s\s+%s\s+%s(.*)$" % (NUM, NUM, NUM), ln)
            if m:
                ws.append((int(m.group(1)), float(m.group(3)), float(m.group(4)), float(m.group(5)),
                           "BOUND" if "BOUND" in m.group(6) else "W0" if "W0" in m.group(6) else "none"))
    return gs, ws, err


def shown_ok(gs, ws, P, w0):
    """the rows list all constraints and variables of the problem in their order with their data"""
    return bool([g[0] for g in gs] == list(range(len(P.lbg))) and [w[0] for w in ws] == list(range(len(P.lbx)))
                and all(close(g[1], a) and close(g[2], b) for g, a, b in zip(gs, P.lbg, P.ubg))
                and all(close(w[1], v) and close(w[2], a) and close(w[3], b) for w, v, a, b in zip(ws, w0, P.lbx, P.ubx)))


def listing(P):
    with quiet() as buf:
        P.solver.print_problem()
    return parse(buf.getvalue())


def job(a):
    return (job_list if a[0]["kind"] == "list" else job_hist)(a)


def job_hist(a):
    cfg, cases, dc = a
    tmp = tempfile.mkdtemp(prefix="verif_c22_")
    path = os.path.join(tmp, "problem.pkl")
    try:
        N = len(cfg["lay"])
        o = mkopts(terminal_time=1.0, N_stages=N, Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme=dc["scheme"], irk_representation=dc["rep"],
                   pss_mode=dc["pss"], use_fesd=dc["fesd"], mpcc_mode=dc["mpcc"], constraint_handling=dc["handling"], cross_comp_mode="ALL",
                   initialization_strategy=cfg["strat"], max_iter_homotopy=1, print_level=0)
        P = Prob(o, homlib.model(dc["pss"], extra=True, p=N, shift=True, x0=rows(0, 0, 3, 1)), None, solve=True)
        S, prob, nw = P.solver, P.solver.problem, P.nw
        ub = np.array(nos.flat(prob.ind_u), dtype=int)
        used = set(nos.flat(prob.ind_x)) | set(ub)
        ob = np.array(sorted(set(range(nw)) - used), dtype=int)
        W0 = np.array(prob.w0, dtype=float).copy()
        tab = lambda n: W0 if n == 0 else np.sign(n) * (100.0 * abs(n) + np.arange(nw) / 8192)
        us = lambda n: np.array([100.0 * n + r / 64 + 0.25 for r in range(N)])
        nl = len(P.p) - 4 * N - 2 - 3
        cur = [0]
        P.fake.script = lambda i, c: dict(x=tab(-cur[0]))
        Wr = np.random.default_rng(5).uniform(0.1, 1.0, (3, nw))
        lists = [k for k in vars(prob) if k.startswith("ind_")]
        f0, g0 = P.eval(Wr)

        def data(p):
            st = p[:4 * N].reshape(N, 4)
            L = len(p)
            pt = lambda v, f, r: next((n for n in range(8) if np.array_equal(v, rows(n, r, len(v), f))), -9)
            pg = {pt(s[2:], 2, 0) for s in st}
            ptv = {pt(s[:2], 3, k + 1) for k, s in enumerate(st)}
            lam = p[4 * N + 2:4 * N + 2 + nl]
            nat = nat_lambda(dc["pss"], p[-3:], st[0, :2], st[0, 2:])
            return dict(x0=pt(p[-3:], 1, 0), pg=pg.pop() if len(pg) == 1 else -9, ptv=ptv.pop() if len(ptv) == 1 else -9,
                        lam=bool(len(lam) == len(nat) and np.max(np.abs(lam - nat)) < 1e-9), zero=bool(np.all(p[4 * N:4 * N + 2] == 0)))

        def guess(w, eq):
            rest = next((n for n in list(range(8)) + list(range(-7, 0)) if all(eq(w[i], tab(n)[i]) for i in ob)), -99)
            uu = next((n for n in list(range(8)) + list(range(-7, 0)) if all(eq(w[i], tab(n)[i]) for i in ub)), None)
            if uu is None:
                uu = next((n for n in range(1, 8) if all(eq(w[i], v) for i, v in zip(ub, us(n)))), -99)
            return dict(w=rest, u=uu)
        out = []
        for case in cases:
            with quiet():
                prob.w0 = W0.copy()
                S.set("x0", rows(0, 0, 3, 1))
                S.set("p_global", rows(0, 0, 2, 2))
                S.set("p_time_var", np.array([rows(0, k + 1, 2, 3) for k in range(N)]))
                prob.w0 = W0.copy()
            P.fake.calls.clear()
            seen = []
            for n, act in enumerate(case["hist"], 1):
                cur[0] = n
                with quiet():
                    if act == "x0":
                        S.set(act, rows(n, 0, 3, 1))
                    elif act == "p_global":
                        S.set(act, rows(n, 0, 2, 2))
                    elif act == "p_time_var":
                        S.set(act, np.array([rows(n, k, 2, 3) for k in range(1, N + 1)]))
                    elif act == "u":
                        S.set(act, us(n)[:, None])
                    elif act == "w":
                        try:
                            S.set(act, tab(n).copy())
                        except Warning:
                            pass
                if act == "solve":
                    k = len(P.fake.calls)
                    with quiet():
                        S.solve()
                    c = P.fake.calls[k]
                    same = all(np.array_equal(c[q], getattr(P, q)) for q in ("lbx", "ubx", "lbg", "ubg"))
                    seen.append(dict(act=act, same=bool(same), **data(c["p"]), **guess(c["x0"], lambda a, b: a == b)))
                elif act == "dump":
                    with quiet():
                        prob.dump(path)
                    with open(path, "rb") as fh:
                        d = pickle.load(fh)
                    os.remove(path)
                    same = d["w_shape"][0] == nw and d["p_shape"][0] == len(P.p)
                    for k, q in (("lbw", "lbx"), ("ubw", "ubx"), ("lbg", "lbg"), ("ubg", "ubg")):
                        same = same and np.array_equal(np.array(d[k], dtype=float).flatten(), getattr(P, q))
                    for k in lists:
                        same = same and d[k] == getattr(prob, k)
                    for r in range(len(Wr)):
                        fv, gv = np.array(d["f"](Wr[r], P.p)).flatten(), np.array(d["g"](Wr[r], P.p)).flatten()
                        same = same and np.allclose(fv, f0[r], rtol=1e-12) and len(gv) == g0.shape[1] and np.allclose(gv, g0[r], rtol=1e-12, atol=1e-12)
                        same = same and abs(float(d["comp_res"](Wr[r], P.p)) - float(prob.comp_res(Wr[r], P.p))) < 1e-12
                    seen.append(dict(act=act, same=bool(same), **data(np.array(d["p0"], dtype=float)), **guess(np.array(d["w0"], dtype=float).flatten(), lambda a, b: a == b)))
                elif act == "print":
                    gs, ws, _ = listing(P)
                    same = (len(ws) == nw and len(gs) == len(P.lbg) and all(close(g[1], b) and close(g[2], e) for g, b, e in zip(gs, P.lbg, P.ubg))
                            and all(close(v[2], b) and close(v[3], e) for v, b, e in zip(ws, P.lbx, P.ubx)))
                    sh = dict(w=-99, u=-99)
                    if len(ws) == nw:
                        sh = guess(np.array([v[1] for v in ws]), close)
                    seen.append(dict(act=act, same=bool(same), x0=0, pg=0, ptv=0, lam=True, zero=True, **sh))
            out.append(dict(seen=seen))
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(tmp)


def job_list(a):
    _, cases, dc = a
    import nosnoc
    try:
        out = []
        for case in cases:
            cfg = case["cfg"]
            N, cls = len(cfg["lay"]), cfg["cls"]
            x, u, z, v = ca.SX.sym("x", 2), ca.SX.sym("u"), ca.SX.sym("z"), ca.SX.sym("v")
            B = {k: (np.array([float(BND[c][0])]), np.array([float(BND[c][1])])) for k, c in cls.items()}
            f = ca.vertcat(1, u)
            kw = dict(F=[ca.horzcat(f, -f)], c=[x[0]], S=[np.array([[1.0], [-1.0]])])
            m = nosnoc.NosnocModel(x=x, x0=np.array([1.0, 0.0]), u=u, z=z, g_z=z - x[1], z0=np.array([1.0]), lbz=B["z"][0], ubz=B["z"][1], v_global=v, **kw)
            ocp = nosnoc.NosnocOcp(lbu=B["u"][0], ubu=B["u"][1], u_guess=np.array([1.0]), lbx=np.append(B["x"][0], -np.inf), ubx=np.append(B["x"][1], np.inf),
                                   lbv_global=B["v"][0], ubv_global=B["v"][1], v_global_guess=np.array([1.0]))
            o = mkopts(terminal_time=1.0, N_stages=N, Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme="RADAU", irk_representation="INTEGRAL",
                       pss_mode=dc["pss"], use_fesd=dc["fesd"], mpcc_mode=dc["mpcc"], cross_comp_mode="ALL", max_iter_homotopy=1,
                       print_level=0, initialization_strategy="EXTERNAL")
            P = Prob(o, m, ocp, solve=True)
            prob = P.solver.problem
            ix = [e for st in prob.ind_x for fe in st for e in fe if len(e)]
            q = dict(x=[int(e[0]) for e in ix], u=nos.flat(prob.ind_u), z=nos.flat(prob.ind_z), v=nos.flat(prob.ind_v_global))
            rest = sorted(set(range(P.nw)) - set(sum(q.values(), [])))
            ob = {}
            for at in ("built", "low", "high"):
                w0 = np.array(prob.w0, dtype=float).flatten()
                if at != "built":
                    w0[sum(q.values(), [])] = -7.5 if at == "low" else 7.5
                    with quiet():
                        P.solver.set("w", w0.copy())
                gs, ws, err = listing(P)
                fl = lambda idx: sorted({ws[i][4] for i in idx if i < len(ws)})
                ob[at] = dict(flags=dict({k: fl(i) for k, i in q.items()}, rest=fl(rest)), errors=-1 if err is None else err, rows=shown_ok(gs, ws, P, w0))
            out.append(ob)
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("Inspect", consts=dict(Tier=ctx.tlevel), invariants=["ShowsNext", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(dict(c["cfg"], cls=0), sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    for k in sorted(by):
        for a in range(0, len(by[k]), 300):
            idx = by[k][a:a + 300]
            q += 1
            lsq = q % 5 == 0
            dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], scheme=["RADAU", "GAUSS"][q // 2 % 2], fesd=q % 4 > 0, pss=["STEWART", "STEP"][q // 3 % 2],
                      mpcc="FISCHER_BURMEISTER" if lsq else ["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED"][q % 4],
                      handling="LEAST_SQUARES" if lsq else "EXACT")
            jobs.append((cases[idx[0]]["cfg"], [cases[i] for i in idx], dc))
            meta.append((cases[idx[0]]["cfg"], idx, dc))
    recs, dcs = [], []
    for (c0, idx, dc), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("looking at a well-formed problem failed (%s %s): %s" % (c0, dc, r["err"].strip().splitlines()[-1]), dict(cfg=c0, dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            dcs.append(dc)
    if recs:
        can = []
        hs, ls = [r for r in recs if r["cfg"]["kind"] == "hist"], [r for r in recs if r["cfg"]["kind"] == "list"]
        for n, r in enumerate(hs[:: max(1, len(hs) // 8)][:8]):
            r = copy.deepcopy(r)
            o = r["obs"]["seen"][-1]
            f = ["w", "u", "same"][n % 3]
            o[f] = False if f == "same" else o[f] + 1
            can.append(r)
        for n, r in enumerate(ls[:: max(1, len(ls) // 6)][:6]):
            r = copy.deepcopy(r)
            if n % 2:
                r["obs"][["built", "low", "high"][n % 3]]["errors"] += 1
            else:
                r["obs"][["built", "low", "high"][n % 3]]["flags"]["rest"] = ["W0"]
            can.append(r)
        for k, vs in ctx.validate("Inspect", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s history %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["hist"]), dict(record=recs[k], dc=dcs[k], clause=vs))
    ctx.notes.update(problems=len(jobs), histories=sum(r["cfg"]["kind"] == "hist" for r in recs), listings=sum(r["cfg"]["kind"] == "list" for r in recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["the NLP solver is replaced by a script that answers with labelled points", "the listing is compared to the digits it prints"]
