"""C14: the data held between calls (spec/Session.tla)."""
import traceback, json, copy
from collections import defaultdict
import numpy as np, casadi as ca
import nos, homlib
from nos import Prob, mkopts, quiet
REJ = ["bad_field", "bad_x", "bad_theta", "bad_p_time_var", "bad_u", "bad_p_global", "bad_v_global"]


class SolverDied(RuntimeError):
    pass


def rows(n, r, m, f):
    return 100.0 * n + 10 * r + np.arange(m) / 8 + f / 64


def nat_lambda(pss, x, ptv, pg, zc=0):
    z = 0.0 if zc == 0 else -1.0 + 8.5 if zc == 1 else -2.0 + (x[0] + 2 * ptv[1] - pg[0])
    c1 = np.array([x[0] + ptv[0] - pg[1] + z])
    c2 = np.array([x[1] + pg[0], x[2] - ptv[1]])
    if pss == "STEWART":
        return np.concatenate([nos.stewart_mult(g[None, :])[0][0] for g in (np.array([-c1[0], c1[0]]), -homlib.S4 @ c2)])
    ln, lp = zip(*(nos.step_mult(c) for c in (c1, c2)))
    return np.concatenate(list(ln) + list(lp))


def job(a):
    cfg, cases, dc = a
    try:
        N, E = len(cfg["lay"]), sum(cfg["lay"])
        o = mkopts(terminal_time=1.0, N_stages=N, Nfe_list=list(cfg["lay"]), n_s=2, irk_scheme=dc["scheme"], irk_representation=dc["rep"],
                   pss_mode=cfg["pss"], use_fesd=dc["fesd"], mpcc_mode=dc["mpcc"], cross_comp_mode=dc["cross"], do_polishing_step=dc["polish"],
                   initialization_strategy=cfg["strat"], max_iter_homotopy=1, print_level=0,
                   rootfinder_for_initial_z=dc["zc"] == 2)
        P = Prob(o, homlib.model(cfg["pss"], extra=True, nu=dc["nu"], par=cfg["par"], p=N, shift=True, zc=dc["zc"] > 0, x0=rows(0, 0, 3, 1)), None, solve=False)
        S, prob, nw = P.solver, P.solver.problem, P.nw
        xb = [[np.array(i, dtype=int) for i in e] for st in prob.ind_x for e in st]
        ub = [np.array(nos.flat(i), dtype=int) for i in prob.ind_u]
        vb = np.array(nos.flat(prob.ind_v_global), dtype=int)
        tb = [[np.array(nos.flat(i), dtype=int) for i in e] for st in prob.ind_theta for e in st] if cfg["pss"] == "STEWART" else [[] for _ in range(E)]
        nT, nG = (0 if cfg["par"] == "global" else 2), (0 if cfg["par"] == "time" else 2)
        used = set(nos.flat(prob.ind_x)) | set(nos.flat(prob.ind_u)) | set(nos.flat(prob.ind_v_global)) | (set(nos.flat(prob.ind_theta)) if cfg["pss"] == "STEWART" else set())
        ob = np.array(sorted(set(range(nw)) - used), dtype=int)
        W = lambda n: 100.0 * n + np.arange(nw) / 8192 + 7 / 64
        A = lambda n: 100.0 * n + np.arange(nw) / 8192 + 9 / 64
        out = []
        for case in cases:
            H = case["hist"]
            with quiet():
                prob.w0 = W(0)
                S.set("x0", rows(0, 0, 3, 1))
                if nG:
                    S.set("p_global", rows(0, 0, 2, 2))
                if nT:
                    S.set("p_time_var", np.array([rows(0, k + 1, 2, 3) for k in range(N)]))
            P.fake.calls.clear()
            cur = [0, False]
            npose = [0]

            def script(i, call):
                if cur[1]:
                    raise SolverDied()
                return dict(x=A(cur[0]))
            P.fake.script = script
            kept, rej, first = [], True, []
            for n, act in enumerate(H, 1):
                cur[0], cur[1] = n, act == "fail"
                fld, val = None, None
                if act == "x0":
                    fld, val = "x0", rows(n, 0, 3, 1)
                elif act == "p_global":
                    fld, val = act, rows(n, 0, 2, 2)
                elif act == "p_time_var":
                    fld, val = act, np.array([rows(n, k, 2, 3) for k in range(1, N + 1)])
                elif act in ("x_stage", "x_elem"):
                    fld, val = "x", np.array([rows(n, k, 3, 4) for k in range(1, (N if act == "x_stage" else E) + 1)])
                elif act == "u":
                    fld, val = "u", np.array([rows(n, k, dc["nu"], 5) for k in range(1, N + 1)])
                elif act == "v_global":
                    fld, val = act, rows(n, 0, 2, 6)
                elif act == "theta":
                    fld, val = act, np.array([rows(n, k, 6, 8) for k in range(1, E + 1)])
                elif act == "w":
                    fld, val = act, W(n)
                elif act == "bad_field":
                    fld, val = "x00", rows(n, 0, 3, 1)
                elif act == "bad_x":
                    fld, val = "x", np.full((E + N + 1, 3), -1.0)
                elif act == "bad_theta":
                    fld, val = "theta", np.full((E + 1, 6), -1.0)
                elif act == "bad_p_time_var":
                    fld, val = "p_time_var", np.full((N - 1, 2), -1.0)
                elif act == "bad_u":
                    fld, val = "u", np.full((N, 3), -1.0)
                elif act == "bad_p_global":
                    fld, val = "p_global", np.full(3, -1.0)
                elif act == "bad_v_global":
                    fld, val = "v_global", np.full(5, -1.0)
                with quiet():
                    if fld is None:
                        try:
                            first.append(len(P.fake.calls))
                            S.solve()
                        except SolverDied:
                            pass
                    else:
                        keep = val.copy()
                        try:
                            S.set(fld, val)
                            rej = rej and act not in REJ
                        except Warning:
                            rej = rej and act in ("x_stage", "x_elem", "w")
                        except Exception:
                            rej = rej and act in REJ
                        kept.append((val, keep))
                        if cfg["scribble"]:
                            if not np.array_equal(val, keep):
                                rej = False
                            val[...] = -12345.0
                            kept.pop()
            L = len(H)

            def tok(groups, f, m):
                """the token all rows of a block agree on"""
                for n in range(L + 1):
                    for r in range(0, E + 1):
                        if all(np.array_equal(w[i], rows(n, r, m, f)) for i in groups):
                            return [n, r]
                    if all(np.array_equal(w[i], W(n)[i]) for i in groups):
                        return [n, -1]
                    if all(np.array_equal(w[i], A(n)[i]) for i in groups):
                        return [n, -2]
                return [-9, -9]

            def ptok(v, f):
                for n in range(L + 1):
                    for r in range(0, E + 1):
                        if np.array_equal(v, rows(n, r, len(v), f)):
                            return [n, r]
                return [-9, -9]
            posed = []
            for i in first:
                if i >= len(P.fake.calls):
                    continue
                c = P.fake.calls[i]
                w, p = c["x0"], c["p"]
                st = p[:(nT + nG) * N].reshape(N, nT + nG)
                x0 = p[-3:]
                gx = []
                for gr in xb:
                    t = tok(gr, 4, 3)
                    if t == [-9, -9]:
                        t = tok(gr, 1, 3)
                    gx.append(t)
                lam = p[(nT + nG) * N + 2:-3]
                nat = nat_lambda(cfg["pss"], x0, st[0, :2] if nT else np.zeros(2), st[0, nT:] if nG else np.zeros(2), dc["zc"])
                posed.append(dict(x0=ptok(x0, 1)[0], pg=[ptok(s[nT:], 2) if nG else [0, 0] for s in st], ptv=[ptok(s[:2], 3) if nT else [0, 0] for s in st], gx=gx,
                                  gu=[tok([g], 5, dc["nu"]) for g in ub], gv=tok([vb], 6, 2), gth=[tok(g, 8, 6) if len(g) else [-9, -9] for g in tb],
                                  go=tok([ob], 60, 0) if len(ob) else [0, -1], lam=bool(len(lam) == len(nat) and np.max(np.abs(lam - nat)) < 1e-9)))
            out.append(dict(posed=posed, caller=all(np.array_equal(a, b) for a, b in kept), rejects=rej))
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("Session", consts=dict(Tier=ctx.tlevel, Len0=3), invariants=["LastSet", "Emit"])
    if not ctx.quick:
        cases += ctx.generate("Session", consts=dict(Tier=ctx.tlevel, Len0=4), invariants=["LastSet", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    for k in sorted(by):
        for a in range(0, len(by[k]), 800):
            idx = by[k][a:a + 800]
            q += 1
            dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], mpcc=["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ"][q % 3], scheme=["RADAU", "GAUSS"][q // 2 % 2],
                      cross=["ALL", "SUM"][q // 3 % 2], fesd=q // 2 % 3 > 0, polish=q % 4 == 1 and q % 3 != 2, zc=(q + q // 3) % 3, nu=1 + (q + q // 4) % 2)
            jobs.append((cases[idx[0]]["cfg"], [cases[i] for i in idx], dc))
            meta.append((cases[idx[0]]["cfg"], idx, dc))
    recs, rid = [], []
    for (c0, idx, dc), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("a history of calls on a well-formed problem failed (%s %s): %s" % (c0, dc, r["err"].strip().splitlines()[-1]), dict(cfg=c0, dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            rid.append((i, dc))
    if recs:
        can = []
        for n, r in enumerate(recs[:: max(1, len(recs) // 12)][:12]):
            r = copy.deepcopy(r)
            p = r["obs"]["posed"][-1]
            f = ["x0", "pg", "ptv", "gx", "gu", "gv", "go", "lam", "caller", "rejects"][n % 10]
            if f in ("caller", "rejects"):
                r["obs"][f] = False
            elif f == "lam":
                p[f] = False
            elif f == "x0":
                p[f] += 1
            elif f in ("gv", "go"):
                p[f][0] += 1
            else:
                p[f][-1][0] += 1
            can.append(r)
        for k, vs in ctx.validate("Session", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel, Len0=3)).items():
            ctx.violation("%s: %s history %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["hist"]), dict(record=recs[k], dc=rid[k][1], clause=vs))
    ctx.notes.update(solvers_built=len(jobs), histories=len(recs), nlps=sum(len(r["obs"]["posed"]) for r in recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["the NLP solver is replaced by a script that answers with labelled points or raises"]
