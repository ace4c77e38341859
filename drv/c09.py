"""C09: relaxation of complementarity pairs, least squares acceptance (spec/Relax.tla)."""
import traceback, json
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet, build
FBM = ("FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG")


def make(cfg, dc):
    import nosnoc
    x, z, u, v = ca.SX.sym("x"), ca.SX.sym("z", 3), ca.SX.sym("u", 2), ca.SX.sym("v", 2)
    step = dc["pss"] in ("STEP", "FX")
    unit = 0.25 if step else 0.125
    f = z[0]
    kw = dict(x=x, x0=np.array([unit * cfg.get("K", 0)]), u=u, z=z, v_global=v)
    if dc["pss"] == "FX":
        al = ca.SX.sym("al")
        kw.update(f_x=[f * al + f * (1 - al)], alpha=[al], c=[x])
    elif dc["pss"] == "GS":
        kw.update(F=[ca.horzcat(f, f)], g_Stewart=[ca.vertcat(-x, x)])
    else:
        kw.update(F=[ca.horzcat(f, f)], S=[np.array([[1.0], [-1.0]])], c=[x])
    ocp = None
    if cfg["kind"] in ("user", "aug"):
        q = dict(glob=v, ctrl=u, stag=z[1:])[cfg["gran"][:4]]
        ocp = nosnoc.NosnocOcp(g_path_comp=ca.horzcat(q[0], q[1]))
    fb = cfg["mode"] in FBM
    el = cfg["mode"].startswith("ELASTIC")
    o = mkopts(terminal_time=1.0, N_stages=1, Nfe_list=[1], n_s=1, irk_scheme=dc["scheme"], irk_representation=dc["rep"],
               pss_mode="STEWART" if dc["pss"] in ("STEWART", "GS") else "STEP", cross_comp_mode=cfg.get("cross", "ALL"), use_fesd=cfg.get("fesd", False),
               mpcc_mode=cfg["mode"], **(dict(constraint_handling="LEAST_SQUARES", fb_ip_aug1_weight=float(cfg["w1"]), fb_ip_aug2_weight=float(cfg["w2"]))
                                         if cfg["kind"] == "aug" else {}), sigma_0=float(cfg["sg"]) if cfg["kind"] == "aug" else dc["sig"] if el else cfg["sg"] / (4 if fb else 16), max_iter_homotopy=1, s_elastic_max=100.0)
    with quiet():
        return Prob(o, nosnoc.NosnocModel(**kw), ocp), unit


def job(a):
    cfg, cases, dc = a
    try:
        if cfg["kind"] == "lsq":
            return dict(ok=True, acc=[lsq(cfg, dc)])
        P, unit = make(cfg, dc)
        fe, n = P.fes[0], len(cases)
        if cfg["kind"] == "aug":
            W = P.base(n + 1)
            W[:] = W[:1]
            W[:n, P.vg if cfg["gran"] == "global" else P.u[0] if cfg["gran"] == "ctrl" else fe.z[0][1:]] = [[c["pt"]["a"], c["pt"]["b"]] for c in cases]
            W[n, P.vg if cfg["gran"] == "global" else P.u[0] if cfg["gran"] == "ctrl" else fe.z[0][1:]] = 0
            f = P.eval(W)[0]
            f = f - f[-1]
            return dict(ok=True, acc=[int(round(v)) if abs(v - round(v)) < 1e-4 else -10 ** 9 for v in f[:n]])
        W = P.base(n)
        if cfg["kind"] == "own":
            t, L1, L2 = (np.array([c["pt"][k] for c in cases], dtype=float) for k in ("t", "L1", "L2"))
        else:
            t = np.full(n, 2.0)
            L1 = L2 = np.full(n, cfg["sg"] ** 2 / 4 if cfg["mode"] in FBM else cfg["sg"] / 2)
            q = np.array([[c["pt"]["a"], c["pt"]["b"]] for c in cases]) / 4
            if cfg["gran"] == "global":
                W[:, P.vg] = q
            elif cfg["gran"] == "ctrl":
                W[:, P.u[0]] = q
            else:
                W[:, fe.z[0][1:]] = q
        X = unit * (L2 - L1)[:, None]
        x0 = unit * cfg.get("K", 0)
        xe = X if cfg_radau(dc) else 2 * X - x0
        V = (X - x0) if cfg_radau(dc) else 2 * (X - x0)
        P.put_x(W, fe, [X], xe)
        P.put_v(W, fe, [V])
        W[:, fe.z[0][:1]] = V
        if fe.h is not None:
            W[:, fe.h] = 1.0
        if len(fe.lam[0][0]):
            W[:, fe.lam[0][0]] = np.stack([L1, L2], axis=1) / 4
            W[:, fe.th[0][0]] = np.stack([t, 4 - t], axis=1) / 4
            W[:, fe.mu[0][0]] = ((L1 + L2) / 8)[:, None]
        else:
            W[:, fe.ln[0][0]] = L1[:, None] / 4
            W[:, fe.lp[0][0]] = L2[:, None] / 4
            W[:, fe.al[0][0]] = t[:, None] / 4
        if len(P.elastic):
            W[:, P.elastic] = cfg["sg"] / 16
        W = P.bools(W)
        return dict(ok=True, acc=[bool(v < 1e-6) for v in P.resid(W)])
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def cfg_radau(dc):
    return dc["scheme"] == "RADAU"


def lsq(cfg, dc):
    import nosnoc
    x, u = ca.SX.sym("x", 2), ca.SX.sym("u")
    f = ca.vertcat(u, 1)
    step = dc["pss"] in ("STEP", "FX")
    inf = lambda b: b * np.inf if abs(b) == 100 else float(b)
    kw = dict(g_path=u + x[0], lbg=np.array([inf(cfg["lb"])]), ubg=np.array([inf(cfg["ub"])]))
    if cfg["user"]:
        kw["g_path_comp"] = ca.horzcat(u, x[0])
    m = dict(x=x, x0=np.zeros(2), u=u, F=[ca.horzcat(f, -f)], S=[np.array([[1.0], [-1.0]])], c=[x[0]])
    if cfg["tol"] >= 0:
        m["t_var"] = x[1]
    o = mkopts(terminal_time=1.0, N_stages=2, Nfe_list=[2, 1], n_s=2, irk_scheme=dc["scheme"], irk_representation=dc["rep"], pss_mode="STEP" if step else "STEWART",
               cross_comp_mode=cfg["cross"], use_fesd=cfg["fesd"], mpcc_mode=cfg["mode"], constraint_handling="LEAST_SQUARES",
               step_equilibration=cfg["seq"], time_freezing=cfg["tol"] >= 0, time_freezing_tolerance=float(max(cfg["tol"], 0)))
    model, ocp = nosnoc.NosnocModel(**m), nosnoc.NosnocOcp(**kw)
    try:
        build(o, model, ocp)
        return True
    except Exception as e:
        return False


def run(ctx):
    cases = ctx.generate("Relax", consts=dict(Tier=ctx.tlevel), invariants=["SignsImplied", "ExactAtZero", "Monotone", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    for k in sorted(by):
        cfg = cases[by[k][0]]["cfg"]
        for w in range((2 if cfg["kind"] == "own" else 1) * (1 if ctx.quick else 2)):
            q += 1
            dc = dict(pss=["STEWART", "STEP", "FX", "GS"][q % 4], scheme=["RADAU", "GAUSS"][q // 4 % 2], rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q // 2 % 3],
                      sig=[0.0, 0.5, 2.0][q % 3])
            jobs.append((cfg, [cases[i] for i in by[k]], dc))
            meta.append((by[k], dc))
    obs = [defaultdict(list) for _ in cases]
    cnt = [0, 0]
    for (idx, dc), j, r in zip(meta, jobs, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("building or evaluating a well-formed problem failed (%s %s): %s" %
                          (j[0], dc, r["err"].strip().splitlines()[-1]), dict(cfg=j[0], dc=dc, err=r["err"]))
            continue
        for i, acc in zip(idx, r["acc"]):
            obs[i][acc].append(dc)
            if isinstance(acc, bool):
                cnt[acc] += 1
    recs, rid = [], []
    for i, c in enumerate(cases):
        if obs[i]:
            recs.append(dict(c, obs=sorted(obs[i])))
            rid.append(i)
    if recs:
        can = [dict(r, obs=[r["obs"][0] + 1 if r["cfg"]["kind"] == "aug" else not r["obs"][0]]) for r in recs[:: max(1, len(recs) // 8)] if len(r["obs"]) == 1][:8]
        for k, vs in ctx.validate("Relax", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            c = cases[rid[k]]
            ctx.violation("%s: %s at %s (%s)" % (", ".join(vs), c["cfg"], c["pt"], dict(obs[rid[k]])),
                          dict(case=c, obs={str(a): b for a, b in obs[rid[k]].items()}, clause=vs))
    ctx.notes.update(configurations=len(by), problems_built=len(jobs), points=len(cases), accepted=cnt[1], rejected=cnt[0])
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["NLP residual below 1e-6 counts as feasible", "binaries are evaluated at 0 and 1 only",
                        "Fischer-Burmeister with summed multipliers is documented as unsupported and not covered"]
