"""C10: blocks of the primal vector (spec/Layout.tla)."""
import traceback, json, copy
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet, flat
INF = 10 ** 9
S_OF = {2: [[1], [-1]], 4: [[1, 1], [1, -1], [-1, 1], [-1, -1]], 3: [[1, 0], [-1, 1], [-1, -1]]}


def make(cfg):
    import nosnoc
    d, S = cfg["dim"], ca.SX.sym
    x, u, z, v = S("x", d["x"]), S("u", d["u"]), S("z", d["z"]), S("v", d["v"])
    N = len(cfg["lay"])
    kw = dict(x=x, x0=np.array([4.0 + i for i in range(d["x"])]))
    if d["u"]:
        kw["u"] = u
    if d["v"]:
        kw["v_global"] = v
    if d["z"]:
        kw.update(z=z, g_z=z - 1)
    rng = lambda base, n: (np.array([-(101.0 + base + i) for i in range(n)]), np.array([201.0 + base + i for i in range(n)]),
                           np.array([base + 1.0 + i for i in range(n)]))
    okw = {}
    if cfg["given"]:
        lb, ub, g = rng(30, d["z"])
        if d["z"]:
            kw.update(lbz=lb, ubz=ub, z0=g)
        for nm, gn, base in (("x", None, 0), ("u", "u_guess", 10), ("v_global", "v_global_guess", 20)):
            n = d[nm[0]]
            if n:
                lb, ub, g = rng(base, n)
                okw["lb" + nm], okw["ub" + nm] = lb, ub
                if gn:
                    okw[gn] = g
    elif d["z"]:
        pass
    if cfg["pairs"] and d["u"] >= 2:
        okw["g_path_comp"] = ca.horzcat(u[0], u[1])
    one = ca.SX.ones(d["x"], 1)
    if cfg["pss"] == "FX":
        al = [S("al%d" % i, 1 if r == 2 else 2) for i, r in enumerate(cfg["regs"])]
        nq = len(al)                                      # every subsystem drives its part of the state
        kw.update(f_x=[(one[q:q + 1] if q < nq - 1 else one[nq - 1:]) * ca.sum1(a) for q, a in enumerate(al)], alpha=al, c=[x[0] + ca.SX(np.arange(1, 1 + (1 if r == 2 else 2))) for r in cfg["regs"]])
    else:
        if cfg["pss"] == "STEWART":
            Sd = {3: None}
        Ss, cs, Fs, gs = [], [], [], []
        for i, r in enumerate(cfg["regs"]):
            nc = 1 if r == 2 else 2
            Ss.append(np.array(S_OF[r], dtype=float))
            cs.append(x[0] + ca.SX(np.arange(1, 1 + nc)))
            Fs.append(ca.horzcat(*[one * (j + 1) for j in range(r)]))
            gs.append(ca.vertcat(*[x[0] * (j + 1) for j in range(r)]))
        if cfg["pss"] == "STEWART" and 3 in cfg["regs"]:
            kw.update(F=Fs, g_Stewart=gs)
        else:
            kw.update(F=Fs, S=Ss, c=cs)
    o = mkopts(terminal_time=12.0 * N, N_stages=N, Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme=cfg["sch"], irk_representation=cfg["rep"],
               pss_mode="STEWART" if cfg["pss"] == "STEWART" else "STEP", cross_comp_mode=cfg["cross"], use_fesd=cfg["fesd"], mpcc_mode=cfg["mode"],
               gamma_h=cfg["gamma"] / 4, equidistant_control_grid=cfg["eq"], speed_of_time_variables=cfg["sot"], speed_of_time_min=cfg["sotb"][0] / 1000,
               speed_of_time_max=cfg["sotb"][1] / 1000, s_elastic_min=0.25, s_elastic_max=7.0, s_elastic_0=3.0, initialization_strategy="EXTERNAL", sigma_0=0.5, max_iter_homotopy=1)
    return o, nosnoc.NosnocModel(**kw), nosnoc.NosnocOcp(**okw)


def num(v):
    return int(max(-INF, min(INF, round(v * 1000)))) if np.isfinite(v) else int(np.sign(v)) * INF


def job(cfg):
    try:
        with quiet():
            P = Prob(*make(cfg))
        p, call = P.P, P.fake.calls[0]
        obs = []

        def add(nm, k, e, j, q, ix):
            ix = [int(i) for i in ix]
            if ix:
                at = lambda v: [num(v[i]) if 0 <= i < P.nw else -7 for i in ix]
                obs.append(dict(nm=nm, k=k, e=e, j=j, q=q, ix=[i + 1 for i in ix], lb=at(call["lbx"]), ub=at(call["ubx"]), w0=at(call["x0"])))
        N = len(cfg["lay"])
        hs = iter(flat(p.ind_h))
        for k in range(len(p.ind_x)):
            for e in range(len(p.ind_x[k])):
                for nm, L in (("x", p.ind_x), ("v", p.ind_v), ("z", p.ind_z)):
                    for j, ix in enumerate(L[k][e]):
                        add(nm, k + 1, e + 1, j + 1, 0, ix)
                for nm, L in (("theta", p.ind_theta), ("lam", p.ind_lam), ("mu", p.ind_mu), ("alpha", p.ind_alpha), ("lambda_n", p.ind_lambda_n),
                              ("lambda_p", p.ind_lambda_p)):
                    for j, st in enumerate(L[k][e]):
                        for q, ix in enumerate(st):
                            add(nm, k + 1, e + 1, j + 1, q + 1, ix)
                h = next(hs, None)
                if h is not None:
                    add("h", k + 1, e + 1, 0, 0, [h])
        for i, h in enumerate(hs):
            add("h", 0, i, 0, 0, [h])
        for k, ix in enumerate(p.ind_u):
            add("u", k + 1, 0, 0, 0, ix)
        for k, ix in enumerate(p.ind_sot):
            add("sot", k + 1, 0, 0, 0, flat(ix))
        add("v_global", 0, 0, 0, 0, flat(p.ind_v_global))
        add("elastic", 0, 0, 0, 0, flat(p.ind_elastic))
        bl = flat(p.ind_bool)
        return dict(ok=True, rec=dict(cfg=cfg, obs=obs, nw=P.nw, bools=[[i + 1] + [num(call[b][i]) if i < P.nw else -7 for b in ("lbx", "ubx")] for i in bl],
                                      cont=[flat(i) for st in p.ind_x_cont for i in st], ends=[flat(el[-1]) for st in p.ind_x for el in st]))
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("Layout", consts=dict(Tier=ctx.tlevel), invariants=["KeysUnique", "WellBounded", "DimensionCloses", "Emit"])
    cfgs = [c["cfg"] for c in cases]
    recs = []
    for cfg, r in zip(cfgs, nos.pmap(job, cfgs)):
        if r["ok"]:
            recs.append(r["rec"])
        else:
            ctx.violation("building a well-formed problem failed (%s): %s" % (cfg, r["err"].strip().splitlines()[-1]), dict(cfg=cfg, err=r["err"]))
    if recs:
        can = []
        for i, r in enumerate(recs[:: max(1, len(recs) // 7)][:7]):
            r = copy.deepcopy(r)
            if i == 0:
                r["obs"][0]["ix"][0] += 1
            elif i == 1:
                r["obs"][-1]["lb"][0] += 1
            elif i == 2:
                r["obs"].pop(0)
            elif i == 3:
                r["nw"] += 1
            elif i == 4:
                r["obs"][2]["j"] += 9
            elif i == 5:
                r["cont"][0] = r["cont"][0] + [1]
            else:
                r["bools"].append([r["nw"] + 1, 0, 999])
            can.append(r)
        for k, vs in ctx.validate("Layout", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s" % (", ".join(vs), recs[k]["cfg"]), dict(record=recs[k], clause=vs))
    ctx.notes.update(configurations=len(cfgs), blocks=sum(len(r["obs"]) for r in recs), entries=sum(r["nw"] for r in recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["bounds and initial values are read from the call of the NLP solver", "guesses of multipliers and weights are only required to lie within their bounds"]
