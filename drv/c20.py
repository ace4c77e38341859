"""C20: which problem descriptions are accepted (spec/Admission.tla)."""
import traceback, json, copy
import numpy as np, casadi as ca
import nos
from nos import quiet, recording, mkopts
WRONG = {"text": "a", "none": None, "fraction": 2.5, "list": [1], "one": 1, "other-enum": nos.Status.SUCCESS, "class": nos.Status}


def describe(cfg, dc):
    import nosnoc
    x = ca.SX.sym("x", 3)
    u, z, v = ca.SX.sym("u", cfg["nu"]), ca.SX.sym("z", cfg["nz"]), ca.SX.sym("v", cfg["nv"])
    pg, pt = ca.SX.sym("pg", cfg["npg"]), ca.SX.sym("pt", cfg["npt"])
    full = cfg["nu"] > 0
    sh = pg[0] + 2 * pt[1] if full else 0
    arr = lambda n, val: None if n == -1 else np.full(n, float(val))
    kw = dict(x=x, x0=np.full(cfg["x0"], 0.25))
    al = [ca.SX.sym("al%d" % i, n) for i, n in enumerate(cfg["as"])]
    one = 1 + u[0] + z[1] + v[0] if full else 1
    if cfg["F"]:
        kw["F"] = [ca.horzcat(*[(ca.vertcat(*[j + 1 + r + x[r % 3] for r in range(m)]) * one) for j in range(n)]) for m, n in cfg["Fs"]]
    if cfg["c"]:
        kw["c"] = [ca.vertcat(*[x[(i + j) % 3] - j / 4 + sh for j in range(n)]) for i, n in enumerate(cfg["cs"])]
    if cfg["S"]:
        kw["S"] = [np.array([[1.0 if (r >> c) % 2 == 0 else -1.0 for c in range(n)] for r in range(m)]) for m, n in cfg["Ss"]]
    if cfg["g"]:
        kw["g_Stewart"] = [ca.vertcat(*[(j + 1) * x[(i + j) % 3] + sh for j in range(n)]) for i, n in enumerate(cfg["gs"])]
    if cfg["fx"]:
        kw["f_x"] = [ca.vertcat(*[(al[i % len(al)][0] if al else 1) * one + j for j in range(n)]) for i, n in enumerate(cfg["fs"])]
    if cfg["al"]:
        kw["alpha"] = al
    if full:
        kw.update(u=u, z=z, g_z=z - x[:2], v_global=v, p_global=pg, p_time_var=pt)
    if cfg["pgv"] != -1:
        kw["p_global_val"] = np.full(cfg["pgv"], 0.5)
    if cfg["ptr"] != -1:
        kw["p_time_var_val"] = np.full((cfg["ptr"], cfg["ptc"]), 0.125)
    for k, val in (("z0", 0.5), ("lbz", -9), ("ubz", 9)):
        if cfg[k] != -1:
            kw[k] = arr(cfg[k], val)
    if cfg["tvar"]:
        kw["t_var"] = x[2]
    m = nosnoc.NosnocModel(**kw)
    ocp = None
    if cfg["ocp"]:
        ok = dict(f_terminal=ca.sumsqr(x) + ca.sumsqr(v), f_q=ca.sumsqr(u))
        for f, k, val in (("lbu", "lbu", -2), ("ubu", "ubu", 2), ("ug", "u_guess", 1), ("lbx", "lbx", -9), ("ubx", "ubx", 9), ("lbg", "lbg", -5), ("ubg", "ubg", 5),
                          ("lbv", "lbv_global", -3), ("ubv", "ubv_global", 3), ("vg", "v_global_guess", 1)):
            if cfg[f] != -1:
                ok[k] = arr(cfg[f], val)
        if cfg["ng"]:
            ok["g_path"] = ca.vertcat(*[x[i] + u[0] for i in range(cfg["ng"])])
        if cfg["gpc"] != 2:
            ok["g_path_comp"] = ca.horzcat(*[x[i] + 20 for i in range(cfg["gpc"])])
        elif dc["gpc"]:
            ok["g_path_comp"] = ca.horzcat(x[0] + 20, x[1] + 20)
        ocp = nosnoc.NosnocOcp(**ok)
    return m, ocp


def job(items):
    import nosnoc
    out = []
    for cfg, dc in items:
        made, err = [], ""
        built = False
        try:
            with quiet(), recording() as made:
                if dc["early"]:
                    m, ocp = describe(cfg, dc)
                o = mkopts(terminal_time=1.0, N_stages=cfg["N"], N_finite_elements=dc["nfe"], n_s=dc["ns"], irk_scheme=dc["scheme"], irk_representation=dc["rep"],
                           pss_mode=cfg["pss"], use_fesd=dc["fesd"], mpcc_mode=dc["mpcc"], cross_comp_mode=dc["cross"], step_equilibration=dc["se"],
                           max_iter_homotopy=1, print_level=0, time_freezing=cfg["tf"])
                if cfg["nfl"] != -1:
                    o.Nfe_list = [dc["nfe"] + (k % 2 if dc["early"] else 0) for k in range(cfg["nfl"])]
                if cfg["opt"]:
                    N = cfg["N"]
                    val = dict(WRONG, tuple=N * (dc["nfe"],), array=np.full(N, dc["nfe"]))[cfg["optv"]]
                    setattr(o, cfg["opt"], val)
                if not dc["early"]:
                    m, ocp = describe(cfg, dc)
                nosnoc.NosnocSolver(o, m, ocp)
                built = True
        except Exception:
            err = traceback.format_exc().strip().splitlines()[-1][:300]
        out.append(dict(built=built, posed=len(made), err=err))
    return out


def run(ctx):
    cases = ctx.generate("Admission", consts=dict(Tier=ctx.tlevel), invariants=["Sound", "Emit"])
    q0 = ctx.rng.randrange(60)
    items = []
    for i, c in enumerate(cases):
        q = q0 + i
        dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], mpcc=["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "FISCHER_BURMEISTER"][q % 4], scheme=["RADAU", "GAUSS"][q // 3 % 2],
                  cross=["ALL", "SUM"][q // 5 % 2], fesd=q % 5 != 0, ns=1 + q % 2, nfe=1 + q // 2 % 2, gpc=q % 7 == 0, early=bool(q // 2 % 2),
                  se=["HEURISTIC_MEAN", "L2_RELAXED_SCALED", "DIRECT", "HEURISTIC_DELTA"][q // 4 % 4])
        items.append((c["cfg"], dc))
    size = 40
    res = [r for ch in nos.pmap(job, [items[i:i + size] for i in range(0, len(items), size)]) for r in ch]
    recs = [dict(c, obs=dict(built=r["built"], posed=r["posed"])) for c, r in zip(cases, res)]
    can = []
    for r in recs[:: max(1, len(recs) // 40)][:40]:
        r = copy.deepcopy(r)
        r["obs"]["built"] = not r["obs"]["built"]
        can.append(r)
    for k, vs in ctx.validate("Admission", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
        c = cases[k]
        ctx.violation("%s: %s %s with edits %s (%s) %s" % (", ".join(vs), c["cfg"]["form"], c["cfg"]["pss"], [(e["f"], e["i"], e["v"]) for e in c["edits"]], c["cfg"]["opt"] + c["cfg"]["optv"], res[k]["err"]),
                      dict(record=recs[k], dc=items[k][1], err=res[k]["err"], clause=vs))
    ctx.notes.update(descriptions=len(recs), accepted=sum(r["built"] for r in res), rejected=sum(not r["built"] for r in res))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(dict(edits=c["edits"], form=c["cfg"]["form"], pss=c["cfg"]["pss"]))
