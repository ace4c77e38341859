"""Realises trajectories of spec/Fesd.tla as models, options and primal vectors of nosnoc."""
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet

TICK = 0.25
HS = 12
UX = TICK / 4          # one spec state unit


AT, AG = [1.0, -2.0, 4.0, 7.0], 0.5      # data of the auxiliary algebraic equations


def model_args(fam, cfg, aux=False):
    """Fresh symbols and NosnocModel arguments for a family; lay gives the number of control stages.
    aux: further algebraic variables z = x + data, z = data (of the same control stage); the switching functions get the
    term z - data, which vanishes, and z of the boundary points is determined by the equations."""
    nx = fam["nx"]
    x = ca.SX.sym("x", nx)
    regs = [r for s in fam["sys"] for r in s["F"]]
    used = {k: any(any(r[k]) for r in regs) for k in ("u", "tv", "pg", "vg")}
    kw = dict(x=x, x0=np.array(fam["inits"][0], dtype=float) * UX)
    u = ca.SX.sym("u"); tv = ca.SX.sym("tv"); pg = ca.SX.sym("pg"); vg = ca.SX.sym("vg")
    if used["u"]:
        kw["u"] = u
    if used["tv"]:
        kw["p_time_var"] = tv
        kw["p_time_var_val"] = np.array(fam["tv"][:len(cfg["lay"])], dtype=float).reshape(-1, 1)
    if used["pg"]:
        kw["p_global"] = pg
        kw["p_global_val"] = np.array([float(fam["pg"])])
    if used["vg"]:
        kw["v_global"] = vg
    one = 1.0
    xc = x
    if fam["viaz"]:
        z = ca.SX.sym("z", 2)
        kw["z"] = z
        kw["g_z"] = ca.vertcat(z[0] - 2 * x[0], z[1] - 1 - z[0] + 2 * x[0])
        xc = z[0] / 2
        one = z[1]
    if aux:
        za, ta, ga = ca.SX.sym("za", 2), ca.SX.sym("ta"), ca.SX.sym("ga")
        N = len(cfg["lay"])
        kw["p_time_var_val"] = np.hstack([kw.get("p_time_var_val", np.zeros((N, 0))), np.array(AT[:N])[:, None]])
        kw["p_time_var"] = ca.vertcat(kw.get("p_time_var", ca.SX(0, 1)), ta)
        kw["p_global_val"] = np.append(kw.get("p_global_val", np.zeros(0)), AG)
        kw["p_global"] = ca.vertcat(kw.get("p_global", ca.SX(0, 1)), ga)
        kw["g_z"] = ca.vertcat(kw.get("g_z", ca.SX(0, 1)), za[0] - x[0] - 2 * ta + ga - (3 * u if used["u"] and not fam["viaz"] else 0), za[1] - ta - 7 * ga)
        kw["z0"] = np.array([0.0] * (2 if fam["viaz"] else 0) + [0.0, AT[0] + 7 * AG])
        kw["z"] = ca.vertcat(kw.get("z", ca.SX(0, 1)), za)
    col = lambda r: (ca.DM(r["k"]) * one + ca.DM(r["u"]) * (u if used["u"] else 0) + ca.DM(r["tv"]) * (tv if used["tv"] else 0)
                     + ca.DM(r["pg"]) * (pg if used["pg"] else 0) + ca.DM(r["vg"]) * (vg if used["vg"] else 0))
    cs = [ca.vertcat(*[ca.dot(ca.DM(c["a"]), xc) + c["b"] * UX + (za[1] - ta - 7 * ga if aux else 0) for c in s["c"]]) for s in fam["sys"]]
    if fam["kind"] == "S":
        kw.update(F=[ca.horzcat(*[ca.SX(col(r)) for r in s["F"]]) for s in fam["sys"]], c=cs,
                  S=[np.array(s["S"], dtype=float) for s in fam["sys"]])
    elif fam["kind"] == "gS":
        kw.update(F=[ca.horzcat(*[ca.SX(col(r)) for r in s["F"]]) for s in fam["sys"]], g_Stewart=cs)
    else:
        al = [ca.SX.sym("al%d" % i, len(s["c"])) for i, s in enumerate(fam["sys"])]
        f = ca.SX.zeros(nx)
        for a, s in zip(al, fam["sys"]):
            for r, row in zip(s["F"], s["S"]):
                w = 1
                for k, sg in enumerate(row):
                    w = w * (a[k] if sg == 1 else (1 - a[k]) if sg == -1 else 1)
                f = f + w * col(r)
        kw.update(f_x=[f[i] for i in range(nx)] if len(fam["sys"]) == nx else [f], alpha=al, c=cs)
    return kw


def make(fam, cfg, dc):
    """Prob of family fam, spec configuration cfg, driver configuration dc."""
    import nosnoc
    T = len(cfg["lay"]) * HS * TICK
    o = mkopts(terminal_time=T, N_stages=len(cfg["lay"]), Nfe_list=list(cfg["lay"]), n_s=dc["n_s"], irk_scheme=dc["scheme"],
               irk_representation=dc["rep"], pss_mode=dc["pss"], cross_comp_mode=dc["cross"], use_fesd=dc["fesd"],
               mpcc_mode=dc["mpcc"], sigma_0=0.0, max_iter_homotopy=1, equidistant_control_grid=cfg["eq"],
               speed_of_time_variables=cfg["sot"], rootfinder_for_initial_z=fam["viaz"], gamma_h=1.0,
               **dc.get("extra", {}))
    kw = model_args(fam, cfg, dc.get("aux", False))
    with quiet():
        m = nosnoc.NosnocModel(**kw)
        ocp = nosnoc.NosnocOcp()
        return Prob(o, m, ocp)


def realise(P, fam, cfg, cases):
    """One primal vector per trajectory, with natural multipliers."""
    n = len(cases)
    W = P.base(n)
    A = lambda f: np.array([f(c) for c in cases], dtype=float)
    if len(P.vg):
        W[:, P.vg] = fam["vg"]
    for k, iu in enumerate(P.u):
        if len(iu):
            W[:, iu] = A(lambda c: [c["us"][k]])
    for k, i in enumerate(P.sot):
        W[:, i] = A(lambda c: c["sots"][k])
    if len(P.elastic):
        W[:, P.elastic] = 0.0
    csf = [(np.array([c["a"] for c in s["c"]], dtype=float), np.array([c["b"] for c in s["c"]], dtype=float) * UX) for s in fam["sys"]]
    nz = len(P.fes[0].z[0]) if len(P.fes[0].z) else 0
    aux = nz > (2 if fam["viaz"] else 0)
    useu = any(any(r["u"]) for s in fam["sys"] for r in s["F"]) and not fam["viaz"]
    for i, fe in enumerate(P.fes):
        xs = A(lambda c: c["els"][i]["xs"]) * UX
        xe = A(lambda c: c["els"][i]["xe"]) * UX
        h = A(lambda c: c["els"][i]["h"]) * TICK
        sl = A(lambda c: c["els"][i]["sl"]) / 4
        Xs = [xs + (xe - xs) * t for t in P.tau]
        P.put_x(W, fe, Xs, xe)
        P.put_v(W, fe, [sl] * len(P.tau))
        if fe.h is not None:
            W[:, fe.h] = h
        for j in range(len(fe.z)):
            if fam["viaz"]:
                X = Xs[j] if j < len(Xs) else xe
                W[:, fe.z[j][:2]] = np.hstack([2 * X[:, :1], np.ones((n, 1))])
            if aux:
                X = Xs[j] if j < len(Xs) else xe
                W[:, fe.z[j][-2]] = X[:, 0] + 2 * AT[fe.k] - AG + (3 * A(lambda c: c["us"][fe.k]) if useu else 0)
                W[:, fe.z[j][-1]] = AT[fe.k] + 7 * AG
        for s, (a, b) in enumerate(csf):
            th = A(lambda c: c["els"][i]["m"][s]["th"]) / 4
            if fe.th and len(fe.th[0][s]):
                for j in range(len(P.tau)):
                    W[:, fe.th[j][s]] = th
            if fe.al and len(fe.al[0][s]):
                al = A(lambda c: c["els"][i]["m"][s]["al"]) / 2
                for j in range(len(P.tau)):
                    W[:, fe.al[j][s]] = al
            npts = max(len(fe.lam), len(fe.ln))
            for j in range(npts):
                X = Xs[j] if j < len(Xs) else xe
                c = X @ a.T + b
                if len(fe.lam[j][s]):
                    g = c if fam["kind"] == "gS" else -c @ np.array(fam["sys"][s]["S"], dtype=float).T
                    lam, mu = nos.stewart_mult(g)
                    W[:, fe.lam[j][s]] = lam
                    W[:, fe.mu[j][s]] = mu
                if len(fe.ln[j][s]):
                    ln, lp = nos.step_mult(c)
                    W[:, fe.ln[j][s]] = ln
                    W[:, fe.lp[j][s]] = lp
    return P.bools(W)


def driver_configs(fam, rng, quick, n=8):
    """Driver configurations for one spec configuration: every scheme x stages x representation, the others rotated."""
    import itertools
    pss = [p for p in ("STEWART", "STEP") if fam[p.lower()]] or ["STEP"]
    base = [(s, ns) for s in ("RADAU", "GAUSS") for ns in ((1, 2, 3) if quick else (1, 2, 3, 4))]
    mp = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_TWO_SIDED", "FISCHER_BURMEISTER", "BOOLEAN", "ELASTIC_EQ", "ELASTIC_INEQ",
          "FISCHER_BURMEISTER_IP_AUG"]
    res = []
    if not quick:
        for (s, ns), rep, p, cr, fe in itertools.product(base, nos.REPS, pss, nos.CROSS, (True, True, False)):
            m = mp[rng.randrange(len(mp))]
            if m == "FISCHER_BURMEISTER_IP_AUG" and cr == "SUM":
                m = "SCHOLTES_EQ"
            res.append(dict(scheme=s, n_s=ns, rep=rep, pss=p, cross=cr, fesd=fe, mpcc=m, aux=rng.random() < 0.5))
        return res
    reps, crs = list(nos.REPS), list(nos.CROSS)
    r0, c0, p0, m0 = rng.randrange(3), rng.randrange(2), rng.randrange(2), rng.randrange(8)
    for i, (s, ns) in enumerate(base):
        for k in range(2):
            q = 2 * i + k
            m = mp[(m0 + q) % 8]
            cr = crs[(c0 + k) % 2]
            if m == "FISCHER_BURMEISTER_IP_AUG" and cr == "SUM":
                m = "SCHOLTES_INEQ"
            res.append(dict(scheme=s, n_s=ns, rep=reps[(r0 + i + k) % 3], pss=pss[(p0 + i // 2 + k) % len(pss)], cross=cr,
                            fesd=(q % 6 != 5), mpcc=m, aux=(q + m0) % 2 == i % 2))
    return res


def nominal(cfg, case):
    i = 0
    for nfe in cfg["lay"]:
        for _ in range(nfe):
            if case["els"][i]["h"] != HS // nfe:
                return False
            i += 1
    return True
