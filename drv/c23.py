"""C23: the vector field function (spec/VectorField.tla)."""
import traceback, json, copy
from collections import defaultdict
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet


def make(cfg, dc):
    import nosnoc
    n, R = cfg["n"], sum(cfg["n"])
    x, u, z, v, p1, p2 = ca.SX.sym("x", R + 1), ca.SX.sym("u"), ca.SX.sym("z", 2), ca.SX.sym("v"), ca.SX.sym("p1"), ca.SX.sym("p2")
    F, G, C, r = [], [], [], 0
    z1 = z[1]                                              # the one that enters; the other one is a decoy
    for nq in n:
        cols, ind = [], []
        for i in range(nq):
            e = ca.SX.zeros(R + 1)
            e[r] = 1 + u
            e[R] = p1 + 3 * p2 + 7 * v + 5 * z1
            cols.append(e)
            ind.append(x[r] + r * p1 + (r % 2) * z1 - p2)
            r += 1
        F.append(ca.horzcat(*cols))
        G.append(ca.vertcat(*ind))
        C.append((ind[1] - ind[0]) / 2)
    kw = dict(x=x, x0=np.zeros(R + 1), u=u, z=z, g_z=z - x[0], v_global=v, F=F)
    # parameters of a stage: time varying ones first
    if dc["par"] == "mixed":
        kw.update(p_time_var=p1, p_time_var_val=np.zeros((2, 1)), p_global=p2, p_global_val=np.zeros(1))
    elif dc["par"] == "global":
        kw.update(p_global=ca.vertcat(p1, p2), p_global_val=np.zeros(2))
    else:
        kw.update(p_time_var=ca.vertcat(p1, p2), p_time_var_val=np.zeros((2, 2)))
    if cfg["form"] == "INDICATORS":
        kw.update(g_Stewart=G)
    else:
        kw.update(c=C, S=[np.array([[1.0], [-1.0]])] * len(n))
    o = mkopts(terminal_time=1.0, N_stages=2, N_finite_elements=1, n_s=1, irk_scheme=dc["scheme"], irk_representation=dc["rep"], pss_mode=cfg["pss"],
               use_fesd=dc["fesd"], mpcc_mode=dc["mpcc"], max_iter_homotopy=1, print_level=0)
    return Prob(o, nosnoc.NosnocModel(**kw), None, solve=False)


def job(a):
    cfg, cases, dc = a
    try:
        P = make(cfg, dc)
        S, n, R = P.solver, cfg["n"], sum(cfg["n"])
        out, made = [], {}
        for case in cases:
            if cfg["pss"] == "STEP":
                try:
                    S.create_function_calculate_vector_field(1e-3, p=[0.0, 0.0], v=[0.0])
                    out.append(dict(rejected=False, dx=[]))
                except NotImplementedError:
                    out.append(dict(rejected=True, dx=[]))
                continue
            key = json.dumps(case["fns"], sort_keys=True)
            with quiet():
                if key not in made:
                    made[key] = [S.create_function_calculate_vector_field(1e-4 if f["k"] == 99 else np.sqrt(2.0 ** (1 - f["k"])), p=[float(f["p1"]), float(f["p2"])], v=[float(f["v"])])
                                 for f in case["fns"]]
            dx = []
            for j, e in enumerate(case["evs"]):
                f = case["fns"][e["fn"] - 1]
                g, r = np.zeros(R), 0
                for q, nq in enumerate(n):
                    for i in range(nq):
                        D = sum(e["a"][r - i:r - i + nq])
                        g[r] = e["a"][r] if f["k"] == 99 else 2.0 ** -f["k"] * D / e["a"][r]
                        g[r] += [0.5, -1.0, 2.0][(q + j) % 3]
                        r += 1
                x = np.zeros(R + 1)
                x[:R] = g - np.arange(R) * f["p1"] - (np.arange(R) % 2) * e["z"] + f["p2"]
                x[R] = 4.0
                with quiet():
                    # data of the solver do not enter
                    if dc["par"] != "time":
                        S.set("p_global", np.array([50.0 + j] * (2 if dc["par"] == "global" else 1)))
                    if dc["par"] != "global":
                        S.set("p_time_var", np.full((2, 2 if dc["par"] == "time" else 1), 20.0 + j))
                    S.set("x0", np.full(R + 1, 3.0 + j))
                    y = made[key][e["fn"] - 1](x, [float(e["u"])], [7.0 - e["z"], float(e["z"])])
                y = np.array(y, dtype=float).flatten()
                dx.append([int(np.clip(np.round(1e6 * t), -2e9, 2e9)) if np.isfinite(t) else -2000000000 for t in y])
            out.append(dict(rejected=False, dx=dx))
        return dict(ok=True, obs=out)
    except Exception:
        return dict(ok=False, err=traceback.format_exc())


def run(ctx):
    cases = ctx.generate("VectorField", consts=dict(Tier=ctx.tlevel), invariants=["WeightsSum", "Emit"])
    by = defaultdict(list)
    for i, c in enumerate(cases):
        by[json.dumps(c["cfg"], sort_keys=True)].append(i)
    jobs, meta = [], []
    q = ctx.rng.randrange(60)
    for k in sorted(by):
        for a in range(0, len(by[k]), min(1500, max(1, (len(by[k]) + 2) // 3))):
            idx = by[k][a:a + 1500]
            q += 1
            dc = dict(rep=["INTEGRAL", "DIFFERENTIAL", "LIFT"][q % 3], scheme=["RADAU", "GAUSS"][q // 2 % 2], fesd=q % 4 > 0, par=["mixed", "global", "time"][q % 3], mpcc=["SCHOLTES_INEQ", "FISCHER_BURMEISTER", "ELASTIC_EQ"][q % 3])
            jobs.append((cases[idx[0]]["cfg"], [cases[i] for i in idx], dc))
            meta.append((cases[idx[0]]["cfg"], idx, dc))
    recs, dcs = [], []
    for (c0, idx, dc), r in zip(meta, nos.pmap(job, jobs)):
        if not r["ok"]:
            ctx.violation("the vector field of a well-formed problem could not be evaluated (%s %s): %s" % (c0, dc, r["err"].strip().splitlines()[-1]), dict(cfg=c0, dc=dc, err=r["err"]))
            continue
        for i, o in zip(idx, r["obs"]):
            recs.append(dict(cases[i], obs=o))
            dcs.append(dc)
    if recs:
        can = []
        for n, r in enumerate(recs[:: max(1, len(recs) // 8)][:8]):
            r = copy.deepcopy(r)
            if r["cfg"]["pss"] == "STEP":
                r["obs"]["rejected"] = False
            else:
                d = r["obs"]["dx"][n % 2]
                d[n % len(d)] += 200
            can.append(r)
        for k, vs in ctx.validate("VectorField", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s functions %s points %s: %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["fns"], recs[k]["evs"], recs[k]["obs"]["dx"]), dict(record=recs[k], dc=dcs[k], clause=vs))
    ctx.notes.update(problems=len(by), histories=len(recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["smoothing parameter 1e-4 stands for a vanishing one"]
