"""C18: life of options objects (spec/Options.tla)."""
import traceback, json, copy, math, hashlib
import multiprocessing as mp
import numpy as np, casadi as ca
import nos, homlib
from nos import quiet
NL = [[], [5], [1, 3]]
SCH = ["RADAU_IIA", "GAUSS_LEGENDRE"]
REP = ["INTEGRAL", "DIFFERENTIAL", "DIFFERENTIAL_LIFT_X"]
U = 99
KEY = dict(dit="dual_inf_tol", cit="compl_inf_tol", mut="mu_target", acc="acceptable_tol")


def expo(v):
    """exponent of a tolerance (U: unset)"""
    if v is None:
        return U
    try:
        b = round(-math.log10(v))
        return b if abs(v * 10.0 ** b - 1) < 1e-9 else -777
    except Exception:
        return -778


def num(v):
    try:
        return int(v) if float(v) == int(v) else -777
    except Exception:
        return -778


def read(o):
    ip = o.opts_casadi_nlp["ipopt"]
    return dict(ct=expo(o.comp_tol), s0=-expo(o.sigma_0), sl=expo(o.homotopy_update_slope), tol=expo(o.tol_ipopt), dit=expo(ip.get("dual_inf_tol")),
                cit=expo(ip.get("compl_inf_tol")), mut=expo(ip.get("mu_target")), mi=num(o.max_iter_homotopy), ns=num(o.N_stages), nfe=num(o.N_finite_elements),
                nl=[num(i) for i in o.Nfe_list], nst=num(o.n_s), sch=o.irk_scheme.name, rep=o.irk_representation.name, nmi=num(o.nlp_max_iter),
                pl=num(ip.get("print_level")), acc=expo(ip.get("acceptable_tol")), gam=num(o.gamma_h), tf=num(o.terminal_time))


def put(o, k, v):
    ip = o.opts_casadi_nlp["ipopt"]
    t = None if v == U else 10.0 ** -v if isinstance(v, int) else None
    if k == "ct":
        o.comp_tol = t
    elif k == "s0":
        o.sigma_0 = 10.0 ** v
    elif k == "sl":
        o.homotopy_update_slope = t
    elif k == "tol":
        o.tol_ipopt = t
    elif k in KEY:
        if t is None and k == "acc":
            ip.pop(KEY[k], None)
        else:
            ip[KEY[k]] = t
    elif k == "nl":
        o.Nfe_list = list(v) if isinstance(v, list) else list(NL[v])
    elif k == "sch":
        o.irk_scheme = nos.IrkSchemes[v if isinstance(v, str) else SCH[v - 1]]
    elif k == "rep":
        o.irk_representation = nos.IrkRepresentation[v if isinstance(v, str) else REP[v - 1]]
    elif k == "nmi":
        o.nlp_max_iter = v
    elif k == "pl":
        ip["print_level"] = v
    elif k == "gam":
        o.gamma_h = float(v)
    elif k == "tf":
        o.terminal_time = float(v)
    else:
        setattr(o, dict(mi="max_iter_homotopy", ns="N_stages", nfe="N_finite_elements", nst="n_s")[k], v)


def canon(v):
    """options without rounding errors"""
    return {k: canon(i) for k, i in v.items()} if isinstance(v, dict) else float("%.9g" % v) if isinstance(v, float) else v


def new():
    import nosnoc
    o = nosnoc.NosnocOpts()
    o.sigma_N = 1e-300
    return o


def build(o):
    """builds a solver and solves once; (observation, fingerprint of everything handed to CasADi)"""
    s, fake = nos.build(o, homlib.model("STEWART", extra=True, p=o.N_stages))
    fake.script = lambda i, call: dict(x=np.full(fake.nx, 0.5))
    fake.limit = 200
    with quiet():
        s.solve()
    op = fake.opts
    prob = s.problem
    x = np.linspace(0.3, 1.7, fake.nx)
    fg = ca.Function("fg", [fake.nlp["x"], fake.nlp["p"]], [fake.nlp["f"], ca.vec(fake.nlp["g"])])
    h = hashlib.sha1(json.dumps(canon(op), sort_keys=True, default=str).encode())
    f, g = fg(x, fake.calls[-1]["p"])
    for a in [np.array(f), np.array(g)] + [c[k] for c in fake.calls for k in ("x0", "p", "lbx", "ubx", "lbg", "ubg")]:
        h.update(np.ascontiguousarray(np.asarray(a, dtype=float)).tobytes())
    ip = op.get("ipopt", {})
    ob = dict(tol=expo(ip.get("tol")), dit=expo(ip.get("dual_inf_tol")), cit=expo(ip.get("compl_inf_tol")), mut=expo(ip.get("mu_target")),
              nmi=num(ip.get("max_iter")), pl=num(ip.get("print_level")), acc=expo(ip.get("acceptable_tol")), nlps=len(fake.calls))
    # one label per element: the number of elements of every control stage
    ob["grid"] = [len(st) for st in prob.ind_x]
    ob["s0"] = sigma0(fake)
    return ob, h.hexdigest()


def sigma0(fake):
    """exponent of the first homotopy parameter handed to the NLP (the only parameter that changes between the NLPs)"""
    if len(fake.calls) < 2:
        return -777
    i = np.nonzero(fake.calls[0]["p"] != fake.calls[1]["p"])[0]
    return -expo(float(fake.calls[0]["p"][i[0]])) if len(i) else -777


def refjob(e):
    """fingerprint of a problem whose options were created and set just now, in a process of its own"""
    try:
        o = new()
        d = read(o)
        for k in ["tol"] + [k for k in d if k != "tol"]:
            if e[k] != read(o)[k]:
                put(o, k, e[k])
        return build(o)[1]
    except Exception:
        return "failed: " + traceback.format_exc()


def resolve(e):
    r = dict(e)
    t = e["ct"] + 2
    r["mi"] = e["mi"] or (e["ct"] + e["s0"]) // e["sl"] + 1
    r["nl"] = e["nl"] or [e["nfe"]] * e["ns"]
    for k in ("tol", "dit", "cit", "mut"):
        if e["tol"] == U and e[k] == U:
            r[k] = t
    return r


def job(a):
    hists = a
    out = []
    for hist in hists:
        try:
            objs, reads, builds, fps = [], [], [], []
            ex = []
            for op in hist:
                b, fp, o = {}, None, op["o"] - 1
                if op["a"] == "new":
                    objs.append(new())
                elif op["a"] == "copy":
                    objs.append(copy.deepcopy(objs[o]))
                elif op["a"] == "set":
                    put(objs[o], op["k"], op["v"])
                elif op["a"] == "append":
                    objs[o].Nfe_list.append(op["v"])
                elif op["a"] == "pre":
                    with quiet():
                        objs[o].preprocess()
                else:
                    b, fp = build(objs[o])
                builds.append(b)
                fps.append(fp)
                reads.append([read(q) for q in objs])
            out.append(dict(ok=True, reads=reads, build=builds, fps=fps))
        except Exception:
            out.append(dict(ok=False, err=traceback.format_exc()))
    return out


def expected(hist, obs, deflt):
    """explicit values before every build (appending changes what was read before)"""
    ex, res = [], []
    for k, op in enumerate(hist):
        if op["a"] == "new":
            ex.append(dict(deflt))
        elif op["a"] == "copy":
            ex.append(copy.deepcopy(ex[op["o"] - 1]))
        elif op["a"] == "set":
            e, v = ex[op["o"] - 1], op["v"]
            if op["k"] == "tol":
                e.update(tol=v, dit=v, cit=v, mut=v)
            else:
                e[op["k"]] = list(NL[v]) if op["k"] == "nl" else SCH[v - 1] if op["k"] == "sch" else REP[v - 1] if op["k"] == "rep" else v
        elif op["a"] == "append":
            ex[op["o"] - 1]["nl"] = list(obs["reads"][k][op["o"] - 1]["nl"])
        elif op["a"] == "build":
            res.append((k, json.dumps(resolve(ex[op["o"] - 1]), sort_keys=True)))
    return res


def run(ctx):
    cases = ctx.generate("Options", consts=dict(Tier=ctx.tlevel), invariants=["Own", "Idempotent", "Kept", "Emit"])
    with mp.get_context("fork").Pool(1) as p:
        deflt = p.apply(lambda_read)
    odd = [k for k, v in deflt.items() if v in (-777, -778)]
    if odd:
        raise RuntimeError("defaults the specification cannot express: %s" % odd)
    size = 24
    chunks = [[c["hist"] for c in cases[i:i + size]] for i in range(0, len(cases), size)]
    res = [r for c in nos.pmap(job, chunks) for r in c]
    need, exp = {}, []
    for c, r in zip(cases, res):
        e = expected(c["hist"], r, deflt) if r["ok"] else []
        exp.append(e)
        for _, key in e:
            need.setdefault(key, None)
    keys = sorted(need)
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for k, fp in zip(keys, p.map(refjob, [json.loads(k) for k in keys], chunksize=1)):
            need[k] = fp
    recs, seen = [], set()
    for c, r, e in zip(cases, res, exp):
        if not r["ok"]:
            msg = r["err"].strip().splitlines()[-1]
            if msg not in seen:
                seen.add(msg)
                ctx.violation("a history of options objects failed (%s): %s" % (c["hist"], msg), dict(case=c, err=r["err"]))
            continue
        for k, key in e:
            r["build"][k]["same"] = need[key] == r["fps"][k]
        recs.append(dict(c, **{"def": deflt}, obs=dict(reads=r["reads"], build=r["build"])))
    if recs:
        can = []
        for n, r in enumerate(recs[:: max(1, len(recs) // 30)][:30]):
            r = copy.deepcopy(r)
            k = len(r["hist"]) - 1
            if n % 3 == 0:
                f = ["tol", "dit", "nmi", "nlps", "s0", "acc"][n // 3 % 6]
                r["obs"]["build"][k][f] += 1
            elif n % 3 == 1:
                r["obs"]["build"][k]["same"] = False
            else:
                r["obs"]["reads"][k][0][["ct", "mi", "nfe", "nst", "tf"][n // 3 % 5]] += 1
            can.append(r)
        for k, vs in ctx.validate("Options", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: history %s" % (", ".join(sorted(vs)), [(o["a"], o["o"], o["k"], o["v"]) for o in recs[k]["hist"]]), dict(record=recs[k], clause=vs))
    ctx.notes.update(histories=len(recs), problems_built=sum(len(e) for e in exp), distinct_configurations=len(keys))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["the reference of a configuration is built by a process of its own from an options object with the same values",
                        "a value set explicitly to what preprocessing had derived just before is not distinguished from the derived one"]


def lambda_read():
    return read(new())
