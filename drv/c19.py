"""C19: automatic reformulation of nonsmooth right-hand sides (spec/AutoModel.tla)."""
import traceback, json, copy
import numpy as np, casadi as ca
import nos
from nos import quiet
POINTS = np.array([(1, -2, 3), (-3, 2, 1), (2, 3, -2), (-1, -3, 2), (3, 1, -1), (-2, 1, 3)], dtype=float)
UN = [ca.sin, ca.exp, ca.tanh, ca.atan, lambda e: ca.sqrt(1 + e ** 2), lambda e: 1 / (2 + ca.cos(e)), lambda e: ca.log(3 + ca.sin(e)), lambda e: e ** 3]
UNSUPPORTED = [ca.fabs, ca.floor, lambda e: ca.if_else(e > 0.5, e, 2 * e), ca.sin, ca.ceil]
MULS = [lambda a, b: a * b, lambda a, b: a / (2 + ca.sin(b)), lambda a, b: b / (1.5 + a ** 2), lambda a, b: ca.atan2(a, 2 + ca.cos(b)), lambda a, b: a * b * 0.5]


def X(p, x):
    return np.append(p[:2], np.full(x.shape[0] - 2, 0.5))


def expr(toks, x, u, dc, numeric, memo):
    st = []
    for k, t in enumerate(toks):
        if t < 10:
            st.append((x[0], x[1], u, ca.SX(1), ca.SX(2 if not numeric else 1.7))[t - 1])
            continue
        b = st.pop()
        a = st.pop() if t > 20 else None
        key = (t, str(a), str(b))
        if dc["share"] and key in memo:
            st.append(memo[key])
            continue
        if t == 11:
            r = -b
        elif t == 12:
            r = ca.sign(b)
        elif t == 13:
            r = (UN if numeric == 1 else UNSUPPORTED)[(dc["un"] + k) % len(UN if numeric == 1 else UNSUPPORTED)](b) if numeric else b ** 2
        elif t == 21:
            r = a + b
        elif t == 22:
            r = a - b
        elif t == 23:
            r = MULS[(dc["mul"] + k) % len(MULS)](a, b) if numeric else a * b
        else:
            r = ca.fmax(a, b) if t == 24 else ca.fmin(a, b)
        memo[key] = r
        st.append(r)
    return st[0]


def count(f, ops=(ca.OP_SIGN, ca.OP_FMAX, ca.OP_FMIN)):
    F = ca.Function("f", [ca.vertcat(*ca.symvar(f))], [f])
    return sum(F.instruction_id(k) in ops for k in range(F.n_instructions()))


def fn(args, outs):
    return ca.Function("t", args, outs)


def direct(m, x, u, pts):
    """right-hand side of the model object at the points, off its switching surfaces"""
    c = fn([x, u], [ca.vertcat(*m.c)])
    if m.F is not None:
        F = [fn([x, u], [f]) for f in m.F]
        cs = [fn([x, u], [ci]) for ci in m.c]
        S = [np.array(ca.DM(s)) for s in m.S]
    else:
        fx = fn([x, u, ca.vertcat(*m.alpha)], [ca.vertcat(*m.f_x)])
    res = []
    for p in pts:
        v = np.zeros(x.shape[0])
        if m.F is None:
            cv = np.array(c(X(p, x), p[2])).flatten()
            v = np.array(fx(X(p, x), p[2], (cv > 0).astype(float))).flatten() if np.all(cv != 0) else None
        else:
            for Fi, ci, Si in zip(F, cs, S):
                cv = np.array(ci(X(p, x), p[2])).flatten()
                row = [i for i in range(len(Si)) if all(Si[i] * cv >= 0) and np.any(Si[i] != 0) and all(cv != 0)]
                if len(row) != 1 or v is None:
                    v = None
                    continue
                v = v + np.array(Fi(X(p, x), p[2]))[:, row[0]]
        res.append(v)
    return res


def through(m, x, u, pts, mode):
    """right-hand side posed by nosnoc with the weights of the state"""
    o = nos.mkopts(pss_mode=mode, N_stages=1)
    with quiet():
        o.preprocess()
        m.preprocess_model(o)
    c = [fn([x, u], [ci]) for ci in m.c]
    nz = m.z_all.shape[0]
    res = []
    for p in pts:
        w = []
        for i, ci in enumerate(c):
            cv = np.array(ci(X(p, x), p[2])).flatten()
            if mode == "STEP":
                w += list((cv > 0).astype(float))
            else:
                Si = np.array(ca.DM(m.S[i]))
                w += [float(all(Si[r] * cv > 0)) for r in range(len(Si))]
        z = np.zeros(nz)
        z[:len(w)] = w
        res.append(np.array(m.f_x_fun(X(p, x), z, p[2], [], [])).flatten())
    return res


def ints(vals):
    out = []
    for v in vals:
        if v is None:
            out.append([-999999])
        else:
            out.append([int(round(a)) if np.isfinite(a) and abs(a) < 1e9 and a == round(a) else -999998 for a in v])
    return out


def auto(f, x, u, dc):
    import nosnoc
    am = nosnoc.NosnocAutoModel(x=x, x0=np.zeros(x.shape[0]), u=u, f_nonsmooth_ode=f)
    with quiet():
        m = am.reformulate()
        if dc["twice"]:
            m2 = am.reformulate()
            return m2 if dc["twice"] == 2 else m
    return m


def job(items):
    out = []
    for sys_, dc in items:
        ob = dict(kind="rejected", nonsmooth=True, direct=[], stewart=[], step=[], numeric=True)
        x, u = ca.SX.sym("x", len(sys_)), ca.SX.sym("u")
        err = ""
        try:
            memo = {}
            f = ca.vertcat(*[expr(s, x, u, dc, False, memo) for s in sys_])
            ob["nonsmooth"] = count(f) > 0
            # ---- integers
            try:
                m = auto(f, x, u, dc)
            except Exception:
                err = traceback.format_exc()
                m = None
            if m is not None:
                ob["kind"] = "F" if m.F is not None else "f_x"
                ob["direct"] = ints(direct(m, x, u, POINTS))
                csw = any(ca.which_depends(ca.vertcat(*m.c), u))
                if not csw:
                    if m.F is not None:
                        ob["stewart"] = ints(through(auto(f, x, u, dc), x, u, POINTS, "STEWART"))
                    ob["step"] = ints(through(auto(f, x, u, dc), x, u, POINTS, "STEP"))
            # ---- other smooth functions
            if m is not None:
                for how in (1, 2):            # 2: with functions that may be rejected, but not altered
                    g = ca.vertcat(*[expr(s, x, u, dc, how, memo2) for memo2 in [{}] for s in sys_])
                    if count(g) == 0:
                        continue
                    try:
                        mg = auto(g, x, u, dc)
                    except Exception:
                        if how == 1:
                            raise
                        continue
                    G = fn([x, u], [g])
                    pts = POINTS * 0.37 + 0.11 * np.arange(1, 4)
                    for p, v in zip(pts, direct(mg, x, u, pts)):
                        ref = np.array(G(X(p, x), p[2])).flatten()
                        if v is not None and np.all(np.isfinite(ref)) and not np.allclose(v, ref, rtol=1e-9, atol=1e-9):
                            ob["numeric"] = False
                            err = "at %s: %s, expected %s (%s)" % (p, v, ref, g)
        except Exception:
            err = traceback.format_exc()
            ob["kind"] = "rejected"
        out.append((ob, err[-600:]))
    return out


def run(ctx):
    cases = ctx.generate("AutoModel", consts=dict(Tier=ctx.tlevel), invariants=["Preserves", "Emit"])
    q0 = ctx.rng.randrange(1000)
    items = [(c["sys"], dict(share=(q0 + i) % 2 == 0, un=(q0 + i) // 2, mul=(q0 + i) // 3, twice=[0, 0, 1, 2][(q0 + i) // 5 % 4])) for i, c in enumerate(cases)]
    size = 30
    res = [r for ch in nos.pmap(job, [items[i:i + size] for i in range(0, len(items), size)]) for r in ch]
    recs = [dict(c, obs=r[0]) for c, r in zip(cases, res)]
    can = []
    for n, r in enumerate(recs[:: max(1, len(recs) // 40)][:40]):
        r = copy.deepcopy(r)
        o = r["obs"]
        if o["kind"] == "rejected":
            continue
        if n % 3 == 0 or r["reg"] == 0:
            o["numeric"] = False
        elif n % 3 == 1 and o["nonsmooth"]:
            o["kind"] = "rejected"
        else:
            o["direct"] = [[d[0] + 1] + d[1:] for d in o["direct"]]
        can.append(r)
    for k, vs in ctx.validate("AutoModel", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
        ctx.violation("%s: programs %s (%s)%s" % (", ".join(vs), cases[k]["sys"], items[k][1], " " + res[k][1].strip().splitlines()[-1] if res[k][1].strip() else ""),
                      dict(record=recs[k], dc=items[k][1], err=res[k][1], clause=vs))
    kinds = {}
    for r in recs:
        kinds[r["obs"]["kind"]] = kinds.get(r["obs"]["kind"], 0) + 1
    ctx.notes.update(systems=len(recs), kinds=kinds)
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["smooth functions other than polynomials are compared numerically (1e-9) with CasADi's evaluation of the original right-hand side"]
