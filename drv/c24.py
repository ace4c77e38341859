"""C24: the explicit integrators (spec/Rk4.tla)."""
import traceback, copy
from fractions import Fraction
import numpy as np, casadi as ca
import nos
from nos import quiet


def rhs():
    v = ca.SX.sym("v", 2)
    a, b = v[0], v[1]
    e = dict(decay=[-a, a], rotate=[b, -a], shear=[a + b, b], square=[1, a * a], cube=[1, a ** 3], fourth=[1, a ** 4], product=[1, a * b], logistic=[1, b - b * b])
    fs = {k: ca.Function(k, [v], [ca.vertcat(*w)]) for k, w in e.items()}
    s, c = ca.SX.sym("s"), ca.SX.sym("c", 3)
    return dict(fs, scalar=ca.Function("scalar", [s], [-s]), chain=ca.Function("chain", [c], [ca.vertcat(1, c[0], c[1] - c[2])]))


def rat(v):
    f = Fraction(float(v)).limit_denominator(2 * 10 ** 6)
    return [f.numerator, f.denominator] if abs(float(f) - v) <= 1e-12 * max(1, abs(v)) else [-999999, 1]


def run(ctx):
    import nosnoc
    from nosnoc.rk_utils import rk4_on_timegrid
    cases = ctx.generate("Rk4", consts=dict(Tier=ctx.tlevel), invariants=["Exact", "Taylor", "Emit"])
    fs = rhs()
    recs = []
    for c in cases:
        f = fs[c["cfg"]["sys"]]
        hs = [h[0] / h[1] for h in c["hs"]]
        x0 = np.array([s[0] / s[1] for s in c["start"]])
        keep = x0.copy()
        try:
            with quiet():
                if c["cfg"]["fn"] == "rk4":
                    X, t = nosnoc.rk4(f, x0, sum(hs), len(hs))
                else:
                    X, t = rk4_on_timegrid(f, x0, np.array(hs)), []
        except Exception:
            ctx.violation("integration failed: %s: %s" % (c, traceback.format_exc().strip().splitlines()[-1]), dict(case=c, err=traceback.format_exc()))
            continue
        if not np.array_equal(keep, x0):
            ctx.violation("initial value modified: %s" % c, dict(case=c))
        recs.append(dict(c, obs=dict(path=[[rat(v) for v in np.array(r, dtype=float).flatten()] for r in X], t=[rat(v) for v in t])))
    if recs:
        can = []
        for n, r in enumerate(recs[:: max(1, len(recs) // 6)][:6]):
            r = copy.deepcopy(r)
            r["obs"]["path"][n % 2][0] = [r["obs"]["path"][n % 2][0][0] + 1, 7]
            can.append(r)
        for k, vs in ctx.validate("Rk4", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s from %s steps %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["start"], recs[k]["hs"]), dict(record=recs[k], clause=vs))
    ctx.notes.update(trajectories=len(recs))
    for c in cases[:: max(1, len(cases) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["values are compared as rationals with denominators up to two million"]
