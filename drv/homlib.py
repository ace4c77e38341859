"""Scripted homotopies: problems with two subsystems (2 and 4 regions) and addressing of weights and multipliers."""
import numpy as np, casadi as ca
import nos
from nos import Prob, mkopts, quiet
U = 4096
S4 = np.array([[1, 1], [1, -1], [-1, 1], [-1, -1]], dtype=float)


def model(pss, extra=False, p=0, x0=None, shift=False, zc=False, nu=1, par="both"):
    import nosnoc
    x, u = ca.SX.sym("x", 3), ca.SX.sym("u", nu)
    c1, c2 = x[0], x[1:]
    one = ca.vertcat(1, 1, 1) * (1 + ca.sum1(u) if extra else 1)
    kw = dict(x=x, x0=np.zeros(3) if x0 is None else np.array(x0, dtype=float))
    if extra:
        z, v, p1, p2 = ca.SX.sym("z", 2), ca.SX.sym("v", 2), ca.SX.sym("p1", 2), ca.SX.sym("p2", 2 if shift else 1)
        kw.update(u=u, z=z, g_z=z - x[:2], v_global=v)
        if par != "global":
            kw.update(p_time_var=p1, p_time_var_val=np.zeros((p, 2)))
        else:
            p1 = ca.SX.zeros(2)
        if par != "time":
            kw.update(p_global=p2, p_global_val=np.zeros(1))
        else:
            p2 = ca.SX.zeros(2)
        if shift:                                          # switching functions depend on both kinds of parameters
            c1, c2 = c1 + p1[0] - p2[1], c2 + ca.vertcat(p2[0], -p1[1])
            if par != "time":
                kw.update(p_global_val=np.zeros(2))
        if zc:                                             # ... and on algebraic variables with two solutions / of the data
            zr = ca.SX.sym("zr", 2)
            c1 = c1 + zr[0] + zr[1]
            kw.update(z=ca.vertcat(z, zr), g_z=ca.vertcat(z - x[:2], zr[0] ** 2 - 4, zr[1] - x[0] - 2 * p1[1] + p2[0]), z0=np.array([0.0, 0.0, -1.0, 8.5]))
    if pss == "FX":
        a1, a2 = ca.SX.sym("a1"), ca.SX.sym("a2", 2)
        return nosnoc.NosnocModel(f_x=[one[:1] * a1, one[1:] * a2], alpha=[a1, a2], c=[c1, c2], **kw)
    return nosnoc.NosnocModel(F=[ca.horzcat(one, -one), ca.horzcat(one, -one, 2 * one, -2 * one)], S=[np.array([[1.0], [-1.0]]), S4], c=[c1, c2], **kw)


def place(P, w, i, j, q, r, val, what, other=None):
    """weight (what = 'w') or multiplier ('m') of entry r of subsystem q at stage j of element i (all from 1).
    STEP: entries 1..nc are (alpha, lambda_n), nc+1..2nc are (1 - alpha, lambda_p)."""
    fe = P.fes[i - 1]
    if P.opts.pss_mode == nos.PSS["STEWART"]:
        w[(fe.th if what == "w" else fe.lam)[j - 1][q - 1][r - 1]] = val
        return
    nc = q
    if what == "w":
        w[fe.al[j - 1][q - 1][(r - 1) % nc]] = val if r <= nc else 1 - val
    else:
        w[(fe.ln if r <= nc else fe.lp)[j - 1][q - 1][(r - 1) % nc]] = val
