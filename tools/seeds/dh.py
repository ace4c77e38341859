"""Helpers for the demonstrations: scripted NLP solver and small models. Run with cwd = repository."""
import os, sys, io, contextlib, warnings
os.environ["PYTHONBREAKPOINT"] = "0"
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np
import casadi as ca

real_nlpsol = ca.nlpsol


class Fake:
    def __init__(self, name, plugin, nlp, opts=None):
        self.nlp, self.opts, self.calls, self.script, self.st = nlp, opts, [], None, {}
        self.ng = nlp["g"].numel()

    def __call__(self, **kw):
        c = {k: np.array(ca.DM(v)).astype(float).flatten().copy() for k, v in kw.items()}
        i = len(self.calls)
        self.calls.append(c)
        a = (self.script(i, c) if self.script else None) or {}
        self.st = dict(return_status=a.get("status", "Solve_Succeeded"), iter_count=a.get("iters", i + 1),
                       t_proc_total=a.get("time", 0.1 * (i + 1)), t_wall_total=0.0)
        return dict(x=ca.DM(np.array(a.get("x", c["x0"]), dtype=float)), f=ca.DM(a.get("f", 1.0)), g=ca.DM.zeros(self.ng))

    def stats(self):
        return dict(self.st)


def build(opts, model, ocp=None, script=None):
    made = []

    def fac(name, plugin, nlp, o=None):
        made.append(Fake(name, plugin, nlp, o))
        return made[-1]
    ca.nlpsol = fac
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            s = nosnoc.NosnocSolver(opts, model, ocp)
    finally:
        ca.nlpsol = real_nlpsol
    made[-1].script = script
    return s, made[-1]


def solve(s):
    with contextlib.redirect_stdout(io.StringIO()):
        return s.solve()


import nosnoc
SX = ca.SX


def relay(u=False, ptv=False, name="m", **kw):
    """x' = -sign(x)-like in one dimension, optional control and time-varying parameter."""
    x = SX.sym("x")
    a = {}
    f1, f2 = SX(-1), SX(1)
    if u:
        U = SX.sym("u")
        a["u"] = U
        f1, f2 = f1 + U, f2 + U
    if ptv:
        P = SX.sym("ptv")
        a["p_time_var"] = P
    a.update(kw)
    return nosnoc.NosnocModel(x=x, x0=a.pop("x0", np.array([1.0])), F=[ca.horzcat(f1, f2)], c=[x],
                              S=[np.array([[1], [-1]])], name=name, **a)


def gfun(prob):
    return ca.Function("g", [prob.w, prob.p], [prob.g])


def ffun(prob):
    return ca.Function("f", [prob.w, prob.p], [prob.cost])


def mixed(prob, i, j, w=None, p=None):
    """largest |d2 g_k / dw_i dw_j| over the constraints k."""
    wi = prob.w[i]
    gi = ca.jacobian(prob.g, wi)
    gij = ca.jacobian(gi, prob.w[j])
    f = ca.Function("h", [prob.w, prob.p], [gij])
    w = np.full(prob.w.numel(), 0.37) if w is None else w
    p = np.full(prob.p.numel(), 0.41) if p is None else p
    return float(np.max(np.abs(f(w, p).full())))


def check(ok, msg=""):
    if not ok:
        print("FAIL", msg)
        sys.exit(1)
