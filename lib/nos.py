"""Binding of the specification to nosnoc: scripted NLP solver, NLP observation, semantic access to the primal vector.

Everything is observed at the boundary between nosnoc and CasADi: casadi.nlpsol is replaced by a factory that records the
NLP (f, g, x, p) and every call (x0, lbx, ubx, lbg, ubg, p), and answers from a script. Primal vectors are addressed through
the public index lists of the problem only.
"""
import os, sys, io, contextlib, warnings
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONBREAKPOINT"] = "0"
sys.dont_write_bytecode = True
REPO = os.environ.get("NOSNOC_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np
import casadi as ca

_real_nlpsol = ca.nlpsol
_factory = [None]


def _nlpsol(*args, **kw):
    if _factory[0] is None:
        return _real_nlpsol(*args, **kw)
    return _factory[0](*args, **kw)


ca.nlpsol = _nlpsol
warnings.simplefilter("ignore")
import nosnoc
warnings.simplefilter("ignore")
assert os.path.realpath(nosnoc.__file__).startswith(os.path.realpath(REPO)), nosnoc.__file__
from nosnoc import (MpccMode, IrkSchemes, StepEquilibrationMode, CrossComplementarityMode, IrkRepresentation, PssMode,
                    HomotopyUpdateRule, InitializationStrategy, ConstraintHandling, Status, SpeedOfTimeVariableMode)

ORDER = ["x0", "p", "lbx", "ubx", "lbg", "ubg", "lam_x0", "lam_g0"]


class TooManyCalls(RuntimeError):
    pass


class FakeNlp:
    """Scripted NLP solver. script: callable(call_index, call) -> dict(x=, f=, status=, iters=, time=, g=) or None (echo)."""

    def __init__(self, name, plugin, nlp, opts=None):
        self.name_, self.plugin, self.nlp, self.opts = name, plugin, dict(nlp), opts or {}
        self.calls = []
        self.limit = 100000
        self.script = None
        self._stats = {}
        self.nx = int(nlp["x"].shape[0])
        g = nlp.get("g", ca.SX(0, 1))
        self.ng = int(g.numel())
        self.np_ = int(nlp["p"].numel()) if "p" in nlp else 0

    def _vec(self, kw, k, n, default):
        v = kw.get(k, default)
        v = np.array(ca.DM(v) if not isinstance(v, np.ndarray) else v, dtype=float).flatten()
        if v.size == 1 and n != 1:
            v = np.full(n, v[0])
        if v.size == 0 and n != 0:
            v = np.full(n, default, dtype=float)
        return v.copy()

    def __call__(self, *args, **kw):
        kw = dict(kw)
        for k, a in zip(ORDER, args):
            kw[k] = a
        call = dict(x0=self._vec(kw, "x0", self.nx, 0.0), p=self._vec(kw, "p", self.np_, 0.0),
                    lbx=self._vec(kw, "lbx", self.nx, -np.inf), ubx=self._vec(kw, "ubx", self.nx, np.inf),
                    lbg=self._vec(kw, "lbg", self.ng, -np.inf), ubg=self._vec(kw, "ubg", self.ng, np.inf))
        i = len(self.calls)
        if i >= self.limit:
            raise TooManyCalls("more than %d NLPs posed" % self.limit)
        self.calls.append(call)
        ans = self.script(i, call) if self.script else None
        ans = ans or {}
        x = np.array(ans.get("x", call["x0"]), dtype=float)
        self._stats = {"return_status": ans.get("status", "Solve_Succeeded"), "iter_count": ans.get("iters", 1),
                       "t_proc_total": ans.get("time", 0.0), "t_wall_total": ans.get("time", 0.0),
                       "success": ans.get("status", "Solve_Succeeded") in ("Solve_Succeeded", "Solved_To_Acceptable_Level")}
        return {"x": ca.DM(x), "f": ca.DM(float(ans.get("f", 0.0))), "g": ca.DM(ans.get("g", np.zeros(self.ng))),
                "lam_x": ca.DM.zeros(self.nx), "lam_g": ca.DM.zeros(self.ng), "lam_p": ca.DM.zeros(self.np_)}

    def stats(self):
        return dict(self._stats)


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield buf


@contextlib.contextmanager
def recording():
    """All solvers constructed inside get FakeNlp objects, collected in the returned list."""
    made = []

    def fac(name, plugin, nlp, opts=None):
        f = FakeNlp(name, plugin, nlp, opts)
        made.append(f)
        return f
    old = _factory[0]
    _factory[0] = fac
    try:
        yield made
    finally:
        _factory[0] = old


def build(opts, model, ocp=None, script=None):
    """NosnocSolver on a scripted NLP solver; returns (solver, fake)."""
    with quiet(), recording() as made:
        s = nosnoc.NosnocSolver(opts, model, ocp)
    made[-1].script = script
    return s, made[-1]


def flat(L):
    return [a for i in L for a in flat(i)] if isinstance(L, (list, tuple)) else [int(L)]


SCHEMES = {"RADAU": IrkSchemes.RADAU_IIA, "GAUSS": IrkSchemes.GAUSS_LEGENDRE}
REPS = {"INTEGRAL": IrkRepresentation.INTEGRAL, "DIFFERENTIAL": IrkRepresentation.DIFFERENTIAL,
        "LIFT": IrkRepresentation.DIFFERENTIAL_LIFT_X}
CROSS = {"ALL": CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER,
         "SUM": CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA}
PSS = {"STEWART": PssMode.STEWART, "STEP": PssMode.STEP}


def mkopts(**kw):
    """Options from plain values; enums by name."""
    o = nosnoc.NosnocOpts()
    tabs = dict(irk_scheme=SCHEMES, irk_representation=REPS, cross_comp_mode=CROSS, pss_mode=PSS)
    enums = dict(mpcc_mode=MpccMode, step_equilibration=StepEquilibrationMode, initialization_strategy=InitializationStrategy,
                 homotopy_update_rule=HomotopyUpdateRule, constraint_handling=ConstraintHandling,
                 speed_of_time_variables=SpeedOfTimeVariableMode)
    for k, v in kw.items():
        if k in tabs and isinstance(v, str):
            v = tabs[k][v]
        elif k in enums and isinstance(v, str):
            v = enums[k][v]
        if k == "Nfe_list":
            v = list(v)
        setattr(o, k, v)
    return o


_nodes = {}


def nodes(scheme, n_s):
    """Reference nodes/weights/derivative matrix of the collocation method (independent of nosnoc)."""
    if (scheme, n_s) not in _nodes:
        from numpy.polynomial import legendre, polynomial as P
        if scheme == "GAUSS":
            c = (legendre.leggauss(n_s)[0] + 1) / 2
        else:
            # right Radau: roots of P_{s}-P_{s-1} on [-1,1]
            a = np.zeros(n_s + 1); a[n_s] = 1; a[n_s - 1] = -1
            c = (np.sort(np.real(legendre.legroots(a))) + 1) / 2
            c[-1] = 1.0
            # Newton polish
            for i in range(n_s - 1):
                for _ in range(3):
                    t = 2 * c[i] - 1
                    c[i] -= legendre.legval(t, a) / legendre.legval(t, legendre.legder(a)) / 2
        V = np.vander(c, n_s, increasing=True)          # V[j,m] = c_j^m
        m = np.arange(n_s)
        # integrals: int_0^{c_i} t^m = c_i^{m+1}/(m+1)
        A = np.linalg.solve(V.T, (c[:, None] ** (m + 1) / (m + 1)).T).T
        b = np.linalg.solve(V.T, 1.0 / (m + 1))
        _nodes[(scheme, n_s)] = (c, A, b)
    return _nodes[(scheme, n_s)]


class FE:
    """Indices of one finite element in the primal vector."""
    pass


class Prob:
    """A built problem with the NLP nosnoc posed and the last call's data."""

    def __init__(self, opts, model, ocp=None, solve=True):
        self.opts, self.model, self.ocp = opts, model, ocp
        self.solver, self.fake = build(opts, model, ocp)
        self.nlp = self.fake.nlp
        self.nw = self.fake.nx
        P = self.P = self.solver.problem
        self.fg = ca.Function("fg", [self.nlp["x"], self.nlp["p"]], [self.nlp["f"], ca.vec(self.nlp["g"])])
        if solve:
            self.repose()
        # layout
        self.fes = []
        n_s = opts.n_s
        it_h = iter(flat(P.ind_h))
        self.rep = [k for k, v in REPS.items() if v == opts.irk_representation][0]
        self.scheme = [k for k, v in SCHEMES.items() if v == opts.irk_scheme][0]
        for k in range(opts.N_stages):
            for e in range(len(P.ind_x[k])):
                fe = FE()
                fe.k, fe.e = k, e
                ix = P.ind_x[k][e]
                if self.rep == "DIFFERENTIAL":
                    fe.xs, fe.xe = None, np.array(ix[-1], dtype=int)
                else:
                    fe.xs, fe.xe = [np.array(i, dtype=int) for i in ix[:n_s]], np.array(ix[-1], dtype=int)
                iv = P.ind_v[k][e]
                fe.v = [np.array(i, dtype=int) for i in iv] if self.rep != "INTEGRAL" else None
                for nm, lst in (("th", P.ind_theta), ("lam", P.ind_lam), ("mu", P.ind_mu), ("al", P.ind_alpha),
                                ("ln", P.ind_lambda_n), ("lp", P.ind_lambda_p)):
                    setattr(fe, nm, [[np.array(s, dtype=int) for s in st] for st in lst[k][e]])
                fe.z = [np.array(i, dtype=int) for i in P.ind_z[k][e]]
                fe.h = next(it_h) if opts.use_fesd else None
                self.fes.append(fe)
        self.u = [np.array(i, dtype=int) for i in P.ind_u]
        self.sot = [int(flat(i)[0]) for i in P.ind_sot] if P.ind_sot else []
        self.vg = np.array(flat(P.ind_v_global), dtype=int)
        self.elastic = np.array(flat(P.ind_elastic), dtype=int)
        self.boolean = np.array(sorted(flat(P.ind_bool)), dtype=int)
        self.tau, self.A, self.b = nodes(self.scheme, n_s)

    def repose(self):
        """Runs solve() (answered by the scripted solver) and keeps the data of its first NLP call."""
        n = len(self.fake.calls)
        with quiet():
            self.solver.solve()
        c = self.fake.calls[n]
        self.x0, self.p, self.lbx, self.ubx, self.lbg, self.ubg = (c[k] for k in ("x0", "p", "lbx", "ubx", "lbg", "ubg"))
        return c

    def eval(self, W):
        """f (n,), g (n, ng) at the rows of W."""
        W = np.atleast_2d(W)
        F, G = [], []
        for i in range(0, len(W), 4096):
            f, g = self.fg(W[i:i + 4096].T, self.p)
            F.append(np.array(f).reshape(-1))
            G.append(np.array(g).reshape(self.fake.ng, f.size2()).T)
        return np.concatenate(F), np.concatenate(G)

    def resid(self, W):
        """Largest violation of bounds and constraints for each row of W."""
        W = np.atleast_2d(W)
        _, G = self.eval(W)
        r = np.maximum(np.max(np.maximum(self.lbx - W, W - self.ubx), axis=1), 0.0)
        if G.shape[1]:
            r = np.maximum(r, np.max(np.maximum(self.lbg - G, G - self.ubg), axis=1))
        return np.where(np.isnan(r), np.inf, r)

    def base(self, n):
        """n copies of the initial guess."""
        return np.tile(self.x0, (n, 1))

    def put_x(self, W, fe, Xs, Xe):
        """stage states Xs: list of (n, nx), end state (n, nx)."""
        if fe.xs is not None:
            for j, X in enumerate(Xs):
                W[:, fe.xs[j]] = X
        W[:, fe.xe] = Xe

    def put_v(self, W, fe, Vs):
        if fe.v is not None:
            for j, V in enumerate(Vs):
                W[:, fe.v[j]] = V

    def bools(self, W):
        """Chooses each binary so that its (separable) constraints are least violated."""
        if len(self.boolean) == 0:
            return W
        J = ca.Function("J", [self.nlp["x"], self.nlp["p"]], [ca.jacobian(self.nlp["g"], self.nlp["x"])]).sparsity_out(0)
        rows, cols = J.get_triplet()
        W = W.copy()
        W[:, self.boolean] = 0
        viol = []
        for val in (0.0, 1.0):
            W[:, self.boolean] = val
            _, G = self.eval(W)
            viol.append(np.maximum(self.lbg - G, G - self.ubg))
        col_rows = {}
        for r, c in zip(rows, cols):
            col_rows.setdefault(c, []).append(r)
        for b in self.boolean:
            rr = col_rows.get(b, [])
            if rr:
                v0, v1 = viol[0][:, rr].max(axis=1), viol[1][:, rr].max(axis=1)
                W[:, b] = np.where(v1 < v0, 1.0, 0.0)
        return W


def step_mult(c):
    """natural STEP multipliers (lambda_n, lambda_p) of switching values c"""
    return np.maximum(-c, 0.0), np.maximum(c, 0.0)


def stewart_mult(g):
    """natural Stewart multipliers (lambda, mu) of indicator values g (n, nf)"""
    m = g.min(axis=1, keepdims=True)
    return g - m, -m


def pmap(fn, items, procs=8):
    """Parallel map in forked workers (results must be picklable). A dead worker raises instead of hanging."""
    items = list(items)
    if len(items) <= 1 or procs <= 1:
        return [fn(i) for i in items]
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(min(procs, len(items)), mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(fn, items))
