"""Planted bugs: written from the property texts and the code."""
SEEDS = []


def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo))


S("c01-lambda00-min", "C01", "two decoupled subsystems whose smallest indicators differ, Stewart representation",
  "the initial multipliers are shifted by the minimum over all subsystems instead of the minimum of their own subsystem",
  [("model.py", "g_Stewart_list[ii] - ca.mmin(g_Stewart_list[ii]))", "g_Stewart_list[ii] - ca.mmin(g_Stewart))")],
  """
from dh import *
x = SX.sym("x", 2)
F = [ca.horzcat(ca.vertcat(-1, 0), ca.vertcat(1, 0)), ca.horzcat(ca.vertcat(0, -1), ca.vertcat(0, 1))]
m = nosnoc.NosnocModel(x=x, x0=np.array([2.0, 5.0]), F=F, c=[x[0], x[1]], S=[np.array([[1], [-1]])] * 2)
s, f = build(nosnoc.NosnocOpts(), m)
l = m.compute_lambda00(s.opts)
check(np.allclose(l, [0, 4, 0, 10]), l)
""")

S("c01-step-sparse-s", "C01", "Step representation with a region that ignores one of the switching functions (zero entry in S)",
  "the weight of a region that does not depend on a switching function is halved for every ignored function",
  [("model.py", """                        # create multiafine term
                        if S_temp[j, k] != 0:
                            upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                           S_temp[j, k] * alpha[ii][k])
""", """                        # create multiafine term
                        upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                       S_temp[j, k] * alpha[ii][k])
""")],
  """
from dh import *
x = SX.sym("x", 2)
F = [ca.horzcat(ca.vertcat(1, 0), ca.vertcat(2, 0), ca.vertcat(4, 0))]
m = nosnoc.NosnocModel(x=x, x0=np.array([-1.0, 5.0]), F=F, c=[x], S=[np.array([[1, 1], [1, -1], [-1, 0]])])
o = nosnoc.NosnocOpts(pss_mode=nosnoc.PssMode.STEP)
s, f = build(o, m)
# alpha = (0, 1): third region
z = np.array([0, 1, 1, 0, 0, 5.0])
v = m.f_x_fun(np.array([-1.0, 5.0]), z, [], [], []).full().flatten()
check(np.allclose(v, [4, 0]), v)
""")

S("c02-ctrl-boundary", "C02", "several control stages, cross complementarity mode COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER",
  "the weights of the first element of each later control stage are not complementary to the multipliers at the end of the previous stage",
  [("problem.py", """                # cross comp with prev_fe
                self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                            sigma_p, tau, s_elastic)
""", """                # cross comp with prev_fe
                if self.fe_idx > 0 or self.ctrl_idx == 0:
                    self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                                sigma_p, tau, s_elastic)
""")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_stages=2, N_finite_elements=2,
    cross_comp_mode=nosnoc.CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER)
s, f = build(o, relay(u=True))
p = s.problem
for j in range(o.n_s):
    th = p.ind_theta[1][0][j][0]
    la = p.ind_lam[0][1][-1][0]
    for r in range(2):
        check(mixed(p, th[r], la[r]) > 1e-6, (j, r))
""")

S("c02-step-lambda-p", "C02", "Step representation, SUM mode, a step variable at one at an inner stage while lambda_p of the previous element is positive",
  "Lambda() of the previous element is taken without its lambda_p part order: lambda_n and lambda_p of the previous element are exchanged",
  [("problem.py", """        Lambdas += [self.prev_fe.Lambda(stage=-1, sys=sys)]
""", """        if self.prev_fe.ind_lam[-1] and flatten(self.prev_fe.ind_lam[-1]):
            Lambdas += [self.prev_fe.Lambda(stage=-1, sys=sys)]
        else:
            Lambdas += [ca.vertcat(self.prev_fe.w[flatten(self.prev_fe.ind_lambda_p[-1][sys])],
                                   self.prev_fe.w[flatten(self.prev_fe.ind_lambda_n[-1][sys])])]
""")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_finite_elements=2, pss_mode=nosnoc.PssMode.STEP)
s, f = build(o, relay())
p = s.problem
# feasible behaviour: alpha = 1 in the second element, lambda_p > 0 at the end of the first one
al = p.ind_alpha[0][1][0][0][0]
lp, ln = p.ind_lambda_p[0][0][-1][0][0], p.ind_lambda_n[0][0][-1][0][0]
g = gfun(p)
def comp(a, vn, vp):
    w = np.zeros(p.w.numel()); w[al] = a; w[ln] = vn; w[lp] = vp
    for st in p.ind_alpha[0]:
        for k in st:
            w[k[0][0]] = a
    v = g(w, np.zeros(p.p.numel())).full().flatten()
    i = sum(p.ind_comp[0][1], [])
    return np.max(v[i])
check(comp(1.0, 0.0, 2.0) <= 1e-9 and comp(1.0, 2.0, 0.0) > 0.1, "cross complementarity of the step variables")
""")

S("c03-boundary-state", "C03", "Gauss-Legendre FESD, where the element end is not a stage",
  "the boundary multipliers are tied to the switching function at the last stage instead of at the end of the element",
  [("problem.py", "                model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))\n",
    "                model.g_z_switching_fun(X_fe[opts.n_s - 1], self.rk_stage_z(-1), Uk, self.p))\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(irk_scheme=nosnoc.IrkSchemes.GAUSS_LEGENDRE, N_finite_elements=2, n_s=2)
s, f = build(o, relay())
p = s.problem
lb = p.ind_lam[0][0][-1][0][0]
mb = p.ind_mu[0][0][-1][0][0]
xe = p.ind_x[0][0][-1][0]
J = ca.Function("J", [p.w, p.p], [ca.jacobian(p.g, p.w)])(np.full(p.w.numel(), .3), np.full(p.p.numel(), .2)).full()
rows = [k for k in range(J.shape[0]) if J[k, lb] != 0 and J[k, mb] != 0]
check(len(rows) == 1 and abs(J[rows[0], xe]) > 1e-9, rows)
""")

S("c03-first-stage-control", "C03", "several control stages and DIFFERENTIAL_LIFT_X with FESD off is not needed: right boundary of Gauss elements in later control stages with time varying parameters",
  "the switching condition at the boundary of an element uses the parameters of the previous element's control stage",
  [("problem.py", """        self.p = model.p_ctrl_stages[ctrl_idx]

        dims""", """        self.p = model.p_ctrl_stages[ctrl_idx if fe_idx > 0 or prev_fe is None else max(ctrl_idx - 1, 0)]
        if opts.Nfe_list[ctrl_idx] == opts.Nfe_list[0]:
            self.p = model.p_ctrl_stages[ctrl_idx]

        dims""")],
  """
from dh import *
x = SX.sym("x"); P = SX.sym("P")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1 + P, 1 + P)], c=[x], S=[np.array([[1], [-1]])], p_time_var=P,
                       p_time_var_val=np.array([[1.0], [2.0]]))
o = nosnoc.NosnocOpts(N_stages=2, Nfe_list=[1, 2])
s, f = build(o, m)
p = s.problem
# the first element of the second stage must depend on its own parameter only
J = ca.Function("J", [p.w, p.p], [ca.jacobian(p.g, p.p[:2]), ca.jacobian(p.g, p.w)])
Jp, Jw = [a.full() for a in J(np.full(p.w.numel(), .3), np.full(p.p.numel(), .2))]
xi = p.ind_x[1][0][0][0]
rows = [k for k in range(Jw.shape[0]) if Jw[k, xi] != 0 and np.any(Jp[k] != 0)]
check(rows and all(Jp[k, 0] == 0 for k in rows), rows)
""")

S("c04-butcher-digit", "C04", "Radau IIA with seven stages in a differential representation",
  "one coefficient of the Butcher tableau has two digits exchanged",
  None, """
from dh import *
from nosnoc.rk_utils import generate_butcher_tableu
for sch in nosnoc.IrkSchemes:
    for n in range(1, 10):
        A, b, c, order = generate_butcher_tableu(n, sch)
        for q in range(1, order + 1):
            check(abs(b @ c**(q - 1) - 1 / q) < 1e-9, (sch, n, q))
        for q in range(1, n + 1):
            check(np.max(np.abs(A @ c**(q - 1) - c**q / q)) < 1e-9, (sch, n, q))
""")

S("c05-ragged-nominal", "C05", "control stages with different numbers of finite elements",
  "the nominal element length is computed from the number of elements of the first control stage",
  [("problem.py", "        h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[ctrl_idx])])\n",
    "        h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[0])])\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_stages=2, Nfe_list=[1, 4], terminal_time=2.0, gamma_h=0.5)
s, f = build(o, relay(u=True))
p = s.problem
h = p.ind_h
check(np.allclose(p.ubw[h], [1.5] + 4 * [.375]) and np.allclose(p.lbw[h], [.5] + 4 * [.125]), p.ubw[h])
""")

S("c05-clock-offset", "C05", "time freezing with an initial clock state different from zero and more than one control stage",
  "the prescribed clock of later control stages counts the initial clock value several times",
  [("problem.py", "                t_now = opts.terminal_time / opts.N_stages * (ctrl_idx + 1) + t0\n",
    "                t_now = (opts.terminal_time / opts.N_stages + t0) * (ctrl_idx + 1)\n")],
  """
from dh import *
x = SX.sym("x", 2)
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0, 0.5]), F=[ca.horzcat(ca.vertcat(-1, 1), ca.vertcat(1, 1))], c=[x[0]],
                       S=[np.array([[1], [-1]])], t_var=x[1])
o = nosnoc.NosnocOpts(N_stages=3, N_finite_elements=1, terminal_time=3.0, time_freezing=True)
s, f = build(o, m)
p = s.problem
w = np.zeros(p.w.numel())
for k in range(3):
    for ind in p.ind_x[k][0]:
        w[ind[1]] = 0.5 + k + 1
pv = np.zeros(p.p.numel()); pv[-2:] = [1.0, .5]
g = gfun(p)(w, pv).full().flatten()
tol = o.time_freezing_tolerance
rows = [i for i in range(len(g)) if p.lbg[i] == -tol and p.ubg[i] == tol]
check(len(rows) == 3 and np.all(np.abs(g[rows]) < tol), g[rows])
""")

S("c06-terminal-param", "C06", "a terminal cost depending on a time varying parameter, several control stages",
  "the terminal cost is evaluated with the parameters of the first control stage",
  [("problem.py", "        self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global)\n",
    "        self.cost += ocp.f_q_T_fun(x_terminal, self.model.p_ctrl_stages[0], model.v_global)\n")],
  """
from dh import *
x = SX.sym("x"); P = SX.sym("P")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 1)], c=[x], S=[np.array([[1], [-1]])], p_time_var=P,
                       p_time_var_val=np.array([[1.0], [2.0]]))
s, f = build(nosnoc.NosnocOpts(N_stages=2, rho_h=0.0), m, nosnoc.NosnocOcp(f_terminal=P * x))
p = s.problem
w = np.ones(p.w.numel()); pv = np.zeros(p.p.numel()); pv[:2] = [3, 7]
v = float(ffun(p)(w, pv))
check(abs(v - 7) < 1e-9, v)
""")

S("c06-elastic-order", "C06", "elastic mode with objective_scaling_direct = False and a terminal cost",
  "the terminal cost is added after the objective was scaled and is therefore not weighted by sigma",
  [("problem.py", """        self.add_constraint(g_terminal)
        self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global)

""", """        self.add_constraint(g_terminal)

"""), ("problem.py", """                self.cost = sigma_p * self.cost + s_elastic

""", """                self.cost = sigma_p * self.cost + s_elastic
        self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global)

""")],
  """
from dh import *
s, f = build(nosnoc.NosnocOpts(mpcc_mode=nosnoc.MpccMode.ELASTIC_INEQ, objective_scaling_direct=False, rho_h=0.0), relay(),
             nosnoc.NosnocOcp(f_terminal=SX(5.0)))
p = s.problem
w = np.zeros(p.w.numel()); w[sum(p.ind_elastic, [])] = 0.25
pv = np.zeros(p.p.numel()); pv[0] = 0.1
v = float(ffun(p)(w, pv))
check(abs(v - 0.75) < 1e-9, v)
""")

S("c07-end-state-bounds", "C07", "a state bound active at the end of an element with Gauss-Legendre or the DIFFERENTIAL representation",
  "the element end states are only bounded in the last element of each control stage",
  [("problem.py", """            self.add_variable(ca.SX.sym(f'X_end_{ctrl_idx}_{fe_idx+1}', dims.n_x), self.ind_x,
                              ocp.lbx, ocp.ubx, model.x0, -1)
""", """            last = fe_idx == opts.Nfe_list[ctrl_idx] - 1
            self.add_variable(ca.SX.sym(f'X_end_{ctrl_idx}_{fe_idx+1}', dims.n_x), self.ind_x,
                              ocp.lbx if last else -np.inf * np.ones(dims.n_x),
                              ocp.ubx if last else np.inf * np.ones(dims.n_x), model.x0, -1)
""")],
  """
from dh import *
for kw in [dict(irk_scheme=nosnoc.IrkSchemes.GAUSS_LEGENDRE), dict(irk_representation=nosnoc.IrkRepresentation.DIFFERENTIAL)]:
    s, f = build(nosnoc.NosnocOpts(N_finite_elements=3, **kw), relay(), nosnoc.NosnocOcp(lbx=np.array([-2.0]), ubx=np.array([3.0])))
    p = s.problem
    for fe in p.ind_x[0]:
        for ind in fe:
            check(p.lbw[ind[0]] == -2 and p.ubw[ind[0]] == 3, kw)
""")

S("c07-path-stage", "C07", "g_path_at_stg with Gauss-Legendre: path constraint violated only at an inner stage",
  "with g_path_at_stg the first stage of every element is skipped (taken for the left boundary)",
  [("problem.py", "                gqj = ocp.g_path_fun(X_fe[j], Uk,", "                gqj = ocp.g_path_fun(X_fe[j if j > 0 or self.fe_idx == 0 else -1], Uk,")],
  """
from dh import *
x = SX.sym("x")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 1)], c=[x], S=[np.array([[1], [-1]])])
o = nosnoc.NosnocOpts(N_finite_elements=2, n_s=3, g_path_at_stg=True)
s, f = build(o, m, nosnoc.NosnocOcp(g_path=x**3, lbg=np.array([-5.0]), ubg=np.array([6.0])))
p = s.problem
rows = [i for i in range(len(p.lbg)) if p.lbg[i] == -5 and p.ubg[i] == 6]
for fe in p.ind_x[0]:
    for ind in fe:
        w = np.zeros(p.w.numel()); w[ind[0]] = 2.0
        g = gfun(p)(w, np.zeros(p.p.numel())).full().flatten()[rows]
        check(np.max(g) == 8, ind)
""")

S("c08-stage-z", "C08", "a complementarity pair depending on user algebraic variables, checked at an inner stage",
  "user complementarity pairs are evaluated with the algebraic variables of the last stage of the element",
  [("problem.py", """            z = self.rk_stage_z(j)
            stage_comps""", """            z = self.rk_stage_z(opts.n_s - 1)
            stage_comps""")],
  """
from dh import *
x = SX.sym("x"); z = SX.sym("z")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 1)], c=[x], S=[np.array([[1], [-1]])], z=z, g_z=z - x,
                       z0=np.array([1.0]))
s, f = build(nosnoc.NosnocOpts(N_finite_elements=2, n_s=2), m, nosnoc.NosnocOcp(g_path_comp=ca.horzcat(x, z)))
p = s.problem
for e in range(2):
    for j in range(2):
        check(mixed(p, p.ind_x[0][e][j][0], p.ind_z[0][e][j][0]) > 1e-6, (e, j))
""")

S("c08-depends-first", "C08", "a complementarity pair whose first expression depends on a time varying parameter only through the second entry; parameter depending pairs in later control stages",
  "pairs that depend only on parameters and controls are posed with the parameters of the first control stage",
  [("problem.py", "            ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)\n",
    "            ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.model.p_ctrl_stages[0], self.model.v_global)\n")],
  """
from dh import *
x = SX.sym("x"); u = SX.sym("u"); P = SX.sym("P")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1 + u, 1 + u)], c=[x], S=[np.array([[1], [-1]])], u=u, p_time_var=P,
                       p_time_var_val=np.array([[1.0], [2.0]]))
s, f = build(nosnoc.NosnocOpts(N_stages=2, N_finite_elements=2), m, nosnoc.NosnocOcp(g_path_comp=ca.horzcat(u, P)))
p = s.problem
h = ca.Function("h", [p.w, p.p], [ca.jacobian(ca.jacobian(p.g, p.w[p.ind_u[1][0]]), p.p[1])])
check(np.max(np.abs(h(np.ones(p.w.numel()), np.ones(p.p.numel())).full())) > 0.5)
""")

S("c09-two-sided", "C09", "ELASTIC_TWO_SIDED with a user pair whose product is negative",
  "the lower side of the two sided elastic relaxation uses the wrong sign and is implied by the upper one",
  [("problem.py", "                g + s_elastic * np.ones((n, 1))\n", "                s_elastic * np.ones((n, 1)) - g\n")],
  """
from dh import *
x = SX.sym("x"); u = SX.sym("u", 2)
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1 + u[0], 1 + u[1])], c=[x], S=[np.array([[1], [-1]])], u=u)
s, f = build(nosnoc.NosnocOpts(N_finite_elements=1, mpcc_mode=nosnoc.MpccMode.ELASTIC_TWO_SIDED), m,
             nosnoc.NosnocOcp(g_path_comp=ca.horzcat(u[0], u[1])))
p = s.problem
J = ca.Function("J", [p.w, p.p], [p.g, ca.hessian(ca.sum1(p.g), p.w)[0]])
rows = [k for k in range(p.g.numel()) if ca.depends_on(p.g[k], p.w[p.ind_u[0][0]]) and ca.depends_on(p.g[k], p.w[p.ind_elastic[0][0]])]
def ok(a, b, e):
    w = np.zeros(p.w.numel()); w[p.ind_u[0]] = [a, b]; w[p.ind_elastic[0]] = e
    g = gfun(p)(w, np.zeros(p.p.numel())).full().flatten()
    return all(p.lbg[k] - 1e-9 <= g[k] <= p.ubg[k] + 1e-9 for k in rows)
check(ok(1, .5, 1) and ok(1, -.5, 1) and not ok(1, 2, 1) and not ok(1, -2, 1))
""")

S("c09-sum-relax", "C09", "SUM cross complementarity with several multipliers in one product and a positive relaxation parameter",
  "in SCHOLTES_INEQ mode the relaxation of a summed complementarity is multiplied with the number of summands",
  [("problem.py", "            g_comp = ca.diag(casadi_sum_list([x_i for x_i in x])) @ y - sigma\n",
    "            g_comp = ca.diag(casadi_sum_list([x_i for x_i in x])) @ y - len(x) * sigma\n")],
  """
from dh import *
s, f = build(nosnoc.NosnocOpts(N_finite_elements=1, n_s=2), relay())
p = s.problem
th = p.ind_theta[0][0][0][0][0]; la = p.ind_lam[0][0][1][0][0]
rows = sum(p.ind_comp[0][0], [])
w = np.zeros(p.w.numel()); w[th] = 1.0; w[la] = 1.5
pv = np.zeros(p.p.numel()); pv[0] = 1.0
g = gfun(p)(w, pv).full().flatten()
check(any(g[k] > p.ubg[k] + 1e-9 for k in rows), g[rows])
""")

S("c10-elastic-min", "C10", "s_elastic_min different from zero", "the lower bound of the elastic slack ignores the option s_elastic_min",
  [("problem.py", "                              opts.s_elastic_min * np.ones(1),\n", "                              min(opts.s_elastic_min, 0.0) * np.ones(1),\n")],
  """
from dh import *
s, f = build(nosnoc.NosnocOpts(mpcc_mode=nosnoc.MpccMode.ELASTIC_EQ, s_elastic_min=0.25), relay())
p = s.problem
i = p.ind_elastic[0][0]
check(p.lbw[i] == 0.25 and p.ubw[i] == 10 and p.w0[i] == 1.0, p.lbw[i])
""")

S("c10-ind-z", "C10", "user algebraic variables in a problem with several control stages of different length",
  "the index list of the user algebraic variables is stored under the wrong control stage when stages have different lengths",
  [("problem.py", "        self.ind_z[ctrl_idx].append(increment_indices(fe.ind_z, w_len))\n",
    "        self.ind_z[min(ctrl_idx, len(self.ind_h) // self.opts.Nfe_list[0])].append(increment_indices(fe.ind_z, w_len))\n")],
  """
from dh import *
x = SX.sym("x"); z = SX.sym("z")
for fesd in [True, False]:
    m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 1)], c=[x], S=[np.array([[1], [-1]])], z=z, g_z=z - x)
    s, f = build(nosnoc.NosnocOpts(N_stages=3, Nfe_list=[3, 1, 2], use_fesd=fesd), m)
    p = s.problem
    check([len(a) for a in p.ind_z] == [3, 1, 2], [len(a) for a in p.ind_z])
""")

S("c11-sigma-n", "C11", "SUPERLINEAR update, complementarity tolerance not reached when sigma arrives exactly at sigma_N",
  "the loop goes on at sigma = sigma_N until max_iter_homotopy",
  [("solver.py", "            if sigma_k <= opts.sigma_N:\n", "            if sigma_k < opts.sigma_N:\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(homotopy_update_rule=nosnoc.HomotopyUpdateRule.SUPERLINEAR, sigma_0=1e-2, sigma_N=1e-5, max_iter_homotopy=9, comp_tol=1e-12)
s, f = build(o, relay(), script=lambda i, c: dict(x=c["x0"] * 0 + 0.5))
solve(s)
sig = [c["p"][0] for c in f.calls]
check(np.allclose(sig, [1e-2, 1e-3, 1e-3**1.5, 1e-5], rtol=1e-9), sig)
""")

S("c11-max-iter", "C11", "a reduction slope for which the number of reductions is not close to an integer below .5",
  "the automatic iteration limit counts reductions from sigma_0 to sigma_N instead of to comp_tol",
  [("nosnoc_opts.py", "np.log(self.comp_tol / self.sigma_0)", "np.log(min(self.sigma_N, self.comp_tol) / self.sigma_0)")],
  """
from dh import *
o = nosnoc.NosnocOpts(comp_tol=1e-4, sigma_N=1e-9)
o.preprocess()
check(o.max_iter_homotopy == 5, o.max_iter_homotopy)
""")

S("c12-warm-start", "C12", "an NLP of the homotopy that is reported as failed",
  "after a failed NLP the next one is started at the point before the failed one",
  [("solver.py", "            w0 = w_opt\n", "            w0 = w_opt if check_ipopt_success(status) else w0\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(max_iter_homotopy=3, comp_tol=1e-12)
s, f = build(o, relay(), script=lambda i, c: dict(x=c["x0"] * 0 + 0.5 + i, status="Infeasible_Problem_Detected" if i == 0 else "Solve_Succeeded"))
solve(s)
check(np.allclose(f.calls[1]["x0"], 0.5) and np.allclose(f.calls[2]["x0"], 1.5))
""")

S("c12-status", "C12", "the last NLP stops with Search_Direction_Becomes_Too_Small and polishing is off",
  "the reported status is that of the worst NLP of the homotopy",
  [("solver.py", """            status = solver_stats['return_status']
            nlp_iter[ii] = solver_stats['iter_count']
            nlp_res = ca.norm_inf(sol['g']).full()[0][0]
""", """            if ii == 0 or check_ipopt_success(status):
                status = solver_stats['return_status']
            nlp_iter[ii] = solver_stats['iter_count']
            nlp_res = ca.norm_inf(sol['g']).full()[0][0]
""")],
  """
from dh import *
o = nosnoc.NosnocOpts(max_iter_homotopy=3, comp_tol=1e-12)
s, f = build(o, relay(), script=lambda i, c: dict(x=c["x0"] * 0 + 0.5 + i, status="Infeasible_Problem_Detected" if i == 0 else "Solve_Succeeded"))
r = solve(s)
check(r["status"] == nosnoc.Status.SUCCESS)
""")

S("c13-bounds-copy", "C13", "fix_active_set_fe0 and two solves from initial states in different regions",
  "the pins of the first solve stay in the stored bounds of the problem",
  [("solver.py", """            lbw = prob.lbw.copy()
            ubw = prob.ubw.copy()

            # lambda00""", """            lbw = prob.lbw
            ubw = prob.ubw

            # lambda00""")],
  """
from dh import *
o = nosnoc.NosnocOpts(fix_active_set_fe0=True, max_iter_homotopy=1)
s, f = build(o, relay())
solve(s)
s.set("x0", np.array([-1.0]))
solve(s)
p = s.problem
th = [i for st in p.ind_theta[0][0] for i in st[0]]
fixed = [k for k, i in enumerate(th) if f.calls[-1]["ubx"][i] == 0]
check(fixed == [0, 2], fixed)
""")

S("c13-polish-alpha", "C13", "polishing with the Step representation and a step variable at one",
  "a step variable that is one up to the threshold is left free by the polishing step when its multiplier lambda_n is pinned",
  [("solver.py", "        w_fix_one[ind_dont_set] = False\n", "        w_fix_one[ind_dont_set + flatten(prob.ind_alpha)] = False\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(pss_mode=nosnoc.PssMode.STEP, do_polishing_step=True, max_iter_homotopy=1)
def scr(i, c):
    return dict(x=c["x0"] * 0 + 1.0)
s, f = build(o, relay(), script=scr)
solve(s)
p = s.problem
al = [i for fe in p.ind_alpha[0] for st in fe for i in st[0]]
check(all(f.calls[-1]["lbx"][i] == 1 and f.calls[-1]["ubx"][i] == 1 for i in al))
""")

S("c14-stale-lambda00", "C14", "a change of the parameters without a change of the initial state between two solves",
  "the initial multipliers are only recomputed when the initial state changed",
  [("solver.py", "        self.lambda00 = self.problem.model.compute_lambda00(self.opts)\n        return\n",
    """        x0 = np.array(self.problem.model.x0, dtype=float)
        if getattr(self, '_x0_lambda00', None) is None or not np.array_equal(self._x0_lambda00, x0):
            self.lambda00 = self.problem.model.compute_lambda00(self.opts)
            self._x0_lambda00 = x0.copy()
        return
""")],
  """
from dh import *
x = SX.sym("x"); P = SX.sym("P")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 1)], c=[x - P], S=[np.array([[1], [-1]])], p_global=P, p_global_val=np.array([0.0]))
s, f = build(nosnoc.NosnocOpts(max_iter_homotopy=1), m)
solve(s)
s.set("p_global", np.array([3.0]))
solve(s)
check(np.allclose(f.calls[-1]["p"][3:5], [4, 0]), f.calls[-1]["p"])
""")

S("c14-x-per-fe", "C14", "setting the guess of x per finite element in a problem whose control stages have different lengths",
  "with several control stages the rows are taken from the element number within the stage",
  [("solver.py", """                i = 0
                for sub_idx in prob.ind_x:
                    for ssub_idx in sub_idx:
                        for sssub_idx in ssub_idx:
                            prob.w0[sssub_idx] = value[i, :]
                        i += 1
            else:
                raise ValueError""", """                for k, sub_idx in enumerate(prob.ind_x):
                    for i, ssub_idx in enumerate(sub_idx):
                        for sssub_idx in ssub_idx:
                            prob.w0[sssub_idx] = value[k * len(sub_idx) + i, :]
            else:
                raise ValueError""")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_stages=2, Nfe_list=[3, 1], initialization_strategy=nosnoc.InitializationStrategy.EXTERNAL, max_iter_homotopy=1)
s, f = build(o, relay(u=True))
s.set("x", np.array([[1.], [2.], [3.], [4.]]))
solve(s)
p = s.problem
got = [f.calls[0]["x0"][fe[-1][0]] for st in p.ind_x for fe in st]
check(got == [1, 2, 3, 4], got)
""")

S("c15-w0-alias", "C15", "fix_active_set_fe0 and two solves from initial states in different regions with a W0_START strategy",
  "the stored initial guess is altered by the pins of earlier solves",
  [("solver.py", "        w0 = prob.w0.copy()\n\n        w_all = [w0.copy()]\n", "        w0 = prob.w0\n\n        w_all = [w0.copy()]\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(fix_active_set_fe0=True, max_iter_homotopy=1)
s, f = build(o, relay())
ref = s.problem.w0.copy()
solve(s)
p = s.problem
th = [i for st in p.ind_theta[0][0] for i in st[0]]
check(np.allclose(p.w0[th], ref[th]), p.w0[th])
""")

S("c15-rk4-lambda", "C15", "RK4_SMOOTHENED with two subsystems",
  "the smoothed weights of the second subsystem are read with an offset counted in subsystems",
  [("solver.py", "                                            sum(self.model.dims.n_f_sys[:s + 1]))\n",
    "                                            sum(self.model.dims.n_f_sys[:s]) + self.model.dims.n_f_sys[s])\n"),
   ("solver.py", "                        ind_theta_s = range(sum(self.model.dims.n_f_sys[:s]),\n",
    "                        ind_theta_s = range(s * self.model.dims.n_f_sys[0] if s < 2 else sum(self.model.dims.n_f_sys[:s]),\n"),
   ("solver.py", "prob.w0[prob.ind_mu[0][i][k][s]] = mu_ki[s].full().flatten()", "prob.w0[prob.ind_mu[0][i][k][s]] = mu_ki[0].full().flatten()")],
  """
from dh import *
x = SX.sym("x", 2)
F = [ca.horzcat(ca.vertcat(-1, 0), ca.vertcat(1, 0)), ca.horzcat(ca.vertcat(0, -1), ca.vertcat(0, 1))]
m = nosnoc.NosnocModel(x=x, x0=np.array([2.0, 50.0]), F=F, c=[x[0], x[1]], S=[np.array([[1], [-1]])] * 2)
o = nosnoc.NosnocOpts(initialization_strategy=nosnoc.InitializationStrategy.RK4_SMOOTHENED, max_iter_homotopy=1, smoothing_parameter=0.1)
s, f = build(o, m)
solve(s)
p = s.problem
mu = [f.calls[0]["x0"][i[0]] for i in p.ind_mu[0][0][0]]
check(mu[1] > 40 and mu[0] < 5, mu)
""")

S("c16-u-grid", "C16", "control stages with different numbers of finite elements",
  "the control grid assumes the number of elements of the first stage for all stages",
  [("solver.py", "    results[\"t_grid_u\"] = [t_grid[i] for i in u_grid]\n",
    "    results[\"t_grid_u\"] = [t_grid[min(i * opts.Nfe_list[0], u_grid[-1])] for i in range(opts.N_stages + 1)]\n")],
  """
from dh import *
s, f = build(nosnoc.NosnocOpts(N_stages=3, Nfe_list=[1, 3, 2], max_iter_homotopy=1, terminal_time=3.0), relay(u=True))
r = solve(s)
check(np.allclose(r["t_grid_u"], [0, 1, 2, 3]), r["t_grid_u"])
""")

S("c16-switch-last", "C16", "Step representation with two subsystems of which only the second one switches",
  "switches of later subsystems are not reported in the Step representation",
  [("solver.py", "            if any(np.abs(alpha - alpha_prev) > 0.1):\n", "            if np.abs(alpha[0] - alpha_prev[0]) > 0.1:\n")],
  """
from dh import *
x = SX.sym("x", 2)
F = [ca.horzcat(ca.vertcat(-1, 0), ca.vertcat(1, 0)), ca.horzcat(ca.vertcat(0, -1), ca.vertcat(0, 1))]
m = nosnoc.NosnocModel(x=x, x0=np.array([2.0, 50.0]), F=F, c=[x[0], x[1]], S=[np.array([[1], [-1]])] * 2)
o = nosnoc.NosnocOpts(pss_mode=nosnoc.PssMode.STEP, max_iter_homotopy=1)
s, f = build(o, m)
def scr(i, c):
    w = c["x0"].copy()
    for st in s.problem.ind_alpha[0][1]:
        w[st[1]] = 1.0
    return dict(x=w)
f.script = scr
r = solve(s)
check(len(r["switch_times"]) == 1 and abs(r["switch_times"][0] - .5) < 1e-9, r["switch_times"])
""")

S("c17-switch-offset", "C17", "an unsuccessful step whose element lengths do not add up to the step length",
  "the offset of the switch times assumes that every step has the nominal length",
  [("helpers.py", "results[\"switch_times\"] + np.sum(self.time_steps)", "results[\"switch_times\"] + i * self.solver.opts.terminal_time")],
  """
from dh import *
o = nosnoc.NosnocOpts(max_iter_homotopy=1)
s, f = build(o, relay())
p = s.problem
def scr(i, c):
    w = c["x0"].copy()
    w[p.ind_h] = [0.25, 0.5]
    for st in p.ind_theta[0][1]:
        w[st[0]] = [1.0, 0.0]
    for st in p.ind_theta[0][0]:
        w[st[0]] = [0.0, 1.0]
    return dict(x=w, status="Infeasible_Problem_Detected")
f.script = scr
l = nosnoc.NosnocSimLooper(s, np.array([1.0]), 2)
with contextlib.redirect_stdout(io.StringIO()):
    l.run()
r = l.get_results()
check(np.allclose(r["switch_times"], [0.25, 1.0]), r["switch_times"])
""")

S("c17-w-init", "C17", "a list of initial guesses with different guesses for later steps, parameters given as well",
  "the guess of the first step is used for all steps when parameter values are given",
  [("helpers.py", "                self.solver.set(\"w\", self.w_init[i])\n", "                self.solver.set(\"w\", self.w_init[i if self.p_values is None else 0])\n")],
  """
from dh import *
x = SX.sym("x"); P = SX.sym("P")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 1)], c=[x - P], S=[np.array([[1], [-1]])], p_global=P, p_global_val=np.array([0.0]))
o = nosnoc.NosnocOpts(max_iter_homotopy=1, initialization_strategy=nosnoc.InitializationStrategy.EXTERNAL)
s, f = build(o, m)
n = s.problem.w.numel()
l = nosnoc.NosnocSimLooper(s, np.array([1.0]), 3, p_values=np.zeros((3, 1)), w_init=[np.full(n, 0.5 + k) for k in range(3)])
with contextlib.redirect_stdout(io.StringIO()):
    l.run()
check([c["x0"][0] for c in f.calls] == [0.5, 1.5, 2.5])
""")

S("c18-tableau-cache", "C18", "two options objects with the same number of stages and different schemes in one process",
  "the collocation tables are cached by the number of stages only, the second object gets the table of the first",
  [("rk_utils.py", "    points = ca.collocation_points(n_s, IRK_SCHEME_TO_STRING[irk_scheme])\n",
    "    points = _POINTS.setdefault(n_s, ca.collocation_points(n_s, IRK_SCHEME_TO_STRING[irk_scheme]))\n"),
   ("rk_utils.py", "def rk4(f, x0,", "# collocation points computed so far\n_POINTS = dict()\n\n\ndef rk4(f, x0,")],
  """
from dh import *
a = nosnoc.NosnocOpts(n_s=2); a.preprocess()
b = nosnoc.NosnocOpts(n_s=2, irk_scheme=nosnoc.IrkSchemes.GAUSS_LEGENDRE); b.preprocess()
check(not b.right_boundary_point_explicit and abs(b.irk_time_points[-1] - 0.5 - 3**.5 / 6) < 1e-9)
""")

S("c18-tol-rederive", "C18", "ipopt tolerance set explicitly before the complementarity tolerance, preprocess called twice",
  "an explicitly set ipopt tolerance below the derived one is replaced when preprocessing",
  [("nosnoc_opts.py", "        if self.time_freezing:\n            if self.n_s < 3:\n", "        self.tol_ipopt = min(self.tol_ipopt, self.comp_tol)\n        if self.time_freezing:\n            if not self.n_s >= 3:\n")],
  """
from dh import *
a = nosnoc.NosnocOpts(comp_tol=1e-6)
a.tol_ipopt = 1e-4
a.preprocess()
check(a.tol_ipopt == 1e-4 and a.opts_casadi_nlp['ipopt']['tol'] == 1e-4, a.tol_ipopt)
""")

S("c19-nested-sign", "C19", "a max inside a nonlinear function", "the arguments of a maximum inside a nonlinear expression are exchanged if the second one is a constant",
  [("auto_model.py", "                eq_expr = alpha*node.dep(0) + (1-alpha)*node.dep(1)\n",
    "                a, b = (node.dep(0), node.dep(1)) if not node.dep(1).is_constant() else (node.dep(1), node.dep(0))\n                eq_expr = alpha*a + (1-alpha)*b\n")],
  """
from dh import *
from nosnoc.auto_model import NosnocAutoModel
x = SX.sym("x"); u = SX.sym("u")
f = ca.sin(ca.fmax(x, 2)) * ca.sign(x - 1)
m = NosnocAutoModel(x=x, x0=np.array([3.0]), u=u, f_nonsmooth_ode=f).reformulate()
al = ca.vertcat(*m.alpha); c = ca.vertcat(*m.c)
F = ca.Function("F", [x, u, al], [ca.vertcat(*m.f_x)]); C = ca.Function("C", [x, u], [c])
for v in [-1.0, 1.5, 3.0]:
    a = (C(v, 0).full() > 0).astype(float)
    ref = np.sin(max(v, 2)) * np.sign(v - 1)
    check(abs(float(F(v, 0, a)) - ref) < 1e-9, v)
""")

S("c19-common-dynamics", "C19", "several switching functions and smooth dynamics", "the smooth part is added to every subsystem that appears in the first component",
  [("auto_model.py", "        self.F[0][:, 0] += f_common\n        self.F[0][:, 1] += f_common\n",
    "        for F in (self.F if len(self.F) > 2 else self.F[:1]):\n            F[:, 0] += f_common\n            F[:, 1] += f_common\n")],
  """
from dh import *
from nosnoc.auto_model import NosnocAutoModel
x = SX.sym("x", 3); u = SX.sym("u")
f = ca.vertcat(u + ca.sign(x[0]), ca.sign(x[1]), x[0] + ca.sign(x[2]))
m = NosnocAutoModel(x=x, x0=np.array([3.0, 1, 1]), u=u, f_nonsmooth_ode=f).reformulate()
F = ca.Function("F", [x, u], m.F); C = ca.Function("C", [x], m.c)
v = np.array([1.0, -2.0, 3.0])
Fs, Cs = F(v, 5.0), C(v)
tot = sum(Fi.full()[:, 0 if float(ci) * Si[0, 0] > 0 else 1] for Fi, ci, Si in zip(Fs, Cs, m.S))
check(np.allclose(tot, [6, -1, 2]), tot)
""")

S("c20-gstewart-shape", "C20", "Stewart indicators of several subsystems with different numbers of regions",
  "the number of indicators is compared with the number of regions of the first subsystem",
  [("model.py", "                    if g_Stewart.shape[0] != self.F[i].shape[1]:\n", "                    if g_Stewart.shape[0] != n_f_sys[0]:\n")],
  """
from dh import *
x = SX.sym("x", 2)
F = [ca.horzcat(ca.vertcat(-1, 0), ca.vertcat(1, 0)), ca.horzcat(ca.vertcat(0, -1), ca.vertcat(0, 1), ca.vertcat(0, 2))]
m = nosnoc.NosnocModel(x=x, x0=np.array([2.0, 50.0]), F=F, g_Stewart=[ca.vertcat(x[0], -x[0]), ca.vertcat(x[1], -x[1], x[0])])
try:
    build(nosnoc.NosnocOpts(), m)
except Exception as e:
    check(False, e)
""")

S("c20-validate-list", "C20", "an option of list type given as a tuple or array", "list options accept any iterable",
  [("utils.py", "        elif not isinstance(value, expected_type):\n", "        elif not isinstance(value, expected_type) and not (expected_type is list and hasattr(value, '__iter__')):\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_stages=2)
o.Nfe_list = (2, 2)
try:
    build(o, relay(u=True))
except Exception:
    sys.exit(0)
check(False, "tuple accepted")
""")

S("c21-stage-coupling", "C21", "several control stages, step equilibration comparing neighbouring elements",
  "the first element of a control stage is equilibrated with the last one of the previous stage",
  [("problem.py", "        elif not self.fe_idx > 0:\n            return\n", "        elif self.fe_idx == 0 and self.ctrl_idx == 0:\n            return\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_stages=2, Nfe_list=[1, 1], step_equilibration=nosnoc.StepEquilibrationMode.L2_RELAXED)
s, f = build(o, relay(u=True))
p = s.problem
w = np.ones(p.w.numel()); w[p.ind_h] = [0.2, 0.9]
v = float(ffun(p)(w, np.zeros(p.p.numel())))
check(abs(v) < 1e-12, v)
""")

S("c21-eta-theta-only", "C21", "a switch at which only the multipliers (not yet the weights) of neighbouring elements tell the pattern: leaving a region after a sliding mode",
  "the switch indicator only looks at the weights, so that DIRECT equilibration forgets that multipliers vanish on both sides",
  [("problem.py", "        eta_k = prev_fe.sum_Lambda() * self.sum_Lambda() + \\\n                prev_fe.sum_Theta() * self.sum_Theta()\n",
    "        eta_k = prev_fe.sum_Theta() * self.sum_Theta()\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_finite_elements=2, step_equilibration=nosnoc.StepEquilibrationMode.DIRECT)
s, f = build(o, relay())
p = s.problem
def viol(w):
    g = gfun(p)(w, np.zeros(p.p.numel())).full().flatten()
    rows = [k for k in range(len(g)) if ca.depends_on(p.g[k], p.w[p.ind_h[0]]) and ca.depends_on(p.g[k], p.w[p.ind_theta[0][0][0][0][0]])
            and p.lbg[k] == 0 and p.ubg[k] == 0 and not ca.depends_on(p.g[k], p.w[p.ind_x[0][0][0][0]])]
    return max(abs(g[k]) for k in rows)
# no switch: region 1 active in both elements -> lengths must agree
w = np.zeros(p.w.numel()); w[p.ind_h] = [0.3, 0.7]
for fe in range(2):
    for st in range(2):
        w[p.ind_theta[0][fe][st][0]] = [1, 0]
        w[p.ind_lam[0][fe][st][0]] = [0, 2.0]
check(viol(w) > 1e-3, viol(w))
""")

S("c22-dump-w0", "C22", "a guess set after the solver was built, then dump",
  "the file holds the guess the problem was built with instead of the current one",
  [("problem.py", '            data["w_shape"] = self.w.shape\n', '            data["w0"] = self.w0_original\n            data["w_shape"] = self.w.shape\n')],
  """
from dh import *
import tempfile, os, pickle
s, f = build(nosnoc.NosnocOpts(N_stages=2, max_iter_homotopy=1), relay(u=True))
s.set("u", np.array([[3.0], [4.0]]))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.pkl")
    s.problem.dump(p)
    data = pickle.load(open(p, "rb"))
w0 = np.array(data["w0"]).flatten()
check([w0[i[0]] for i in s.problem.ind_u] == [3.0, 4.0], w0)
""")

S("c22-print-lower", "C22", "a guess below a bound within the last digits, or an infinite upper bound with the guess below the lower bound",
  "a guess below its lower bound is not flagged if the variable has no upper bound",
  [("problem.py", "            if self.lbw[i] > self.ubw[i]:\n", "            if np.isinf(self.ubw[i]) and not np.isinf(self.w0[i]):\n                pass\n            elif self.lbw[i] > self.ubw[i]:\n")],
  """
from dh import *
x, u = SX.sym("x"), SX.sym("u")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), u=u, F=[ca.horzcat(u - 2, u + 2)], c=[x], S=[np.array([[1], [-1]])])
s, f = build(nosnoc.NosnocOpts(max_iter_homotopy=1), m, nosnoc.NosnocOcp(lbu=np.array([1.0]), u_guess=np.array([-1.0])))
b = io.StringIO()
with contextlib.redirect_stdout(b):
    s.print_problem()
out = b.getvalue()
check("ERROR" in out and "errors: 0" not in out, [l for l in out.splitlines() if "-1.00" in l])
""")

S("c22-dump-side-effect", "C22", "dump between set and solve with time varying parameters",
  "writing the file leaves the parameters of the first control stage in all stages",
  [("problem.py", "            lambda00 = self.model.compute_lambda00(self.opts)\n",
    "            lambda00 = self.model.compute_lambda00(self.opts)\n            self.model.p_val_ctrl_stages[1:, :] = self.model.p_val_ctrl_stages[:1, :]\n")],
  """
from dh import *
import tempfile, os
x, pt = SX.sym("x"), SX.sym("pt")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(pt, -pt)], c=[x], S=[np.array([[1], [-1]])], p_time_var=pt, p_time_var_val=np.array([[1.0], [2.0]]))
s, f = build(nosnoc.NosnocOpts(N_stages=2, max_iter_homotopy=1), m)
s.set("p_time_var", np.array([[5.0], [6.0]]))
with tempfile.TemporaryDirectory() as d:
    s.problem.dump(os.path.join(d, "f.pkl"))
solve(s)
check(5.0 in f.calls[0]["p"][:2] and 6.0 in f.calls[0]["p"][:2], f.calls[0]["p"])
""")

S("c23-param-live", "C23", "parameters of the solver changed after the function was created",
  "the indicators are evaluated with the parameters the solver has at the time of the call",
  [("solver.py", "            g  = self.model.g_Stewart_fun(x, z, p)\n",
    "            g  = self.model.g_Stewart_fun(x, z, self.model.p_val_ctrl_stages[0] if len(p) == self.model.dims.n_p_glob else p)\n")],
  """
from dh import *
x, p = SX.sym("x"), SX.sym("p")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 3)], c=[x - p], S=[np.array([[1], [-1]])], p_global=p, p_global_val=np.array([0.0]))
s, f = build(nosnoc.NosnocOpts(max_iter_homotopy=1), m)
fun = s.create_function_calculate_vector_field(1e-4, [0.0], [])
a = float(np.array(fun([1.0], [])).flatten()[0])
s.set("p_global", np.array([5.0]))
b = float(np.array(fun([1.0], [])).flatten()[0])
check(abs(a + 1) < 1e-3 and abs(b + 1) < 1e-3, (a, b))
""")

S("c24-last-slope", "C24", "a step that is not the first one, with a right-hand side whose slopes differ",
  "the last slope of later steps is evaluated at the half step",
  [("rk_utils.py", "        dt = t_grid[i]\n        k1 = f(x[i, :])\n        k2 = f(x[i, :] + dt * k1 / 2)\n        k3 = f(x[i, :] + dt * k2 / 2)\n        k4 = f(x[i, :] + dt * k3)\n",
    "        dt = t_grid[i]\n        k1 = f(x[i, :])\n        k2 = f(x[i, :] + dt * k1 / 2)\n        k3 = f(x[i, :] + dt * k2 / 2)\n        k4 = f(x[i, :] + min(dt, t_grid[0]) * k3)\n")],
  """
from dh import *
from nosnoc.rk_utils import rk4_on_timegrid
v = SX.sym("v")
f = ca.Function("f", [v], [-v])
X = rk4_on_timegrid(f, np.array([1.0]), np.array([0.5, 1.0]))
g = lambda h: 1 - h + h**2 / 2 - h**3 / 6 + h**4 / 24
check(abs(X[1][0] - g(0.5)) < 1e-12 and abs(X[2][0] - g(0.5) * g(1.0)) < 1e-12, X)
""")

S("c24-times", "C24", "more than one step",
  "the returned times do not belong to the returned states",
  [("rk_utils.py", "    t = np.linspace(0, tf, n_steps + 1)\n", "    t = np.append(np.arange(n_steps) * (tf // n_steps if tf > n_steps else dt), tf)\n")],
  """
from dh import *
v = SX.sym("v")
f = ca.Function("f", [v], [-v])
X, t = nosnoc.rk4(f, np.array([1.0]), 5.0, 2)
check(np.allclose(t, [0, 2.5, 5.0]), t)
""")

S("c15-smooth-sparse", "C15", "RK4_SMOOTHENED with a region that ignores two switching functions",
  "the smoothed weight of a region that ignores several switching functions is too small",
  [("model.py", "                theta_list[s][i] = 2**(n_c - n_Ri)\n", "                theta_list[s][i] = 2 if n_c > n_Ri else 1\n")],
  """
from dh import *
x = SX.sym("x", 3)
S_ = np.array([[1, 0, 0], [-1, 1, 0], [-1, -1, 1], [-1, -1, -1]])
m = nosnoc.NosnocModel(x=x, x0=np.array([2.0, 1.0, 1.0]), F=[ca.horzcat(*[ca.vertcat(i, 0, 0) for i in (1, 2, 3, 4)])], c=[x], S=[S_])
s, f = build(nosnoc.NosnocOpts(initialization_strategy=nosnoc.InitializationStrategy.RK4_SMOOTHENED, max_iter_homotopy=1, smoothing_parameter=0.05), m)
v = np.array(s.model.f_x_smooth_fun(np.array([2.0, 1.0, 1.0]))).flatten()
check(abs(v[0] - 1) < 1e-6, v)
""")

S("c04-node-digit", "C04", "Gauss-Legendre with six stages",
  "one digit of the last Gauss-Legendre node is wrong",
  [("rk_utils.py", "                0.830604693233132,\n                0.966234757101576,\n", "                0.830604693233132,\n                0.966234757171576,\n")],
  """
from dh import *
from nosnoc.rk_utils import generate_butcher_tableu
A, b, c, o = generate_butcher_tableu(6, nosnoc.IrkSchemes.GAUSS_LEGENDRE)
check(np.max(np.abs(np.sum(A, axis=1) - np.array(c).flatten())) < 1e-11 and abs(np.array(c).flatten() + np.array(c).flatten()[::-1] - 1).max() < 1e-11, c)
""")

S("c26-bars-stack", "C26", "three or more homotopy iterations per step",
  "the bars of the third and later iterations do not start where the previous one ends",
  [("plot_utils.py", "        y += y_iter\n", "        y = y_iter\n")],
  """
from dh import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
t = np.array([[1.0, 2.0, 4.0], [3.0, 1.0, 2.0]])
nosnoc.plot_timings(t, latexify=False)
a = plt.gcf().axes[0]
got = [[round(float(b.get_y()), 6) for b in c.patches] for c in a.containers]
check(got == [[0, 0], [1, 3], [3, 4]], got)
""")

S("c26-iterates-x", "C26", "more than one stage per finite element",
  "the state panel of plot_iterates shows only the ends of the finite elements",
  [("plot_utils.py", "x_list = results['x_all_list']", "x_list = results['x_list']")],
  """
from dh import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
x = SX.sym("x")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 3)], c=[x], S=[np.array([[1], [-1]])])
s, f = build(nosnoc.NosnocOpts(max_iter_homotopy=1, n_s=2, N_finite_elements=3, terminal_time=1.0), m)
w = np.arange(s.problem.w.shape[0], dtype=float)
from nosnoc import plot_utils
try:
    plot_utils.plot_iterates(s.problem, [w])
except KeyError:
    sys.exit(0)
ax = plt.gcf().axes[2]
check(len(ax.lines[0].get_ydata()) == 1 + 3 * 2, ax.lines[0].get_ydata())
""")

S("c26-annotate", "C26", "points that are not sorted",
  "annotations of scatter_3d are attached to the wrong points",
  [("plot_utils.py", "        for i, pi in enumerate(Z):\n", "        for i, pi in enumerate(np.unique(Z, axis=0)):\n")],
  """
from dh import *
import matplotlib
matplotlib.use("Agg")
from nosnoc import plot_utils
Z = [[3.0, 0.0, 0.0], [1.0, 2.0, 0.0], [2.0, 1.0, 5.0]]
ax = plot_utils.scatter_3d(Z, show=False, annotate=True)
got = {t.get_text(): tuple(round(float(v), 6) for v in t.get_position_3d()) for t in ax.texts}
check(got == {"p%d" % (i + 1): tuple(z) for i, z in enumerate(Z)}, got)
""")

S("c02-third-stage", "C02", "three or more control stages, COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER",
  "from the third control stage on, the first element of a stage is no longer tied to the multipliers at the end of the stage before it",
  [("problem.py", """                self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                            sigma_p, tau, s_elastic)
""", """                if self.ctrl_idx < 2 or self.fe_idx > 0:
                    self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                                sigma_p, tau, s_elastic)
""")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_stages=3, N_finite_elements=1,
    cross_comp_mode=nosnoc.CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER)
s, f = build(o, relay(u=True))
p = s.problem
for k in range(1, 3):
    for j in range(o.n_s):
        th = p.ind_theta[k][0][j][0]
        la = p.ind_lam[k - 1][0][-1][0]
        for r in range(2):
            check(mixed(p, th[r], la[r]) > 1e-6, (k, j, r))
""")

S("c07-fourth-stage", "C07", "four or more control stages and a path constraint reading the time varying parameter",
  "from the fourth control stage on, the parameters of the third stage are used",
  [("problem.py", "        self.p = model.p_ctrl_stages[ctrl_idx]\n",
    "        self.p = model.p_ctrl_stages[ctrl_idx if ctrl_idx < 3 else 2]\n")],
  """
from dh import *
x = SX.sym("x"); P = SX.sym("P")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1, 1)], c=[x], S=[np.array([[1], [-1]])], p_time_var=P,
                       p_time_var_val=np.array([[1.0], [2.0], [3.0], [4.0]]))
o = nosnoc.NosnocOpts(N_stages=4, N_finite_elements=1)
s, f = build(o, m, nosnoc.NosnocOcp(g_path=x - P, lbg=np.array([-10.0]), ubg=np.array([0.0])))
G = gfun(s.problem)
w = np.full(s.problem.w.numel(), 0.37)
solve(s)
ref = G(w, f.calls[-1]["p"]).full().flatten()
for k in range(4):
    v = np.array([[1.0], [2.0], [3.0], [4.0]]); v[k] += 5
    s.set("p_time_var", v)
    solve(s)
    d = abs(G(w, f.calls[-1]["p"]).full().flatten() - ref)
    check(np.sum(d > 4) >= 1, (k, d.max()))
""")

S("c08-third-ctrl-p", "C08", "three or more control stages and a pair of a control with a time varying parameter",
  "pairs of controls and parameters are posed with the parameter of the second stage in every later stage",
  [("problem.py", "            ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)\n",
    "            ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.model.p_ctrl_stages[min(self.ctrl_idx, 1)], self.model.v_global)\n")],
  """
from dh import *
x = SX.sym("x"); u = SX.sym("u"); P = SX.sym("P")
m = nosnoc.NosnocModel(x=x, x0=np.array([1.0]), F=[ca.horzcat(-1 + u, 1 + u)], c=[x], S=[np.array([[1], [-1]])], u=u, p_time_var=P,
                       p_time_var_val=np.array([[1.0], [2.0], [3.0]]))
s, f = build(nosnoc.NosnocOpts(N_stages=3, N_finite_elements=2), m, nosnoc.NosnocOcp(g_path_comp=ca.horzcat(u, P)))
p = s.problem
G = gfun(p)
w = np.full(p.w.numel(), 0.37)
solve(s)
ref = G(w, f.calls[-1]["p"]).full().flatten()
for k in range(3):
    v = np.array([[1.0], [2.0], [3.0]]); v[k] += 5
    s.set("p_time_var", v)
    solve(s)
    d = abs(G(w, f.calls[-1]["p"]).full().flatten() - ref)
    check(d.max() > 1e-2, (k, d.max()))
""")

S("c21-third-stage-weight", "C21", "three integration stages and a weight that is positive at the last one only",
  "the switch indicator sums the weights of the first two integration stages only",
  [("problem.py", "        return [self.Theta(stage=ii) for ii in range(len(self.ind_theta))]\n",
    "        return [self.Theta(stage=ii) for ii in range(min(2, len(self.ind_theta)))]\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_finite_elements=2, n_s=3, step_equilibration=nosnoc.StepEquilibrationMode.DIRECT)
s, f = build(o, relay())
p = s.problem
def viol(w):
    g = gfun(p)(w, np.zeros(p.p.numel())).full().flatten()
    rows = [k for k in range(len(g)) if ca.depends_on(p.g[k], p.w[p.ind_h[0]]) and ca.depends_on(p.g[k], p.w[p.ind_theta[0][0][0][0][0]])
            and p.lbg[k] == 0 and p.ubg[k] == 0 and not ca.depends_on(p.g[k], p.w[p.ind_x[0][0][0][0]])]
    return max(abs(g[k]) for k in rows)
w = np.zeros(p.w.numel()); w[p.ind_h] = [0.3, 0.7]
for st in range(3):
    w[p.ind_theta[0][0][st][0]] = [1, 0] if st < 2 else [0.5, 0.5]
    w[p.ind_theta[0][1][st][0]] = [0.5, 0.5]
check(viol(w) > 1e-3, viol(w))
""")

S("c15-wopt-prev", "C15", "two solves with ALL_XCURRENT_WOPT_PREV and a polishing step that moves the result",
  "the second solve starts from the result before polishing, not from the one returned",
  [("solver.py", "            prob.w0[:] = w_opt[:]\n", "            prob.w0[:] = w0[:]\n")],
  """
from dh import *
o = nosnoc.NosnocOpts(N_finite_elements=2, max_iter_homotopy=1, do_polishing_step=True,
    initialization_strategy=nosnoc.InitializationStrategy.ALL_XCURRENT_WOPT_PREV)
s, f = build(o, relay(), script=lambda i, c: dict(x=c["x0"] + 0.125))
r = solve(s)
check(len(f.calls) >= 2, len(f.calls))
n = len(f.calls)
solve(s)
p = s.problem
i = p.ind_theta[0][1][0][0]
check(np.allclose(f.calls[n]["x0"][i], r["w_sol"][i]), f.calls[n]["x0"][i] - r["w_sol"][i])
""")
