"""C26: plots show the data they are given (spec/Plots.tla)."""
import os, copy, json, shutil, tempfile, traceback
from collections import defaultdict
import numpy as np, casadi as ca
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import nos
from nos import Prob, mkopts, quiet


def ints(v):
    v = np.array(v, dtype=float).flatten()
    return [int(np.round(t)) if np.isfinite(t) and abs(t - np.round(t)) < 1e-9 else -1 for t in v]


def problem(cfg, rep):
    import nosnoc
    n, R = cfg["n"], sum(cfg["n"])
    x = ca.SX.sym("x", 2)
    F, G, r = [], [], 0
    for k in n:
        F.append(ca.horzcat(*[ca.vertcat(i + 1, 1) for i in range(k)]))
        G.append(ca.vertcat(*[i * x[0] + x[1] for i in range(k)]))
    o = mkopts(terminal_time=1.0, N_stages=len(cfg["lay"]), Nfe_list=list(cfg["lay"]), n_s=cfg["s"], irk_scheme="RADAU", irk_representation=rep, max_iter_homotopy=1, print_level=0)
    return Prob(o, nosnoc.NosnocModel(x=x, x0=np.array([8.0, 9.0]), F=F, g_Stewart=G), None, solve=False)


def iterate(prob, it):
    """primal vector with labelled blocks"""
    w = np.full(prob.w.shape[0], 0.25)
    lab = lambda v, e, j, c: (((v * 10 + it) * 10 + e) * 10 + j) * 10 + c
    e = 0
    for k in range(len(prob.ind_x)):
        for fe in range(len(prob.ind_x[k])):
            e += 1
            for v, ind in ((1, prob.ind_lam), (3, prob.ind_theta), (2, prob.ind_mu)):
                for j, st in enumerate(ind[k][fe], 1):
                    for c, i in enumerate(nos.flat(st), 1):
                        w[i] = lab(v, e, j, c)
            for j, st in enumerate(prob.ind_x[k][fe], 1):
                for c, i in enumerate(nos.flat(st), 1):
                    w[i] = lab(4, e, j, c)
    return w


def texts(ax, dim):
    out = []
    for t in ax.texts:
        pos = t.get_position_3d() if hasattr(t, "get_position_3d") else t.get_position()
        s = t.get_text()
        out.append(dict(text=int(s[1:]) if s[:1] == "p" and s[1:].isdigit() else -1, at=ints(pos[:dim])))
    return out


def draw(case, path, dc):
    import nosnoc
    from nosnoc import plot_utils as pu
    cfg, data = case["cfg"], case["data"]
    plt.close("all")
    if cfg["kind"] == "iterates":
        P = problem(cfg, dc["rep"])
        its = [iterate(P.solver.problem, d[0]) for d in data]
        tl = ["title %d" % i for i in range(len(its))]
        pu.plot_iterates(P.solver.problem, its, figure_filename=path, **(dict(title_list=tl) if cfg["opt"] else {}))
        axs = plt.gcf().axes
        cols = defaultdict(list)
        for a in axs:
            ss = a.get_subplotspec()
            cols[ss.colspan.start].append((ss.rowspan.start, a))
        panels = [[[ints(l.get_ydata()) for l in a.lines] for _, a in sorted(cols[c], key=lambda t: t[0])] for c in sorted(cols)]
        ok = not cfg["opt"] or [sorted(cols[c], key=lambda t: t[0])[0][1].get_title() for c in sorted(cols)] == tl
        return dict(panels=panels, titles=ok)
    if cfg["kind"] == "timings":
        pu.plot_timings(np.array(data, dtype=float), latexify=False, title="title" if cfg["opt"] else None, figure_filename=path)
        a = plt.gcf().axes[0]
        bars = [[ints([b.get_x() + b.get_width() / 2, b.get_y(), b.get_height()]) for b in c.patches] for c in a.containers]
        mean = [int(round(1000 * float(v))) for l in a.lines for v in l.get_ydata()]
        return dict(bars=bars, mean=mean, titles=not cfg["opt"] or a.get_title() == "title")
    D = np.array(data, dtype=float)
    if cfg["kind"] == "voronoi":
        ax = None
        if dc["own"]:
            plt.figure()
            ax = plt.gcf().add_subplot()
        a = pu.plot_voronoi_2d(D[:, :2] if dc["arr"] else D[:, :2].tolist(), show=False, annotate=cfg["opt"], ax=ax)
        pts = [ints(p) for l in a.lines for p in zip(l.get_xdata(), l.get_ydata())] if a.lines else [ints(p) for p in a.collections[0].get_offsets()]
        return dict(points=pts[:len(data)], texts=texts(a, 2), same=ax is None or a is ax)
    ax = None
    if dc["own"]:
        ax = plt.figure().add_subplot(projection="3d")
    if cfg["kind"] == "scatter":
        a = pu.scatter_3d(D[:, :3].tolist(), show=False, ax=ax, annotate=cfg["opt"])
        return dict(points=[ints(p) for p in zip(*a.collections[0]._offsets3d)], texts=texts(a, 3))
    a = pu.plot_colored_line_3d(D[:, 0], D[:, 1], D[:, 2], D[:, 3], ax=ax, **(dict(label_4d=None) if cfg["opt"] else {}))
    sc = [c for c in a.collections if hasattr(c, "_offsets3d")][0]
    segs = [[ints(p) for p in zip(*l.get_data_3d())] for l in a.lines]
    shade = [int(round(1000 * sum(matplotlib.colors.to_rgb(l.get_color())))) for l in a.lines]
    return dict(points=[ints(p) for p in zip(*sc._offsets3d)], segs=segs, shade=shade, color=ints(sc.get_array()))


def job(a):
    cases, dc = a
    out = []
    tmp = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        for case in cases:
            path = os.path.join(tmp, "f.png")
            try:
                with quiet():
                    o = draw(case, path, dc)
                o["stored"] = os.path.exists(path) and os.path.getsize(path) > 0
                out.append(dict(ok=True, obs=o))
            except Exception:
                out.append(dict(ok=False, err=traceback.format_exc()))
            if os.path.exists(path):
                os.remove(path)
    finally:
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def run(ctx):
    cases = ctx.generate("Plots", consts=dict(Tier=ctx.tlevel), invariants=["Emit"])
    by = defaultdict(list)
    for c in cases:
        by[c["cfg"]["kind"]].append(c)
    keep = dict(iterates=200, timings=150, scatter=60, line=80, voronoi=60) if ctx.tlevel == 1 else dict(iterates=900, timings=800, scatter=300, line=400, voronoi=300)
    sel = []
    for k in sorted(by):
        sel += by[k] if len(by[k]) <= keep[k] else ctx.rng.sample(by[k], keep[k])
    jobs = []
    for a in range(0, len(sel), 10):
        q = a // 10 + ctx.rng.randrange(2)
        jobs.append((sel[a:a + 10], dict(rep=["INTEGRAL", "LIFT"][q % 2], own=q % 3 == 0, arr=q % 2 == 0)))
    recs = []
    for (cs, dc), res in zip(jobs, nos.pmap(job, jobs)):
        for c, r in zip(cs, res):
            if not r["ok"]:
                ctx.violation("plotting failed (%s %s): %s" % (c["cfg"], dc, r["err"].strip().splitlines()[-1]), dict(case=c, dc=dc, err=r["err"]))
            else:
                recs.append(dict(c, obs=r["obs"]))
    if recs:
        can = []
        for k in sorted(by):
            for r in [r for r in recs if r["cfg"]["kind"] == k][:2]:
                r = copy.deepcopy(r)
                o = r["obs"]
                if k == "iterates":
                    o["panels"][0][len(can) % 3][0][0] += 1
                elif k == "timings":
                    o["bars"][0][0][2] += 1
                else:
                    o["points"][0][0] += 1
                can.append(r)
        for k, vs in ctx.validate("Plots", recs, can, emit="TEmit", consts=dict(Tier=ctx.tlevel)).items():
            ctx.violation("%s: %s data %s shown %s" % (", ".join(vs), recs[k]["cfg"], recs[k]["data"], recs[k]["obs"]), dict(record=recs[k], clause=vs))
    ctx.notes.update(behaviours=len(cases), figures=len(recs))
    for c in sel[:: max(1, len(sel) // 4)]:
        ctx.sample(c)
    ctx.assumptions += ["figures are read through matplotlib's object model (Agg backend)"]
