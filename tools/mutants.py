"""mutants.py N SEED OUT.jsonl: samples N source mutants of /repo/nosnoc (AST based, one edit each)."""
import ast, sys, json, random, os
REPO = os.environ.get("NOSNOC_REPO", "/repo")
FILES = dict([("problem.py", 1.0), ("solver.py", 1.0), ("helpers.py", 1.0), ("model.py", 1.0), ("ocp.py", 1.0), ("auto_model.py", 0.8), ("nosnoc_opts.py", 0.7), ("rk_utils.py", 0.12), ("utils.py", 0.5)])
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
SYM = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
BSYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}
NAMES = [("lb", "ub"), ("fe_idx", "ctrl_idx"), ("theta", "lam"), ("lambda_n", "lambda_p"), ("n_s", "n_x"), ("Theta", "Lambda"), ("min", "max"), ("prev_fe", "self"), ("sigma_0", "sigma_N"),
         ("N_stages", "N_finite_elements"), ("n_u", "n_x"), ("n_z", "n_x"), ("alpha", "theta"), ("lbw", "ubw"), ("lbg", "ubg"), ("append", "extend"), ("rho_h", "step_equilibration_sigma"),
         ("s_elastic_min", "s_elastic_max"), ("speed_of_time_min", "speed_of_time_max"), ("A_irk", "B_irk"), ("f_q", "f_x"), ("lsq_x", "lsq_u"), ("vstack", "hstack"), ("p_global", "p_time_var"), ("u_guess", "lbu")]


def gen(f):
    src = open(os.path.join(REPO, "nosnoc", f)).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda ln, c: off[ln - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: b[slice(*span(n))].decode()
    fn = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            for k in range(n.lineno, n.end_lineno + 1):
                fn[k] = n.name
    docs = set()
    raises = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n)
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print", "Warning", "Exception", "ValueError", "TypeError")):
            for k in ast.walk(n):
                raises.add(k)
        if isinstance(n, ast.JoinedStr):
            for k in ast.walk(n):
                raises.add(k)

    def rep(n, a, e, new, kind):
        out.append(dict(file=f, a=a, e=e, new=new, old=b[a:e].decode(), line=n.lineno, fn=fn.get(n.lineno, ""), kind=kind))
    out = []
    for n in ast.walk(tree):
        if n in raises and not isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            a, e = span(l)[1], span(r)[0]
            mid = b[a:e].decode()
            s = SYM[type(n.ops[0])]
            for t in CMP[type(n.ops[0])]:
                if s in mid:
                    rep(n, a, e, mid.replace(s, t, 1), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, e = span(n.left)[1], span(n.right)[0]
            mid = b[a:e].decode()
            s = BSYM[type(n.op)]
            if s in mid:
                rep(n, a, e, mid.replace(s, BIN[type(n.op)], 1), "bin")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                a, e = span(n)
                rep(n, a, e, "(" + seg(n.left) + ")", "dropop")
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, e = span(x)[1], span(y)[0]
                mid = b[a:e].decode()
                s, t = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                rep(n, a, e, mid.replace(s, t), "bool")
            a, e = span(n)
            for x in n.values:
                rep(n, a, e, "(" + seg(x) + ")", "boolone")
        elif isinstance(n, ast.UnaryOp):
            a, e = span(n)
            if isinstance(n.op, (ast.Not, ast.USub)) and not (isinstance(n.operand, ast.Constant) and isinstance(n.op, ast.USub) and n.operand.value == 1):
                rep(n, a, e, "(" + seg(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant) and n not in docs:
            a, e = span(n)
            if n.value is True or n.value is False:
                rep(n, a, e, str(not n.value), "const")
            elif isinstance(n.value, int):
                rep(n, a, e, str(n.value + 1), "const")
                if n.value > 0:
                    rep(n, a, e, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                rep(n, a, e, repr(n.value * 2 if n.value else 1.0), "const")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, e = span(n.test)
            rep(n, a, e, "False", "cond")
            if not isinstance(n, ast.While):
                rep(n, a, e, "True", "cond")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) and n not in docs:
            if isinstance(n, ast.Expr) and getattr(getattr(n.value, "func", None), "id", "") in ("print", "Warning"):
                continue
            a, e = span(n)
            rep(n, a, e, "pass", "delete")
        elif isinstance(n, ast.Name) or isinstance(n, ast.Attribute):
            idn = n.id if isinstance(n, ast.Name) else n.attr
            e = span(n)[1]
            a = e - len(idn)
            if b[a:e].decode() != idn:
                continue
            for x, y in NAMES:
                for p, q in ((x, y), (y, x)):
                    if p in idn and idn != "self" and not idn.startswith("__"):
                        rep(n, a, e, idn.replace(p, q, 1), "name")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                x, y = n.args[0], n.args[1]
                a, e = span(x)[0], span(y)[1]
                rep(n, a, e, seg(y) + b[span(x)[1]:span(y)[0]].decode() + seg(x), "swap")
            if getattr(n.func, "id", "") == "range":
                a, e = span(n)
                rep(n, a, e, "list(" + seg(n) + ")[1:]", "range")
                rep(n, a, e, "list(" + seg(n) + ")[:-1]", "range")
            if getattr(n.func, "attr", "") in ("copy", "deepcopy", "flatten") or getattr(n.func, "id", "") in ("copy", "deepcopy", "list"):
                a, e = span(n)
                t = seg(n.args[0]) if n.args and getattr(n.func, "id", "") else (seg(n.func.value) if isinstance(n.func, ast.Attribute) else None)
                if t:
                    rep(n, a, e, t, "copy")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp) and seg(n.slice) == "-1":
            a, e = span(n.slice)
            rep(n, a, e, "0", "index")
        elif isinstance(n, ast.comprehension) and n.ifs:
            a, e = span(n.ifs[0])
            rep(n.ifs[0], a, e, "True", "compif")
    good = []
    for m in out:
        t = (b[:m["a"]] + m["new"].encode() + b[m["e"]:]).decode()
        if t == src:
            continue
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append(m)
    return good


if __name__ == "__main__":
    rng = random.Random(int(sys.argv[2]))
    allm = []
    for f, w in FILES.items():
        g = gen(f)
        g = [m for m in g if m["fn"] not in ("plot_iterates",) and not m["fn"].startswith("print_")]
        rng.shuffle(g)
        allm += g[:int(len(g) * w)]
    rng.shuffle(allm)
    allm = allm[:int(sys.argv[1])]
    with open(sys.argv[3], "w") as o:
        for i, m in enumerate(allm):
            m["id"] = i
            o.write(json.dumps(m) + "\n")
    from collections import Counter
    print(len(allm), Counter(m["file"] for m in allm), Counter(m["kind"] for m in allm))
