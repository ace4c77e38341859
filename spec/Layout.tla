------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The blocks of the primal vector (property C10): every quantity of the      *)
(* discretized problem with its dimension, bounds and (prescribed) guess.     *)
(* A behaviour adds the blocks of one finite element after another.           *)
(* Values are thousandths; Inf stands for infinity.                           *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
Inf == 1000000000
VARIABLES cfg, req, n, tid
vars == <<cfg, req, n, tid>>
Lays == IF Tier = 1 THEN <<<<1>>, <<2, 1>>, <<1, 3, 2>>>> ELSE <<<<1>>, <<2, 1>>, <<1, 3, 2>>, <<1, 3>>, <<2>>, <<1, 1, 1>>, <<3, 2, 1>>>>
Schs == <<"RADAU", "GAUSS">>
Reps == <<"INTEGRAL", "DIFFERENTIAL", "LIFT">>
Psss == <<"STEWART", "STEP", "FX">>
Regs == <<<<2>>, <<4>>, <<2, 4>>, <<3, 2>>, <<2, 3, 4>>>>
Modes == <<"SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED", "FISCHER_BURMEISTER", "BOOLEAN">>
Sots == <<"NONE", "LOCAL", "GLOBAL">>
Dims == <<[x |-> 1, u |-> 0, z |-> 0, v |-> 0], [x |-> 2, u |-> 2, z |-> 1, v |-> 2], [x |-> 3, u |-> 1, z |-> 2, v |-> 0], [x |-> 1, u |-> 0, z |-> 1, v |-> 1],
          [x |-> 2, u |-> 3, z |-> 0, v |-> 1]>>
MaxS == IF Tier = 1 THEN 3 ELSE 4
Rot(o, t) == t[1 + (o % Len(t))]
(* the structural dimensions are combined exhaustively, the others rotate with them *)
CfgOf(i, sc, r, s, f, p, g) ==
  LET o == i + 3 * sc + 7 * r + 11 * s + (IF f THEN 13 ELSE 0) + 17 * p + 19 * g IN
  [lay |-> Lays[i], sch |-> Schs[sc], rep |-> Reps[r], s |-> s, fesd |-> f, pss |-> Psss[p], regs |-> Regs[g],
   mode |-> Rot(o, Modes), sot |-> Rot(o \div 2, Sots), dim |-> LET d == Rot(o + i + g, Dims) IN IF p = 3 THEN [d EXCEPT !.x = Max2(d.x, Len(Regs[g]))] ELSE d, given |-> Rot(o \div 3, <<TRUE, FALSE>>),
   gamma |-> Rot(o, <<4, 1>>), eq |-> Rot(o \div 5, <<TRUE, FALSE>>), sotb |-> Rot(o \div 3, <<<<750, 1500>>, <<1250, 3000>>, <<250, 500>>>>), cross |-> Rot(o \div 7, <<"ALL", "SUM">>), pairs |-> Rot(o \div 2, <<FALSE, TRUE>>)]
CfgSet == {CfgOf(i, sc, r, s, f, p, g) : i \in 1..Len(Lays), sc \in 1..2, r \in 1..3, s \in 1..MaxS, f \in BOOLEAN, p \in 1..3, g \in 1..Len(Regs)}
(* ------------------------------ the blocks ------------------------------ *)
NSys(c) == Len(c.regs)
NF(c, q) == c.regs[q]
NC(c, q) == IF c.regs[q] = 2 THEN 1 ELSE 2
Stewart(c) == c.pss = "STEWART"
(* Val: <<lower, upper, guess>> of component i; guess None = any value inside the bounds *)
None == Inf + 1
User(c, base, i, lbound) == IF c.given THEN <<-1000 * (100 + base + i), 1000 * (200 + base + i), 1000 * (base + i)>> ELSE <<-Inf, Inf, 0>>
B(nm, k, e, j, q, dim, vals) == [nm |-> nm, k |-> k, e |-> e, j |-> j, q |-> q, dim |-> dim, vals |-> vals]
Vec(dim, F(_)) == TLCEval([i \in 1..dim |-> F(i)])
X0(i) == 1000 * (3 + i)
XVals(c) == LET V(i) == <<User(c, 0, i, 0)[1], User(c, 0, i, 0)[2], X0(i)>> IN Vec(c.dim.x, V)
UVals(c) == LET V(i) == User(c, 10, i, 0) IN Vec(c.dim.u, V)
VVals(c) == LET V(i) == User(c, 20, i, 0) IN Vec(c.dim.v, V)
ZVals(c) == LET V(i) == User(c, 30, i, 0) IN Vec(c.dim.z, V)
DualLb(c) == IF c.mode = "FISCHER_BURMEISTER" THEN -Inf ELSE 0
Rep1(dim, v) == TLCEval([i \in 1..dim |-> v])
Boundary(c, k, e) == c.fesd /\ c.sch = "GAUSS" /\ ~(k = Len(c.lay) /\ e = c.lay[k])
XStages(c) == IF c.rep = "DIFFERENTIAL" THEN 1 ELSE IF c.sch = "RADAU" THEN c.s ELSE c.s + 1
MStages(c, k, e) == c.s + (IF Boundary(c, k, e) THEN 1 ELSE 0)
H0(c, k) == 12000 \div c.lay[k]
ElementBlocks(c, k, e) ==
     {B("x", k, e, j, 0, c.dim.x, XVals(c)) : j \in 1..XStages(c)}
  \cup (IF c.rep = "INTEGRAL" THEN {} ELSE {B("v", k, e, j, 0, c.dim.x, Rep1(c.dim.x, <<-Inf, Inf, None>>)) : j \in 1..c.s})
  \cup {B("z", k, e, j, 0, c.dim.z, ZVals(c)) : j \in 1..MStages(c, k, e)}
  \cup (IF c.fesd THEN {B("h", k, e, 0, 0, 1, <<<<(H0(c, k) * (4 - c.gamma)) \div 4, (H0(c, k) * (4 + c.gamma)) \div 4, H0(c, k)>>>>)} ELSE {})
  \cup (IF Stewart(c) THEN
          {B("theta", k, e, j, q, NF(c, q), Rep1(NF(c, q), <<DualLb(c), Inf, None>>)) : j \in 1..c.s, q \in 1..NSys(c)}
     \cup {B("lam", k, e, j, q, NF(c, q), Rep1(NF(c, q), <<DualLb(c), Inf, None>>)) : j \in 1..MStages(c, k, e), q \in 1..NSys(c)}
     \cup {B("mu", k, e, j, q, 1, <<<<-Inf, Inf, None>>>>) : j \in 1..MStages(c, k, e), q \in 1..NSys(c)}
        ELSE
          {B("alpha", k, e, j, q, NC(c, q), Rep1(NC(c, q), <<DualLb(c), 1000, None>>)) : j \in 1..c.s, q \in 1..NSys(c)}
     \cup {B(l, k, e, j, q, NC(c, q), Rep1(NC(c, q), <<DualLb(c), Inf, None>>)) : l \in {"lambda_n", "lambda_p"}, j \in 1..MStages(c, k, e), q \in 1..NSys(c)})
StageBlocks(c, k) == {B("u", k, 0, 0, 0, c.dim.u, UVals(c))}
  \cup (IF c.sot = "LOCAL" THEN {B("sot", k, 0, 0, 0, 1, <<<<c.sotb[1], c.sotb[2], None>>>>)} ELSE {})
GlobalBlocks(c) == {B("v_global", 0, 0, 0, 0, c.dim.v, VVals(c))}
  \cup (IF c.sot = "GLOBAL" THEN {B("sot", 1, 0, 0, 0, 1, <<<<c.sotb[1], c.sotb[2], None>>>>)} ELSE {})
  \cup (IF c.mode \in {"ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED"} THEN {B("elastic", 0, 0, 0, 0, 1, <<<<250, 7000, 3000>>>>)} ELSE {})
NonEmpty(bs) == {b \in bs : b.dim > 0}
Init == /\ cfg \in CfgSet /\ req = NonEmpty(GlobalBlocks(cfg)) /\ n = 0 /\ tid = 0
Add == /\ n < NE(cfg.lay) /\ n' = n + 1
       /\ LET k == StageOf(cfg.lay, n') e == ElemOf(cfg.lay, n') IN
          req' = req \cup NonEmpty(ElementBlocks(cfg, k, e) \cup (IF e = 1 THEN StageBlocks(cfg, k) ELSE {}))
       /\ UNCHANGED <<cfg, tid>>
Next == Add
Done == n = NE(cfg.lay)
Key(b) == <<b.nm, b.k, b.e, b.j, b.q>>
KeysUnique == \A a, b \in req : Key(a) = Key(b) => a = b
RECURSIVE SumDim(_)
SumDim(bs) == IF bs = {} THEN 0 ELSE LET b == CHOOSE b \in bs : TRUE IN b.dim + SumDim(bs \ {b})
WellBounded == \A b \in req : Len(b.vals) = b.dim /\ \A i \in 1..b.dim : b.vals[i][1] <= b.vals[i][2]
   /\ (b.vals[i][3] # None => b.vals[i][1] <= b.vals[i][3] /\ b.vals[i][3] <= b.vals[i][2])
(* the dimension of the problem in closed form *)
RegSum(c) == IF Stewart(c) THEN SumSeq(c.regs) ELSE SumSeq([q \in 1..NSys(c) |-> NC(c, q)])
NBoundary(c) == IF c.fesd /\ c.sch = "GAUSS" THEN NE(c.lay) - 1 ELSE 0
Closed(c) == NE(c.lay) * (XStages(c) * c.dim.x + (IF c.rep = "INTEGRAL" THEN 0 ELSE c.s * c.dim.x) + (IF c.fesd THEN 1 ELSE 0)
                + c.s * (c.dim.z + (IF Stewart(c) THEN 2 * RegSum(c) + NSys(c) ELSE 3 * RegSum(c))))
             + NBoundary(c) * (c.dim.z + (IF Stewart(c) THEN RegSum(c) + NSys(c) ELSE 2 * RegSum(c)))
             + Len(c.lay) * (c.dim.u + (IF c.sot = "LOCAL" THEN 1 ELSE 0)) + (IF c.sot = "GLOBAL" THEN 1 ELSE 0) + c.dim.v
             + (IF c.mode \in {"ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED"} THEN 1 ELSE 0)
DimensionCloses == Done => SumDim(req) = Closed(cfg)
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg])>>, IOEnv.OUT)
(* --------------------------- trace validation --------------------------- *)
(* record: obs = sequence of [nm, k, e, j, q, ix, lb, ub, w0], bools = indices of binaries with their bounds, nw, oor = other observations *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ req = NonEmpty(GlobalBlocks(cfg)) /\ n = 0
TNext == Next
Obs == Trace[tid].obs
Bl == Trace[tid].bools
AllIx == TLCEval(Concat([i \in 1..Len(Obs) |-> Obs[i].ix]) \o [i \in 1..Len(Bl) |-> Bl[i][1]])
Matches(b, o) == /\ Key(b) = Key(o) /\ Len(o.ix) = b.dim
BoundsOk(b, o) == \A i \in 1..b.dim : o.lb[i] = b.vals[i][1] /\ (o.ub[i] = b.vals[i][2] \/ (b.nm = "theta" /\ o.ub[i] = 1000))
GuessOk(b, o) == \A i \in 1..b.dim : IF b.vals[i][3] = None THEN o.lb[i] <= o.w0[i] /\ o.w0[i] <= o.ub[i] ELSE o.w0[i] = b.vals[i][3]
If(t, s) == IF t THEN {s} ELSE {}
Bad == If(Cardinality(Range(AllIx)) # Len(AllIx), "entry-in-two-blocks")
  \cup If(Range(AllIx) # 1..Trace[tid].nw, "entry-in-no-block")
  \cup If(\E b \in req : ~\E i \in 1..Len(Obs) : Matches(b, Obs[i]), "block-missing-or-of-wrong-dimension")
  \cup If(\E i \in 1..Len(Obs) : ~\E b \in req : Matches(b, Obs[i]), "block-not-dictated-by-the-model")
  \cup If(\E b \in req, i \in 1..Len(Obs) : Matches(b, Obs[i]) /\ ~BoundsOk(b, Obs[i]), "wrong-bounds")
  \cup If(\E b \in req, i \in 1..Len(Obs) : Matches(b, Obs[i]) /\ ~GuessOk(b, Obs[i]), "wrong-initial-value")
  \cup If(\E i \in 1..Len(Bl) : Bl[i][2] # 0 \/ Bl[i][3] # 1000, "binary-without-0-1-bounds")
  \cup If((cfg.mode = "BOOLEAN") # (Len(Bl) > 0), "binaries-only-in-boolean-mode")
  \cup If(Trace[tid].cont # Trace[tid].ends, "ind_x_cont-is-not-the-element-ends")
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
