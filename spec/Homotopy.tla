------------------------------ MODULE Homotopy ------------------------------
(***************************************************************************)
(* The homotopy loop (property C11).  The relaxation parameter is 2^(-m/U), m  *)
(* an integer; a smaller relaxation is a larger m.  A behaviour poses one NLP *)
(* after another; the environment answers with a complementarity residual (in *)
(* quarters of comp_tol) and a return status.                                *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
U == 4096
Zero == 1000000000          \* m of sigma = 0
VARIABLES cfg, m, out, posed, phase, tid
vars == <<cfg, m, out, posed, phase, tid>>
(* a: slope 2^(-a/U); e: exponent e/4; c: comp_tol 2^(-c/U); max: 0 = automatic *)
Sched == {[kind |-> "sched", rule |-> r, a |-> a, e |-> e, m0 |-> m0, mN |-> mN, c |-> c, max |-> mx, polish |-> p] :
   r \in {"LINEAR", "SUPERLINEAR"}, a \in {U, 3 * U}, e \in {6, 8}, m0 \in {-2 * U, 0, U, 6 * U, 42 * U, Zero}, mN \in {0, 6 * U, 7 * U, 9 * U + U \div 8, 30 * U, 60 * U},
   c \in {13 * U, 25 * U}, mx \in {0, 1, 2, 4}, p \in BOOLEAN}
SchedOk(x) == /\ x.rule = "LINEAR" => x.e = 6
              /\ x.rule = "SUPERLINEAR" => x.mN \in {0, 9 * U + U \div 8, 30 * U, 60 * U}
              /\ (x.mN = 60 * U) <=> (x.m0 = 42 * U)
              /\ x.m0 = 42 * U => x.max \in {2, 4}
              /\ x.max = 0 => (x.m0 # Zero /\ (x.c - x.m0) % x.a = 0)
              /\ x.max # 0 => x.c = 25 * U
              /\ x.polish => (x.e = 6 /\ x.mN # 7 * U)
MaxIter(x) == IF x.max # 0 THEN x.max ELSE ((x.c - x.m0) \div x.a) + 1
Update(x, k) == IF k = Zero THEN Zero
   ELSE IF x.rule = "LINEAR" THEN k + x.a
   ELSE Min2(x.mN, Max2(k + x.a, (k * x.e) \div 4))
Tau(k) == IF k = Zero THEN Zero ELSE Max2(k, (k * 3) \div 2)
(* ---------------- where the complementarity residual is measured ---------------- *)
Lays == IF Tier = 1 THEN {<<1>>, <<2, 1>>, <<1, 2, 1>>} ELSE {<<1>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>, <<1, 2, 1>>}
Resid == {[kind |-> "resid", lay |-> l, s |-> s, sch |-> sc, fesd |-> f, pss |-> p, rep |-> "INTEGRAL"] :
    l \in Lays, s \in 1..2, sc \in {"RADAU", "GAUSS"}, f \in BOOLEAN, p \in {"STEWART", "STEP"}}
Regs(c) == IF c.pss = "STEWART" THEN <<2, 4>> ELSE <<2, 4>>       \* entries of the multiplier vector: regions, or lambda_n and lambda_p of 1 and 2 functions
HasB(c, i) == c.fesd /\ c.sch = "GAUSS" /\ i < NE(c.lay)
MSt(c, i) == c.s + (IF HasB(c, i) THEN 1 ELSE 0)
Wt(i, j, q, r) == [i |-> i, j |-> j, q |-> q, r |-> r]
Weights(c) == {w \in [i : 1..NE(c.lay), j : 1..c.s, q : 1..2, r : 1..4] : w.r <= Regs(c)[w.q] /\ (Tier = 1 => w.r \in {1, Regs(c)[w.q]})}
Mults(c) == {w \in [i : 1..NE(c.lay), j : 1..(c.s + 1), q : 1..2, r : 1..4] : w.r <= Regs(c)[w.q] /\ w.j <= MSt(c, w.i) /\ (Tier = 1 => w.r \in {1, Regs(c)[w.q]})}
  \cup {[i |-> 0, j |-> 1, q |-> q, r |-> r] : q \in 1..2, r \in {2}}
LastPt(c, i) == IF i = 0 THEN 1 ELSE MSt(c, i)
(* with the Stewart representation the initial state makes the multipliers of two regions of the larger subsystem positive *)
SameEntry(c, w, l) == w.q = l.q /\ (w.r = l.r \/ (l.i = 0 /\ c.pss = "STEWART" /\ l.q = 2 /\ w.r = 4))
Counted(c, w, l) == /\ SameEntry(c, w, l)
   /\ IF c.fesd THEN l.i = w.i \/ (l.i = w.i - 1 /\ l.j = LastPt(c, l.i)) ELSE l.i = w.i /\ l.j = w.j
Near(w, l) == Abs(w.i - l.i) <= 1 /\ (w.q = l.q \/ w.i = l.i)
(* ------------------------------- behaviours ------------------------------- *)
Statuses == {"Solve_Succeeded", "Infeasible_Problem_Detected"}
Init == /\ \/ /\ cfg \in {x \in Sched : SchedOk(x)} /\ m = cfg.m0
           \/ /\ \E x \in Resid : \E w \in Weights(x), l \in Mults(x) : Near(w, l) /\ cfg = [x |-> x, w |-> w, l |-> l, kind |-> "resid"]
              /\ m = 0
        /\ out = <<>> /\ posed = <<>> /\ phase = "loop" /\ tid = 0
Answers == IF cfg.kind = "resid" THEN {[res |-> IF Counted(cfg.x, cfg.w, cfg.l) THEN 8 ELSE 0, st |-> "Solve_Succeeded"]}
           ELSE [res : IF Len(posed) = 0 THEN {0, 2, 4, 8} ELSE {2, 8}, st : Statuses]
Limit == IF cfg.kind = "resid" THEN 2 ELSE MaxIter(cfg)
Pose(ans) == /\ phase = "loop" /\ Len(posed) < Limit
             /\ posed' = Append(posed, <<m, Tau(m)>>) /\ out' = Append(out, ans)
             /\ IF ans.res < 4 THEN phase' = "stop" /\ m' = m
                ELSE IF cfg.kind # "resid" /\ m >= cfg.mN THEN phase' = "stop" /\ m' = m
                ELSE /\ m' = (IF cfg.kind = "resid" THEN m + 1 ELSE Update(cfg, m))
                     /\ phase' = IF Len(posed') = Limit THEN "stop" ELSE "loop"
             /\ UNCHANGED <<cfg, tid>>
Polish == /\ phase = "stop"
          /\ phase' = "done"
          /\ posed' = IF cfg.kind # "resid" /\ cfg.polish THEN Append(posed, <<Zero, Zero>>) ELSE posed
          /\ UNCHANGED <<cfg, m, out, tid>>
(* the tail of long homotopies is answered uniformly *)
Quiet(ans) == \/ cfg.kind = "resid"
              \/ /\ (Limit > 4 /\ Len(posed) > 0) => (ans.res = 8 \/ Len(posed) \in {3, Limit - 1})
                 /\ Len(posed) > 2 => (ans.st = out[1].st)
                 /\ (Limit > 4 /\ Len(posed) > 0) => (ans.st = out[1].st)
Next == (\E ans \in Answers : Quiet(ans) /\ Pose(ans)) \/ Polish
Done == phase = "done"
NHom == Len(out)
(* -------------------------------- invariants -------------------------------- *)
NeverTooMany == Len(out) <= Limit /\ Len(posed) <= Limit + 1
StopsForAReason == Done => (NHom = Limit \/ out[NHom].res < 4 \/ posed[NHom][1] >= cfg.mN)
NoEarlyStop == \A i \in 1..NHom - 1 : out[i].res >= 4 /\ (cfg.kind # "resid" => posed[i][1] < cfg.mN)
Decreasing == \A i \in 1..NHom - 1 : posed[i][1] = Zero \/ posed[i][1] < posed[i + 1][1]
NeverBelowSigmaN == (cfg.kind # "resid" /\ cfg.rule = "SUPERLINEAR") => \A i \in 2..NHom : posed[i][1] <= cfg.mN
(* without convergence the automatic limit lets the linear rule reach comp_tol *)
AutoReaches == (Done /\ cfg.kind # "resid" /\ cfg.max = 0 /\ NHom = Limit /\ cfg.rule = "LINEAR") => posed[NHom][1] >= cfg.c
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, out |-> out])>>, IOEnv.OUT)
(* ----------------------------- trace validation ----------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ m = (IF Trace[tid].cfg.kind = "resid" THEN 0 ELSE Trace[tid].cfg.m0)
         /\ out = <<>> /\ posed = <<>> /\ phase = "loop"
TNext == Pose(Trace[tid].out[Len(posed) + 1]) \/ Polish
If(t, s) == IF t THEN {s} ELSE {}
O == Trace[tid].obs
Bad == IF cfg.kind = "resid" THEN If(Len(O.posed) # Len(posed), "complementarity-residual-not-measured-over-the-enforced-pairs")
       ELSE If(Len(O.posed) < Len(posed), "stopped-too-early") \cup If(Len(O.posed) > Len(posed), "posed-too-many-nlps")
         \cup If(\E i \in 1..Min2(Len(posed), Len(O.posed)) : O.posed[i][1] # posed[i][1], "wrong-relaxation-parameter")
         \cup If(\E i \in 1..Min2(Len(posed), Len(O.posed)) : O.posed[i][2] # posed[i][2], "wrong-tau")
         \cup If(O.max # MaxIter(cfg), "wrong-iteration-limit")
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
