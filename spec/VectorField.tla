---------------------------- MODULE VectorField ----------------------------
(***************************************************************************)
(* The vector field function of a solver (property C23).  A function is made   *)
(* for a smoothing parameter, a parameter vector and global variables; it is     *)
(* then evaluated at states, controls and algebraic variables in any order,      *)
(* while the data of the solver change.  The smoothed weights of a subsystem      *)
(* with indicators g are the positive th with sum 1 and th_i*(g_i - mu) =         *)
(* sigma^2/2.  Points are generated from the weights: th_i = a_i/D gives           *)
(* g_i = mu + sigma^2/2*D/a_i; or, for a vanishing smoothing parameter, from       *)
(* integer indicators, where the weights become the uniform ones of the smallest.  *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANTS Tier
VARIABLES cfg, fns, evs, tid
vars == <<cfg, fns, evs, tid>>
Sizes == {<<2>>, <<3>>, <<4>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>}
Forms == {"INDICATORS", "REGIONS"}                      \* user indicators; S and c (two regions per subsystem)
CfgOk(c) == c.form = "REGIONS" => \A q \in 1..Len(c.n) : c.n[q] = 2
Wts == IF Tier = 1 THEN {1, 3} ELSE {1, 2, 7}
Inds == IF Tier = 1 THEN {0, 1} ELSE {-1, 0, 2}
(* a function: exponent k of the smoothing (sigma^2/2 = 2^-k, 99: vanishing), parameters, global variable *)
FnSets == {<<[k |-> 1, p1 |-> 1, p2 |-> 2, v |-> 1], [k |-> 99, p1 |-> 3, p2 |-> 0, v |-> 2]>>,
           <<[k |-> 99, p1 |-> 0, p2 |-> 1, v |-> 0], [k |-> 5, p1 |-> 2, p2 |-> 2, v |-> 3]>>,
           <<[k |-> 9, p1 |-> 2, p2 |-> 3, v |-> 1], [k |-> 15, p1 |-> 1, p2 |-> 1, v |-> 0]>>}
Vals(f) == IF f.k = 99 THEN Inds ELSE Wts
Pts(c, f) == [1..SumSeq(c.n) -> Vals(f)]
Init == /\ cfg \in {c \in [form : Forms, n : Sizes, pss : {"STEWART", "STEP"}] : CfgOk(c) /\ (c.pss = "STEP" => c.form = "REGIONS")}
        /\ fns = <<>> /\ evs = <<>> /\ tid = 0
Make(fs) == fns' = fs /\ UNCHANGED <<cfg, evs, tid>>
Eval(e) == evs' = Append(evs, e) /\ UNCHANGED <<cfg, fns, tid>>
Second(n) == {[i \in 1..n |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..n |-> IF i = n THEN 3 ELSE 1]}
Next == \/ fns = <<>> /\ cfg.pss = "STEWART" /\ \E fs \in FnSets : Make(fs)
        \/ /\ fns # <<>> /\ evs = <<>>
           /\ \E i \in 1..2 : \E a \in Pts(cfg, fns[i]) : \E u \in {0, 2} : Eval([fn |-> i, a |-> a, u |-> u, z |-> (u + a[1]) % 3])
        \/ /\ Len(evs) = 1
           /\ \E i \in 1..2 : \E a \in {b \in Second(SumSeq(cfg.n)) : \A j \in 1..SumSeq(cfg.n) : fns[i].k # 99 => b[j] > 0} :
                 Eval([fn |-> i, a |-> a, u |-> 1, z |-> 2])
Spec == Init /\ [][Next]_vars
Done == Len(evs) = 2 \/ cfg.pss = "STEP"

(* weights as rationals num/den *)
Off(q) == SumSeq(SubSeq(cfg.n, 1, q - 1))
SubOf(r) == CHOOSE q \in 1..Len(cfg.n) : Off(q) < r /\ r <= Off(q) + cfg.n[q]
Part(e, q) == SubSeq(e.a, Off(q) + 1, Off(q) + cfg.n[q])
Num(e, r) == IF fns[e.fn].k = 99 THEN (IF e.a[r] = MinSeq(Part(e, SubOf(r))) THEN 1 ELSE 0) ELSE e.a[r]
Den(e, r) == LET q == SubOf(r) IN SumSeq([i \in 1..cfg.n[q] |-> Num(e, Off(q) + i)])
(* dynamics: component r: weight of region r times (1+u); last component: data of the function and of the point *)
Common(e) == LET f == fns[e.fn] IN Len(cfg.n) * (f.p1 + 3 * f.p2 + 7 * f.v + 5 * e.z)
Unit == 1000000
Near(o, n, d) == Abs(o * d - n * Unit) <= 30 * d
WeightsSum == \A j \in 1..Len(evs) : \A q \in 1..Len(cfg.n) :
                 LET e == evs[j] IN SumSeq([i \in 1..cfg.n[q] |-> Num(e, Off(q) + i)]) = Den(e, Off(q) + 1) /\ Den(e, Off(q) + 1) > 0
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, fns |-> fns, evs |-> evs])>>, IOEnv.OUT)

Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[tid]
BadEval(j) ==
  LET e == evs[j]
      o == R.obs.dx[j]
      n == SumSeq(cfg.n)
  IN IF Len(o) # n + 1 THEN {"wrong-dimension"}
     ELSE {x \in {"weight-of-a-region-wrong", "parameters-or-global-variables-of-the-function-not-used"} :
            \/ (x = "weight-of-a-region-wrong" /\ \E r \in 1..n : ~Near(o[r], Num(e, r) * (1 + e.u), Den(e, r)))
            \/ (x = "parameters-or-global-variables-of-the-function-not-used" /\ ~Near(o[n + 1], Common(e), 1))}
Bad == IF cfg.pss = "STEP" THEN (IF R.obs.rejected THEN {} ELSE {"step-form-not-refused"})
       ELSE IF R.obs.rejected THEN {"refused"}
       ELSE UNION {BadEval(j) : j \in 1..Len(evs)}
TInit == tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ fns = Trace[tid].fns /\ evs = Trace[tid].evs
TNext == FALSE /\ UNCHANGED vars
TEmit == CSVWrite("%1$s", <<ToJson([id |-> R.id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
