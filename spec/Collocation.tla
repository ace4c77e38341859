----------------------------- MODULE Collocation -----------------------------
(***************************************************************************)
(* Collocation methods (property C04).  A method is given by its node        *)
(* polynomial; the spec derives its order from exact polynomial arithmetic    *)
(* (modulo primes) and walks over the finite elements of a discretized        *)
(* polynomial solution: at every element all stage values, stage derivatives  *)
(* and the end value are laid down, at most one of them wrong.                *)
(* Components of the state: 1..s powers t^k through the chain x_k'=k x_{k-1}, *)
(* s+1..p(+1) quadratures q_m'=m t^(m-1), last: x'=x.                         *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
Schemes == {"RADAU", "GAUSS"}
Reps == {"INTEGRAL", "DIFFERENTIAL", "LIFT"}
MaxS == 9
NElem == IF Tier = 1 THEN 2 ELSE 3

(* ------------------------- order from the nodes ------------------------- *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
BinTab == TLCEval([n \in 0..18 |-> TLCEval([k \in 0..18 |-> Binom(n, k)])])
(* shifted Legendre polynomial on [0,1], coefficient of t^k *)
Leg(n, k) == IF k > n THEN 0 ELSE (IF (n + k) % 2 = 0 THEN 1 ELSE -1) * BinTab[n][k] * BinTab[n + k][k]
NodePoly(sch, s) == TLCEval([k \in 0..s |-> IF sch = "GAUSS" THEN Leg(s, k) ELSE Leg(s, k) - Leg(s - 1, k)])
Primes == {30011, 32003}
RECURSIVE PowMod(_, _, _)
PowMod(b, e, q) == IF e = 0 THEN 1 ELSE LET h == PowMod(b, e \div 2, q) IN (((h * h) % q) * (IF e % 2 = 1 THEN b ELSE 1)) % q
Inv(n, q) == PowMod(n % q, q - 2, q)
InvTab == TLCEval([q \in Primes |-> TLCEval([n \in 1..40 |-> Inv(n, q)])])
RECURSIVE MomentFrom(_, _, _, _)
MomentFrom(P, k, i, q) == IF i < 0 THEN 0 ELSE (((P[i] % q) * InvTab[q][i + k + 1]) + MomentFrom(P, k, i - 1, q)) % q
(* the node polynomial is orthogonal to t^k on [0,1] *)
Orth(P, s, k) == \A q \in Primes : MomentFrom(P, k, s, q) = 0
OrderTab == TLCEval([sch \in Schemes |-> TLCEval([s \in 1..MaxS |->
   LET P == NodePoly(sch, s)
   IN s + (CHOOSE r \in 0..s : (\A k \in 0..(r - 1) : Orth(P, s, k)) /\ ~Orth(P, s, r))])])
Order(sch, s) == OrderTab[sch][s]
RightNode(sch, s) == SumSeq([k \in 1..(s + 1) |-> NodePoly(sch, s)[k - 1]]) = 0     \* t = 1 is a node

VARIABLES m, els, fault, tid
vars == <<m, els, fault, tid>>
(* methods: over: a quadrature one degree above the order is part of the problem *)
Meth(sch, s, rep) == [sch |-> sch, s |-> s, rep |-> rep, p |-> Order(sch, s), over |-> s <= 3, fixed |-> RightNode(sch, s)]
NC(mm) == mm.p + (IF mm.over THEN 1 ELSE 0) + 1        \* components
HasX(mm) == mm.rep # "DIFFERENTIAL"
HasV(mm) == mm.rep # "INTEGRAL"
HasEnd(mm) == ~mm.fixed \/ mm.rep = "DIFFERENTIAL"     \* the end state is a variable of its own
Good == [what |-> "none", j |-> 0, c |-> 0]
Comps(mm) == IF Tier = 1 THEN {1, mm.s, mm.p, NC(mm)} ELSE 1..NC(mm)
Faults(mm) ==
  {[what |-> "X", j |-> j, c |-> c] : j \in IF HasX(mm) THEN 1..mm.s ELSE {}, c \in Comps(mm)}
  \cup {[what |-> "V", j |-> j, c |-> c] : j \in IF HasV(mm) THEN 1..mm.s ELSE {}, c \in Comps(mm)}
  \cup {[what |-> "E", j |-> 0, c |-> c] : c \in IF HasEnd(mm) THEN Comps(mm) ELSE {}}
  \cup {[what |-> "nodes", j |-> 0, c |-> 0]}                      \* nodes of the other scheme
  \cup (IF mm.over /\ HasEnd(mm) THEN {[what |-> "over", j |-> 0, c |-> mm.p + 1]} ELSE {})   \* exact value above the order
Init == /\ m \in {Meth(sch, s, rep) : sch \in Schemes, s \in 1..MaxS, rep \in Reps}
        /\ els = <<>> /\ fault = FALSE /\ tid = 0
Step(f) == /\ els' = Append(els, f)
           /\ fault' = (fault \/ f.what # "none")
           /\ UNCHANGED <<m, tid>>
Element == Len(els) < NElem /\ \E f \in (IF fault THEN {Good} ELSE {Good} \cup Faults(m)) : Step(f)
Next == Element
Spec == Init /\ [][Next]_vars
Done == Len(els) = NElem
Accept == \A i \in 1..Len(els) : els[i] = Good

(* declared orders *)
Orders == \A s \in 1..MaxS : Order("RADAU", s) = 2 * s - 1 /\ Order("GAUSS", s) = 2 * s
RightNodes == \A s \in 1..MaxS : RightNode("RADAU", s) /\ ~RightNode("GAUSS", s)
FaultIffRejected == Accept <=> ~fault

Emit == Done => CSVWrite("%1$s", <<ToJson([m |-> m, els |-> els])>>, IOEnv.OUT)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ m = Meth(Trace[tid].m.sch, Trace[tid].m.s, Trace[tid].m.rep) /\ els = <<>> /\ fault = FALSE
TNext == Len(els) < Len(Trace[tid].els) /\ Step(Trace[tid].els[Len(els) + 1])
TEmit == (Len(els) = Len(Trace[tid].els)) => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id,
   bad |-> {IF a THEN "wrong-stage-value-derivative-or-end-state-accepted" ELSE "exact-collocation-solution-rejected" :
             a \in {b \in {Trace[tid].acc} : b # Accept}}])>>, IOEnv.OUT)

(* -------------------- the published coefficient tables -------------------- *)
(* A table is observed through the moments it satisfies: quad = the k with     *)
(* sum b_j c_j^(k-1) = 1/k, stage = the k for which every row reproduces t^k   *)
(* (integral rows for the A table, derivative rows for the C table), cont =    *)
(* the k for which the continuity row carries t^k to the right end.            *)
TabMax == 2 * MaxS + 1
TabCheck(t) ==
  LET p == Order(t.sch, t.s)
      low == IF t.kind = "INTEGRAL" THEN 0 ELSE 1
  IN {x \in {"quadrature-not-of-the-declared-order", "stage-rows-wrong", "continuity-row-wrong", "nodes-wrong",
              "declared-order-wrong", "order-too-high", "right-end-misjudged", "different-number-of-coefficients"} :
       \/ (x = "quadrature-not-of-the-declared-order" /\ ~((1..p) \subseteq Range(t.quad)))
       \/ (x = "order-too-high" /\ t.s <= 4 /\ p + 1 \in Range(t.quad))
       \/ (x = "stage-rows-wrong" /\ ~((low..t.s) \subseteq Range(t.stage)))
       \/ (x = "continuity-row-wrong" /\ t.kind = "INTEGRAL" /\ ~((0..t.s) \subseteq Range(t.cont)))
       \/ (x = "nodes-wrong" /\ Range(t.nodes) # 1..t.s)
       \/ (x = "declared-order-wrong" /\ t.kind = "TABLE" /\ t.order # p)
       \/ (x = "right-end-misjudged" /\ t.kind # "TABLE" /\ t.right # RightNode(t.sch, t.s))
       \/ (x = "different-number-of-coefficients" /\ t.size # t.s)}
TabInit == /\ tid \in 1..Len(Trace) /\ m = <<>> /\ els = <<>> /\ fault = FALSE
TabNext == FALSE /\ UNCHANGED vars
TabEmit == CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> TabCheck(Trace[tid])])>>, IOEnv.OUT)
=============================================================================
