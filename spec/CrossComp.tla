----------------------------- MODULE CrossComp -----------------------------
(***************************************************************************)
(* Cross complementarity (property C02).  A trajectory is a sequence of     *)
(* finite elements; every element has weights (alpha in halves) at its       *)
(* integration stages and a sign of every switching function at its points   *)
(* (stages, and the right boundary if that is no stage).  The signs are      *)
(* chosen freely: the question is which combinations of weights and          *)
(* multiplier signs the NLP admits.                                          *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier

(* sys: switching functions of each subsystem; lay: elements per control stage; *)
(* ns: integration stages; sc: right boundary is the last stage;               *)
(* all: every pattern (else one nonzero sign and one free weight)              *)
C(sys, lay, ns, sc, fesd, all) == [sys |-> sys, lay |-> lay, ns |-> ns, sc |-> sc, fesd |-> fesd, all |-> all]
CfgsQ == {
  C(<<1>>, <<2>>, 1, TRUE, TRUE, TRUE), C(<<1>>, <<1, 1>>, 1, FALSE, TRUE, TRUE), C(<<1>>, <<2>>, 1, TRUE, FALSE, TRUE),
  C(<<1>>, <<3>>, 2, TRUE, TRUE, FALSE), C(<<1>>, <<2, 1>>, 2, FALSE, TRUE, FALSE),
  C(<<2>>, <<1, 2>>, 2, TRUE, TRUE, FALSE), C(<<1, 1>>, <<2>>, 3, FALSE, TRUE, FALSE),
  C(<<1, 2>>, <<1, 1>>, 2, TRUE, TRUE, FALSE), C(<<2, 1>>, <<2, 1>>, 2, FALSE, TRUE, FALSE),
  C(<<2, 1>>, <<2>>, 2, TRUE, FALSE, FALSE), C(<<1>>, <<1, 1>>, 3, FALSE, FALSE, FALSE),
  C(<<1>>, <<1, 2>>, 4, TRUE, TRUE, FALSE), C(<<1, 1>>, <<1, 2, 1>>, 1, FALSE, TRUE, FALSE), C(<<1>>, <<1, 1, 1, 1>>, 1, FALSE, TRUE, FALSE),
  C(<<1>>, <<1, 1>>, 4, FALSE, FALSE, FALSE), C(<<1>>, <<2>>, 4, FALSE, TRUE, FALSE) }
CfgsT == CfgsQ \cup {
  C(<<1>>, <<2>>, 2, TRUE, TRUE, TRUE), C(<<1>>, <<2>>, 2, FALSE, TRUE, TRUE), C(<<1>>, <<3>>, 1, TRUE, TRUE, TRUE),
  C(<<1, 1>>, <<1, 1>>, 1, TRUE, TRUE, TRUE),
  C(<<3>>, <<2>>, 2, FALSE, TRUE, FALSE), C(<<1, 1, 2>>, <<1, 2, 1>>, 3, TRUE, TRUE, FALSE),
  C(<<2, 2>>, <<2, 2>>, 4, FALSE, TRUE, FALSE), C(<<1, 2>>, <<3, 1>>, 3, FALSE, FALSE, FALSE) }
Cfgs == IF Tier = 1 THEN CfgsQ ELSE CfgsT

K(c) == SumSeq(c.sys)
(* points of element i: its stages and, with FESD and no explicit right boundary, the right boundary of all elements but the last *)
HasBoundary(c, i) == c.fesd /\ ~c.sc /\ i < NE(c.lay)
NP(c, i) == c.ns + (IF HasBoundary(c, i) THEN 1 ELSE 0)

Compat(a, s) == (a > 0 => s >= 0) /\ (a < 2 => s <= 0)
(* what FESD demands of one element, given the signs at the end of its predecessor *)
ElementOk(c, prevEnd, el) ==
  \A j \in 1..c.ns : \A k \in 1..K(c) :
    IF c.fesd
    THEN Compat(el.al[j][k], prevEnd[k]) /\ \A p \in 1..Len(el.c) : Compat(el.al[j][k], el.c[p][k])
    ELSE Compat(el.al[j][k], el.c[j][k])

VARIABLES cfg, c0, els, ok, pick
vars == <<cfg, c0, els, ok, pick>>
Done == Len(els) = NE(cfg.lay)
EndOf(el) == el.c[Len(el.c)]
PrevEnd == IF els = <<>> THEN c0 ELSE EndOf(els[Len(els)])

(* pick: the only nonzero sign (at point p of element e, function k) and the only deviating weight (at element de, stage dj, function dk) *)
Picks(c) == [e : 0..NE(c.lay), p : 1..(c.ns + 1), k : 1..K(c), s : {-1, 1}, de : 1..NE(c.lay), dj : 1..c.ns, dk : 1..K(c), a : {0, 1, 2}]
ValidPick(c, q) == /\ (q.e = 0 => q.p = 1) /\ (q.e > 0 => q.p <= NP(c, q.e))
                   /\ q.a # 1 + q.s
Init == /\ cfg \in Cfgs
        /\ els = <<>> /\ ok = TRUE
        /\ IF cfg.all THEN /\ pick = [e |-> 0] /\ c0 \in [1..K(cfg) -> {-1, 0, 1}]
           ELSE /\ pick \in {q \in Picks(cfg) : ValidPick(cfg, q)}
                /\ c0 = [k \in 1..K(cfg) |-> IF pick.e = 0 /\ pick.k = k THEN pick.s ELSE 0]

PickElement(i) ==
  [c |-> [p \in 1..NP(cfg, i) |-> [k \in 1..K(cfg) |-> IF pick.e = i /\ pick.p = p /\ pick.k = k THEN pick.s ELSE 0]],
   al |-> [j \in 1..cfg.ns |-> [k \in 1..K(cfg) |->
       IF pick.de = i /\ pick.dj = j /\ pick.dk = k THEN pick.a
       ELSE IF k = pick.k THEN 1 + pick.s ELSE 1]]]
Elements(i) == [c : [1..NP(cfg, i) -> [1..K(cfg) -> {-1, 0, 1}]], al : [1..cfg.ns -> [1..K(cfg) -> {0, 1, 2}]]]
Append1(el) == /\ els' = Append(els, el)
               /\ ok' = (ok /\ ElementOk(cfg, PrevEnd, el))
               /\ UNCHANGED <<cfg, c0, pick>>
Element == ~Done /\ IF cfg.all THEN \E el \in Elements(Len(els) + 1) : Append1(el) ELSE Append1(PickElement(Len(els) + 1))
Next == Element
Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ------------------------------ *)
(* the incremental verdict is the one over all (weight, multiplier) pairs in scope *)
Prev(i) == IF i = 1 THEN c0 ELSE EndOf(els[i - 1])
PairwiseOk == ok <=> \A i \in 1..Len(els) : ElementOk(cfg, Prev(i), els[i])
(* no switch inside an element: signs seen by an element never disagree, and a mixture means zero *)
NoInteriorSwitch == (cfg.fesd /\ ok) =>
  \A i \in 1..Len(els) : \A k \in 1..K(cfg) :
    LET sg == {els[i].c[p][k] : p \in 1..Len(els[i].c)} \cup {Prev(i)[k]}
    IN /\ ~({-1, 1} \subseteq sg)
       /\ (\E j \in 1..cfg.ns : els[i].al[j][k] = 1) => sg = {0}
       /\ (\E j, jj \in 1..cfg.ns : els[i].al[j][k] # els[i].al[jj][k]) => sg = {0}
(* between elements on opposite sides there is a zero of the switching function *)
SwitchAtZero == (cfg.fesd /\ ok) =>
  \A i \in 1..(Len(els) - 1) : \A k \in 1..K(cfg) :
    (cfg.sc /\ \E p \in 1..cfg.ns, q \in 1..cfg.ns : els[i].c[p][k] * els[i + 1].c[q][k] = -1) => EndOf(els[i])[k] = 0
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, c0 |-> c0, els |-> els])>>, IOEnv.OUT)

(* --------------------------- trace validation --------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == \E t \in 1..Len(Trace) :
           /\ cfg = Trace[t].cfg /\ c0 = Trace[t].c0 /\ els = <<>> /\ ok = TRUE /\ pick = [t |-> t]
TNext == ~Done /\ Append1(Trace[pick.t].els[Len(els) + 1])
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[pick.t].id,
          bad |-> {[acc |-> a, clause |-> IF a THEN "weight-with-positive-multiplier-accepted" ELSE "compatible-pattern-rejected"] :
                      a \in {b \in Range(Trace[pick.t].obs) : b # ok}}])>>, IOEnv.OUT)
=============================================================================
