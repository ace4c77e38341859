------------------------------ MODULE PathCons ------------------------------
(***************************************************************************)
(* User constraints (property C07).  Every element has points 1..s (its      *)
(* integration stages) and the end point.  A behaviour decides at every point *)
(* whether the path constraint is satisfied there ("good"), and may violate   *)
(* one other user constraint somewhere.                                       *)
(*   base "good": satisfied everywhere; "garbage": only where it is promised  *)
(*   to be enforced; one point can deviate (flip).                            *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
LayQ == {<<1>>, <<3>>, <<2, 1>>, <<1, 2>>, <<1, 2, 1>>}
Lays == IF Tier = 1 THEN LayQ ELSE LayQ \cup {<<1, 1>>, <<2, 2>>, <<1, 3, 1>>}
VARIABLES cfg, base, flip, fault, els, ok, tid
vars == <<cfg, base, flip, fault, els, ok, tid>>
N(c) == NE(c.lay)
EndIsStage(c) == c.sch = "RADAU"
HasX(c) == c.rep # "DIFFERENTIAL"
(* points of an element: stages, and the end where it is a point of its own *)
Pts(c) == IF EndIsStage(c) THEN c.s ELSE c.s + 1
EndPt(c) == Pts(c)
Promised(c, i, pt) == \/ pt = EndPt(c) /\ (LastOfStage(c.lay, i) \/ c.fe)
                      \/ pt <= c.s /\ c.stg
(* variables carrying box bounds *)
BoxPts(c) == {pt \in 1..Pts(c) : HasX(c) \/ pt = EndPt(c)}
HasBoundaryZ(c, i) == c.fesd /\ ~EndIsStage(c) /\ i < N(c)
F(w, i, pt) == [w |-> w, i |-> i, pt |-> pt]
NoFault == F("none", 0, 0)
Faults(c) ==
  {NoFault}
  \cup {F(w, 0, 0) : w \in {"terminal+", "terminal-", "v+", "v-"}}
  \cup {F(w, k, 0) : w \in {"u+", "u-", "data"}, k \in 1..Len(c.lay)}
  \cup {F(w, i, pt) : w \in {"x+", "x-"}, i \in 1..N(c), pt \in BoxPts(c)}
  \cup {F(w, i, pt) : w \in {"z+", "z-"}, i \in 1..N(c), pt \in 1..c.s}
  \cup {F("z+", i, c.s + 1) : i \in {i \in 1..N(c) : HasBoundaryZ(c, i)}}
Flips(c) == {F("none", 0, 0)} \cup {F("flip", i, pt) : i \in 1..N(c), pt \in 1..Pts(c)}
CfgSet == [lay : Lays, fe : BOOLEAN, stg : BOOLEAN, fesd : BOOLEAN, sch : {"RADAU", "GAUSS"}, s : IF Tier = 1 THEN 1..3 ELSE 1..4,
           rep : {"INTEGRAL", "DIFFERENTIAL", "LIFT"}]
  \cup [lay : {<<1, 1, 1, 1>>}, fe : BOOLEAN, stg : BOOLEAN, fesd : BOOLEAN, sch : {"RADAU", "GAUSS"}, s : {1}, rep : {"INTEGRAL", "LIFT"}]
(* the other constraints do not depend on where the path constraint is promised, and all layouts treat them alike *)
Init == /\ cfg \in CfgSet /\ base \in {"good", "garbage"}
        /\ \/ flip \in Flips(cfg) /\ fault = NoFault
           \/ flip = F("none", 0, 0) /\ fault \in (IF base = "good" /\ cfg.fe = cfg.stg THEN Faults(cfg) ELSE {NoFault})
        /\ els = <<>> /\ ok = TRUE /\ tid = 0
Idx == Len(els) + 1
Add(g) == /\ els' = Append(els, g)
          /\ ok' = (ok /\ (\A pt \in 1..Pts(cfg) : Promised(cfg, Idx, pt) => g[pt]))
          /\ UNCHANGED <<cfg, base, flip, fault, tid>>
Pattern(i) == [pt \in 1..Pts(cfg) |->
    LET b == base = "good" \/ Promised(cfg, i, pt) IN IF flip.w = "flip" /\ flip.i = i /\ flip.pt = pt THEN ~b ELSE b]
Done == Len(els) = N(cfg)
Next == ~Done /\ Add(Pattern(Idx))
Spec == Init /\ [][Next]_vars
Accept == ok /\ fault = NoFault
(* ------------------------------ invariants ------------------------------ *)
BaseAccepted == (Done /\ flip.w = "none" /\ fault = NoFault) => Accept
(* a single deviation matters exactly at the promised points *)
FlipMatters == (Done /\ flip.w = "flip" /\ fault = NoFault) => (Accept <=> (~Promised(cfg, flip.i, flip.pt)))
StageEndsPromised == \A i \in 1..N(cfg) : LastOfStage(cfg.lay, i) => Promised(cfg, i, EndPt(cfg))
MorePromisesRestrictMore == Done /\ Accept => LET c == [cfg EXCEPT !.fe = FALSE, !.stg = FALSE]
   IN \A i \in 1..N(cfg) : \A pt \in 1..Pts(cfg) : Promised(c, i, pt) => els[i][pt]

Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, els |-> els, fault |-> fault, base |-> base, flip |-> flip])>>, IOEnv.OUT)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ fault = Trace[tid].fault /\ els = <<>> /\ ok = TRUE
         /\ base = "good" /\ flip = F("none", 0, 0)
TNext == ~Done /\ Add(Trace[tid].els[Idx])
Bad == {IF a THEN (IF ok THEN "violated-user-constraint-accepted" ELSE "path-constraint-not-enforced-at-promised-point")
        ELSE "point-restricted-that-was-not-promised" : a \in {b \in Range(Trace[tid].obs) : b # Accept}}
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
