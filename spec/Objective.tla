------------------------------ MODULE Objective ------------------------------
(***************************************************************************)
(* The objective of the NLP at an arbitrary point (property C06).            *)
(* On every finite element the state follows a polynomial                     *)
(*     x(tau) = a + (m+1) b tau^m,   tau in [0,1],   mean value a + b,          *)
(* so the quadrature of the running cost is an integer.  Lengths in quarter    *)
(* time units, speed of time in quarters; the objective counts in 1/64.        *)
(*   running cost  q = x(1+u) + 3u + 5tv + 7pg + 11vg                          *)
(*   terminal cost x_end(2+tv) + 3pg + vg     (tv of the last control stage)   *)
(* A behaviour lays down the elements one after the other; at most one quantity *)
(* (the probe) differs from the base data.                                     *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
HS == 12
Rho == 3
PG == 2
VG == -3
(* sc: right boundary is the last stage; p: order *)
M(sch, s) == [sch |-> sch, s |-> s, p |-> IF sch = "RADAU" THEN 2 * s - 1 ELSE 2 * s]
LayQ == {<<3>>, <<2, 1>>, <<1, 2, 1>>}
Lays == IF Tier = 1 THEN LayQ ELSE LayQ \cup {<<1>>, <<2, 2>>, <<1, 3>>, <<3, 2, 1>>}
Meths == {M(sch, s) : sch \in {"RADAU", "GAUSS"}, s \in IF Tier = 1 THEN 1..3 ELSE 1..5}
Seqs == {"HEURISTIC_MEAN", "HEURISTIC_DELTA", "L2_RELAXED", "L2_RELAXED_SCALED", "DIRECT"}
Elas == {"none", "direct", "scaled"}
VARIABLES cfg, probe, els, run, pen, tid
vars == <<cfg, probe, els, run, pen, tid>>

Nominal(k) == HS \div cfg.lay[k]
(* --------------------------- base data and probes --------------------------- *)
U(k) == k - 2 + (IF probe.q = "u" /\ probe.i = k THEN 2 ELSE 0)
TV(k) == 2 - 3 * k + (IF probe.q = "tv" /\ probe.i = k THEN 1 ELSE 0)
Sot(k) == CASE cfg.sot = "NONE" -> 4
            [] cfg.sot = "GLOBAL" -> 5 + (IF probe.q = "sot" THEN 2 ELSE 0)
            [] OTHER -> 4 + k + (IF probe.q = "sot" /\ probe.i = k THEN 3 ELSE 0)
Slack == 2 + (IF probe.q = "slack" THEN 5 ELSE 0)
El(i) ==
  LET k == StageOf(cfg.lay, i) IN
  [h |-> IF ~cfg.fesd THEN Nominal(k) ELSE Nominal(k) + (IF i % 2 = 0 THEN -1 ELSE 1) + (IF probe.q = "h" /\ probe.i = i THEN 2 ELSE 0),
   a |-> i - 2,
   m |-> IF probe.q = "poly" /\ probe.i = i THEN probe.m ELSE (i % cfg.meth.p),
   b |-> IF probe.q = "poly" /\ probe.i = i THEN 5 ELSE IF i % 2 = 0 THEN i ELSE -i,
   e |-> IF probe.q = "end" /\ probe.i = i THEN 7 ELSE 3 - i,          \* end state, if it is no stage
   t |-> IF probe.q = "weight" /\ probe.i = i THEN 1 - (i % 2) ELSE i % 2,
   l |-> IF probe.q = "mult" /\ probe.i = i THEN <<1, 1>> ELSE <<i % 2, 1 - (i % 2)>>]
Probes(c) ==
  {[q |-> "none", i |-> 0, m |-> 0], [q |-> "slack", i |-> 0, m |-> 0]}
  \cup [q : {"u", "tv", "sot"}, i : 1..Len(c.lay), m : {0}]
  \cup [q : {"h", "end", "weight", "mult"}, i : 1..NE(c.lay), m : {0}]
  \cup [q : {"poly"}, i : 1..NE(c.lay), m : 0..(c.meth.p - 1)]
Long == {M(sch, 5) : sch \in {"RADAU", "GAUSS"}}
CfgSet ==
  [lay : {<<2, 1>>}, meth : Long, fesd : BOOLEAN, seq : {"HEURISTIC_DELTA", "L2_RELAXED"}, sot : {"NONE"}, ela : {"none"}, pss : {"STEP"}] \cup
  [lay : Lays, meth : Meths, fesd : {TRUE}, seq : Seqs, sot : {"NONE"}, ela : {"none"}, pss : {"STEWART", "STEP"}]
  \cup [lay : Lays, meth : Meths, fesd : BOOLEAN, seq : {"HEURISTIC_DELTA"}, sot : {"NONE", "LOCAL", "GLOBAL"}, ela : Elas, pss : {"STEP"}]
  \cup [lay : {<<2, 1>>}, meth : Meths, fesd : {FALSE}, seq : Seqs, sot : {"LOCAL"}, ela : {"none"}, pss : {"STEWART"}]
  \cup [lay : {<<1, 1, 1, 1>>}, meth : {M("RADAU", 1)}, fesd : {TRUE}, seq : {"HEURISTIC_DELTA"}, sot : {"LOCAL"}, ela : {"none"}, pss : {"STEP"}]
  \cup [lay : {<<1, 1, 1, 1>>}, meth : {M("GAUSS", 1)}, fesd : {FALSE}, seq : {"HEURISTIC_DELTA"}, sot : {"NONE"}, ela : {"direct", "scaled"}, pss : {"STEP"}]

(* -------------------------------- the objective -------------------------------- *)
HasBoundary(i) == cfg.fesd /\ cfg.meth.sch = "GAUSS" /\ i < NE(cfg.lay)
NP(i) == cfg.meth.s + (IF HasBoundary(i) THEN 1 ELSE 0)
End(el) == IF cfg.meth.sch = "RADAU" THEN el.a + (el.m + 1) * el.b ELSE el.e
L0 == IF cfg.pss = "STEWART" THEN <<0, 2>> ELSE <<0, 1>>               \* multipliers of the initial state (c = 1)
LamEnd(s, i) == IF i = 0 THEN L0 ELSE s[i].l
SumLam(s, i) == VAdd(VScale(NP(i), s[i].l), LamEnd(s, i - 1))
SumThe(s, i) == VScale(cfg.meth.s, <<s[i].t, 1 - s[i].t>>)
Nu(s, i) == ProdSeq([c \in 1..2 |-> SumLam(s, i)[c] * SumLam(s, i - 1)[c] + SumThe(s, i)[c] * SumThe(s, i - 1)[c]])
Mean(k, el) == (el.a + el.b) * (1 + U(k)) + 3 * U(k) + 5 * TV(k) + 7 * PG + 11 * VG
Penalty(s, i) ==
  LET k == StageOf(cfg.lay, i)
      d == IF i > 1 THEN s[i].h - s[i - 1].h ELSE 0
  IN IF ~cfg.fesd THEN 0
     ELSE IF cfg.seq = "HEURISTIC_MEAN" THEN (s[i].h - Nominal(k)) * (s[i].h - Nominal(k))
     ELSE IF FirstOfStage(cfg.lay, i) THEN 0
     ELSE CASE cfg.seq = "HEURISTIC_DELTA" -> d * d
            [] cfg.seq = "L2_RELAXED" -> Nu(s, i) * d * d
            [] cfg.seq = "L2_RELAXED_SCALED" -> (IF Nu(s, i) > 0 THEN 1 ELSE 0) * d * d
            [] OTHER -> 0
Cost == 4 * run + 4 * Rho * pen + 64 * (End(els[Len(els)]) * (2 + TV(Len(cfg.lay))) + 3 * PG + VG)
(* sigma = 2^-e: cost + slack / sigma, or sigma * cost + slack (observed in units of sigma) *)
Objective(e) == Cost + (IF cfg.ela = "none" THEN 0 ELSE 64 * (2 ^ e) * Slack)

Add(el) == LET i == Len(els) + 1
               s == Append(els, el)
               k == StageOf(cfg.lay, i)
           IN /\ els' = s
              /\ run' = run + el.h * Sot(k) * Mean(k, el)
              /\ pen' = pen + Penalty(s, i)
              /\ UNCHANGED <<cfg, probe, tid>>
Init == /\ cfg \in CfgSet /\ probe \in Probes(cfg) /\ els = <<>> /\ run = 0 /\ pen = 0 /\ tid = 0
Done == Len(els) = NE(cfg.lay)
Next == ~Done /\ Add(El(Len(els) + 1))
Spec == Init /\ [][Next]_vars
(* ------------------------------ invariants ------------------------------ *)
(* the accumulated objective is the sum over control stages; penalties never couple control stages *)
StageSum == Done => run = SumSeq([k \in 1..Len(cfg.lay) |->
   Sot(k) * SumSeq([i \in 1..NE(cfg.lay) |-> IF StageOf(cfg.lay, i) = k THEN els[i].h * Mean(k, els[i]) ELSE 0])])
NoPenaltyOff == (~cfg.fesd \/ cfg.seq = "DIRECT") => pen = 0
PenaltyNonneg == pen >= 0
Divisible == Done => Cost % 4 = 0

Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, probe |-> probe, els |-> els,
     us |-> [k \in 1..Len(cfg.lay) |-> U(k)], tv |-> [k \in 1..Len(cfg.lay) |-> TV(k)],
     sots |-> [k \in 1..Len(cfg.lay) |-> Sot(k)], slack |-> Slack])>>, IOEnv.OUT)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ probe = Trace[tid].probe /\ els = <<>> /\ run = 0 /\ pen = 0
TNext == ~Done /\ Add(Trace[tid].els[Len(els) + 1])
Bad == (IF \E o \in Range(Trace[tid].obs) : o.f # Objective(o.e) THEN {"objective-differs"} ELSE {})
  \cup (IF \E o \in Range(Trace[tid].obs) : o.lsq # 0 THEN {"squared-residuals-not-added"} ELSE {})
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, want |-> Objective(Trace[tid].obs[1].e), bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
