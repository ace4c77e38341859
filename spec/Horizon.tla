------------------------------- MODULE Horizon -------------------------------
(***************************************************************************)
(* Time grid (property C05): element lengths, speed of time and clock.       *)
(* Lengths in ticks (a control stage nominally lasts HS ticks), speed of time *)
(* in quarters, clock rate in 48ths; the clock therefore advances in units of *)
(* 1/192 tick.  A behaviour chooses the lengths element by element, at the    *)
(* start of a control stage its speed of time and its clock rate.             *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
HS == 12
SotMin == 3
SotMax == 6
ClockTol == 100
Modes == {"NONE", "LOCAL", "GLOBAL"}
LaysQ == {<<1>>, <<2>>, <<3>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<1, 1, 1>>, <<1, 2, 1>>}
LaysT == LaysQ \cup {<<4>>, <<3, 1>>, <<1, 3>>, <<1, 2, 1>>, <<2, 1, 1>>, <<3, 2>>}
Lays == IF Tier = 1 THEN LaysQ ELSE LaysT

VARIABLES cfg, hs, sots, us, y, clk, cost, ok, tid
vars == <<cfg, hs, sots, us, y, clk, cost, ok, tid>>
Idx == Len(hs) + 1
Done == Len(hs) = NE(cfg.lay)
Nominal(k) == HS \div cfg.lay[k]
Pattern(k) == IF cfg.sot = "NONE" THEN 4 ELSE IF cfg.sot = "GLOBAL" THEN 5 ELSE <<3, 6, 4>>[k]
SumStage(h, k) == SumSeq(TLCEval([i \in 1..Len(h) |-> IF StageOf(cfg.lay, i) = k THEN h[i] ELSE 0]))

(* gamma in quarters *)
HOk(k, h) == IF cfg.fesd THEN 4 * h >= (4 - cfg.gamma) * Nominal(k) /\ 4 * h <= (4 + cfg.gamma) * Nominal(k)
             ELSE h = Nominal(k)
SotOk(s) == cfg.sot = "NONE" \/ (SotMin <= s /\ s <= SotMax)
ClockOk(k, c) == ~(cfg.tf /\ cfg.eq) \/ Abs(c - 192 * HS * k) <= ClockTol

(* free choices of the three focal groups *)
Rest(k) == HS - SumStage(hs, k)                      \* what completes the control stage
RestAll == HS * Len(cfg.lay) - SumSeq(hs)
HChoices(k) ==
  IF cfg.focus = "h"
  THEN {h \in {Nominal(k) + d : d \in {-Nominal(k), -1, 0, 1, Nominal(k)}} \cup {Rest(k), RestAll} : h >= 0}
  ELSE {Nominal(k)}
SotChoices(k) ==
  IF cfg.sot = "NONE" THEN {4}
  ELSE IF cfg.sot = "GLOBAL" /\ k > 1 THEN {sots[1]}
  ELSE IF cfg.focus = "sot" THEN {2, 3, 5, 6, 7}
  ELSE IF cfg.focus = "clock" THEN {4, 6} \cap SotMin..SotMax
  ELSE {Pattern(k)}
UChoices(s) ==
  IF cfg.focus = "clock" THEN {192 \div s + d : d \in {-3, -1, 0, 1, 2}} ELSE IF cfg.focus = "sot" THEN {20 + 7 * Len(sots)} ELSE {48}

Element(h) ==
  LET k == StageOf(cfg.lay, Idx)
      c == clk + sots[k] * us[k] * h
      last == LastOfStage(cfg.lay, Idx)
  IN /\ hs' = Append(hs, h)
     /\ y' = y + sots[k] * h                                        \* quarter ticks
     /\ clk' = c
     /\ cost' = cost + sots[k] * h * (48 + 2 * us[k])
     /\ ok' = (ok /\ HOk(k, h)
                  /\ (last => ClockOk(k, c))
                  /\ ((last /\ cfg.fesd /\ cfg.eq) => SumStage(Append(hs, h), k) = HS)
                  /\ ((LastOverall(cfg.lay, Idx) /\ cfg.fesd /\ ~cfg.eq) => SumSeq(Append(hs, h)) = HS * Len(cfg.lay)))
     /\ UNCHANGED <<cfg, sots, us, tid>>
Stage(s, u) ==
  /\ sots' = Append(sots, s) /\ us' = Append(us, u) /\ ok' = (ok /\ SotOk(s))
  /\ UNCHANGED <<cfg, hs, y, clk, cost, tid>>
NeedStage == ~Done /\ Len(sots) < StageOf(cfg.lay, Idx)

CfgSet ==
  [lay : Lays, fesd : {TRUE}, eq : BOOLEAN, gamma : {0, 1, 2, 4}, sot : {"NONE"}, tf : {FALSE}, focus : {"h"}]
  \cup [lay : Lays, fesd : {TRUE}, eq : BOOLEAN, gamma : {2, 4}, sot : {"LOCAL", "GLOBAL"}, tf : {FALSE}, focus : {"h"}]
  \cup [lay : {<<1>>, <<2>>, <<2, 1>>}, fesd : {FALSE}, eq : BOOLEAN, gamma : {1, 4}, sot : {"NONE"}, tf : {FALSE}, focus : {"h"}]
  \cup [lay : {<<1>>, <<2>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>}, fesd : BOOLEAN, eq : BOOLEAN, gamma : {4}, sot : {"LOCAL", "GLOBAL"}, tf : {FALSE}, focus : {"sot"}]
  \cup [lay : {<<1>>, <<2>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>}, fesd : BOOLEAN, eq : BOOLEAN, gamma : {4}, sot : Modes, tf : {TRUE}, focus : {"clock"}]
  \cup [lay : {<<1, 1, 1, 1>>}, fesd : BOOLEAN, eq : BOOLEAN, gamma : {4}, sot : {"LOCAL", "GLOBAL"}, tf : {FALSE}, focus : {"sot"}]
  \cup [lay : {<<1, 1, 1, 1>>, <<1, 3>>}, fesd : BOOLEAN, eq : BOOLEAN, gamma : {4}, sot : {"NONE"}, tf : {TRUE}, focus : {"clock"}]
  \cup [lay : {<<1, 1>>}, fesd : {TRUE}, eq : BOOLEAN, gamma : {4}, sot : {"NONE"}, tf : {FALSE}, focus : {"clock"}]
Init == /\ cfg \in CfgSet /\ hs = <<>> /\ sots = <<>> /\ us = <<>> /\ y = 0 /\ clk = 0 /\ cost = 0 /\ ok = TRUE /\ tid = 0
Next == IF NeedStage THEN \E s \in SotChoices(Len(sots) + 1) : \E u \in UChoices(s) : Stage(s, u)
        ELSE ~Done /\ \E h \in HChoices(StageOf(cfg.lay, Idx)) : Element(h)
Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ------------------------------ *)
(* an accepted grid partitions the horizon, stage boundaries are at their times if the grid is equidistant *)
Partition == (Done /\ ok) => SumSeq(hs) = HS * Len(cfg.lay)
Equidistant == (Done /\ ok /\ (cfg.eq \/ ~cfg.fesd)) => \A k \in 1..Len(cfg.lay) : SumStage(hs, k) = HS
WithinBounds == (ok /\ cfg.fesd /\ cfg.gamma <= 4) => \A i \in 1..Len(hs) : hs[i] >= 0
(* the clock at the end is the elapsed time, whatever the speed of time *)
ClockTime == (Done /\ ok /\ cfg.tf /\ cfg.eq) => Abs(clk - 192 * SumSeq(hs)) <= ClockTol
GammaZero == (Done /\ ok /\ cfg.gamma = 0) => \A i \in 1..Len(hs) : hs[i] = Nominal(StageOf(cfg.lay, i))

Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, hs |-> hs, sots |-> sots, us |-> us])>>, IOEnv.OUT)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg
         /\ hs = <<>> /\ sots = <<>> /\ us = <<>> /\ y = 0 /\ clk = 0 /\ cost = 0 /\ ok = TRUE
TNext == IF NeedStage THEN Stage(Trace[tid].sots[Len(sots) + 1], Trace[tid].us[Len(us) + 1])
         ELSE ~Done /\ Element(Trace[tid].hs[Idx])
Bad == (IF \E o \in Range(Trace[tid].obs) : o.acc /\ ~ok THEN {"grid-that-does-not-partition-the-horizon-accepted"} ELSE {})
  \cup (IF \E o \in Range(Trace[tid].obs) : ~o.acc /\ ok THEN {"admissible-grid-rejected"} ELSE {})
  \cup (IF (cfg.fesd \/ ok) /\ \E o \in Range(Trace[tid].obs) : o.cost # cost THEN {"running-cost-not-scaled-by-speed-of-time"} ELSE {})
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
