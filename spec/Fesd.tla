-------------------------------- MODULE Fesd --------------------------------
(***************************************************************************)
(* Trajectories of piecewise constant Filippov systems on a grid of finite *)
(* elements.  The state machine extends a trajectory element by element:    *)
(* it picks the control of each stage, the length of each element and the   *)
(* weights (theta / alpha) used on it, and may commit at most one fault.    *)
(* The specification says which finished trajectories are exact solutions   *)
(* of the discretized problem (Verdict), in terms of Filippov's rule only:   *)
(* the weights are supported on regions that are active on the whole         *)
(* element.  The transcription in nosnoc has to accept exactly those.        *)
(*                                                                           *)
(* Units: time in ticks, every control stage lasts HS ticks; states           *)
(* in quarter slope x tick; alpha in halves; theta in quarters.              *)
(***************************************************************************)
EXTENDS Nos

HS == 12
HNom(lay, k) == HS \div lay[k]     \* nominal element length in stage k

(* ------------------------------ families ------------------------------ *)
(* region dynamics: k constant, u control, tv time varying parameter,       *)
(* pg global parameter, vg global variable                                   *)
R(k, u, tv, pg, vg) == [k |-> k, u |-> u, tv |-> tv, pg |-> pg, vg |-> vg]
Z1 == <<0>>
Z2 == <<0, 0>>
C(a, b) == [a |-> a, b |-> b]

FULL1 == << <<1>>, <<-1>> >>
FULL2 == << <<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>> >>
NEST2 == << <<1, 0>>, <<-1, 1>>, <<-1, -1>> >>

Slide1 == [name |-> "slide1", nx |-> 1, kind |-> "S", stewart |-> TRUE, step |-> TRUE, viaz |-> FALSE,
  sys |-> << [c |-> <<C(<<1>>, 0)>>, S |-> FULL1, F |-> <<R(<<-1>>, <<1>>, Z1, Z1, Z1), R(<<1>>, <<1>>, Z1, Z1, Z1)>>] >>,
  us |-> {0, 2}, tv |-> <<0, 0, 0>>, pg |-> 0, vg |-> 0,
  inits |-> {<<0>>, <<24>>, <<-16>>}]

ViaZ == [Slide1 EXCEPT !.name = "viaz", !.viaz = TRUE, !.us = {0, -2}, !.inits = {<<0>>, <<48>>}]

FxGen == [Slide1 EXCEPT !.name = "fx", !.kind = "fx", !.stewart = FALSE, !.nx = 2,
  !.sys = << [c |-> <<C(<<1, 0>>, 0)>>, S |-> FULL1, F |-> <<R(<<-1, 0>>, Z2, <<0, 1>>, Z2, Z2), R(<<1, 1>>, Z2, Z2, Z2, Z2)>>],
             [c |-> <<C(<<0, 1>>, -16)>>, S |-> FULL1, F |-> <<R(<<0, -2>>, <<1, 0>>, Z2, Z2, Z2), R(<<0, 1>>, Z2, Z2, <<0, 1>>, Z2)>>] >>,
  !.us = {0, 2}, !.tv = <<1, 0, 2>>, !.pg = 1, !.inits = {<<0, 0>>, <<-24, 16>>}]

Full2 == [name |-> "full2", nx |-> 2, kind |-> "S", stewart |-> TRUE, step |-> TRUE, viaz |-> FALSE,
  sys |-> << [c |-> <<C(<<1, 0>>, 0), C(<<0, 1>>, 0)>>, S |-> FULL2,
              F |-> <<R(<<-1, -1>>, Z2, <<0, 1>>, Z2, Z2), R(<<-1, 1>>, Z2, <<0, 1>>, Z2, Z2),
                      R(<<1, -1>>, Z2, <<0, 1>>, Z2, Z2), R(<<1, 1>>, <<1, 0>>, <<0, 1>>, Z2, Z2)>>] >>,
  us |-> {0}, tv |-> <<0, 2, 1>>, pg |-> 0, vg |-> 0, inits |-> {<<0, 0>>, <<16, 0>>, <<48, -48>>}]

(* two subsystems with different numbers of regions, every kind of data     *)
Ragged == [name |-> "ragged", nx |-> 3, kind |-> "S", stewart |-> TRUE, step |-> TRUE, viaz |-> FALSE,
  sys |-> << [c |-> <<C(<<0, 0, 1>>, 0)>>, S |-> FULL1,
              F |-> <<R(<<0, 0, -2>>, <<0, 0, 1>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 1>>),
                      R(<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 1>>)>>],
             [c |-> <<C(<<1, 0, 0>>, 0), C(<<1, 1, 0>>, -48)>>, S |-> FULL2,
              F |-> <<R(<<-1, 0, 0>>, <<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0>>, <<0, 0, 0>>),
                      R(<<-1, 1, 0>>, <<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0>>, <<0, 0, 0>>),
                      R(<<1, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0>>),
                      R(<<1, 1, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>)>>] >>,
  us |-> {0, 1}, tv |-> <<0, 1, 2, -1>>, pg |-> -1, vg |-> 1, inits |-> {<<0, 0, 0>>, <<24, 48, -24>>}]

Nested == [Ragged EXCEPT !.name = "nested", !.stewart = FALSE,
  !.sys = << [c |-> <<C(<<1, 0, 0>>, 0), C(<<0, 1, 0>>, 0)>>, S |-> NEST2,
              F |-> <<R(<<-1, 1, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>),
                      R(<<1, -1, 0>>, <<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0>>, <<0, 0, 0>>),
                      R(<<2, 1, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>)>>],
             [c |-> <<C(<<0, 0, 1>>, 0)>>, S |-> FULL1,
              F |-> <<R(<<0, 0, -2>>, <<0, 0, 1>>, <<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 0>>),
                      R(<<0, 0, 2>>, <<0, 0, 1>>, <<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 0>>)>>] >>,
  !.pg = 1, !.us = {-1, 1}, !.inits = {<<-24, 0, 0>>, <<0, 0, 24>>}]

(* user indicators (Stewart only): c are the indicators, one per region      *)
Voronoi == [Slide1 EXCEPT !.name = "voronoi", !.kind = "gS", !.step = FALSE,
  !.sys = << [c |-> <<C(<<2>>, 24), C(<<0>>, 0), C(<<-2>>, 24)>>, S |-> <<>>,
              F |-> <<R(<<2>>, <<1>>, Z1, Z1, Z1), R(<<0>>, <<1>>, Z1, Z1, Z1), R(<<-2>>, <<1>>, Z1, Z1, Z1)>>] >>,
  !.us = {1, -1}, !.inits = {<<0>>, <<12>>, <<-36>>}]

Families == << Slide1, ViaZ, FxGen, Full2, Ragged, Nested, Voronoi >>

(* ------------------------------- modes --------------------------------- *)
(* weights of one subsystem: al in halves (empty for indicators), th in quarters *)
Factor(s, a) == IF s = 1 THEN a ELSE IF s = -1 THEN 2 - a ELSE 2
ThetaOf(row, al) ==
  LET p == ProdSeq([i \in 1..Len(row) |-> Factor(row[i], al[i])])
  IN  IF Len(row) = 1 THEN 2 * p ELSE p
AlphaMode(s, al) == [al |-> al, th |-> [j \in 1..Len(s.S) |-> ThetaOf(s.S[j], al)]]
Unit(n, i, v) == [j \in 1..n |-> IF j = i THEN v ELSE 0]
SysModes(f, s) ==
  IF f.kind = "gS"
  THEN LET n == Len(s.c) IN
       {[al |-> <<>>, th |-> Unit(n, i, 4)] : i \in 1..n} \cup
       {[al |-> <<>>, th |-> VAdd(Unit(n, i, 2), Unit(n, j, 2))] : i, j \in 1..n}
  ELSE {AlphaMode(s, al) : al \in [1..Len(s.c) -> {0, 1, 2}]}
ModeSets(f) == [i \in 1..Len(f.sys) |-> SysModes(f, f.sys[i])]
Modes(f) ==
  IF Len(f.sys) = 1 THEN {<<a>> : a \in SysModes(f, f.sys[1])}
  ELSE {<<a, b>> : a \in SysModes(f, f.sys[1]), b \in SysModes(f, f.sys[2])}

SysModesAll == [i \in 1..Len(Families) |-> ModeSets(Families[i])]
ModesAll == [i \in 1..Len(Families) |-> Modes(Families[i])]
Rate(r, d) == VAdd(VAdd(r.k, VScale(d.u, r.u)),
                   VAdd(VScale(d.tv, r.tv), VAdd(VScale(d.pg, r.pg), VScale(d.vg, r.vg))))
RECURSIVE VSum(_, _)
VSum(ss, n) == IF ss = <<>> THEN Repeat(0, n) ELSE VAdd(Head(ss), VSum(Tail(ss), n))
(* slope in quarters of the mixture, with the data d of the stage            *)
Slope(f, m, d) ==
  VScale(d.sot, VSum(TLCEval([i \in 1..Len(f.sys) |->
       VSum(TLCEval([j \in 1..Len(f.sys[i].F) |-> IF m[i].th[j] = 0 THEN Repeat(0, f.nx) ELSE VScale(m[i].th[j], Rate(f.sys[i].F[j], d))]), f.nx)]), f.nx))

CVal(c, x) == Dot(c.a, x) + c.b
CVals(s, x) == TLCEval([i \in 1..Len(s.c) |-> CVal(s.c[i], x)])

(* ---------------------- Filippov's rule at a point ---------------------- *)
PointOk(f, s, m, cv) ==
  IF f.kind = "gS"
  THEN \A i \in 1..Len(cv) : m.th[i] > 0 => cv[i] = MinSeq(cv)
  ELSE \A i \in 1..Len(cv) : /\ m.al[i] = 2 => cv[i] >= 0
                             /\ m.al[i] = 0 => cv[i] <= 0
                             /\ m.al[i] = 1 => cv[i] = 0
ValidAt(f, m, x) == \A i \in 1..Len(f.sys) : PointOk(f, f.sys[i], m[i], CVals(f.sys[i], x))
(* the modes that obey the rule at x                                          *)
Cand(fi, f, x) ==
  LET ok(i) == {m \in SysModesAll[fi][i] : PointOk(f, f.sys[i], m, CVals(f.sys[i], x))}
  IN IF Len(f.sys) = 1 THEN {<<a>> : a \in ok(1)} ELSE {<<a, b>> : a \in ok(1), b \in ok(2)}
GoodModes(fi, x, h, d) == LET f == Families[fi] IN {m \in Cand(fi, f, x) : ValidAt(f, m, VAdd(x, VScale(h, Slope(f, m, d))))}
(* the rule is violated on the whole open element, whatever points are looked at *)
SysBadInside(f, s, m, xs, xe) ==
  LET a == CVals(s, xs)
      b == CVals(s, xe)
  IN IF f.kind = "gS"
     THEN \E i, j \in 1..Len(a) : m.th[i] > 0 /\ a[i] >= a[j] /\ b[i] >= b[j] /\ (a[i] > a[j] \/ b[i] > b[j])
     ELSE \E i \in 1..Len(a) :
            \/ m.al[i] = 2 /\ a[i] <= 0 /\ b[i] <= 0 /\ (a[i] < 0 \/ b[i] < 0)
            \/ m.al[i] = 0 /\ a[i] >= 0 /\ b[i] >= 0 /\ (a[i] > 0 \/ b[i] > 0)
            \/ m.al[i] = 1 /\ a[i] * b[i] >= 0 /\ (a[i] # 0 \/ b[i] # 0)
BadInside(f, m, xs, xe) == \E i \in 1..Len(f.sys) : SysBadInside(f, f.sys[i], m[i], xs, xe)
Valid(f, m, xs, xe) == ValidAt(f, m, xs) /\ ValidAt(f, m, xe)

(* -------------------------- length patterns ----------------------------- *)
Patterns(n) ==
  CASE n = 1 -> {<<12>>}
    [] n = 2 -> {<<6, 6>>, <<3, 9>>, <<12, 0>>}
    [] n = 3 -> {<<4, 4, 4>>, <<0, 8, 4>>, <<6, 2, 4>>}
PatternsOf(c, k) == IF c.few THEN {CHOOSE p \in Patterns(c.lay[k]) : p[1] = HNom(c.lay, k)} ELSE Patterns(c.lay[k])
(* without equidistant grid: the lengths of stages may be shifted             *)
Shift(p, d) == [p EXCEPT ![Len(p)] = @ + d]

Configs == {
  [fam |-> 1, lay |-> <<3>>, eq |-> TRUE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 1, lay |-> <<2, 1>>, eq |-> FALSE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 1, lay |-> <<1, 2>>, eq |-> TRUE, sot |-> "LOCAL", few |-> FALSE],
  [fam |-> 2, lay |-> <<1, 2>>, eq |-> TRUE, sot |-> "GLOBAL", few |-> FALSE],
  [fam |-> 3, lay |-> <<2, 1>>, eq |-> TRUE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 4, lay |-> <<3>>, eq |-> TRUE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 4, lay |-> <<1, 1, 2>>, eq |-> TRUE, sot |-> "NONE", few |-> TRUE],
  [fam |-> 5, lay |-> <<2, 1>>, eq |-> TRUE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 5, lay |-> <<1, 1, 1>>, eq |-> FALSE, sot |-> "LOCAL", few |-> TRUE],
  [fam |-> 5, lay |-> <<1, 1, 1, 1>>, eq |-> TRUE, sot |-> "NONE", few |-> TRUE],
  [fam |-> 6, lay |-> <<1, 2>>, eq |-> TRUE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 7, lay |-> <<3>>, eq |-> TRUE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 7, lay |-> <<1, 2>>, eq |-> TRUE, sot |-> "NONE", few |-> FALSE] }
CONSTANT Tier                     \* 1: quick, 2: thorough
ConfigsThorough == Configs \cup {
  [fam |-> 1, lay |-> <<2, 2>>, eq |-> FALSE, sot |-> "LOCAL", few |-> FALSE],
  [fam |-> 2, lay |-> <<3>>, eq |-> FALSE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 4, lay |-> <<2, 2>>, eq |-> TRUE, sot |-> "GLOBAL", few |-> FALSE],
  [fam |-> 5, lay |-> <<2, 2>>, eq |-> TRUE, sot |-> "NONE", few |-> FALSE],
  [fam |-> 5, lay |-> <<1, 1, 1>>, eq |-> FALSE, sot |-> "LOCAL", few |-> FALSE],
  [fam |-> 6, lay |-> <<2, 2>>, eq |-> FALSE, sot |-> "LOCAL", few |-> FALSE],
  [fam |-> 7, lay |-> <<2, 2>>, eq |-> FALSE, sot |-> "NONE", few |-> FALSE] }

VARIABLES
  cfg,      \* configuration
  x,        \* end state of the trajectory so far
  els,      \* elements so far: [xs, xe, m, h, sl]
  us, sots, \* controls and speeds of time of the stages started so far
  pat,      \* lengths planned for the current stage
  slack,    \* lengths (ticks) owed to later stages (non equidistant grid)
  fault     \* "none" or the kind of the only fault
vars == <<cfg, x, els, us, sots, pat, slack, fault>>

Fam == Families[cfg.fam]
Idx == Len(els) + 1                          \* element being built
NStages == Len(cfg.lay)
Done == Len(els) = NE(cfg.lay)
Starting == ~Done /\ FirstOfStage(cfg.lay, Idx) /\ Len(us) < StageOf(cfg.lay, Idx)
DataOf(f, c, usv, sotv, k) ==
  [u |-> usv[k], tv |-> f.tv[k], pg |-> f.pg, vg |-> f.vg, sot |-> sotv[k]]

Init == /\ cfg \in (IF Tier = 1 THEN Configs ELSE ConfigsThorough)
        /\ x \in Families[cfg.fam].inits
        /\ els = <<>> /\ us = <<>> /\ sots = <<>> /\ pat = <<>> /\ slack = 0 /\ fault = "none"

SotChoices == IF cfg.sot = "NONE" THEN {1}
              ELSE IF cfg.sot = "GLOBAL" /\ Len(sots) > 0 THEN {sots[1]}
              ELSE IF cfg.sot = "LOCAL" THEN {1 + (Len(us) % 2), 2 - (Len(us) % 2)} ELSE {1, 2}

StartStage ==
  /\ Starting
  /\ \E u \in Fam.us, s \in SotChoices, p \in PatternsOf(cfg, Len(us) + 1) :
       /\ us' = Append(us, u)
       /\ sots' = Append(sots, s)
       /\ LET last == Len(us) + 1 = NStages
          IN \E d \in (IF cfg.eq THEN {0} ELSE IF last THEN {-slack} ELSE {0, 2}) :
               LET q == Shift(p, d) IN
               /\ q[Len(q)] \in 0..(2 * HNom(cfg.lay, Len(us) + 1))
               /\ pat' = q
               /\ slack' = slack + d
  /\ UNCHANGED <<cfg, x, els, fault>>

(* one more element with weights m; ok elements obey Filippov's rule           *)
Push(m, xs, sl, h) ==
  LET xe == VAdd(xs, VScale(h, sl)) IN
  /\ els' = Append(els, [xs |-> xs, xe |-> xe, m |-> m, h |-> h, sl |-> sl])
  /\ x' = xe
  /\ pat' = Tail(pat)
  /\ UNCHANGED <<cfg, us, sots, slack>>

CurData == DataOf(Fam, cfg, us, sots, StageOf(cfg.lay, Idx))

GoodElement ==
  /\ ~Done /\ ~Starting
  /\ \E m \in GoodModes(cfg.fam, x, pat[1], CurData) : Push(m, x, Slope(Fam, m, CurData), pat[1])
  /\ UNCHANGED fault

NearMode(a, b) == Cardinality({i \in 1..Len(a) : a[i] # b[i]}) = 1
(* wrong weights: dynamics consistent with the weights, region not active     *)
WrongRegion ==
  /\ ~Done /\ ~Starting /\ fault = "none"
  /\ LET good == GoodModes(cfg.fam, x, pat[1], CurData)
         bad == {m \in ModesAll[cfg.fam] \ good : \E g \in good : NearMode(m, g)}
     IN \E m \in bad : Push(m, x, Slope(Fam, m, CurData), pat[1])
  /\ fault' = "region"

(* discontinuity in front of the element (for the first one: another initial state) *)
Jump ==
  /\ ~Done /\ ~Starting /\ fault = "none"
  /\ \E i \in 1..Fam.nx :
       LET xs == [x EXCEPT ![i] = @ + 4]
       IN \E m \in GoodModes(cfg.fam, xs, pat[1], CurData) : Push(m, xs, Slope(Fam, m, CurData), pat[1])
  /\ fault' = "jump"

(* dynamics with the data of another stage, or with wrong global data          *)
WrongData ==
  /\ ~Done /\ ~Starting /\ fault = "none" /\ pat[1] > 0
  /\ \E kind \in {"u", "tv", "pg", "vg", "sot"} :
       LET good == CurData
           bad == CASE kind = "u" -> [good EXCEPT !.u = @ + 1]
                    [] kind = "tv" -> [good EXCEPT !.tv = Fam.tv[1 + (StageOf(cfg.lay, Idx) % 3)]]
                    [] kind = "pg" -> [good EXCEPT !.pg = @ + 1]
                    [] kind = "vg" -> [good EXCEPT !.vg = @ + 1]
                    [] kind = "sot" -> [good EXCEPT !.sot = 3 - @]
       IN /\ kind = "sot" => cfg.sot # "NONE"
          /\ bad # good
          /\ \E m \in GoodModes(cfg.fam, x, pat[1], bad) :
               LET sl == Slope(Fam, m, bad) IN
               /\ sl # Slope(Fam, m, good)
               /\ Push(m, x, sl, pat[1])
          /\ fault' = kind

(* after a fault the trajectory goes on in some way, its verdict is settled   *)
AnyElement ==
  /\ ~Done /\ ~Starting /\ fault # "none"
  /\ LET m == CHOOSE mm \in ModesAll[cfg.fam] : TRUE
         sl == Slope(Fam, m, CurData)
     IN /\ GoodModes(cfg.fam, x, pat[1], CurData) = {}
        /\ Push(m, x, sl, pat[1])
  /\ UNCHANGED fault

Next == StartStage \/ GoodElement \/ WrongRegion \/ Jump \/ WrongData \/ AnyElement
Spec == Init /\ [][Next]_vars

(* -------------------------------- verdicts ------------------------------- *)
(* A finished trajectory e (sequence of elements), independent of the path.   *)
(* "acc": exact solution, has to be accepted; "rej": has to be rejected;      *)
(* "any": decided by where the integration points lie.                        *)
Continuous(f, x0, e) == \A i \in 1..Len(e) : e[i].xs = (IF i = 1 THEN x0 ELSE e[i - 1].xe)
DataOk(f, c, usv, sotv, e) ==
  \A i \in 1..Len(e) :
     LET d == DataOf(f, c, usv, sotv, StageOf(c.lay, i))
     IN e[i].h > 0 => e[i].sl = Slope(f, e[i].m, d)
RegionsOk(f, e) == \A i \in 1..Len(e) : Valid(f, e[i].m, e[i].xs, e[i].xe)
StageLen(c, e, k) == SumSeq([i \in 1..Len(e) |-> IF StageOf(c.lay, i) = k THEN e[i].h ELSE 0])
GridOk(c, e) ==
  /\ \A i \in 1..Len(e) : e[i].h \in 0..(2 * HNom(c.lay, StageOf(c.lay, i)))
  /\ IF c.eq THEN \A k \in 1..Len(c.lay) : StageLen(c, e, k) = HS
     ELSE SumSeq([i \in 1..Len(e) |-> e[i].h]) = HS * Len(c.lay)
Exact(f, c, x0, usv, sotv, e) ==
  Continuous(f, x0, e) /\ DataOk(f, c, usv, sotv, e) /\ RegionsOk(f, e) /\ GridOk(c, e)
(* FESD with explicit right boundary point, or boundary multipliers at every  *)
(* element but the last one                                                    *)
LateOnly(f, c, e, explicitEnd) ==      \* violation only possible behind the last integration point
  /\ ~explicitEnd
  /\ LET n == Len(e) IN
     /\ \A i \in 1..(n - 1) : Valid(f, e[i].m, e[i].xs, e[i].xe)
     /\ ValidAt(f, e[n].m, e[n].xs)
     /\ ~BadInside(f, e[n].m, e[n].xs, e[n].xe)
VerdictFesd(f, c, x0, usv, sotv, e, explicitEnd) ==
  IF Exact(f, c, x0, usv, sotv, e) THEN "acc"
  ELSE IF ~Continuous(f, x0, e) \/ ~DataOk(f, c, usv, sotv, e) \/ ~GridOk(c, e) THEN "rej"
  ELSE IF LateOnly(f, c, e, explicitEnd) THEN "any" ELSE "rej"
(* standard Runge-Kutta: all elements have nominal length                      *)
NominalGrid(c, e) == \A i \in 1..Len(e) : e[i].h = HNom(c.lay, StageOf(c.lay, i))
VerdictStd(f, c, x0, usv, sotv, e) ==
  IF ~NominalGrid(c, e) THEN "any"      \* not representable
  ELSE IF Exact(f, c, x0, usv, sotv, e) THEN "acc"
  ELSE IF ~Continuous(f, x0, e) \/ ~DataOk(f, c, usv, sotv, e) THEN "rej"
  ELSE IF \E i \in 1..Len(e) : BadInside(f, e[i].m, e[i].xs, e[i].xe) THEN "rej" ELSE "any"

(* ------------------------------- invariants ------------------------------ *)
TypeOK == Len(x) = Fam.nx /\ Len(els) <= NE(cfg.lay)
X0 == IF els = <<>> THEN x ELSE IF fault = "jump" /\ els[1].xs \notin Fam.inits
                                THEN CHOOSE v \in Fam.inits : \E i \in 1..Fam.nx : els[1].xs = [v EXCEPT ![i] = @ + 4]
                                ELSE els[1].xs
(* a trajectory without fault is an exact solution ...                         *)
GoodIsExact == Done /\ fault = "none" =>
   VerdictFesd(Fam, cfg, X0, us, sots, els, TRUE) = "acc" /\ VerdictFesd(Fam, cfg, X0, us, sots, els, FALSE) = "acc"
(* ... and region, data and later jump faults are never accepted (FESD)        *)
FaultIsRejected == Done /\ fault # "none" /\ (fault = "jump" => els[1].xs \in Fam.inits) =>
   VerdictFesd(Fam, cfg, X0, us, sots, els, TRUE) = "rej"
(* cross complementarity is equivalent to Filippov's rule on every element     *)
(* (what the NLP imposes in terms of products of weights and multipliers)       *)
Lam(f, s, cv) == IF f.kind = "gS" THEN [i \in 1..Len(cv) |-> cv[i] - MinSeq(cv)]
                 ELSE [i \in 1..(2 * Len(cv)) |-> IF i <= Len(cv) THEN Max2(-cv[i], 0) ELSE Max2(cv[i - Len(cv)], 0)]
The(f, m) == IF f.kind = "gS" THEN m.th
             ELSE [i \in 1..(2 * Len(m.al)) |-> IF i <= Len(m.al) THEN m.al[i] ELSE 2 - m.al[i - Len(m.al)]]
CrossOk(f, e) ==
  \A s \in 1..Len(f.sys) :
    Dot(The(f, e.m[s]), VAdd(Lam(f, f.sys[s], CVals(f.sys[s], e.xs)), Lam(f, f.sys[s], CVals(f.sys[s], e.xe)))) = 0
CrossEqFilippov == \A i \in 1..Len(els) : CrossOk(Fam, els[i]) <=> Valid(Fam, els[i].m, els[i].xs, els[i].xe)
=============================================================================
