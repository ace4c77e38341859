------------------------------- MODULE StepEq -------------------------------
(* Step equilibration (property C21): which step sizes are admitted next to   *)
(* which weight / multiplier patterns, and what the penalties are.            *)
EXTENDS CrossComp
VARIABLES hs,     \* element lengths in ticks, 12 per control stage
          mode    \* step equilibration mode
svars == <<cfg, c0, els, ok, pick, hs, mode>>

HS == 12
HNom(i) == HS \div cfg.lay[StageOf(cfg.lay, i)]
Lens(n) == CASE n = 1 -> {<<12>>}
             [] n = 2 -> {<<6, 6>>, <<4, 8>>, <<9, 3>>}
             [] n = 3 -> {<<4, 4, 4>>, <<4, 2, 6>>, <<6, 4, 2>>, <<2, 5, 5>>}
             [] n = 4 -> {<<3, 3, 3, 3>>, <<3, 3, 2, 4>>, <<1, 5, 3, 3>>}
RECURSIVE LenSeqs(_)
LenSeqs(lay) == IF lay = <<>> THEN {<<>>} ELSE {a \o b : a \in Lens(Head(lay)), b \in LenSeqs(Tail(lay))}

SC(sys, lay, ns, sc) == [sys |-> sys, lay |-> lay, ns |-> ns, sc |-> sc, fesd |-> TRUE, all |-> FALSE]
SCfgsQ == { SC(<<1>>, <<3>>, 1, TRUE), SC(<<1>>, <<2, 1>>, 2, TRUE), SC(<<1>>, <<1, 2>>, 1, FALSE), SC(<<1, 1>>, <<2>>, 1, TRUE),
            SC(<<2>>, <<2>>, 2, TRUE), SC(<<1>>, <<1, 1>>, 2, FALSE), SC(<<1>>, <<1, 3>>, 1, TRUE), SC(<<1>>, <<1, 1, 2>>, 1, TRUE),
            SC(<<1>>, <<4>>, 1, TRUE), SC(<<1, 1, 1>>, <<2>>, 1, TRUE), SC(<<1>>, <<2>>, 3, TRUE) }
SCfgsT == SCfgsQ \cup { SC(<<1>>, <<3>>, 2, FALSE), SC(<<1>>, <<2, 2>>, 1, TRUE), SC(<<1, 1>>, <<1, 2>>, 2, FALSE),
            SC(<<1>>, <<3>>, 3, TRUE), SC(<<2>>, <<2>>, 3, FALSE) }
Modes == {"DIRECT", "HEURISTIC_MEAN", "HEURISTIC_DELTA", "L2_RELAXED", "L2_RELAXED_SCALED"}

SInit == /\ cfg \in (IF Tier = 1 THEN SCfgsQ ELSE SCfgsT)
         /\ els = <<>> /\ ok = TRUE /\ pick = [e |-> 0]
         /\ c0 \in [1..K(cfg) -> {-1, 0, 1}]
         /\ hs \in LenSeqs(cfg.lay)
         /\ mode = "any"
(* elements with the same weight at every stage and one sign inside, another at the last point; *)
(* functions other than the first stay on one side                                               *)
Pattern(i, a, b, s, t) ==
  [c |-> [p \in 1..NP(cfg, i) |-> [k \in 1..K(cfg) |-> IF p = NP(cfg, i) THEN t[k] ELSE s[k]]],
   al |-> [j \in 1..cfg.ns |-> [k \in 1..K(cfg) |-> IF k = 1 /\ j = cfg.ns THEN b ELSE a[k]]]]
FirstK(c) == IF K(c) = 1 THEN {} ELSE 2..K(c)
SElement ==
  /\ ~Done
  /\ LET i == Len(els) + 1 IN
     \E a \in [1..K(cfg) -> {0, 1, 2}], b \in 0..2, s \in [1..K(cfg) -> {-1, 0, 1}], t \in [1..K(cfg) -> {-1, 0, 1}] :
        /\ NP(cfg, i) = 1 => s = t
        /\ cfg.ns < 3 => b = a[1]                 \* another weight at the last of three stages
        /\ \A k \in FirstK(cfg) : a[k] \in {1, 2} /\ s[k] = a[k] - 1 /\ t[k] \in {0, s[k]}
        /\ ElementOk(cfg, PrevEnd, Pattern(i, a, b, s, t))
        /\ Append1(Pattern(i, a, b, s, t))
  /\ UNCHANGED <<hs, mode>>
SNext == SElement

(* ------------------------ components of the patterns --------------------- *)
(* offsets of subsystem s within the flat list of switching functions          *)
Off(s) == SumSeq([i \in 1..(s - 1) |-> cfg.sys[i]])
(* rows of the sign matrix of n functions, (1,1), (1,-1), (-1,1), (-1,-1)        *)
Row(n, r) == [k \in 1..n |-> IF ((r - 1) \div Pow(2, n - k)) % 2 = 0 THEN 1 ELSE -1]
(* weights and multipliers of element i, scaled by 2 (STEP) or 2^n (Stewart),    *)
(* summed over its stages / points (and the end of the predecessor)              *)
SumTheta(pss, i, s, r) ==
  LET n == cfg.sys[s] IN
  SumSeq([j \in 1..cfg.ns |->
     IF pss = "STEP" THEN (IF r <= n THEN els[i].al[j][Off(s) + r] ELSE 2 - els[i].al[j][Off(s) + r - n])
     ELSE ProdSeq([k \in 1..n |-> IF Row(n, r)[k] = 1 THEN els[i].al[j][Off(s) + k] ELSE 2 - els[i].al[j][Off(s) + k]])])
LamAt(pss, s, r, sg) ==
  LET n == cfg.sys[s]
      G(q) == -SumSeq([k \in 1..n |-> Row(n, q)[k] * sg[Off(s) + k]])
  IN IF pss = "STEP" THEN (IF r <= n THEN Max2(-sg[Off(s) + r], 0) ELSE Max2(sg[Off(s) + r - n], 0))
     ELSE G(r) - MinSeq([q \in 1..Pow(2, n) |-> G(q)])
SumLam(pss, i, s, r) == LamAt(pss, s, r, Prev(i)) + SumSeq([p \in 1..Len(els[i].c) |-> LamAt(pss, s, r, els[i].c[p])])
NComp(pss, s) == IF pss = "STEP" THEN 2 * cfg.sys[s] ELSE Pow(2, cfg.sys[s])
Scale(pss, s) == IF pss = "STEP" THEN 2 ELSE Pow(2, cfg.sys[s])
Comps(pss) == {<<s, r>> : s \in 1..Len(cfg.sys), r \in 1..8} \cap UNION {{<<s, r>> : r \in 1..NComp(pss, s)} : s \in 1..Len(cfg.sys)}
(* Scale^2 times the switch indicator of component (s, r) between i-1 and i      *)
Eta(pss, i, s, r) == Scale(pss, s) * Scale(pss, s) * SumLam(pss, i - 1, s, r) * SumLam(pss, i, s, r)
                     + SumTheta(pss, i - 1, s, r) * SumTheta(pss, i, s, r)
Pos(n) == n > 0
Changes(pss, i, s, r) == /\ Eta(pss, i, s, r) = 0
                         /\ \/ Pos(SumTheta(pss, i - 1, s, r)) # Pos(SumTheta(pss, i, s, r))
                            \/ Pos(SumLam(pss, i - 1, s, r)) # Pos(SumLam(pss, i, s, r))
Pairs == {i \in 2..NE(cfg.lay) : ~FirstOfStage(cfg.lay, i)}
SwitchBefore(pss, i) == \E sr \in Comps(pss) : Changes(pss, i, sr[1], sr[2])
ZeroNu(pss, i) == \E sr \in Comps(pss) : Eta(pss, i, sr[1], sr[2]) = 0
(* verdict of DIRECT on the lengths *)
Direct(pss) ==
  IF \A i \in Pairs : hs[i] = hs[i - 1] \/ SwitchBefore(pss, i) THEN "acc"
  ELSE IF \E i \in Pairs : hs[i] # hs[i - 1] /\ ~ZeroNu(pss, i) THEN "rej" ELSE "any"
RECURSIVE ProdSet(_, _, _)
ProdSet(S, pss, i) == IF S = {} THEN 1 ELSE LET e == CHOOSE q \in S : TRUE IN Eta(pss, i, e[1], e[2]) * ProdSet(S \ {e}, pss, i)
RECURSIVE SumPairs(_, _)
SumPairs(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE q \in S : TRUE IN f[e] + SumPairs(S \ {e}, f)
NuScale(pss) == ProdSeq([s \in 1..Len(cfg.sys) |-> Pow(Scale(pss, s), 2 * NComp(pss, s))])
Sq(n) == n * n
(* penalty in ticks^2 (times NuScale for L2_RELAXED); -1: not stated            *)
Penalty(m, pss) ==
  CASE m = "DIRECT" -> 0
    [] m = "HEURISTIC_MEAN" -> SumSeq([i \in 1..NE(cfg.lay) |-> Sq(hs[i] - HNom(i))])
    [] m = "HEURISTIC_DELTA" -> SumPairs(Pairs, [i \in Pairs |-> Sq(hs[i] - hs[i - 1])])
    [] m = "L2_RELAXED" -> SumPairs(Pairs, [i \in Pairs |-> IF ZeroNu(pss, i) THEN 0 ELSE ProdSet(Comps(pss), pss, i) * Sq(hs[i] - hs[i - 1])])
    [] m = "L2_RELAXED_SCALED" -> SumPairs(Pairs, [i \in Pairs |-> IF ZeroNu(pss, i) THEN 0 ELSE Sq(hs[i] - hs[i - 1])])
Exactly(m, pss) == m # "L2_RELAXED" \/ Cardinality(Comps(pss)) <= 2

(* ------------------------------ invariants ------------------------------- *)
(* the relaxed penalty vanishes at switches; without any switch and mixture DIRECT means equal lengths *)
RelaxedVanishes == Done => \A pss \in {"STEP", "STEWART"} :
   (Direct(pss) = "acc" <=> Penalty("L2_RELAXED_SCALED", pss) = 0 /\ Direct(pss) # "any")
EqualAlwaysOk == Done /\ (\A i \in Pairs : hs[i] = hs[i - 1]) => Direct("STEP") = "acc" /\ Direct("STEWART") = "acc"
SEmit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, c0 |-> c0, els |-> els, hs |-> hs])>>, IOEnv.OUT)

(* --------------------------- trace validation ---------------------------- *)
STInit == \E t \in 1..Len(Trace) :
           /\ cfg = Trace[t].cfg /\ c0 = Trace[t].c0 /\ els = <<>> /\ ok = TRUE /\ pick = [t |-> t]
           /\ hs = Trace[t].hs /\ mode = "any"
STNext == ~Done /\ Append1(Trace[pick.t].els[Len(els) + 1]) /\ UNCHANGED <<hs, mode>>
(* o: [mode, pss, fesd, acc, pen]; pen: penalty in the unit of Penalty             *)
OBad(o) ==
  IF ~o.fesd THEN (IF ~o.acc THEN {"no-effect-without-fesd"} ELSE {}) \cup (IF o.pen # 0 THEN {"penalty-without-fesd"} ELSE {})
  ELSE LET v == IF o.mode \in {"DIRECT", "DIRECT_COMPLEMENTARITY"} THEN Direct(o.pss) ELSE "acc"
           m == IF o.mode = "DIRECT_COMPLEMENTARITY" THEN "DIRECT" ELSE o.mode
       IN (IF v = "acc" /\ ~o.acc THEN {"admissible-step-sizes-rejected"} ELSE {})
          \cup (IF v = "rej" /\ o.acc THEN {"unequal-steps-without-switch-accepted"} ELSE {})
          \cup (IF Exactly(m, o.pss)
                THEN (IF o.pen # Penalty(m, o.pss) THEN {"wrong-penalty"} ELSE {})
                ELSE (IF (o.pen = 0) # (\A i \in Pairs : hs[i] = hs[i - 1] \/ ZeroNu(o.pss, i)) THEN {"penalty-at-wrong-place"} ELSE {}))
STEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[pick.t].id,
          bad |-> UNION {{[o |-> o, clause |-> c] : c \in OBad(o)} : o \in Range(Trace[pick.t].obs)}])>>, IOEnv.OUT)
=============================================================================
