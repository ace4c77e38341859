------------------------------ MODULE UserComp ------------------------------
(***************************************************************************)
(* User path complementarity pairs (property C08).  A pair is (A of class ca, *)
(* B of class cb); the classes are x, z (functions of the integration stage), *)
(* w (weights the user named: theta or alpha, of the integration stage too),   *)
(* u, t (of the control stage) and g, v (of the whole problem).  A behaviour  *)
(* poses the problem element by element while exactly one A and one B        *)
(* quantity of the whole trajectory is positive (all others are zero).        *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
AllOrdered == <<<<"x","x">>, <<"u","u">>, <<"v","v">>, <<"z","z">>, <<"t","t">>, <<"g","g">>, <<"x","u">>, <<"v","u">>, <<"x","z">>, <<"u","v">>,
   <<"g","v">>, <<"t","v">>, <<"z","u">>, <<"x","t">>, <<"u","t">>, <<"t","u">>, <<"v","g">>, <<"x","g">>, <<"g","u">>, <<"x","v">>, <<"z","t">>,
   <<"u","g">>, <<"z","g">>, <<"t","g">>, <<"z","v">>, <<"v","t">>, <<"z","x">>, <<"g","t">>, <<"u","z">>, <<"t","x">>, <<"g","x">>, <<"v","x">>,
   <<"u","x">>, <<"t","z">>, <<"g","z">>, <<"v","z">>>>
WithW == <<<<"u","w">>, <<"w","w">>, <<"x","u">>, <<"w","v">>, <<"g","u">>, <<"w","x">>, <<"t","w">>, <<"w","u">>, <<"g","w">>, <<"v","g">>,
   <<"z","w">>, <<"w","t">>, <<"x","w">>, <<"w","g">>, <<"v","w">>, <<"w","z">>>>
Lists == {AllOrdered, WithW, SelectSeq(AllOrdered, LAMBDA p : p[1] \in {"u", "t", "g", "v"} /\ p[2] \in {"u", "t", "g", "v"}),
          SelectSeq(AllOrdered, LAMBDA p : p[1] \in {"x", "g"} /\ p[2] # "u"),
          SelectSeq(AllOrdered, LAMBDA p : p[1] \in {"z", "t"} /\ p[2] \in {"z", "v", "t"}),
          SelectSeq(AllOrdered, LAMBDA p : p[1] \in {"g", "v"} /\ p[2] \in {"g", "v"}),
          SelectSeq(AllOrdered, LAMBDA p : p[1] = "u" /\ p[2] \in {"u", "t", "g"}),
          <<<<"t","g">>>>, <<<<"x","z">>>>, <<<<"v","g">>>>, <<<<"u","v">>>>, <<>>}
Lays == IF Tier = 1 THEN {<<1>>, <<2, 1>>, <<1, 2>>, <<1, 2, 1>>, <<1, 1, 1, 1>>} ELSE {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>, <<1, 2, 1>>}
VARIABLES cfg, a, b, n, ok, tid
vars == <<cfg, a, b, n, ok, tid>>
Stg(c) == 1..Len(c.lay)
BoundaryZ(c, i) == c.fesd /\ c.sch = "GAUSS" /\ i < NE(c.lay)
(* a quantity: class, place (element or control stage), integration stage; z at s+1 is the right boundary value *)
Q(cl, i, j) == [cl |-> cl, i |-> i, j |-> j]
HasW(c) == \E p \in Range(c.pairs) : p[1] = "w" \/ p[2] = "w"
Quants(c) == {Q(cl, i, j) : cl \in ({"x", "z"} \cup (IF HasW(c) THEN {"w"} ELSE {})), i \in 1..NE(c.lay), j \in 1..c.s}
        \cup {Q("z", i, c.s + 1) : i \in {i \in 1..NE(c.lay) : BoundaryZ(c, i)}}
        \cup {Q(cl, k, 0) : cl \in {"u", "t"}, k \in Stg(c)} \cup {Q(cl, 0, 0) : cl \in {"g", "v"}}
(* integration stages at which the quantity is the value of its class *)
Cover(c, q) == {<<i, j>> \in (1..NE(c.lay)) \X (1..c.s) :
    CASE q.cl \in {"x", "z", "w"} -> i = q.i /\ j = q.j
      [] q.cl \in {"u", "t"} -> StageOf(c.lay, i) = q.i
      [] OTHER -> TRUE}
CfgAll == [lay : Lays, s : 1..3, sch : {"RADAU", "GAUSS"}, rep : {"INTEGRAL", "DIFFERENTIAL", "LIFT"}, fesd : BOOLEAN, pairs : Lists]
(* the quick tier varies the representation only with the complete list of pairs *)
CfgSet == IF Tier = 1 THEN {c \in CfgAll : IF c.pairs = WithW THEN c.lay \in {<<1>>, <<2, 1>>} /\ (c.rep = "INTEGRAL" \/ c.lay = <<1>>) /\ c.s = 2
                                        ELSE IF c.lay = <<1, 1, 1, 1>> THEN c.pairs = AllOrdered /\ c.s = 1 /\ c.rep = "INTEGRAL" ELSE (c.rep = "INTEGRAL" /\ c.s = 2) \/ (c.pairs = AllOrdered /\ c.s = (IF c.fesd THEN 1 ELSE 2)) \/ (c.pairs = AllOrdered /\ c.s = 3 /\ c.rep = "DIFFERENTIAL" /\ c.lay = <<2, 1>>)} ELSE CfgAll
Init == /\ cfg \in CfgSet /\ a \in Quants(cfg) /\ b \in Quants(cfg) /\ n = 0 /\ ok = TRUE /\ tid = 0
Listed == <<a.cl, b.cl>> \in Range(cfg.pairs)
StageKind(p) == p[1] \in {"x", "z", "w"} \/ p[2] \in {"x", "z", "w"}
CtrlKind(p) == ~StageKind(p) /\ (p[1] \in {"u", "t"} \/ p[2] \in {"u", "t"})
(* the value of pair p at integration stage j of element i *)
On(q, cl, i, j) == q.cl = cl /\ <<i, j>> \in Cover(cfg, q)
Viol(p, i, j) == On(a, p[1], i, j) /\ On(b, p[2], i, j)
Element == /\ n < NE(cfg.lay) /\ n' = n + 1
           /\ ok' = (ok /\ \A p \in Range(cfg.pairs) :
                 /\ StageKind(p) => \A j \in 1..cfg.s : ~Viol(p, n + 1, j)
                 /\ (CtrlKind(p) /\ LastOfStage(cfg.lay, n + 1)) => ~Viol(p, n + 1, 1))
           /\ UNCHANGED <<cfg, a, b, tid>>
Global == /\ n = NE(cfg.lay) /\ n' = n + 1
          /\ ok' = (ok /\ \A p \in Range(cfg.pairs) : (~StageKind(p) /\ ~CtrlKind(p)) => ~Viol(p, 1, 1))
          /\ UNCHANGED <<cfg, a, b, tid>>
Next == Element \/ Global
Done == n = NE(cfg.lay) + 1
(* posing each pair at its own granularity enforces it wherever both quantities are defined, and only there *)
Sound == Done => (ok <=> ~(Listed /\ Cover(cfg, a) \cap Cover(cfg, b) # {}))
NotEarly == (n > 0 /\ ~ok) => Listed
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, a |-> a, b |-> b])>>, IOEnv.OUT)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ a = Trace[tid].a /\ b = Trace[tid].b /\ n = 0 /\ ok = TRUE
TNext == Next
Bad == {IF o THEN "violated-pair-accepted" ELSE "pair-enforced-with-other-data-or-not-listed" : o \in {o \in Range(Trace[tid].obs) : o # ok}}
  (* more: whether the homotopy goes on after an NLP answered by the point (all switching complementarities hold) *)
  \cup {IF o THEN "residual-positive-although-all-pairs-hold" ELSE "violated-pair-not-in-the-complementarity-residual" : o \in {o \in Range(Trace[tid].more) : o = ok}}
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
