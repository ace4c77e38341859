-------------------------------- MODULE Pins --------------------------------
(***************************************************************************)
(* Variables fixed by fix_active_set_fe0 and by the polishing step (C13).     *)
(* A behaviour is a history of solves on one solver.  Every NLP is posed with   *)
(* the stored bounds except for a set of pinned entries.                     *)
(* Values of the last iterate are classes; initial states are integer multiples *)
(* of comp_tol.                                                            *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
VARIABLES cfg, hist, posed, phase, tid
vars == <<cfg, hist, posed, phase, tid>>
Classes == <<"neg", "zero", "low", "up", "half", "one--", "one-", "one", "one+", "one++">>
NC == Len(Classes)
Lays == IF Tier = 1 THEN {<<1>>, <<2, 1>>, <<1, 2, 1>>} ELSE {<<1>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>, <<3>>, <<1, 2, 1>>}
Cfgs == {[lay |-> l, s |-> s, sch |-> sc, fesd |-> f, pss |-> p, fix |-> x, polish |-> po] :
   l \in Lays, s \in 1..3, sc \in {"RADAU", "GAUSS"}, f \in BOOLEAN, p \in {"STEWART", "STEP", "FX"}, x \in BOOLEAN, po \in BOOLEAN}
CfgOk(c) == (c.fix \/ c.polish) /\ ((Tier = 1 /\ c.s = 3) => (c.lay = <<2, 1>> /\ c.fesd))
(* ------------------------- entries that may be pinned ------------------------- *)
HasB(c, k, e) == c.fesd /\ c.sch = "GAUSS" /\ ~(k = Len(c.lay) /\ e = c.lay[k])
Regs(c, kind, q) == IF kind \in {"theta", "lambda"} THEN (IF q = 1 THEN 2 ELSE 4) ELSE q
Kinds(c) == IF c.pss = "STEWART" THEN {"theta", "lambda"} ELSE {"alpha", "lambda_n", "lambda_p"}
Weight(kind) == kind \in {"theta", "alpha"}
KNo(kind) == CASE kind = "theta" -> 0 [] kind = "lambda" -> 3 [] kind = "alpha" -> 5 [] kind = "lambda_n" -> 6 [] kind = "lambda_p" -> 8
Entries(c) == UNION {{<<kind, k, e, j, q, r>> : r \in 1..Regs(c, kind, q)} :
   <<kind, k, e, j, q>> \in {t \in Kinds(c) \X (1..Len(c.lay)) \X (1..3) \X (1..(c.s + 1)) \X (1..2) :
       t[3] <= c.lay[t[2]] /\ (t[4] <= c.s \/ (~Weight(t[1]) /\ HasB(c, t[2], t[3])))}}
(* value class of an entry of the last iterate *)
Cls(v, shift) == Classes[((KNo(v[1]) + 7 * v[2] + 5 * v[3] + 3 * v[4] + 2 * v[5] + v[6] + shift) % NC) + 1]
PolishPins(c, shift) == {<<v, 0>> : v \in {v \in Entries(c) : Cls(v, shift) \in {"neg", "zero", "low"}}}
   \cup {<<v, 1>> : v \in {v \in Entries(c) : Weight(v[1]) /\ Cls(v, shift) \in {"one-", "one", "one+"}}}
(* initial Stewart multipliers, in units of comp_tol: g = -S c, lambda = g - min g *)
G1(x) == <<-x[1], x[1]>>
G2(x) == <<-x[2] - x[3], x[3] - x[2], x[2] - x[3], x[2] + x[3]>>
MinOf(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : m <= s[i]
Lam(x, q, r) == LET g == IF q = 1 THEN G1(x) ELSE G2(x) IN g[r] - MinOf(g)
FixPins(c, x) == IF ~c.fix \/ c.pss # "STEWART" THEN {}
   ELSE {<<v, 0>> : v \in {v \in Entries(c) : v[1] = "theta" /\ v[2] = 1 /\ v[3] = 1 /\ Lam(x, v[5], v[6]) > 10}}
(* --------------------------------- behaviours --------------------------------- *)
X0s == {<<0, 0, 0>>, <<100, 3, 3>>, <<-100, -3, 3>>, <<3, 100, -100>>, <<-3, 100, 3>>, <<100, -100, 0>>, <<0, -100, -100>>}
X0of(c) == IF c.fix THEN X0s ELSE {<<100, -100, 3>>}
Shifts(c) == IF c.polish THEN 0..NC - 1 ELSE {0}
Init == /\ cfg \in {c \in Cfgs : CfgOk(c)} /\ hist = <<>> /\ posed = <<>> /\ phase = "idle" /\ tid = 0
Solve(x, sh) ==
   /\ phase = "idle" /\ Len(hist) < 2
   /\ hist' = Append(hist, [x |-> x, shift |-> sh])
   /\ posed' = Append(posed, [hom |-> FixPins(cfg, x), pol |-> IF cfg.polish THEN PolishPins(cfg, sh) ELSE {}])
   /\ phase' = IF Len(hist') = 2 THEN "done" ELSE "idle"
   /\ UNCHANGED <<cfg, tid>>
(* the second solve of a history: another state, a shifted iterate *)
Quiet(x, sh) == IF Len(hist) = 0 THEN TRUE
  ELSE /\ cfg.polish => sh = (hist[1].shift + 3) % NC
       /\ cfg.fix => x # hist[1].x
       /\ Tier = 1 => x \in {<<-100, -3, 3>>, <<0, -100, -100>>, <<100, -100, 3>>}
Pick(x, sh) == (Tier = 1 /\ cfg.fix /\ cfg.polish) => (x[1] + x[2] + sh) % 3 = 0
Next == \E x \in X0of(cfg), sh \in Shifts(cfg) : Quiet(x, sh) /\ (Len(hist) = 0 => Pick(x, sh)) /\ Solve(x, sh)
Done == phase = "done"
(* --------------------------------- invariants --------------------------------- *)
Functional(S) == \A a, b \in S : a[1] = b[1] => a = b
OnePin == \A k \in 1..Len(posed) : Functional(posed[k].hom) /\ Functional(posed[k].pol)
OnlyFirst == \A k \in 1..Len(posed) : \A v \in posed[k].hom : v[1][1] = "theta" /\ v[1][2] = 1 /\ v[1][3] = 1
NeverAll == \A k \in 1..Len(posed) : \A q \in 1..2 : \E r \in 1..(2 * q) : \A v \in posed[k].hom : ~(v[1][5] = q /\ v[1][6] = r)
NoMultToOne == \A k \in 1..Len(posed) : \A v \in posed[k].pol : v[2] = 1 => Weight(v[1][1])
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, hist |-> hist])>>, IOEnv.OUT)
(* ------------------------------ trace validation ------------------------------ *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ hist = <<>> /\ posed = <<>> /\ phase = "idle"
TNext == Len(hist) < 2 /\ Solve(Trace[tid].hist[Len(hist) + 1].x, Trace[tid].hist[Len(hist) + 1].shift)
If(t, s) == IF t THEN {s} ELSE {}
O == Trace[tid].obs
PinSet(s) == {<<<<s[i][1], s[i][2], s[i][3], s[i][4], s[i][5], s[i][6]>>, s[i][7]>> : i \in DOMAIN s}
Ks == 1..Len(posed)
Bad == If(\E k \in Ks : Len(O[k].hom) = 0, "no-homotopy-nlp")
  \cup If(\E k \in Ks : Len(O[k].pol) # (IF cfg.polish THEN 1 ELSE 0), "not-exactly-one-polishing-nlp")
  \cup If(\E k \in Ks : \E i \in 1..Len(O[k].hom) : PinSet(O[k].hom[i]) # posed[k].hom, "homotopy-pins-other-variables")
  \cup If(\E k \in Ks : cfg.polish /\ Len(O[k].pol) > 0 /\ PinSet(O[k].pol[1]) # posed[k].pol, "polishing-pins-other-variables")
  \cup If(\E k \in Ks : ~O[k].rest, "bounds-of-other-variables-or-constraints-changed")
  \cup If(\E k \in Ks : ~O[k].stored, "stored-bounds-modified")
  \cup If(\E k \in Ks : ~O[k].start, "started-elsewhere")
  \cup If(\E k \in Ks : ~O[k].par, "polishing-not-at-zero-relaxation-with-the-same-data")
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
