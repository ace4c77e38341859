----------------------------- MODULE InitGuess -----------------------------
(***************************************************************************)
(* Initial guess of the first NLP of a solve, per strategy (property C15).    *)
(*  "std": histories of x0 / set u / solve for the ALL_XCURRENT and EXTERNAL    *)
(*         strategies.  Tokens: 0 the guess stored at construction, k > 0 the    *)
(*         answer of the k-th solve, -1 - v the v-th initial state.             *)
(*  "rk4": RK4_SMOOTHENED.  The smoothed dynamics are x1' = 1 (unit: one          *)
(*         element), so a state tells at which time it was sampled; times in       *)
(*         thousandths of an element.                                         *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
VARIABLES cfg, x0, gx, go, gu, hist, posed, phase, tid
vars == <<cfg, x0, gx, go, gu, hist, posed, phase, tid>>
Strats == {"ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV", "EXTERNAL"}
Lays == IF Tier = 1 THEN {<<1>>, <<2, 1>>, <<1, 2, 1>>} ELSE {<<1>>, <<2, 1>>, <<1, 2>>, <<3>>, <<1, 1, 1>>, <<1, 2, 1>>}
Std == {[kind |-> "std", strat |-> t, lay |-> l, s |-> s, sch |-> sc, pss |-> p, fesd |-> f, fix |-> x, polish |-> po] :
    t \in Strats, l \in Lays, s \in 1..2, sc \in {"RADAU", "GAUSS"}, p \in {"STEWART", "STEP"}, f \in BOOLEAN, x \in BOOLEAN, po \in BOOLEAN}
Rk4 == {[kind |-> "rk4", nfe |-> n, s |-> s, rep |-> r, fesd |-> f, given |-> g, x1 |-> x, sparse |-> sp, a |-> <<a1, a2, a3>>] :
    n \in 1..3, s \in 1..3, r \in {"INTEGRAL", "DIFFERENTIAL", "LIFT"}, f \in BOOLEAN, g \in BOOLEAN, x \in {0, 1000}, sp \in BOOLEAN,
    a1 \in {-500, 500, 1500}, a2 \in (IF Tier = 1 THEN {800, 1800} ELSE {-200, 800, 1800, 2800}), a3 \in (IF Tier = 1 THEN {500, 2500} ELSE {500, 1500, 2500})}
  \cup {[kind |-> "rk4", nfe |-> 5, s |-> s, rep |-> r, fesd |-> f, given |-> TRUE, x1 |-> x, sparse |-> sp, a |-> <<a1, 1800, a3>>] :
    s \in 1..2, r \in {"INTEGRAL", "LIFT"}, f \in BOOLEAN, x \in {0, 1000}, sp \in BOOLEAN, a1 \in {500, 3500}, a3 \in {2500, 4500}}
(* ----------------------------------- rk4 ----------------------------------- *)
Node(s) == CASE s = 1 -> <<1000>> [] s = 2 -> <<333, 1000>> [] s = 3 -> <<155, 645, 1000>>
X1(c, i, k) == c.x1 + 1000 * (i - 1) + (IF k = 0 THEN 0 ELSE Node(c.s)[k])
Reg1(c, x) == IF x > c.a[1] THEN 1 ELSE 2
Reg2(c, x) == IF c.sparse THEN (IF x > c.a[2] THEN 1 ELSE IF x < c.a[3] THEN 2 ELSE 3) ELSE (IF x > c.a[2] THEN 1 ELSE 3) + (IF x < c.a[3] THEN 0 ELSE 1)
Rate(c, x) == Reg1(c, x) + 10 * Reg2(c, x)
Prev(c, i, k) == X1(c, i, k - 1)
Crosses(c, lo, hi) == \E m \in 1..3 : lo - 100 < c.a[m] /\ c.a[m] < hi + 100
Sample(c, i, k) == [t |-> <<i, k>>, reg |-> <<Reg1(c, X1(c, i, k)), Reg2(c, X1(c, i, k))>>,
                    rate |-> IF Crosses(c, Prev(c, i, k), X1(c, i, k)) THEN 0 ELSE Rate(c, X1(c, i, k))]
Samples(c) == [i \in 1..c.nfe |-> [k \in 1..c.s |-> Sample(c, i, k)]]
(* ----------------------------------- std ----------------------------------- *)
(* initial states: the first switching function is positive, negative, zero *)
X0s == <<<<100, 3, 3>>, <<-100, -3, 3>>, <<0, -100, -100>>>>
G1(x) == <<-x[1], x[1]>>
G2(x) == <<-x[2] - x[3], x[3] - x[2], x[2] - x[3], x[2] + x[3]>>
MinOf(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : m <= s[i]
Zeroed(v) == IF ~cfg.fix \/ cfg.pss # "STEWART" THEN {}
   ELSE {<<1, r>> : r \in {r \in 1..2 : G1(X0s[v])[r] - MinOf(G1(X0s[v])) > 10}} \cup {<<2, r>> : r \in {r \in 1..4 : G2(X0s[v])[r] - MinOf(G2(X0s[v])) > 10}}
Init == /\ cfg \in Std \cup Rk4 /\ x0 = 1 /\ gx = 0 /\ go = 0 /\ gu = 0 /\ hist = <<>> /\ posed = <<>> /\ tid = 0
        /\ phase = IF cfg.kind = "rk4" THEN "rk4" ELSE "idle"
XCur == cfg.strat # "EXTERNAL"
NSolve == Cardinality({i \in 1..Len(hist) : hist[i] = "solve"})
SetX0(v) == /\ phase = "idle" /\ v # x0
            /\ x0' = v /\ hist' = Append(hist, <<"x1", "x2", "x3">>[v])
            /\ UNCHANGED <<cfg, gx, go, gu, posed, phase, tid>>
SetU == /\ phase = "idle"
        /\ gu' = -50 - Len(hist) /\ hist' = Append(hist, "u")
        /\ UNCHANGED <<cfg, x0, gx, go, posed, phase, tid>>
Solve == /\ phase = "idle"
         /\ LET g == IF XCur THEN -1 - x0 ELSE gx
                n == NSolve + 1
                keep == cfg.strat = "ALL_XCURRENT_WOPT_PREV"
            IN /\ posed' = Append(posed, [x |-> g, o |-> go, u |-> gu, zero |-> Zeroed(x0)])
               /\ gx' = (IF keep THEN n ELSE g) /\ go' = (IF keep THEN n ELSE go) /\ gu' = (IF keep THEN n ELSE gu)
         /\ hist' = Append(hist, "solve")
         /\ UNCHANGED <<cfg, x0, phase, tid>>
Sim == /\ phase = "rk4" /\ phase' = "done" /\ posed' = Samples(cfg) /\ UNCHANGED <<cfg, x0, gx, go, gu, hist, tid>>
MaxLen == IF Tier = 1 THEN 4 ELSE 5
Last == IF hist = <<>> THEN "none" ELSE hist[Len(hist)]
Next == \/ Sim
        \/ /\ Len(hist) < MaxLen /\ cfg.kind = "std"
           /\ \/ \E v \in 1..3 : Last \notin {"x1", "x2", "x3"} /\ (Len(hist) < MaxLen - 1) /\ SetX0(v)
              \/ (Last # "u" /\ Len(hist) < MaxLen - 1 /\ "u" \notin Range(hist) /\ SetU)
              \/ Solve
Done == phase = "done" \/ (cfg.kind = "std" /\ Len(hist) = MaxLen)
(* -------------------------------- invariants -------------------------------- *)
Chronological == (phase = "done") => \A i \in 1..cfg.nfe : \A k \in 2..cfg.s : X1(cfg, i, k - 1) < X1(cfg, i, k)
W0Never == (cfg.kind = "std" /\ cfg.strat = "ALL_XCURRENT_W0_START") => \A k \in 1..Len(posed) : posed[k].o = 0
PrevIs == (cfg.kind = "std" /\ cfg.strat = "ALL_XCURRENT_WOPT_PREV") => \A k \in 2..Len(posed) : posed[k].o = k - 1
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, hist |-> hist])>>, IOEnv.OUT)
(* ----------------------------- trace validation ----------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ x0 = 1 /\ gx = 0 /\ go = 0 /\ gu = 0 /\ hist = <<>> /\ posed = <<>>
         /\ phase = IF Trace[tid].cfg.kind = "rk4" THEN "rk4" ELSE "idle"
H == Trace[tid].hist
TNext == Sim \/ (Len(hist) < Len(H) /\ LET a == H[Len(hist) + 1] IN
            CASE a = "x1" -> SetX0(1) [] a = "x2" -> SetX0(2) [] a = "x3" -> SetX0(3) [] a = "u" -> SetU [] OTHER -> Solve)
TDone == phase = "done" \/ (cfg.kind = "std" /\ Len(hist) = Len(H))
If(t, s) == IF t THEN {s} ELSE {}
O == Trace[tid].obs
Ks == 1..Len(posed)
BadStd == IF Len(O.posed) # Len(posed) THEN {"number-of-nlps"} ELSE
       If(\E k \in Ks : O.posed[k].x # posed[k].x, "states-of-the-guess")
  \cup If(\E k \in Ks : O.posed[k].o # posed[k].o, "rest-of-the-guess")
  \cup If(\E k \in Ks : O.posed[k].u # posed[k].u, "controls-of-the-guess")
  \cup If(\E k \in Ks : {<<O.posed[k].zero[i][1], O.posed[k].zero[i][2]>> : i \in DOMAIN O.posed[k].zero} # posed[k].zero, "weights-of-the-first-element")
  \cup If(~O.inb, "default-guess-outside-its-bounds")
BadRk4 == If(\E i \in 1..cfg.nfe : \E k \in 1..cfg.s : (cfg.rep # "DIFFERENTIAL" \/ k = cfg.s) /\ O.t[i][k] # posed[i][k].t, "sampled-at-another-time")
  \cup If(\E i \in 1..cfg.nfe : O.end[i] # <<i, cfg.s>>, "end-state-not-of-the-end-of-the-element")
  \cup If(\E i \in 1..cfg.nfe : \E k \in 1..cfg.s : O.reg[i][k] # posed[i][k].reg, "weights-of-another-region")
  \cup If(\E i \in 1..cfg.nfe : \E k \in 1..cfg.s : O.mult[i][k] # <<i, k>>, "multipliers-of-another-state")
  \cup If(\E i \in 1..cfg.nfe : \E k \in 1..cfg.s : (cfg.rep # "DIFFERENTIAL" /\ posed[i][k].rate # 0) /\ O.rate[i][k] # posed[i][k].rate, "not-the-smoothed-dynamics")
  \cup If(~O.rest, "other-entries-changed")
Bad == IF cfg.kind = "std" THEN BadStd ELSE BadRk4
TEmit == TDone => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
