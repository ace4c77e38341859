------------------------------- MODULE Relax -------------------------------
(***************************************************************************)
(* The relaxation of a complementarity pair in every MPCC mode (property C09) *)
(* and the acceptance of least squares constraint handling.                  *)
(* Quantities are multiples of 1/4, products and bounds of products of 1/16;  *)
(* for the Fischer-Burmeister modes sg is the relaxation in multiples of 1/4. *)
(* kind "own":  one step; weight t (its complement 4 - t) against L1 (L2), and *)
(*              with FESD against the initial multipliers, that belong to K.   *)
(* kind "user": pair (a, b) of the user.                                     *)
(* kind "aug":  the augmented Fischer-Burmeister function of a user pair in the *)
(*              least squares objective (integers, relaxation >= 1).          *)
(* kind "lsq":  construction with least squares constraint handling.          *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
Scholtes == {"SCHOLTES_INEQ", "SCHOLTES_EQ"}
Elastic == {"ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED"}
FB == {"FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG"}
Modes == Scholtes \cup Elastic \cup FB \cup {"BOOLEAN"}
EqualityModes == {"SCHOLTES_EQ", "ELASTIC_EQ"} \cup FB
VARIABLES cfg, pt, todo, ok, tid
vars == <<cfg, pt, todo, ok, tid>>
(* pair relation *)
Holds(m, a, b, sg) ==
  CASE m \in {"SCHOLTES_INEQ", "ELASTIC_INEQ"} -> a * b <= sg
    [] m \in {"SCHOLTES_EQ", "ELASTIC_EQ"} -> a * b = sg
    [] m = "ELASTIC_TWO_SIDED" -> a * b <= sg /\ -sg <= a * b
    [] m \in FB -> a + b >= 0 /\ 2 * a * b = sg * sg
    [] m = "BOOLEAN" -> a = 0 \/ b = 0
Sg(m) == IF m \in {"BOOLEAN", "FISCHER_BURMEISTER_IP_AUG"} THEN {0} ELSE {0, 2, 4}
Ls == IF Tier = 1 THEN {-1, 0, 1, 2, 4, 8} ELSE -2..9
Ts == IF Tier = 1 THEN -1..5 ELSE -2..6
Ks == IF Tier = 1 THEN {-2, 0, 2} ELSE {-4, -1, 0, 2, 8}
Cross(m) == IF m \in FB THEN {"ALL"} ELSE {"ALL", "SUM"}
Own == {[kind |-> "own", mode |-> m, sg |-> s, fesd |-> f, cross |-> c, K |-> k] :
          m \in Modes, s \in 0..4, f \in BOOLEAN, c \in {"ALL", "SUM"}, k \in Ks}
OwnOk(c) == c.sg \in Sg(c.mode) /\ c.cross \in Cross(c.mode) /\ (~c.fesd => c.cross = "ALL")
User == {[kind |-> "user", mode |-> m, sg |-> s, gran |-> g] : m \in Modes, s \in 0..4, g \in {"global", "ctrl", "stage"}}
Lsq == {[kind |-> "lsq", mode |-> m, lb |-> b[1], ub |-> b[2], tol |-> t, cross |-> c, seq |-> q, fesd |-> f, user |-> us] :
          m \in Modes, b \in {<<0, 0>>, <<0, 1>>, <<-1, 0>>, <<1, 1>>, <<-100, 0>>, <<-1, 1>>, <<0, 100>>}, t \in {-1, 0, 1}, c \in {"ALL", "SUM"},
          q \in {"HEURISTIC_MEAN", "DIRECT", "DIRECT_COMPLEMENTARITY"}, f \in BOOLEAN, us \in BOOLEAN}
(* every two of the last five dimensions are combined, but not all of them, in the quick tier *)
LsqOk(c) == /\ c.mode = "FISCHER_BURMEISTER_IP_AUG" => (c.cross = "ALL" \/ ~c.fesd)
            /\ Tier = 1 => \/ c.lb = 0 /\ c.ub = 0 /\ ~c.user /\ (c.tol = -1 \/ c.seq = "HEURISTIC_MEAN")
                           \/ c.tol = -1 /\ c.seq = "HEURISTIC_MEAN" /\ c.fesd /\ c.cross = "ALL"
Aug == {[kind |-> "aug", mode |-> "FISCHER_BURMEISTER_IP_AUG", sg |-> s, gran |-> g, w1 |-> w[1], w2 |-> w[2]] :
          s \in {1, 2, 4}, g \in {"global", "ctrl", "stage"}, w \in {<<1, 0>>, <<0, 1>>, <<3, 2>>}}
(* a^2 + b^2 + sg^2 is a square *)
Root(n) == CHOOSE k \in 0..60 : k * k = n
IsSquare(n) == \E k \in 0..60 : k * k = n
AugPts(c) == {p \in [a : -9..9, b : -9..9] : IsSquare(p.a * p.a + p.b * p.b + c.sg * c.sg)}
(* weighted squares of the function, of its augmentation and of the distance to the relaxation; tau = sg for sg >= 1 *)
AugValue(c, p) == LET fb == p.a + p.b - Root(p.a * p.a + p.b * p.b + c.sg * c.sg)
   IN fb * fb * (1 + c.w2 * c.w2 * (1 + (p.a - p.b) * (p.a - p.b))) + c.w1 * c.w1 * c.sg * ((p.a - c.sg) * (p.a - c.sg) + (p.b - c.sg) * (p.b - c.sg))
P(a, b) == [a |-> a, b |-> b]
L0(c) == <<Max2(-c.K, 0), Max2(c.K, 0)>>
Pairs(c, p) ==
  CASE c.kind = "user" -> <<P(p.a, p.b)>>
    [] c.kind = "own" /\ ~c.fesd -> <<P(p.t, p.L1), P(4 - p.t, p.L2)>>
    [] c.kind = "own" /\ c.fesd /\ c.cross = "ALL" -> <<P(p.t, p.L1), P(4 - p.t, p.L2), P(p.t, L0(c)[1]), P(4 - p.t, L0(c)[2])>>
    [] c.kind = "own" /\ c.fesd /\ c.cross = "SUM" -> <<P(p.t, p.L1 + L0(c)[1]), P(4 - p.t, p.L2 + L0(c)[2])>>
    [] c.kind \in {"lsq", "aug"} -> <<P(0, 0)>>
Signs(c, p) == c.kind = "own" => (p.L1 >= 0 /\ p.L2 >= 0 /\ p.t >= 0 /\ p.t <= 4)
Init == /\ \/ cfg \in {c \in Own : OwnOk(c)} /\ pt \in [t : Ts, L1 : Ls, L2 : Ls]
           \/ cfg \in {c \in User : c.sg \in Sg(c.mode)} /\ pt \in [a : -2..4, b : -2..4]
           \/ cfg \in Aug /\ pt \in AugPts(cfg)
           \/ cfg \in {c \in Lsq : LsqOk(c)} /\ pt = [none |-> 0]
        /\ todo = Pairs(cfg, pt) /\ ok = TRUE /\ tid = 0
Pose == /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<cfg, pt, tid>>
        /\ ok' = (ok /\ IF cfg.kind = "aug" THEN TRUE ELSE IF cfg.kind = "lsq"
              THEN cfg.mode \in EqualityModes /\ cfg.lb = 0 /\ cfg.ub = 0 /\ cfg.tol <= 0
              ELSE Holds(cfg.mode, Head(todo).a, Head(todo).b, cfg.sg))
Next == Pose
Done == todo = <<>>
(* in the Fischer-Burmeister modes the signs are implied, in all others they are bounds *)
Accept == ok /\ (cfg.kind = "own" => Signs(cfg, pt))
SignsImplied == (Done /\ ok /\ cfg.kind = "own" /\ cfg.mode \in FB) => Signs(cfg, pt)
(* exact at zero: complementary and non-negative *)
ExactAtZero == (Done /\ cfg.kind = "own" /\ cfg.sg = 0 /\ Accept) =>
    /\ pt.t * pt.L1 = 0 /\ (4 - pt.t) * pt.L2 = 0
    /\ cfg.fesd => (pt.t * L0(cfg)[1] = 0 /\ (4 - pt.t) * L0(cfg)[2] = 0)
(* a larger relaxation of the inequality modes accepts more *)
Monotone == (Done /\ cfg.kind \notin {"lsq", "aug"} /\ cfg.mode \in {"SCHOLTES_INEQ", "ELASTIC_INEQ", "ELASTIC_TWO_SIDED"} /\ ok) =>
    \A q \in Range(Pairs(cfg, pt)) : Holds(cfg.mode, q.a, q.b, cfg.sg + 1)
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, pt |-> pt])>>, IOEnv.OUT)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ pt = Trace[tid].pt /\ todo = Pairs(cfg, pt) /\ ok = TRUE
TNext == Next
Bad == IF cfg.kind = "aug" THEN {"augmented-function-differs" : o \in {o \in Range(Trace[tid].obs) : o # AugValue(cfg, pt) - AugValue(cfg, [a |-> 0, b |-> 0])}} ELSE
       {IF cfg.kind = "lsq" THEN (IF o THEN "unsupported-least-squares-problem-accepted" ELSE "well-formed-problem-rejected")
        ELSE IF o THEN "pair-outside-its-relaxation-accepted" ELSE "pair-inside-its-relaxation-rejected" : o \in {o \in Range(Trace[tid].obs) : o # Accept}}
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
