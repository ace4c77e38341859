----------------------------- MODULE AutoModel -----------------------------
(***************************************************************************)
(* Automatic reformulation of nonsmooth right-hand sides (property C19).       *)
(* Expressions are programs of a stack machine (postfix); the machine, the       *)
(* split into additive terms, the Filippov form and the general inclusion form   *)
(* are evaluated exactly at integer points off the switching surfaces.           *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
VARIABLES cur, dep, other, phase, tid
vars == <<cur, dep, other, phase, tid>>
X1 == 1
X2 == 2
UU == 3
K1 == 4
K2 == 5
NEG == 11
SIGN == 12
SQ == 13
ADD == 21
SUB == 22
MUL == 23
MAX == 24
MIN == 25
IsLeaf(t) == t < 10
IsUn(t) == t \in 11..19
IsBin(t) == t > 20
NS(t) == t \in {SIGN, MAX, MIN}
Points == <<<<1, -2, 3>>, <<-3, 2, 1>>, <<2, 3, -2>>, <<-1, -3, 2>>, <<3, 1, -1>>, <<-2, 1, 3>>>>
SignOf(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
(* ------------------------------- stack machine ------------------------------ *)
(* entries: v value, u depends on the control; z: a switching function vanished; su: a switching function depends on u *)
LeafVal(t, pt) == CASE t = X1 -> pt[1] [] t = X2 -> pt[2] [] t = UU -> pt[3] [] t = K1 -> 1 [] t = K2 -> 2
Top(st) == st[Len(st)]
Pop(st, n) == SubSeq(st, 1, Len(st) - n)
RECURSIVE Exec(_, _, _, _, _)
(* alpha: the nonsmooth functions are replaced by their representation with the step variable; br: branch forced (0: none) *)
Exec(toks, st, z, su, m) ==
  IF toks = <<>> THEN [v |-> st[1].v, z |-> z, su |-> su] ELSE
  LET t == Head(toks) IN
  IF IsLeaf(t) THEN Exec(Tail(toks), Append(st, [v |-> LeafVal(t, m.pt), u |-> t = UU]), z, su, m)
  ELSE LET b == Top(st)
           a == IF IsBin(t) THEN st[Len(st) - 1] ELSE b
           c == IF t = SIGN THEN b.v ELSE a.v - b.v
           up == IF m.br = 1 THEN TRUE ELSE IF m.br = 2 THEN FALSE ELSE c > 0
           al == IF up THEN 1 ELSE 0
           v == CASE t = NEG -> -b.v [] t = SQ -> b.v * b.v [] t = ADD -> a.v + b.v [] t = SUB -> a.v - b.v [] t = MUL -> a.v * b.v
                  [] t = SIGN -> (IF m.alpha THEN (2 * al) - 1 ELSE SignOf(c))
                  [] t = MAX -> (IF m.alpha THEN (al * a.v) + ((1 - al) * b.v) ELSE IF a.v > b.v THEN a.v ELSE b.v)
                  [] t = MIN -> (IF m.alpha THEN ((1 - al) * a.v) + (al * b.v) ELSE IF a.v < b.v THEN a.v ELSE b.v)
       IN Exec(Tail(toks), Append(Pop(st, IF IsBin(t) THEN 2 ELSE 1), [v |-> v, u |-> a.u \/ b.u]),
               z \/ (NS(t) /\ c = 0), su \/ (NS(t) /\ (a.u \/ b.u)), m)
Eval(toks, pt) == Exec(toks, <<>>, FALSE, FALSE, [pt |-> pt, alpha |-> FALSE, br |-> 0])
EvalAlpha(toks, pt) == Exec(toks, <<>>, FALSE, FALSE, [pt |-> pt, alpha |-> TRUE, br |-> 0]).v
EvalBranch(toks, pt, br) == Exec(toks, <<>>, FALSE, FALSE, [pt |-> pt, alpha |-> TRUE, br |-> br]).v
(* ---------------------------- structure of programs -------------------------- *)
RECURSIVE Start(_, _)
Start(s, k) == IF IsLeaf(s[k]) THEN k ELSE IF IsUn(s[k]) THEN Start(s, k - 1) ELSE Start(s, Start(s, k - 1) - 1)
Right(s) == LET n == Len(s) IN SubSeq(s, Start(s, n - 1), n - 1)
Left(s) == LET n == Len(s) IN SubSeq(s, 1, Start(s, n - 1) - 1)
Last(s) == s[Len(s)]
RECURSIVE Terms(_, _)
Terms(s, sg) == CASE Last(s) = ADD -> Terms(Left(s), sg) \o Terms(Right(s), sg) [] Last(s) = SUB -> Terms(Left(s), sg) \o Terms(Right(s), -sg)
                  [] Last(s) = NEG -> Terms(SubSeq(s, 1, Len(s) - 1), -sg) [] OTHER -> <<[s |-> s, sg |-> sg]>>
Count(s) == Cardinality({k \in 1..Len(s) : NS(s[k])})
(* the switching function of a term with one nonsmooth function *)
SwitchOf(s) == LET k == CHOOSE k \in 1..Len(s) : NS(s[k])
                   e == SubSeq(s, Start(s, k), k)
               IN IF s[k] = SIGN THEN SubSeq(e, 1, Len(e) - 1) ELSE SubSeq(e, 1, Len(e) - 1) \o <<SUB>>
(* -------------------------- the two reformulations --------------------------- *)
Additive(fs) == \A i \in 1..Len(fs) : \A k \in 1..Len(Terms(fs[i], 1)) : Count(Terms(fs[i], 1)[k].s) <= 1
Switches(fs) == UNION {{SwitchOf(t.s) : t \in {u \in Range(Terms(fs[i], 1)) : Count(u.s) = 1}} : i \in 1..Len(fs)}
RECURSIVE SumTerms(_, _, _)
SumTerms(ts, pt, br) == IF ts = <<>> THEN 0 ELSE (Head(ts).sg * EvalBranch(Head(ts).s, pt, br)) + SumTerms(Tail(ts), pt, br)
Fcol(f, c, pt, br) == SumTerms(SelectSeq(Terms(f, 1), LAMBDA t : Count(t.s) = 1 /\ SwitchOf(t.s) = c), pt, br)
Common(f, pt) == SumTerms(SelectSeq(Terms(f, 1), LAMBDA t : Count(t.s) = 0), pt, 0)
RECURSIVE SumOver(_, _, _)
SumOver(cs, f, pt) == IF cs = {} THEN 0 ELSE LET c == CHOOSE c \in cs : TRUE IN
   Fcol(f, c, pt, IF Eval(c, pt).v > 0 THEN 1 ELSE 2) + SumOver(cs \ {c}, f, pt)
Reform(fs, pt) == IF Additive(fs) THEN [i \in 1..Len(fs) |-> Common(fs[i], pt) + SumOver(Switches(fs), fs[i], pt)]
                  ELSE [i \in 1..Len(fs) |-> EvalAlpha(fs[i], pt)]
Rhs(fs, pt) == [i \in 1..Len(fs) |-> Eval(fs[i], pt).v]
Regular(fs, pt) == \A i \in 1..Len(fs) : ~Eval(fs[i], pt).z
ControlSwitch(fs) == \E i \in 1..Len(fs) : Eval(fs[i], Points[1]).su
(* ------------------------------- enumeration --------------------------------- *)
Pool == <<
  <<X1>>, <<X2, UU, ADD>>, <<X1, SIGN>>, <<X1, SIGN, X2, MUL>>, <<X1, X2, MAX>>, <<X1, X2, MIN>>, <<X2, X1, MAX>>, <<X1, X2, SUB, SIGN>>,
  <<X1, K1, MIN, NEG>>, <<X2, SIGN, K2, MUL, UU, ADD>>, <<X1, SIGN, X2, SIGN, ADD>>, <<X1, SIGN, X2, SIGN, MUL>>, <<X1, SIGN, X1, SIGN, MUL>>,
  <<X1, SIGN, SQ>>, <<X1, X2, MAX, SQ, NEG>>, <<X1, X1, SIGN, SUB>>, <<X2, X1, SIGN, X2, MUL, SUB, NEG>>, <<X1, SIGN, X2, MAX>>, <<X1, X2, MAX, SIGN>>,
  <<UU, X1, SIGN, MUL, X2, ADD>>, <<X1, SQ, X2, SQ, ADD, K2, SUB, SIGN, NEG>>, <<X1, K2, MUL, X2, MIN, X2, SIGN, SUB>>, <<X1, SIGN, X2, ADD, SQ>>,
  <<X1, X2, SUB, SIGN, X1, X2, MAX, ADD>>, <<X1, X2, MIN, X1, X2, MAX, SUB>>, <<UU, X1, MAX>>, <<X1, X2, MIN, X1, X2, MIN, MUL, X1, X2, MIN, SUB>>,
  \* several terms with one switching function, sums below a difference
  <<X1, SIGN, X1, SIGN, X2, MUL, ADD, X1, SIGN, K2, MUL, ADD>>, <<X1, X2, SIGN, X1, SIGN, ADD, UU, ADD, SUB>>,
  <<X1, X2, SIGN, X1, SIGN, SUB, UU, SUB, SUB>>, <<X1, SIGN, X2, ADD, X1, SIGN, UU, MUL, ADD, X2, SIGN, SUB, X1, SIGN, ADD, NEG>> >>
MaxLen == IF Tier = 1 THEN 7 ELSE 8
Unaries(s) == Cardinality({k \in 1..Len(s) : IsUn(s[k])})
Powers(s) == Cardinality({k \in 1..Len(s) : s[k] \in {MUL, SQ}})
Leaves(n) == IF n = 0 THEN {X1, X2, UU, K1, K2} ELSE IF n <= 3 THEN {X1, X2, UU, K2} ELSE {X1, X2}
Room == MaxLen - Len(cur)
Init == \/ (cur = <<>> /\ dep = 0 /\ other = <<0>> /\ phase = "build" /\ tid = 0)
        \/ (\E i, j \in 1..Len(Pool) : cur = Pool[i] /\ other = Pool[j] /\ dep = 1 /\ phase = "done" /\ tid = 0)
Push(t) == phase = "build" /\ Room >= dep + 1 /\ cur' = Append(cur, t) /\ dep' = dep + 1 /\ UNCHANGED <<other, phase, tid>>
Unary(t) == phase = "build" /\ Room >= dep /\ dep >= 1 /\ Unaries(cur) < 3 /\ (t = SQ => Powers(cur) < 3) /\ ~(t = NEG /\ Last(cur) = NEG)
            /\ cur' = Append(cur, t) /\ UNCHANGED <<dep, other, phase, tid>>
Binary(t) == phase = "build" /\ dep >= 2 /\ (t = MUL => Powers(cur) < 3) /\ cur' = Append(cur, t) /\ dep' = dep - 1 /\ UNCHANGED <<other, phase, tid>>
RECURSIVE H(_)
H(s) == IF s = <<>> THEN 7 ELSE ((H(Tail(s)) * 29) + Head(s)) % 10007
Finish == /\ phase = "build" /\ dep = 1 /\ phase' = "done" /\ Count(cur) >= 1
          /\ LET n == Len(cur) IN n <= 4 \/ H(cur) % (IF Tier = 1 THEN (IF n = 5 THEN 11 ELSE IF n = 6 THEN 101 ELSE 401) ELSE IF n = 5 THEN 1 ELSE IF n = 6 THEN 13 ELSE IF n = 7 THEN 101 ELSE 601) = 0
          /\ other' = Pool[(H(cur) % Len(Pool)) + 1] /\ UNCHANGED <<cur, dep, tid>>
Next == (\E t \in Leaves(Len(cur)) : Push(t)) \/ (\E t \in {NEG, SIGN, SQ} : Unary(t)) \/ (\E t \in {ADD, SUB, MUL, MAX, MIN} : Binary(t)) \/ Finish
Done == phase = "done"
Sys == LET two == IF H(cur) % 2 = 0 THEN <<cur, other>> ELSE <<other, cur>>
       IN IF H(other \o cur) % 3 = 0 THEN Append(two, Pool[(H(cur \o other) % Len(Pool)) + 1]) ELSE two
(* -------------------------------- invariants --------------------------------- *)
Preserves == Done => \A k \in 1..Len(Points) : Regular(Sys, Points[k]) => Reform(Sys, Points[k]) = Rhs(Sys, Points[k])
Emit == Done => CSVWrite("%1$s", <<ToJson([sys |-> Sys, reg |-> Cardinality({k \in 1..Len(Points) : Regular(Sys, Points[k])})])>>, IOEnv.OUT)
(* ----------------------------- trace validation ------------------------------ *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
T == Trace[tid]
O == T.obs
TInit == tid \in 1..Len(Trace) /\ cur = Trace[tid].sys[1] /\ other = Trace[tid].sys[2] /\ dep = 1 /\ phase = "trace"
TNext == phase = "trace" /\ phase' = "checked" /\ UNCHANGED <<cur, dep, other, tid>>
If(t, s) == IF t THEN {s} ELSE {}
Same(obs) == Len(obs) = Len(Points) /\ \A k \in 1..Len(Points) : Regular(T.sys, Points[k]) => obs[k] = Rhs(T.sys, Points[k])
(* obs.nonsmooth: a nonsmooth function is left in the expression after constant folding.  obs.kind: "F", "f_x" or "rejected".
   direct: from F, c, S (or f_x, alpha, c); stewart, step: from the model functions (if the switching functions do not depend on u) *)
Bad == IF O.kind = "rejected" THEN If(O.nonsmooth, "representable-right-hand-side-rejected")
       ELSE If(~Same(O.direct), "right-hand-side-altered") \cup If(~O.numeric, "right-hand-side-altered-off-the-integers")
         \cup (IF ControlSwitch(T.sys) THEN {} ELSE If(O.kind = "F" /\ ~Same(O.stewart), "right-hand-side-altered-with-Stewart") \cup If(~Same(O.step), "right-hand-side-altered-with-step"))
TEmit == phase = "checked" => CSVWrite("%1$s", <<ToJson([id |-> T.id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
