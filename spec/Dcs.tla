--------------------------------- MODULE Dcs ---------------------------------
(***************************************************************************)
(* Dynamic complementarity systems (property C01): at a given state, which  *)
(* weights, multipliers and state derivatives solve the algebraic equations *)
(* of the Stewart and the Step representation, and which region they select. *)
(* Weights: theta in quarters, alpha in halves.                              *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier

Ce(a, b) == [a |-> a, b |-> b]
(* rate of a region: constant, control, time varying, global parameter, global variable *)
Fr(k, u, tv, pg, vg) == [k |-> k, u |-> u, tv |-> tv, pg |-> pg, vg |-> vg]
F2 == <<Fr(3, 1, 0, 0, 0), Fr(-2, 0, 1, 0, 1)>>
G2 == <<Fr(1, 0, 1, 1, 0), Fr(5, 2, 0, 0, 0)>>
F3 == <<Fr(7, 0, 0, 1, 0), Fr(-3, 1, 0, 0, 0), Fr(2, 0, 3, 0, 0)>>
F4 == <<Fr(1, 1, 0, 0, 0), Fr(4, 0, 1, 0, 0), Fr(-5, 0, 0, 1, 0), Fr(9, 0, 0, 0, 1)>>
F8 == <<Fr(1, 0, 0, 0, 0), Fr(2, 1, 0, 0, 0), Fr(4, 0, 0, 0, 0), Fr(8, 0, 1, 0, 0),
        Fr(-1, 0, 0, 0, 0), Fr(-3, 0, 0, 1, 0), Fr(-6, 0, 0, 0, 0), Fr(11, 0, 0, 0, 1)>>
P1 == <<<<1>>, <<-1>>>>
M1 == <<<<-1>>, <<1>>>>
P2 == <<<<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>>>
Q2 == <<<<-1, 1>>, <<1, 1>>, <<-1, -1>>, <<1, -1>>>>
N2 == <<<<1, 0>>, <<-1, 1>>, <<-1, -1>>>>
N2b == <<<<-1, -1>>, <<0, 1>>, <<1, -1>>>>
N3 == <<<<1, 0, 0>>, <<-1, 1, 0>>, <<-1, -1, 1>>, <<-1, -1, -1>>>>
P3 == <<<<1, 1, 1>>, <<1, 1, -1>>, <<1, -1, 1>>, <<1, -1, -1>>, <<-1, 1, 1>>, <<-1, 1, -1>>, <<-1, -1, 1>>, <<-1, -1, -1>>>>
Sy(c, S, F) == [c |-> c, S |-> S, F |-> F]
(* kind: "S" (regions by signs), "gS" (user indicators), "fx" (general inclusion, f: monomials in alpha) *)
Fam(kind, ny, sys, stewart, step) == [kind |-> kind, ny |-> ny, sys |-> sys, stewart |-> stewart, step |-> step, f |-> <<>>]
e1 == <<1, 0, 0>>
e2 == <<0, 1, 0>>
e3 == <<0, 0, 1>>
Fams == <<
  Fam("S", 1, <<Sy(<<Ce(e1, 0)>>, P1, F2)>>, TRUE, TRUE),
  Fam("S", 1, <<Sy(<<Ce(<<-2, 0, 0>>, 2)>>, M1, F2)>>, TRUE, TRUE),
  Fam("S", 2, <<Sy(<<Ce(e1, 0), Ce(<<1, 1, 0>>, 0)>>, Q2, F4)>>, TRUE, TRUE),
  Fam("S", 2, <<Sy(<<Ce(e1, 0), Ce(e2, 0)>>, N2, F3)>>, FALSE, TRUE),
  Fam("S", 2, <<Sy(<<Ce(e2, 0), Ce(<<2, -1, 0>>, 0)>>, N2b, F3), Sy(<<Ce(e1, 1)>>, M1, G2)>>, FALSE, TRUE),
  Fam("S", 3, <<Sy(<<Ce(e1, 0)>>, P1, F2), Sy(<<Ce(e2, 0), Ce(e3, 0)>>, P2, F4)>>, TRUE, TRUE),
  Fam("S", 3, <<Sy(<<Ce(e1, 0), Ce(e2, 1)>>, Q2, F4), Sy(<<Ce(e3, 0)>>, M1, G2)>>, TRUE, TRUE),
  Fam("gS", 1, <<Sy(<<Ce(<<2, 0, 0>>, 1), Ce(<<0, 0, 0>>, 0), Ce(<<-2, 0, 0>>, 1)>>, <<>>, F3), Sy(<<Ce(e1, 0), Ce(<<0, 0, 0>>, 0)>>, <<>>, G2)>>, TRUE, FALSE),
  [Fam("fx", 2, <<Sy(<<Ce(e1, 0), Ce(e2, 0)>>, <<>>, <<>>)>>, FALSE, TRUE)
     EXCEPT !.f = <<[s |-> <<>>, k |-> 3], [s |-> <<1>>, k |-> 2], [s |-> <<2>>, k |-> -1], [s |-> <<1, 2>>, k |-> 4]>>],
  [Fam("fx", 3, <<Sy(<<Ce(e1, 0), Ce(e2, 0)>>, <<>>, <<>>), Sy(<<Ce(e3, 0)>>, <<>>, <<>>)>>, FALSE, TRUE)
     EXCEPT !.f = <<[s |-> <<>>, k |-> -1], [s |-> <<1, 3>>, k |-> 2], [s |-> <<2>>, k |-> 5], [s |-> <<3>>, k |-> 7]>>],
  Fam("S", 3, <<Sy(<<Ce(e1, 0), Ce(e2, 0), Ce(e3, 0)>>, P3, F8)>>, TRUE, TRUE),
  Fam("S", 3, <<Sy(<<Ce(e1, 0)>>, P1, F2), Sy(<<Ce(e2, 0)>>, M1, G2), Sy(<<Ce(e3, 0)>>, P1, F2)>>, TRUE, TRUE),
  Fam("S", 3, <<Sy(<<Ce(e1, 0), Ce(e2, 0)>>, P2, F4), Sy(<<Ce(<<1, 0, 1>>, 0), Ce(<<0, 1, -1>>, 0)>>, Q2, F4)>>, TRUE, TRUE),
  Fam("gS", 2, <<Sy(<<Ce(e1, 0), Ce(e2, 0), Ce(<<-1, -1, 0>>, 0)>>, <<>>, F3)>>, TRUE, FALSE),
  Fam("S", 3, <<Sy(<<Ce(e1, 0), Ce(e2, 0), Ce(e3, 0)>>, N3, F4)>>, FALSE, TRUE) >>
Families == Fams
Grid == IF Tier = 1 THEN {-1, 0, 1} ELSE {-2, -1, 0, 1, 2}
Data == << [u |-> 1, tv |-> 0, pg |-> -1, vg |-> 2], [u |-> -2, tv |-> 3, pg |-> -1, vg |-> 2] >>   \* of the two control stages

VARIABLES fi, y, rep, cand, pert, done
vars == <<fi, y, rep, cand, pert, done>>
Fm == Families[fi]
CV(s, yy) == TLCEval([i \in 1..Len(s.c) |-> s.c[i].a[1] * yy[1] + s.c[i].a[2] * yy[2] + s.c[i].a[3] * yy[3] + s.c[i].b])
Ind(f, s, yy) == IF f.kind = "gS" THEN CV(s, yy)
                 ELSE TLCEval([j \in 1..Len(s.S) |-> -Dot(s.S[j], CV(s, yy))])
ArgMin(g) == {j \in 1..Len(g) : g[j] = MinSeq(g)}
NW(f, s, r) == IF r = "STEWART" THEN (IF f.kind = "gS" THEN Len(s.c) ELSE Len(s.S)) ELSE Len(s.c)
(* a weight vector that is certainly right (one active region)                 *)
Fill(f, s, r, yy) ==
  IF r = "STEWART" THEN LET j0 == CHOOSE j \in ArgMin(Ind(f, s, yy)) : TRUE IN [j \in 1..NW(f, s, r) |-> IF j = j0 THEN 4 ELSE 0]
  ELSE [i \in 1..Len(s.c) |-> IF CV(s, yy)[i] >= 0 THEN 2 ELSE 0]
Cands(n, r) ==
  IF r = "STEWART"
  THEN CASE n = 2 -> [1..2 -> {-2, 0, 2, 4, 6}]
         [] n = 3 -> [1..3 -> {-2, 0, 2, 4}]
         [] n = 4 -> [1..4 -> {0, 2, 4}]
         [] OTHER -> {[j \in 1..n |-> (IF j = a THEN 2 ELSE 0) + (IF j = b THEN 2 ELSE 0)] : a, b \in 1..n}
  ELSE IF n <= 2 THEN [1..n -> {-1, 0, 1, 2, 3}] ELSE [1..n -> {0, 1, 2}]

Init == /\ fi \in 1..Len(Families)
        /\ y \in {t \in Grid \X Grid \X Grid : \A i \in 1..3 : i > Families[fi].ny => t[i] = 0}
        /\ rep \in (IF Families[fi].stewart THEN {"STEWART"} ELSE {}) \cup (IF Families[fi].step THEN {"STEP"} ELSE {})
        /\ cand = <<>> /\ pert = "none" /\ done = FALSE
(* weights for one subsystem after the other; at most one differs from the fill *)
Deviates == \E i \in 1..Len(cand) : cand[i] # Fill(Fm, Fm.sys[i], rep, y)
ChooseWeights ==
  /\ Len(cand) < Len(Fm.sys)
  /\ LET s == Fm.sys[Len(cand) + 1]
         fl == Fill(Fm, s, rep, y)
     IN \E w \in (IF Deviates THEN {fl} ELSE Cands(NW(Fm, s, rep), rep) \cup {fl}) : cand' = Append(cand, w)
  /\ UNCHANGED <<fi, y, rep, pert, done>>
(* optionally wrong multipliers or a wrong derivative, next to right weights     *)
Finish ==
  /\ Len(cand) = Len(Fm.sys) /\ ~done
  /\ \E p \in (IF Deviates THEN {"none"} ELSE {"none", "shift+", "shift-", "entry", "slope"}) : pert' = p
  /\ done' = TRUE
  /\ UNCHANGED <<fi, y, rep, cand>>
Next == ChooseWeights \/ Finish
Spec == Init /\ [][Next]_vars

(* ----------------- the algebraic equations (what has to hold) ----------------- *)
StewartSys(f, s, th, yy) ==
  LET g == Ind(f, s, yy) IN
  /\ \A j \in 1..Len(th) : th[j] >= 0
  /\ SumSeq(th) = 4
  /\ \A j \in 1..Len(th) : th[j] * (g[j] - MinSeq(g)) = 0
StepSys(s, al, yy) ==
  LET c == CV(s, yy) IN
  \A i \in 1..Len(al) : /\ al[i] \in 0..2
                        /\ al[i] * Max2(-c[i], 0) = 0
                        /\ (2 - al[i]) * Max2(c[i], 0) = 0
Solves(f, r, yy, w) == \A i \in 1..Len(f.sys) : IF r = "STEWART" THEN StewartSys(f, f.sys[i], w[i], yy) ELSE StepSys(f.sys[i], w[i], yy)
Accept(f, r, yy, w, p) == p = "none" /\ Solves(f, r, yy, w)

(* ----------------------------- region selection ----------------------------- *)
RowMatches(row, c) == \A i \in 1..Len(row) : row[i] * c[i] >= 0
RowActive(row, c) == \A i \in 1..Len(row) : row[i] # 0 => row[i] * c[i] > 0
Factor(sg, a) == IF sg = 1 THEN a ELSE IF sg = -1 THEN 2 - a ELSE 2
ThetaOf(row, al) == ProdSeq([i \in 1..Len(row) |-> Factor(row[i], al[i])]) * Pow(2, 3 - Len(row))      \* in eighths
(* off all boundaries the solution is the region with the sign pattern of the state *)
SelectsRegion == (done /\ Accept(Fm, rep, y, cand, pert)) =>
  \A i \in 1..Len(Fm.sys) :
    LET s == Fm.sys[i] IN
    CASE Fm.kind = "gS" -> \A j \in 1..Len(cand[i]) : cand[i][j] > 0 => j \in ArgMin(CV(s, y))
      [] Fm.kind = "S" ->
           \A j \in 1..Len(s.S) :
             LET w == IF rep = "STEWART" THEN cand[i][j] ELSE ThetaOf(s.S[j], cand[i]) IN
             /\ w > 0 => RowMatches(s.S[j], CV(s, y))
             /\ RowActive(s.S[j], CV(s, y)) /\ (\A k \in 1..Len(s.c) : CV(s, y)[k] # 0) => w = (IF rep = "STEWART" THEN 4 ELSE 8)
      [] OTHER -> \A k \in 1..Len(s.c) : (CV(s, y)[k] > 0 => cand[i][k] = 2) /\ (CV(s, y)[k] < 0 => cand[i][k] = 0)
FillSolves == done /\ ~Deviates /\ pert = "none" => Accept(Fm, rep, y, cand, pert)
SystemsIndependent == done => (Solves(Fm, rep, y, cand) <=>
   \A i \in 1..Len(Fm.sys) : Solves([Fm EXCEPT !.sys = <<Fm.sys[i]>>], rep, y, <<cand[i]>>))

(* derivative of the dynamic state, in eighths, with the data d of the stage        *)
RateOf(r, d) == r.k + r.u * d.u + r.tv * d.tv + r.pg * d.pg + r.vg * d.vg
Slope(w, d) ==
  IF Fm.kind = "fx"
  THEN SumSeq([m \in 1..Len(Fm.f) |-> Fm.f[m].k * Pow(2, 3 - Len(Fm.f[m].s)) * ProdSeq([q \in 1..Len(Fm.f[m].s) |-> Concat(w)[Fm.f[m].s[q]]])])
  ELSE SumSeq([i \in 1..Len(Fm.sys) |->
         SumSeq([j \in 1..Len(Fm.sys[i].F) |->
            RateOf(Fm.sys[i].F[j], d) * (IF rep = "STEWART" THEN 2 * w[i][j] ELSE ThetaOf(Fm.sys[i].S[j], w[i]))])])
FillAll == TLCEval([i \in 1..Len(Fm.sys) |-> Fill(Fm, Fm.sys[i], rep, y)])

Rec == [fi |-> fi, y |-> y, rep |-> rep, cand |-> cand, pert |-> pert,
        fill |-> FillAll,
        slope |-> <<Slope(cand, Data[1]), Slope(cand, Data[2])>>,
        fslope |-> <<Slope(FillAll, Data[1]), Slope(FillAll, Data[2])>>]
Emit == done => CSVWrite("%1$s", <<ToJson(Rec)>>, IOEnv.OUT)
EmitFam == TLCGet("level") = 1 /\ y = <<0, 0, 0>> => CSVWrite("%1$s", <<ToJson([family |-> fi, def |-> Fm, data |-> Data])>>, IOEnv.OUT)

(* --------------------------- trace validation --------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tid
TInit == /\ tid \in 1..Len(Trace)
         /\ fi = Trace[tid].fi /\ y = Trace[tid].y /\ rep = Trace[tid].rep /\ cand = <<>> /\ pert = "none" /\ done = FALSE
TNext == \/ /\ Len(cand) < Len(Trace[tid].cand)
            /\ cand' = Append(cand, Trace[tid].cand[Len(cand) + 1])
            /\ UNCHANGED <<fi, y, rep, pert, done, tid>>
         \/ /\ Len(cand) = Len(Trace[tid].cand) /\ ~done
            /\ pert' = Trace[tid].pert /\ done' = TRUE
            /\ UNCHANGED <<fi, y, rep, cand, tid>>
Clause(a) == IF a THEN "wrong-weights-multipliers-or-derivative-accepted" ELSE "solution-of-the-active-region-rejected"
TEmit == done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id,
   bad |-> {[acc |-> a, clause |-> Clause(a)] : a \in {b \in Range(Trace[tid].obs) : b # Accept(Fm, rep, y, cand, pert)}}])>>, IOEnv.OUT)
GInit == Init /\ tid = 0
GNext == Next /\ UNCHANGED tid
=============================================================================
