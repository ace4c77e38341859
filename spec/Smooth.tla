------------------------------- MODULE Smooth -------------------------------
(***************************************************************************)
(* The smoothed model behind RK4_SMOOTHENED (part of property C15).  Every     *)
(* switching function has the smoothed step value al = r/(1+r), r = exp(2c/s);  *)
(* the weight of a region is the product of al or 1-al over the functions its   *)
(* sign pattern refers to.  Points are given by the rationals r = n/d; "far"     *)
(* points lie many smoothing widths off all boundaries.                          *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANTS Tier
VARIABLES pat, r, far, tid
vars == <<pat, r, far, tid>>
S(p) == CASE p = "two" -> <<<<1>>, <<-1>>>>
          [] p = "dense" -> <<<<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>>>
          [] p = "sparse" -> <<<<1, 0>>, <<-1, 1>>, <<-1, -1>>>>
          [] p = "late" -> <<<<1, 1>>, <<-1, 1>>, <<0, -1>>>>
          [] p = "deep" -> <<<<1, 0, 0>>, <<-1, 1, 0>>, <<-1, -1, 1>>, <<-1, -1, -1>>>>
Pats == {<<"two">>, <<"dense">>, <<"sparse">>, <<"late">>, <<"deep">>, <<"two", "sparse">>, <<"dense", "two">>} \cup
        (IF Tier = 1 THEN {} ELSE {<<"late", "sparse">>, <<"two", "two", "dense">>, <<"two", "deep">>})
NC(p) == Len(S(p)[1])
Total(ps) == SumSeq([q \in 1..Len(ps) |-> NC(ps[q])])
Ratios == IF Tier = 1 THEN {<<1, 1>>, <<3, 1>>, <<1, 2>>} ELSE {<<1, 1>>, <<3, 1>>, <<1, 2>>, <<1, 4>>}
Init == /\ pat \in Pats /\ far \in BOOLEAN /\ tid = 0 /\ r = <<>>
(* the next switching function gets its value; far: n > d stands for positive *)
Next == /\ Len(r) < Total(pat) /\ \E v \in (IF far THEN {<<3, 1>>, <<1, 2>>} ELSE Ratios) : r' = Append(r, v) /\ UNCHANGED <<pat, far, tid>>
Spec == Init /\ [][Next]_vars
Done == Len(r) = Total(pat)
Off(q) == SumSeq([k \in 1..(q - 1) |-> NC(pat[k])])
Num(q, i) == LET s == S(pat[q])[i]
             IN ProdSeq([j \in 1..NC(pat[q]) |-> LET v == r[Off(q) + j] IN
                  IF s[j] = 0 THEN 1 ELSE IF far THEN (IF (v[1] > v[2]) = (s[j] = 1) THEN 1 ELSE 0) ELSE IF s[j] = 1 THEN v[1] ELSE v[2]])
Den(q, i) == LET s == S(pat[q])[i]
             IN ProdSeq([j \in 1..NC(pat[q]) |-> IF s[j] = 0 \/ far THEN 1 ELSE r[Off(q) + j][1] + r[Off(q) + j][2]])
All(q) == ProdSeq([j \in 1..NC(pat[q]) |-> IF far THEN 1 ELSE r[Off(q) + j][1] + r[Off(q) + j][2]])
SumToOne == Done => \A q \in 1..Len(pat) : SumSeq([i \in 1..Len(S(pat[q])) |-> Num(q, i) * (All(q) \div Den(q, i))]) = All(q)
Emit == Done => CSVWrite("%1$s", <<ToJson([pat |-> pat, r |-> r, far |-> far])>>, IOEnv.OUT)
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[tid]
Unit == 1000000
Near(o, n, d) == Abs(o * d - n * Unit) <= 5 * d
Bad == {x \in {"smoothed-weight-wrong", "smoothed-dynamics-do-not-blend-with-the-weights", "initial-multipliers-not-nonnegative-or-not-natural", "initial-mu-outside-the-range-of-the-indicators"} :
   \/ (x = "smoothed-weight-wrong" /\ \E q \in 1..Len(pat) : Len(R.obs.theta[q]) # Len(S(pat[q])) \/ \E i \in 1..Len(S(pat[q])) : ~Near(R.obs.theta[q][i], Num(q, i), Den(q, i)))
   \/ (x = "smoothed-dynamics-do-not-blend-with-the-weights" /\ \E q \in 1..Len(pat) : \E i \in 1..Len(S(pat[q])) : ~Near(R.obs.dx[q][i], Num(q, i), Den(q, i)))
   \/ (x = "initial-multipliers-not-nonnegative-or-not-natural" /\ ~R.obs.lam)
   \/ (x = "initial-mu-outside-the-range-of-the-indicators" /\ ~R.obs.mu)}
TInit == tid \in 1..Len(Trace) /\ pat = Trace[tid].pat /\ r = Trace[tid].r /\ far = Trace[tid].far
TNext == FALSE /\ UNCHANGED vars
TEmit == CSVWrite("%1$s", <<ToJson([id |-> R.id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
