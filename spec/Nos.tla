-------------------------------- MODULE Nos --------------------------------
(* Shared operators: integer vectors, sums, layouts of control stages and   *)
(* finite elements.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

Dot(a, b) == SumSeq(TLCEval([i \in 1..Len(a) |-> a[i] * b[i]]))
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VScale(k, a) == TLCEval([i \in 1..Len(a) |-> k * a[i]])
Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
MinSeq(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]
MaxSeq(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m >= s[i]
Range(s) == {s[i] : i \in 1..Len(s)}
Repeat(v, n) == TLCEval([i \in 1..n |-> v])
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

(* A layout is the sequence of the numbers of finite elements per control   *)
(* stage.  Elements are numbered 1..NE(lay) in chronological order.          *)
NE(lay) == SumSeq(lay)
RECURSIVE StageOf(_, _)
StageOf(lay, i) == IF i <= lay[1] THEN 1 ELSE 1 + StageOf(Tail(lay), i - lay[1])
RECURSIVE ElemOf(_, _)
ElemOf(lay, i) == IF i <= lay[1] THEN i ELSE ElemOf(Tail(lay), i - lay[1])
FirstOfStage(lay, i) == ElemOf(lay, i) = 1
LastOfStage(lay, i) == ElemOf(lay, i) = lay[StageOf(lay, i)]
LastOverall(lay, i) == i = NE(lay)
=============================================================================
