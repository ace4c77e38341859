------------------------------- MODULE Plots -------------------------------
(***************************************************************************)
(* Plots show the data they are given (property C26).  A figure is a set of    *)
(* axes with lines, bars, points and texts.  Data are integers; the iterates     *)
(* of a problem are labelled: the value of a block tells iterate, element,        *)
(* stage and component.                                                            *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANTS Tier
VARIABLES cfg, data, tid
vars == <<cfg, data, tid>>
Sizes == {<<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 2, 2>>}
Lays == {<<1>>, <<3>>, <<2, 1>>, <<1, 2>>, <<1, 2, 1>>}
Pts == {<<0, 0, 1, 2>>, <<4, 1, 0, 3>>, <<1, 5, 2, 0>>, <<3, 3, 6, 1>>, <<2, 6, 1, 5>>}
Init == /\ tid = 0 /\ data = <<>>
        /\ cfg \in {[kind |-> "iterates", lay |-> l, s |-> s, n |-> n, its |-> k, opt |-> o, len |-> k] : l \in Lays, s \in 1..2, n \in Sizes, k \in 1..3, o \in BOOLEAN}
           \cup {[kind |-> "timings", lay |-> <<m>>, s |-> 0, n |-> <<>>, its |-> 0, opt |-> o, len |-> l] : m \in 1..3, l \in 1..3, o \in BOOLEAN}
           \cup {[kind |-> k, lay |-> <<>>, s |-> 0, n |-> <<>>, its |-> 0, opt |-> o, len |-> l] : k \in {"scatter", "line"}, l \in 2..4, o \in BOOLEAN}
           \cup {[kind |-> "voronoi", lay |-> <<>>, s |-> 0, n |-> <<>>, its |-> 0, opt |-> o, len |-> l] : l \in 4..5, o \in BOOLEAN}
Rows == IF cfg.kind = "timings" THEN {[i \in 1..cfg.lay[1] |-> (a * i + b) % 4] : a \in 0..2, b \in 0..2} ELSE IF cfg.kind = "iterates" THEN {<<1>>, <<2>>} ELSE Pts
Next == /\ Len(data) < cfg.len /\ \E r \in Rows : (cfg.kind \in {"timings", "iterates"} \/ r \notin Range(data)) /\ data' = Append(data, r) /\ UNCHANGED <<cfg, tid>>
(* two points with the same time span no colors *)
Usable == (cfg.kind = "line") => \E i, j \in 1..Len(data) : data[i][4] # data[j][4]
Done == Len(data) = cfg.len /\ Usable
Spec == Init /\ [][Next]_vars
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, data |-> data])>>, IOEnv.OUT)

(* ---------------------------- expected figure --------------------------- *)
Off(q) == SumSeq(SubSeq(cfg.n, 1, q - 1))
NF == SumSeq(cfg.n)
NX == 2
(* labels: variable kind, iterate (its own number), element, stage, component *)
Label(v, it, e, j, c) == (((((v * 10) + it) * 10 + e) * 10 + j) * 10) + c
Value(it, v, e, j, c) == Label(v, data[it][1], e, j, c)
Elems == [e \in 1..NE(cfg.lay) |-> e]
LineOf(it, v, c) == TLCEval([e \in 1..NE(cfg.lay) |-> Value(it, v, e, cfg.s, c)])
XLine(it, c) == <<7 + c>> \o Concat(TLCEval([e \in 1..NE(cfg.lay) |-> TLCEval([j \in 1..cfg.s |-> Value(it, 4, e, j, c)])]))
Panel(it, row) == CASE row = 1 -> TLCEval([c \in 1..(NF + Len(cfg.n)) |-> IF c <= NF THEN LineOf(it, 1, c) ELSE LineOf(it, 2, c - NF)])
                    [] row = 2 -> TLCEval([c \in 1..NF |-> LineOf(it, 3, c)])
                    [] row = 3 -> TLCEval([c \in 1..NX |-> XLine(it, c)])
Column(i) == TLCEval([k \in 1..Len(data) |-> data[k][i]])
Stack(k, i) == SumSeq(SubSeq(data[k], 1, i - 1))
Total == SumSeq([k \in 1..Len(data) |-> SumSeq(data[k])])
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[tid]
O == R.obs
Bad ==
  CASE cfg.kind = "iterates" ->
         {b \in {"wrong-number-of-panels", "multipliers-not-shown", "weights-not-shown", "states-not-shown", "titles-not-shown", "not-stored"} :
            \/ (b = "wrong-number-of-panels" /\ (Len(O.panels) # cfg.its \/ \E i \in 1..Len(O.panels) : Len(O.panels[i]) # 3))
            \/ (b = "multipliers-not-shown" /\ \E i \in 1..Min2(cfg.its, Len(O.panels)) : O.panels[i][1] # Panel(i, 1))
            \/ (b = "weights-not-shown" /\ \E i \in 1..Min2(cfg.its, Len(O.panels)) : O.panels[i][2] # Panel(i, 2))
            \/ (b = "states-not-shown" /\ \E i \in 1..Min2(cfg.its, Len(O.panels)) : O.panels[i][3] # Panel(i, 3))
            \/ (b = "titles-not-shown" /\ ~O.titles)
            \/ (b = "not-stored" /\ ~O.stored)}
    [] cfg.kind = "timings" ->
         {b \in {"bars-wrong", "mean-wrong", "not-stored", "titles-not-shown"} :
            \/ (b = "bars-wrong" /\ (Len(O.bars) # cfg.lay[1] \/ \E i \in 1..Min2(cfg.lay[1], Len(O.bars)) :
                   O.bars[i] # TLCEval([k \in 1..Len(data) |-> <<k - 1, Stack(k, i), data[k][i]>>])))
            \/ (b = "mean-wrong" /\ (O.mean = <<>> \/ \E k \in 1..Len(O.mean) : Abs((O.mean[k] * Len(data)) - (1000 * Total)) > Len(data)))
            \/ (b = "titles-not-shown" /\ ~O.titles)
            \/ (b = "not-stored" /\ ~O.stored)}
    [] cfg.kind \in {"scatter", "voronoi", "line"} ->
         LET dim == IF cfg.kind = "voronoi" THEN 2 ELSE 3
             pts == TLCEval([k \in 1..Len(data) |-> SubSeq(data[k], 1, dim)])
         IN {b \in {"points-wrong", "annotations-wrong", "segments-wrong"} :
            \/ (b = "points-wrong" /\ O.points # pts)
            \/ (b = "annotations-wrong" /\ cfg.kind # "line" /\ O.texts # (IF cfg.opt THEN TLCEval([k \in 1..Len(data) |-> [text |-> k, at |-> pts[k]]]) ELSE <<>>))
            \/ /\ b = "segments-wrong"
               /\ cfg.kind = "line"
               /\ \/ O.segs # TLCEval([k \in 1..(Len(data) - 1) |-> <<pts[k], pts[k + 1]>>])
                  \/ \E i \in 1..Len(O.shade) : \E j \in 1..Len(O.shade) :       \* darker the earlier
                        i <= Len(data) /\ j <= Len(data) /\ data[i][4] < data[j][4] /\ O.shade[i] >= O.shade[j]
                  \/ O.color # TLCEval([k \in 1..Len(data) |-> data[k][4]])}
TInit == tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ data = Trace[tid].data
TNext == FALSE /\ UNCHANGED vars
TEmit == CSVWrite("%1$s", <<ToJson([id |-> R.id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
