------------------------------ MODULE Simulate ------------------------------
(***************************************************************************)
(* Exact simulation of a nonsmooth system (property C25).  The system has      *)
(* several switching functions x_q with x_q' = a + s*t where x_q > 0 and          *)
(* b + s*t where x_q < 0; Filippov's solution crosses, slides or leaves the        *)
(* surface x_q = 0.  It is built event by event in exact rational arithmetic, over  *)
(* a number of simulation steps, together with an integral y' = x_1 and the weights *)
(* of the regions w' = sum of q*(share of the positive side of q).                  *)
(***************************************************************************)
EXTENDS Nos, Rat, Json, CSV, IOUtils
CONSTANTS Tier
VARIABLES cfg, t, x, ph, y, w, segs, ends, tid
vars == <<cfg, t, x, ph, y, w, segs, ends, tid>>
(* kinds of motions: rates, slope in time, initial value, time of the first hit (only needed if s # 0) *)
Kind(k) ==
  CASE k = "stay" -> [x0 |-> <<1, 2>>, a |-> I(1), b |-> I(2), s |-> 0, hit |-> I(0)]
    [] k = "cross" -> [x0 |-> <<3, 4>>, a |-> I(-1), b |-> I(-2), s |-> 0, hit |-> I(0)]
    [] k = "cross_late" -> [x0 |-> <<5, 4>>, a |-> I(-1), b |-> I(-1), s |-> 0, hit |-> I(0)]
    [] k = "slide" -> [x0 |-> <<1, 3>>, a |-> I(-1), b |-> I(3), s |-> 0, hit |-> I(0)]
    [] k = "slide_late" -> [x0 |-> I(2), a |-> <<-3, 2>>, b |-> I(1), s |-> 0, hit |-> I(0)]
    [] k = "leave" -> [x0 |-> <<5, 8>>, a |-> <<-3, 2>>, b |-> <<1, 2>>, s |-> 1, hit |-> <<1, 2>>]
    [] k = "held" -> [x0 |-> I(0), a |-> I(-2), b |-> I(1), s |-> 0, hit |-> I(0)]
    [] k = "released" -> [x0 |-> I(0), a |-> <<-3, 4>>, b |-> I(1), s |-> 1, hit |-> I(0)]
(* the mirrored motion of -x_q *)
Par(m) == LET k == Kind(m.k) IN IF m.up THEN k ELSE [x0 |-> Neg(k.x0), a |-> Neg(k.b), b |-> Neg(k.a), s |-> -k.s, hit |-> k.hit]
Kinds == {"stay", "cross", "cross_late", "slide", "slide_late", "leave", "held", "released"}
Single == {<<[k |-> k, up |-> u]>> : k \in Kinds, u \in BOOLEAN}
Double == {<<[k |-> k, up |-> u], [k |-> l, up |-> v]>> : k \in Kinds, l \in Kinds, u \in BOOLEAN, v \in BOOLEAN}
Triple == {<<[k |-> k, up |-> TRUE], [k |-> l, up |-> FALSE], [k |-> m, up |-> TRUE]>> : k \in {"cross", "slide"}, l \in {"slide_late", "leave", "stay"}, m \in {"cross_late", "released"}}
Horizons == {<<I(2), 1>>, <<<<11, 10>>, 2>>, <<<<7, 10>>, 3>>}                 \* length and number of simulation steps
NQ == Len(cfg.mot)
P(q) == Par(cfg.mot[q])
Rate(q, p, tt) == Add(IF p = "pos" THEN P(q).a ELSE P(q).b, Mul(I(P(q).s), tt))
Phase0(k) == IF k.x0[1] > 0 THEN "pos" ELSE IF k.x0[1] < 0 THEN "neg" ELSE "slide"
Init == /\ cfg \in [mot : Single \cup Double \cup (IF Tier = 1 THEN {} ELSE Triple), hor : Horizons, extra : {0, 1}]
        /\ t = I(0) /\ tid = 0 /\ y = I(0) /\ w = I(0) /\ ends = <<>>
        /\ x = [q \in 1..Len(cfg.mot) |-> Par(cfg.mot[q]).x0]
        /\ ph = [q \in 1..Len(cfg.mot) |-> Phase0(Par(cfg.mot[q]))]
        /\ segs = <<[t |-> I(0), ph |-> ph]>>
T == cfg.hor[1]
Total == Mul(I(cfg.hor[2]), T)
Never == I(1000)
(* time of the next event of q *)
EventTime(q) ==
  LET p == P(q)
      r == Rate(q, ph[q], t)
      up == IF p.s = 0 THEN Never ELSE Mul(I(-p.s), p.a)          \* a + s*t = 0
      dn == IF p.s = 0 THEN Never ELSE Mul(I(-p.s), p.b)
  IN IF ph[q] = "slide" THEN (IF p.s = 0 THEN Never ELSE IF p.s > 0 THEN up ELSE dn)
     ELSE IF p.s # 0 THEN (IF Lt(t, p.hit) THEN p.hit ELSE Never)
     ELSE IF x[q][1] # 0 /\ (x[q][1] > 0) = (r[1] < 0) THEN Sub(t, Div(x[q], r)) ELSE Never
RECURSIVE MinQ(_, _)
MinQ(f, n) == IF n = 1 THEN f[1] ELSE LET m == MinQ(f, n - 1) IN IF Lt(f[n], m) THEN f[n] ELSE m
NextEvent == MinQ(TLCEval([q \in 1..NQ |-> EventTime(q)]), NQ)
Boundary == Mul(I(Len(ends) + 1), T)
(* share of the positive side of q at time tt *)
Share(q, tt) == IF ph[q] = "pos" THEN I(1) ELSE IF ph[q] = "neg" THEN I(0)
                ELSE Div(Add(P(q).b, Mul(I(P(q).s), tt)), Sub(P(q).b, P(q).a))
XAt(q, tt) == IF ph[q] = "slide" THEN I(0)
              ELSE LET d == Sub(tt, t) IN Add(x[q], Add(Mul(Rate(q, ph[q], t), d), Mul(<<P(q).s, 2>>, Mul(d, d))))
YAt(tt) == IF ph[1] = "slide" THEN y
           ELSE LET d == Sub(tt, t) IN Add(y, Add(Mul(x[1], d), Add(Mul(<<1, 2>>, Mul(Rate(1, ph[1], t), Mul(d, d))), Mul(Q(P(1).s, 6), Mul(d, Mul(d, d))))))
RECURSIVE SumW(_, _)
SumW(n, tt) == IF n = 0 THEN I(0) ELSE Add(SumW(n - 1, tt), Mul(I(n), Add(Share(n, t), Share(n, tt))))
WAt(tt) == Add(w, Mul(Mul(<<1, 2>>, Sub(tt, t)), SumW(NQ, tt)))
After(q, tt) ==        \* phase after an event of q
  IF EventTime(q) # tt THEN ph[q]
  ELSE IF ph[q] = "slide" THEN (IF P(q).s > 0 THEN "pos" ELSE "neg")
  ELSE LET up == Rate(q, "pos", tt)
           dn == Rate(q, "neg", tt)
       IN IF ph[q] = "pos" THEN (IF dn[1] < 0 THEN "neg" ELSE "slide") ELSE (IF up[1] > 0 THEN "pos" ELSE "slide")
MoveTo(tt) == /\ t' = tt /\ x' = TLCEval([q \in 1..NQ |-> XAt(q, tt)]) /\ y' = YAt(tt) /\ w' = WAt(tt)
Event == LET tt == NextEvent
         IN /\ Lt(tt, Boundary) /\ MoveTo(tt)
            /\ ph' = TLCEval([q \in 1..NQ |-> After(q, tt)])
            /\ segs' = Append(segs, [t |-> tt, ph |-> ph'])
            /\ UNCHANGED <<cfg, ends, tid>>
EndStep == LET tt == Boundary
           IN /\ Lt(tt, NextEvent) /\ MoveTo(tt)
              /\ ends' = Append(ends, [x |-> x', y |-> y', w |-> w'])
              /\ UNCHANGED <<cfg, ph, segs, tid>>
Done == Len(ends) = cfg.hor[2]
Next == ~Done /\ (Event \/ EndStep)
Spec == Init /\ [][Next]_vars

(* Filippov: the solution is continuous, satisfies its phase, and slides only where both sides push to the surface *)
PhaseHolds == \A q \in 1..NQ : CASE ph[q] = "pos" -> x[q][1] >= 0 [] ph[q] = "neg" -> x[q][1] <= 0 [] OTHER -> x[q] = I(0)
ShareInRange == \A q \in 1..NQ : Le(I(0), Share(q, t)) /\ Le(Share(q, t), I(1))

(* finite elements per step: lengths between (nearly) zero and (nearly) twice the nominal length have to cover all smooth pieces *)
PiecesIn(k) ==         \* end times of the pieces of step k
  LET lo == Mul(I(k - 1), T)
      hi == Mul(I(k), T)
      cut == SelectSeq(TLCEval([i \in 1..Len(segs) |-> segs[i].t]), LAMBDA e : Lt(lo, e) /\ Lt(e, hi))
  IN <<lo>> \o cut \o <<hi>>
NPieces(k) == Len(PiecesIn(k)) - 1
RECURSIVE MaxN(_)
MaxN(k) == IF k = 0 THEN 0 ELSE Max2(MaxN(k - 1), NPieces(k))
NFE == Max2(2, MaxN(cfg.hor[2]) + cfg.extra)
Short == Mul(T, <<1, 20>>)
Representable == \A k \in 1..cfg.hor[2] :
   LET p == PiecesIn(k)
       len(i) == Sub(p[i + 1], p[i])
       most == Mul(<<17, 10 * NFE>>, T)
   IN /\ \A i \in 1..NPieces(k) : Le(Short, len(i))
      (* collocation determines the time at which a sliding mode is left only up to its accuracy: not claimed *)
      /\ \A j \in 1..(Len(segs) - 1) : \A q \in 1..NQ : segs[j].ph[q] = "slide" => segs[j + 1].ph[q] = "slide"
      /\ SumSeq([i \in 1..NPieces(k) |-> Ceil(Div(len(i), most))]) <= NFE
Emit == (Done /\ Representable /\ NFE <= 5) => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, nfe |-> NFE])>>, IOEnv.OUT)

(* ------------------------------ verdicts ------------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[tid]
Unit == 10000
(* o (integer, in units) equals the rational r *)
Near(o, r) == LET d == Sub(Q(o, Unit), r) IN Abs(d[1]) <= (d[2] \div 500)        \* 0.002
Obs == R.obs
Bad ==
  IF ~Obs.converged THEN {}
  ELSE {b \in {"wrong-sequence-of-modes", "wrong-switch-time", "wrong-state-at-the-end-of-a-step", "wrong-integral", "wrong-weights"} :
     \/ (b = "wrong-sequence-of-modes" /\ [i \in 1..Len(Obs.segs) |-> Obs.segs[i].ph] # [i \in 1..Len(segs) |-> segs[i].ph])
     \/ (b = "wrong-switch-time" /\ \E i \in 1..Min2(Len(segs), Len(Obs.segs)) : ~Near(Obs.segs[i].t, segs[i].t))
     \/ (b = "wrong-state-at-the-end-of-a-step" /\ (Len(Obs.ends) # Len(ends) \/ \E k \in 1..Min2(Len(ends), Len(Obs.ends)) : \E q \in 1..NQ : ~Near(Obs.ends[k].x[q], ends[k].x[q])))
     \/ (b = "wrong-integral" /\ \E k \in 1..Min2(Len(ends), Len(Obs.ends)) : ~Near(Obs.ends[k].y, ends[k].y))
     \/ (b = "wrong-weights" /\ \E k \in 1..Min2(Len(ends), Len(Obs.ends)) : ~Near(Obs.ends[k].w, ends[k].w))}
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ t = I(0) /\ y = I(0) /\ w = I(0) /\ ends = <<>>
         /\ x = [q \in 1..Len(cfg.mot) |-> Par(cfg.mot[q]).x0]
         /\ ph = [q \in 1..Len(cfg.mot) |-> Phase0(Par(cfg.mot[q]))]
         /\ segs = <<[t |-> I(0), ph |-> ph]>>
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> R.id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
