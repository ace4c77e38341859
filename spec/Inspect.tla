------------------------------ MODULE Inspect ------------------------------
(***************************************************************************)
(* Looking at a problem (property C22).  A problem is used through set(...)    *)
(* and solve(); at any time its listing may be printed and it may be written    *)
(* to a file.  Looking changes nothing, and what is shown is what the next NLP   *)
(* gets.  Data are tokens (number of the call that passed them, 0: from the      *)
(* build; -2: from the answer of the NLP solver); bounds and guesses of the       *)
(* user's quantities are classes.                                                *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANTS Tier
VARIABLES cfg, hist, x0, pg, ptv, w, u, seen, tid
vars == <<cfg, hist, x0, pg, ptv, w, u, seen, tid>>

(* ------------------------------ listing -------------------------------- *)
(* class of a quantity: how its guess lies to its bounds *)
Classes == {"in", "at_lower", "at_upper", "free", "below", "above", "crossed_in", "crossed_below", "crossed_above",
            "lower_in", "lower_at", "lower_below", "upper_in", "upper_at", "upper_above", "fixed_at", "fixed_below", "fixed_above"}
Flag(c) == IF c \in {"crossed_in", "crossed_below", "crossed_above"} THEN "BOUND" ELSE IF c \in {"below", "above", "lower_below", "upper_above", "fixed_below", "fixed_above"} THEN "W0" ELSE "none"
Quants == {"x", "u", "z", "v"}
Lays == {<<2, 1>>, <<1>>, <<1, 2, 1>>}
Stages == {1, 2}
Copies(c, q) == CASE q = "u" -> Len(c.lay) [] q = "v" -> 1 [] OTHER -> NE(c.lay) * c.s     \* Radau, integral form: one state per stage
Plain == [q \in Quants |-> "in"]
ClassMaps == {[Plain EXCEPT ![q] = a] : q \in Quants, a \in Classes}
             \cup {[Plain EXCEPT !["x"] = a, !["u"] = b] : a \in Classes, b \in {"above", "crossed_in"}}
             \cup (IF Tier = 1 THEN {} ELSE {[Plain EXCEPT !["x"] = a, !["u"] = b, !["z"] = d] : a \in Classes, b \in Classes, d \in Classes})

(* ------------------------------- history ------------------------------- *)
Strats == {"EXTERNAL", "ALL_XCURRENT_WOPT_PREV"}
Init == /\ hist = <<>> /\ x0 = 0 /\ pg = 0 /\ ptv = 0 /\ w = 0 /\ u = 0 /\ seen = <<>> /\ tid = 0
        /\ \/ cfg \in {[kind |-> "hist", lay |-> l, s |-> 2, strat |-> s, cls |-> Plain] : l \in Lays, s \in Strats}
           \/ cfg \in {[kind |-> "list", lay |-> l, s |-> s, strat |-> "EXTERNAL", cls |-> c] : l \in Lays, s \in Stages, c \in ClassMaps}
T == Len(hist) + 1
Log(a) == hist' = Append(hist, a) /\ UNCHANGED <<cfg, tid>>
SetX0 == Log("x0") /\ x0' = T /\ UNCHANGED <<pg, ptv, w, u, seen>>
SetPg == Log("p_global") /\ pg' = T /\ UNCHANGED <<x0, ptv, w, u, seen>>
SetPtv == Log("p_time_var") /\ ptv' = T /\ UNCHANGED <<x0, pg, w, u, seen>>
SetW == Log("w") /\ w' = T /\ u' = T /\ UNCHANGED <<x0, pg, ptv, seen>>
SetU == Log("u") /\ u' = T /\ UNCHANGED <<x0, pg, ptv, w, seen>>
Shown(a) == [act |-> a, x0 |-> x0, pg |-> pg, ptv |-> ptv, w |-> w, u |-> u]
Look(a) == Log(a) /\ seen' = Append(seen, Shown(a)) /\ UNCHANGED <<x0, pg, ptv, w, u>>
(* the data of the NLP a solve poses first; afterwards the stored guess may be the answer *)
Solve == Log("solve") /\ seen' = Append(seen, Shown("solve"))
         /\ (IF cfg.strat = "ALL_XCURRENT_WOPT_PREV" THEN w' = -T /\ u' = -T ELSE UNCHANGED <<w, u>>)
         /\ UNCHANGED <<x0, pg, ptv>>
MaxLen == IF Tier = 1 THEN 4 ELSE 5
Kinds == {hist[i] : i \in 1..Len(hist)}
Next == /\ cfg.kind = "hist" /\ Len(hist) < MaxLen
        /\ SetX0 \/ SetPg \/ SetPtv \/ SetW \/ SetU \/ Solve \/ Look("dump") \/ Look("print")
Spec == Init /\ [][Next]_vars
Done == IF cfg.kind = "list" THEN TRUE
        ELSE Len(hist) = MaxLen /\ hist[MaxLen] \in {"dump", "print", "solve"} /\ ("dump" \in Kinds \/ "print" \in Kinds)

(* looking at the problem right before a solve shows what the solve poses *)
ShowsNext == \A i \in 1..(Len(seen) - 1) :
   (seen[i].act \in {"dump", "print"} /\ i < Len(seen) /\ (\E k \in 1..(Len(hist) - 1) : hist[k] = seen[i].act /\ hist[k + 1] = "solve"
       /\ Cardinality({j \in 1..k : hist[j] \in {"dump", "print", "solve"}}) = i)) =>
   [seen[i] EXCEPT !.act = "solve"] = seen[i + 1]

Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, hist |-> hist])>>, IOEnv.OUT)

(* ------------------------------ verdicts ------------------------------- *)
(* o: one observation; e: what the specification shows *)
BadSeen(e, o) ==
  {x \in {"shown-initial-state-is-not-the-current-one", "shown-parameters-are-not-the-current-ones", "shown-guess-is-not-the-stored-one",
          "shown-bounds-or-functions-differ-from-the-posed-problem", "initial-multipliers-do-not-belong-to-the-data", "relaxation-of-the-file-not-zero"} :
     \/ (x = "shown-initial-state-is-not-the-current-one" /\ e.act # "print" /\ o.x0 # e.x0)
     \/ (x = "shown-parameters-are-not-the-current-ones" /\ e.act # "print" /\ (o.pg # e.pg \/ o.ptv # e.ptv))
     \/ (x = "shown-guess-is-not-the-stored-one" /\ (o.w # e.w \/ o.u # e.u))
     \/ (x = "shown-bounds-or-functions-differ-from-the-posed-problem" /\ ~o.same)
     \/ (x = "initial-multipliers-do-not-belong-to-the-data" /\ e.act # "print" /\ ~o.lam)
     \/ (x = "relaxation-of-the-file-not-zero" /\ e.act = "dump" /\ ~o.zero)}
BadHist(o) == IF Len(o.seen) # Len(seen) THEN {"not-every-look-or-solve-observed"}
              ELSE UNION {BadSeen(seen[i], o.seen[i]) : i \in 1..Len(seen)}
(* the guess as built, and after it was set far below and far above every bound *)
FlagAt(c, at) ==
  IF at = "built" THEN Flag(c)
  ELSE IF Flag(c) = "BOUND" THEN "BOUND"
  ELSE IF at = "low" THEN (IF c \in {"free", "upper_in", "upper_at", "upper_above"} THEN "none" ELSE "W0")
  ELSE (IF c \in {"free", "lower_in", "lower_at", "lower_below"} THEN "none" ELSE "W0")
Errors(c, at) == SumSeq([i \in 1..4 |-> LET q == <<"x", "u", "z", "v">>[i] IN IF FlagAt(c.cls[q], at) = "none" THEN 0 ELSE Copies(c, q)])
BadAt(o, at) ==
  {x \in {"inconsistent-variable-not-flagged", "consistent-variable-flagged", "wrong-number-of-errors", "rows-do-not-show-the-problem"} :
     \/ (x = "inconsistent-variable-not-flagged" /\ \E q \in Quants : FlagAt(cfg.cls[q], at) # "none" /\ o.flags[q] # <<FlagAt(cfg.cls[q], at)>>)
     \/ (x = "consistent-variable-flagged" /\ ((\E q \in Quants : FlagAt(cfg.cls[q], at) = "none" /\ o.flags[q] # <<"none">>) \/ o.flags["rest"] # <<"none">>))
     \/ (x = "wrong-number-of-errors" /\ o.errors # Errors(cfg, at))
     \/ (x = "rows-do-not-show-the-problem" /\ ~o.rows)}
BadList(o) == BadAt(o.built, "built") \cup BadAt(o.low, "low") \cup BadAt(o.high, "high")
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[tid]
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ hist = <<>> /\ x0 = 0 /\ pg = 0 /\ ptv = 0 /\ w = 0 /\ u = 0 /\ seen = <<>>
TNext == /\ Len(hist) < Len(R.hist)
         /\ LET a == R.hist[Len(hist) + 1]
            IN CASE a = "x0" -> SetX0 [] a = "p_global" -> SetPg [] a = "p_time_var" -> SetPtv [] a = "w" -> SetW [] a = "u" -> SetU
                 [] a = "solve" -> Solve [] a = "dump" -> Look("dump") [] a = "print" -> Look("print")
TEmit == (Len(hist) = Len(R.hist)) =>
   CSVWrite("%1$s", <<ToJson([id |-> R.id, bad |-> IF cfg.kind = "list" THEN BadList(R.obs) ELSE BadHist(R.obs)])>>, IOEnv.OUT)
=============================================================================
