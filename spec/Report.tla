------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* Histories of solves on one solver object: what each NLP is started from,   *)
(* what is reported, what is carried over (property C12).                     *)
(* Primal vectors are tokens.  0 is the guess stored at construction, k > 0    *)
(* the answer to the k-th NLP of the history.  A start point is a pair (states, *)
(* rest): the states of the ALL_XCURRENT strategies come from the initial state *)
(* (token -1 - v for the v-th value of x0).                                  *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
VARIABLES cfg, guess, x0, hist, sol, nlp, phase, rep, tid
vars == <<cfg, guess, x0, hist, sol, nlp, phase, rep, tid>>
Succ == {"Solve_Succeeded", "Solved_To_Acceptable_Level", "Feasible_Point_Found", "Search_Direction_Becomes_Too_Small"}
Fail == {"Infeasible_Problem_Detected", "Diverging_Iterates", "User_Requested_Stop", "Maximum_Iterations_Exceeded", "Restoration_Failed",
         "Error_In_Step_Computation", "Maximum_CpuTime_Exceeded", "Maximum_WallTime_Exceeded", "Not_Enough_Degrees_Of_Freedom", "Invalid_Problem_Definition",
         "Invalid_Option", "Invalid_Number_Detected", "Unrecoverable_Exception", "NonIpopt_Exception_Thrown", "Insufficient_Memory", "Internal_Error"}
Strats == {"ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV", "EXTERNAL"}
Cfgs == {[strat |-> s, max |-> m, polish |-> p, n |-> 2, wide |-> FALSE] : s \in Strats, m \in 1..3, p \in BOOLEAN}
   \cup (IF Tier = 1 THEN {} ELSE {[strat |-> s, max |-> m, polish |-> p, n |-> 3, wide |-> FALSE] : s \in Strats, m \in 1..2, p \in BOOLEAN})
   \cup {[strat |-> s, max |-> 2, polish |-> p, n |-> 1, wide |-> TRUE] : s \in Strats, p \in BOOLEAN}
(* guess: stored guess as <<states, rest>>; hist: commands and answers of the environment; sol: solves finished; nlp: NLPs posed in this history;
   rep: what is posed and reported, per solve *)
Empty == [starts |-> <<>>, all |-> <<>>, iter |-> <<>>, w |-> 0, cost |-> 0, status |-> "NONE", raised |-> FALSE]
Init == /\ cfg \in Cfgs /\ guess = <<0, 0>> /\ x0 = 0 /\ hist = <<>> /\ sol = 0 /\ nlp = 0 /\ phase = "idle" /\ rep = <<>> /\ tid = 0
Stats == IF cfg.wide THEN Succ \cup Fail ELSE {"Solve_Succeeded", "Infeasible_Problem_Detected"}
SetX0 == /\ phase = "idle" /\ sol < cfg.n /\ sol > 0 /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].act # "x0")
         /\ x0' = x0 + 1 /\ hist' = Append(hist, [act |-> "x0"])
         /\ UNCHANGED <<cfg, guess, sol, nlp, phase, rep, tid>>
XCur == cfg.strat # "EXTERNAL"
Begin == /\ phase = "idle" /\ sol < cfg.n
         /\ guess' = IF XCur THEN <<-1 - x0, guess[2]>> ELSE guess
         /\ phase' = "loop" /\ rep' = Append(rep, [Empty EXCEPT !.all = <<guess'>>])
         /\ hist' = Append(hist, [act |-> "solve"])
         /\ UNCHANGED <<cfg, x0, sol, nlp, tid>>
Cur == rep[Len(rep)]
NIt == Len(Cur.all) - 1          \* homotopy NLPs solved in this solve
LastPt == Cur.all[Len(Cur.all)]
Pt(k) == <<k, k>>
(* ans: conv (residual below comp_tol), st, raise *)
Homotopy(ans) ==
  /\ phase = "loop"
  /\ nlp' = nlp + 1
  /\ hist' = Append(hist, [act |-> "nlp", conv |-> ans.conv, st |-> ans.st, raise |-> ans.raise])
  /\ IF ans.raise
     THEN /\ rep' = [rep EXCEPT ![Len(rep)] = [@ EXCEPT !.starts = Append(@, LastPt), !.raised = TRUE]]
          /\ phase' = "idle" /\ sol' = sol + 1 /\ UNCHANGED guess
     ELSE /\ rep' = [rep EXCEPT ![Len(rep)] = [@ EXCEPT !.starts = Append(@, LastPt), !.all = Append(@, Pt(nlp + 1)), !.iter = Append(@, nlp + 1),
                                                      !.w = nlp + 1, !.cost = nlp + 1, !.status = IF ans.st \in Succ THEN "SUCCESS" ELSE "INFEASIBLE"]]
          /\ phase' = IF ans.conv \/ NIt + 1 = cfg.max THEN "ready" ELSE "loop"
          /\ UNCHANGED <<guess, sol>>
  /\ UNCHANGED <<cfg, x0, tid>>
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Finish(ans) ==
  /\ phase = "ready"
  /\ IF cfg.polish
     THEN /\ nlp' = nlp + 1
          /\ hist' = Append(hist, [act |-> "nlp", conv |-> TRUE, st |-> ans.st, raise |-> FALSE])
          /\ rep' = [rep EXCEPT ![Len(rep)] = [@ EXCEPT !.starts = Append(@, LastPt), !.iter = Append(Pad(@, cfg.max), nlp + 1),
                                                      !.w = nlp + 1, !.cost = nlp + 1, !.status = IF ans.st \in Succ THEN "SUCCESS" ELSE "INFEASIBLE"]]
     ELSE /\ UNCHANGED <<nlp, hist>>
          /\ rep' = [rep EXCEPT ![Len(rep)] = [@ EXCEPT !.iter = Pad(@, cfg.max)]]
  /\ guess' = IF cfg.strat = "ALL_XCURRENT_WOPT_PREV" THEN Pt(rep'[Len(rep)].w) ELSE guess
  /\ phase' = "idle" /\ sol' = sol + 1
  /\ UNCHANGED <<cfg, x0, tid>>
Answers == [conv : BOOLEAN, st : Stats, raise : {FALSE}] \cup (IF cfg.wide \/ sol >= cfg.n - 1 THEN {} ELSE {[conv |-> FALSE, st |-> "Solve_Succeeded", raise |-> TRUE]})
(* wide cases vary the statuses; otherwise the status of an inner NLP is fixed by its number *)
Quiet(ans) == IF cfg.wide THEN TRUE ELSE (~ans.raise /\ ~ans.conv /\ NIt + 1 < cfg.max) => ((ans.st = "Solve_Succeeded") <=> (nlp % 2 = 0))
(* without polishing the step from "ready" does not depend on an answer *)
FinAns == IF cfg.polish THEN {[st |-> s] : s \in Stats} ELSE {[st |-> "Solve_Succeeded"]}
Next == SetX0 \/ Begin \/ (phase = "loop" /\ \E a \in Answers : Quiet(a) /\ Homotopy(a)) \/ (\E a \in FinAns : Finish(a))
Done == phase = "idle" /\ sol = cfg.n
(* -------------------------------- invariants -------------------------------- *)
ChainOfStarts == \A k \in 1..Len(rep) : LET r == rep[k] IN \A i \in 2..Len(r.starts) : r.starts[i] = r.all[i]
ReportsLast == \A k \in 1..sol : rep[k].raised \/ (rep[k].w = rep[k].iter[IF cfg.polish THEN cfg.max + 1 ELSE Len(rep[k].all) - 1])
OnePerNlp == \A k \in 1..sol : rep[k].raised \/ Cardinality({i \in 1..Len(rep[k].iter) : rep[k].iter[i] # 0}) = Len(rep[k].starts)
GuessKept == (cfg.strat # "ALL_XCURRENT_WOPT_PREV") => guess[2] = 0
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, hist |-> hist])>>, IOEnv.OUT)
(* ----------------------------- trace validation ----------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ guess = <<0, 0>> /\ x0 = 0 /\ hist = <<>> /\ sol = 0 /\ nlp = 0 /\ phase = "idle" /\ rep = <<>>
H == Trace[tid].hist
Peek == IF Len(hist) < Len(H) THEN H[Len(hist) + 1] ELSE [act |-> "end"]
TNext == \/ phase = "idle" /\ Peek.act = "x0" /\ SetX0
         \/ phase = "idle" /\ Peek.act = "solve" /\ Begin
         \/ phase = "loop" /\ Peek.act = "nlp" /\ Homotopy(Peek)
         \/ phase = "ready" /\ Finish(IF cfg.polish THEN Peek ELSE [st |-> "Solve_Succeeded"])
TDone == phase = "idle" /\ Len(hist) = Len(H)
If(t, s) == IF t THEN {s} ELSE {}
O == Trace[tid].obs
Bad == IF Len(O) # Len(rep) THEN {"lost-solve"}
  ELSE If(\E k \in 1..Len(rep) : O[k].raised # rep[k].raised, "exception-of-the-nlp-solver-not-passed-on-or-invented")
  \cup If(\E k \in 1..Len(rep) : O[k].starts # rep[k].starts, "nlp-started-elsewhere")
  \cup If(\E k \in 1..Len(rep) : ~rep[k].raised /\ O[k].all # rep[k].all, "iterate-list")
  \cup If(\E k \in 1..Len(rep) : ~rep[k].raised /\ O[k].w # rep[k].w, "returned-solution-not-of-last-nlp")
  \cup If(\E k \in 1..Len(rep) : ~rep[k].raised /\ O[k].cost # rep[k].cost, "returned-cost-not-of-last-nlp")
  \cup If(\E k \in 1..Len(rep) : ~rep[k].raised /\ O[k].status # rep[k].status, "status-not-of-last-nlp")
  \cup If(\E k \in 1..Len(rep) : ~rep[k].raised /\ O[k].iter # rep[k].iter, "iteration-statistics")
  \cup If(\E k \in 1..Len(rep) : ~rep[k].raised /\ O[k].time # [i \in 1..Len(rep[k].iter) |-> IF cfg.polish /\ i = Len(rep[k].iter) THEN -7 ELSE rep[k].iter[i]], "time-statistics")
  \cup If(\E k \in 1..Len(rep) : ~O[k].bounds, "bounds-not-those-of-the-problem")
  \cup If(\E k \in 1..Len(rep) : ~rep[k].raised /\ O[k].view # rep[k].w, "result-fields-not-of-the-returned-solution")
TEmit == TDone => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
