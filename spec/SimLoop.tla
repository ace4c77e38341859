------------------------------ MODULE SimLoop ------------------------------
(***************************************************************************)
(* The simulation loop (property C17).  Points of the NLP solver are numbered  *)
(* over the whole loop; the environment decides how many NLPs a step needs, with *)
(* which status it ends and where the active set switches.                     *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
VARIABLES cfg, hist, nlp, st, phase, tid
vars == <<cfg, hist, nlp, st, phase, tid>>
HV == <<3, 1, 4, 2, 7, 5>>
Strats == <<"EXTERNAL", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV">>
Run0 == {[kind |-> "run", n |-> n, nfe |-> f, fesd |-> fe, stop |-> s, pv |-> p, strat |-> t, winit |-> w, max |-> m, polish |-> po, pss |-> ps, sch |-> sc] :
   n \in (IF Tier = 1 THEN {1, 3, 5} ELSE 1..5), f \in {1, 2, 3}, fe \in BOOLEAN, s \in BOOLEAN, p \in BOOLEAN, t \in Range(Strats), w \in BOOLEAN,
   m \in {1, 2}, po \in BOOLEAN, ps \in {"STEWART", "STEP"}, sc \in {"RADAU", "GAUSS"}}
Hash(c) == (IF c.fesd THEN 1 ELSE 0) + (IF c.pv THEN 2 ELSE 0) + (IF c.polish THEN 3 ELSE 0) + (IF c.pss = "STEP" THEN 5 ELSE 0) + (IF c.sch = "GAUSS" THEN 7 ELSE 0) + c.max + c.nfe
RunOk(c) == /\ c.winit => c.strat = "EXTERNAL"
            /\ (c.n >= 3) => (c.nfe <= 2 /\ (c.max = 2 => Hash(c) % 3 = 0))
            /\ c.n = 5 => (c.nfe = 2 /\ c.max = 1 /\ ~c.polish)
            /\ c.n = 4 => (c.stop /\ c.max = 1)
            /\ (Tier = 1) => Hash(c) % 2 = 0
Rejects == {[kind |-> "reject", why |-> w] : w \in {"none", "none-p", "controls", "stages", "ocp", "p-too-few-rows", "p-too-many-rows", "p-too-many-columns", "p-one-dimensional"}}
Init == /\ cfg \in {c \in Run0 : RunOk(c)} \cup Rejects /\ hist = <<>> /\ nlp = 0 /\ tid = 0
        /\ st = [x |-> <<<<0, 0>>>>, steps |-> <<>>, last |-> <<>>, alls |-> <<>>, cpu |-> <<>>, status |-> <<>>, sw |-> <<>>, start |-> <<>>, x0 |-> <<>>, p |-> <<>>, ret |-> TRUE]
        /\ phase = IF cfg.kind = "reject" THEN "reject" ELSE "loop"
Len1(k, e) == IF cfg.fesd THEN HV[((3 * k + e) % 6) + 1] ELSE 12 \div cfg.nfe
Total(s) == SumSeq(s)
(* ans: n homotopy NLPs, status, pat: active set of every element *)
Pats == IF cfg.nfe = 1 THEN {<<1>>} ELSE IF cfg.nfe = 2 THEN {<<1, 1>>, <<1, 2>>} ELSE {<<1, 1, 1>>, <<1, 2, 2>>, <<2, 2, 1>>, <<1, 2, 1>>}
K == Len(hist) + 1
NIter == cfg.max + (IF cfg.polish THEN 1 ELSE 0)
Step(ans) ==
  LET tot == ans.n + (IF cfg.polish THEN 1 ELSE 0)
      pt == nlp + tot
      t0 == Total(st.steps)
      lens == [e \in 1..cfg.nfe |-> Len1(K, e)]
      swe == SelectSeq([e \in 1..cfg.nfe |-> e], LAMBDA e : e > 1 /\ ans.pat[e] # ans.pat[IF e = 1 THEN 1 ELSE e - 1])
  IN
  /\ phase = "loop" /\ ans.n <= cfg.max
  /\ hist' = Append(hist, ans) /\ nlp' = pt
  /\ st' = [st EXCEPT
       !.x0 = Append(@, st.x[Len(st.x)]), !.p = Append(@, IF cfg.pv THEN K ELSE 0),
       !.start = Append(@, IF cfg.winit THEN -K ELSE IF cfg.strat = "ALL_XCURRENT_WOPT_PREV" THEN nlp ELSE 0),
       !.x = @ \o [e \in 1..cfg.nfe |-> <<pt, e>>], !.steps = @ \o lens, !.last = Append(@, pt),
       !.alls = Append(@, [i \in 1..ans.n |-> nlp + i]),
       !.cpu = Append(@, [i \in 1..NIter |-> IF i <= ans.n THEN nlp + i ELSE IF i > cfg.max THEN -7 ELSE 0]),
       !.status = Append(@, IF ans.st = "Solve_Succeeded" THEN "SUCCESS" ELSE "INFEASIBLE"),
       !.sw = @ \o [i \in 1..Len(swe) |-> t0 + SumSeq(SubSeq(lens, 1, swe[i] - 1))],
       !.ret = ~(cfg.stop /\ ans.st # "Solve_Succeeded")]
  /\ phase' = IF (cfg.stop /\ ans.st # "Solve_Succeeded") \/ K = cfg.n THEN "done" ELSE "loop"
  /\ UNCHANGED <<cfg, tid>>
Refuse == phase = "reject" /\ phase' = "done" /\ st' = [st EXCEPT !.ret = cfg.why \in {"none", "none-p"}] /\ UNCHANGED <<cfg, hist, nlp, tid>>
Next == (phase = "loop" /\ \E n \in 1..cfg.max, s \in {"Solve_Succeeded", "Infeasible_Problem_Detected"}, p \in (IF cfg.n = 5 THEN {IF K % 3 = 2 THEN <<1, 1>> ELSE <<1, 2>>} ELSE Pats) : Step([n |-> n, st |-> s, pat |-> p])) \/ Refuse
Done == phase = "done"
(* -------------------------------- invariants -------------------------------- *)
Run == cfg.kind = "run"
Chained == Run => \A k \in 2..Len(st.x0) : st.x0[k] = <<st.last[k - 1], cfg.nfe>>
Complete == (Run /\ Done) => (Len(hist) = cfg.n \/ (cfg.stop /\ hist[Len(hist)].st # "Solve_Succeeded"))
StopsAtFirst == Run => \A k \in 1..Len(hist) - 1 : cfg.stop => hist[k].st = "Solve_Succeeded"
Lens == Run => (Len(st.x) = Len(hist) * cfg.nfe + 1 /\ Len(st.steps) = Len(hist) * cfg.nfe)
SwitchOrdered == \A i \in 1..Len(st.sw) - 1 : st.sw[i] < st.sw[i + 1]
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, hist |-> hist])>>, IOEnv.OUT)
(* ----------------------------- trace validation ----------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ hist = <<>> /\ nlp = 0
         /\ st = [x |-> <<<<0, 0>>>>, steps |-> <<>>, last |-> <<>>, alls |-> <<>>, cpu |-> <<>>, status |-> <<>>, sw |-> <<>>, start |-> <<>>, x0 |-> <<>>, p |-> <<>>, ret |-> TRUE]
         /\ phase = IF Trace[tid].cfg.kind = "reject" THEN "reject" ELSE "loop"
TNext == (phase = "loop" /\ Step(Trace[tid].hist[K])) \/ Refuse
If(t, s) == IF t THEN {s} ELSE {}
O == Trace[tid].obs
RECURSIVE Cum(_, _)
Cum(s, acc) == IF s = <<>> THEN <<acc>> ELSE <<acc>> \o Cum(Tail(s), acc + Head(s))
Bad == IF cfg.kind = "reject" THEN If(O.ret # st.ret, "non-simulation-problem-accepted-or-simulation-problem-rejected") ELSE
       If(O.nlps # nlp, "number-of-nlps") \cup If(O.ret # st.ret, "failure-not-reported")
  \cup If(O.x0 # st.x0, "step-started-at-another-state") \cup If(O.p # st.p, "step-with-other-parameters") \cup If(O.start # st.start, "step-with-another-guess")
  \cup If(O.x # st.x, "X_sim") \cup If(O.steps # st.steps, "time_steps") \cup If(O.grid # Cum(st.steps, 0), "t_grid") \cup If(O.sw # st.sw, "switch_times")
  \cup If(O.weights # st.last, "weights") \cup If(O.mults # st.last, "multipliers") \cup If(O.z # st.last, "z_sim") \cup If(O.w # st.last, "w_sim")
  \cup If(O.alls # st.alls, "w_all") \cup If(O.cost # st.last, "cost_vals") \cup If(O.status # st.status, "status") \cup If(O.cpu # st.cpu, "cpu_nlp")
  \cup If(O.sot # st.last, "sot") \cup If(~O.caller, "data-of-the-caller-modified")
TEmit == Done => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
