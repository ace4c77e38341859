------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The data a solver object holds between calls (property C14).              *)
(* A behaviour is a history of set(...) calls, rejected calls, solves and        *)
(* failing solves.  The value passed by the n-th call is the token n; inside an  *)
(* array the value for row r is <<n, r>>.  Row 0: a single value; W: the entry    *)
(* comes from a full primal vector; -2: from the answer of the NLP solver.       *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANTS Tier, Len0
W == -1
A == -2
VARIABLES cfg, hist, x0, pg, ptv, gx, gu, gv, gth, go, posed, tid
vars == <<cfg, hist, x0, pg, ptv, gx, gu, gv, gth, go, posed, tid>>
Strats == {"EXTERNAL", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"}
Lays == {<<2, 1>>, <<1, 1>>, <<2>>, <<1, 2, 1>>, <<1, 1, 1, 1>>}
(* par: which kinds of parameters the model has *)
Cfgs == {[lay |-> l, strat |-> s, pss |-> p, scribble |-> (l = <<2, 1>>), par |-> q] :
           l \in Lays, s \in Strats, p \in {"STEWART", "STEP"}, q \in {"both", "global", "time"}}
CfgOk(c) == /\ c.pss = "STEP" => (c.lay = <<2, 1>> \/ c.par # "both")
            /\ c.par # "both" => (c.lay = <<1, 2, 1>> /\ Len0 = 3)
            /\ Len0 > 3 => (c.lay = <<2, 1>> /\ <<c.strat, c.pss>> \in {<<"EXTERNAL", "STEWART">>, <<"ALL_XCURRENT_WOPT_PREV", "STEP">>})
            /\ (Tier = 1 \/ Len0 > 3) => (c.lay # <<2>> /\ (c.lay \in {<<1, 1>>, <<1, 1, 1, 1>>} => c.strat = "EXTERNAL"))
N == Len(cfg.lay)
E == NE(cfg.lay)
Init == /\ cfg \in {c \in Cfgs : CfgOk(c)} /\ hist = <<>> /\ x0 = 0 /\ pg = <<0, 0>> /\ tid = 0 /\ posed = <<>>
        /\ ptv = [k \in 1..N |-> <<0, k>>]
        /\ gx = [i \in 1..E |-> <<0, W>>] /\ gu = [k \in 1..N |-> <<0, W>>] /\ gv = <<0, W>> /\ gth = [i \in 1..E |-> <<0, W>>] /\ go = <<0, W>>
T == Len(hist) + 1
Log(a) == hist' = Append(hist, a) /\ UNCHANGED <<cfg, tid>>
SetX0 == Log("x0") /\ x0' = T /\ UNCHANGED <<pg, ptv, gx, gu, gv, gth, go, posed>>
SetPg == cfg.par # "time" /\ Log("p_global") /\ pg' = <<T, 0>> /\ UNCHANGED <<x0, ptv, gx, gu, gv, gth, go, posed>>
SetPtv == cfg.par # "global" /\ Log("p_time_var") /\ ptv' = [k \in 1..N |-> <<T, k>>] /\ UNCHANGED <<x0, pg, gx, gu, gv, gth, go, posed>>
SetXStage == Log("x_stage") /\ gx' = [i \in 1..E |-> <<T, StageOf(cfg.lay, i)>>] /\ UNCHANGED <<x0, pg, ptv, gu, gv, gth, go, posed>>
SetXElem == Log("x_elem") /\ gx' = [i \in 1..E |-> <<T, i>>] /\ UNCHANGED <<x0, pg, ptv, gu, gv, gth, go, posed>>
SetU == Log("u") /\ gu' = [k \in 1..N |-> <<T, k>>] /\ UNCHANGED <<x0, pg, ptv, gx, gv, gth, go, posed>>
SetV == Log("v_global") /\ gv' = <<T, 0>> /\ UNCHANGED <<x0, pg, ptv, gx, gu, gth, go, posed>>
SetTh == /\ cfg.pss = "STEWART"
         /\ Log("theta") /\ gth' = [i \in 1..E |-> <<T, i>>] /\ UNCHANGED <<x0, pg, ptv, gx, gu, gv, go, posed>>
All(t) == /\ gx' = [i \in 1..E |-> t] /\ gu' = [k \in 1..N |-> t] /\ gv' = t /\ gth' = [i \in 1..E |-> t] /\ go' = t
SetW == Log("w") /\ All(<<T, W>>) /\ UNCHANGED <<x0, pg, ptv, posed>>
Rejects == {"bad_field", "bad_x", "bad_theta", "bad_p_time_var", "bad_u", "bad_p_global", "bad_v_global"}
Reject(a) == /\ a \in Rejects /\ (a = "bad_theta" => cfg.pss = "STEWART")
             /\ Log(a) /\ UNCHANGED <<x0, pg, ptv, gx, gu, gv, gth, go, posed>>
XCur == cfg.strat # "EXTERNAL"
Gx == IF XCur THEN [i \in 1..E |-> <<x0, 0>>] ELSE gx
(* the NLP that is posed: parameters and initial guess; without a failure the strategy may keep the solution *)
Solve(fail) ==
  /\ Log(IF fail THEN "fail" ELSE "solve")
  /\ posed' = Append(posed, [x0 |-> x0, pg |-> [k \in 1..N |-> pg], ptv |-> ptv, gx |-> Gx, gu |-> gu, gv |-> gv, gth |-> gth, go |-> go])
  /\ IF ~fail /\ cfg.strat = "ALL_XCURRENT_WOPT_PREV" THEN All(<<T, A>>)
     ELSE gx' = Gx /\ UNCHANGED <<gu, gv, gth, go>>
  /\ UNCHANGED <<x0, pg, ptv>>
Do(a) == CASE a = "x0" -> SetX0 [] a = "p_global" -> SetPg [] a = "p_time_var" -> SetPtv [] a = "x_stage" -> SetXStage [] a = "x_elem" -> SetXElem
           [] a = "u" -> SetU [] a = "v_global" -> SetV [] a = "theta" -> SetTh [] a = "w" -> SetW [] a = "solve" -> Solve(FALSE) [] a = "fail" -> Solve(TRUE)
           [] OTHER -> Reject(a)
Sets == {"x0", "p_global", "p_time_var", "x_stage", "x_elem", "u", "v_global", "theta", "w"}
Acts == Sets \cup {"solve", "fail"} \cup Rejects
(* at most one rejected call; every history ends with a solve *)
ParActs == {"x0", "p_global", "p_time_var", "u", "solve", "fail", "bad_p_time_var", "bad_p_global"}
Pick(a) == /\ cfg.par # "both" => a \in ParActs
           /\ a \in Rejects => \A i \in 1..Len(hist) : hist[i] \notin Rejects
           /\ Len(hist) = Len0 => a = "solve"
Next == \E a \in Acts : Len(hist) <= Len0 /\ Pick(a) /\ Do(a)
Done == Len(hist) = Len0 + 1
(* -------------------------------- invariants -------------------------------- *)
(* what is posed is the value of the last call that set it *)
LastOf(S, t) == LET I == {i \in 1..t : hist[i] \in S} IN IF I = {} THEN 0 ELSE CHOOSE m \in I : \A i \in I : i <= m
Solves == SelectSeq([i \in 1..Len(hist) |-> i], LAMBDA i : hist[i] \in {"solve", "fail"})
LastSet == \A n \in 1..Len(posed) : LET t == Solves[n] - 1 IN
   /\ posed[n].x0 = LastOf({"x0"}, t) /\ posed[n].pg[N][1] = LastOf({"p_global"}, t) /\ posed[n].ptv[N][1] = LastOf({"p_time_var"}, t)
   /\ cfg.strat = "EXTERNAL" => /\ posed[n].gu[1][1] = LastOf({"u", "w"}, t) /\ posed[n].gv[1] = LastOf({"v_global", "w"}, t)
                                /\ posed[n].gth[E][1] = LastOf({"theta", "w"}, t) /\ posed[n].gx[E][1] = LastOf({"x_stage", "x_elem", "w"}, t)
   /\ XCur => posed[n].gx[1][1] = posed[n].x0
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, hist |-> hist])>>, IOEnv.OUT)
(* ----------------------------- trace validation ----------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ hist = <<>> /\ x0 = 0 /\ pg = <<0, 0>> /\ posed = <<>>
         /\ ptv = [k \in 1..N |-> <<0, k>>]
         /\ gx = [i \in 1..E |-> <<0, W>>] /\ gu = [k \in 1..N |-> <<0, W>>] /\ gv = <<0, W>> /\ gth = [i \in 1..E |-> <<0, W>>] /\ go = <<0, W>>
TNext == Len(hist) < Len(Trace[tid].hist) /\ Do(Trace[tid].hist[Len(hist) + 1])
TDone == Len(hist) = Len(Trace[tid].hist)
If(t, s) == IF t THEN {s} ELSE {}
O == Trace[tid].obs
Ks == 1..Len(posed)
Bad == IF Len(O.posed) # Len(posed) THEN {"number-of-nlps"} ELSE
       If(\E k \in Ks : O.posed[k].x0 # posed[k].x0, "initial-state")
  \cup If(cfg.par # "time" /\ \E k \in Ks : O.posed[k].pg # posed[k].pg, "global-parameters")
  \cup If(cfg.par # "global" /\ \E k \in Ks : O.posed[k].ptv # posed[k].ptv, "time-varying-parameters")
  \cup If(\E k \in Ks : O.posed[k].gx # posed[k].gx, "guess-of-states")
  \cup If(\E k \in Ks : O.posed[k].gu # posed[k].gu, "guess-of-controls")
  \cup If(\E k \in Ks : O.posed[k].gv # posed[k].gv, "guess-of-global-variables")
  \cup If(\E k \in Ks : cfg.pss = "STEWART" /\ O.posed[k].gth # posed[k].gth, "guess-of-weights")
  \cup If(\E k \in Ks : O.posed[k].go # posed[k].go, "other-guesses")
  \cup If(\E k \in Ks : ~O.posed[k].lam, "initial-multipliers")
  \cup If(~O.caller, "array-of-the-caller-modified")
  \cup If(~O.rejects, "bad-call-accepted-or-good-call-rejected")
TEmit == TDone => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
