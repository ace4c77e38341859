------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* The dictionary of results as a view of a primal vector (property C16).     *)
(*  "view":   every entry of the primal vector carries its own value, so a      *)
(*            result value tells its block <<name, stage, element, point,         *)
(*            subsystem>>.  A behaviour walks over the elements and appends to     *)
(*            the expected lists.                                             *)
(*  "switch": every element has an active set; switch times.                   *)
(***************************************************************************)
EXTENDS Layout
VARIABLES kind, out, pat
rvars == <<cfg, req, n, tid, kind, out, pat>>
HV == <<3, 1, 4, 2, 7, 5>>                     \* element lengths of the coded vectors (FESD)
L(nm, k, e, j, q) == <<nm, k, e, j, q>>
IsSwitch(r) == r = "switch"
(* ---- configurations of the switch part: subsystem 1 has two regions, subsystem 2 four ---- *)
SwLays == IF Tier = 1 THEN {<<3>>, <<1, 2>>, <<1, 1>>, <<1, 2, 1>>} ELSE {<<3>>, <<2, 1>>, <<1, 3>>, <<1, 2>>, <<1, 1, 1>>, <<1>>, <<2, 2>>, <<1, 2, 1>>}
SwCfgs == {[lay |-> l, sch |-> sc, rep |-> "INTEGRAL", s |-> s, fesd |-> f, pss |-> p] : l \in SwLays, sc \in {"RADAU", "GAUSS"}, s \in {1, 2}, f \in BOOLEAN, p \in {"STEWART", "STEP", "FX"}}
(* active sets: subsystem 1: region 1, region 2, both; subsystem 2: region 1, region 4 *)
Acts == (1..3) \X (1..2)
Empty == [x_list |-> <<>>, x_all |-> <<>>, u_list |-> <<>>, weights |-> <<>>, mults |-> <<>>, mults_p |-> <<>>, z_list |-> <<>>, grid |-> <<0>>, grid_u |-> <<0>>, steps |-> <<>>,
          sot |-> <<>>, switch |-> <<>>]
RInit == /\ tid = 0 /\ req = {} /\ n = 0
         /\ \/ kind = "view" /\ cfg \in CfgSet /\ pat = <<>>
            \/ kind = "switch" /\ cfg \in SwCfgs /\ pat \in UNION {[1..NE(l) -> Acts] : l \in SwLays} /\ Len(pat) = NE(cfg.lay) /\ (Len(cfg.lay) = 3 => \A i \in 1..Len(pat) : pat[i][2] = 1)
         /\ out = Empty
(* with FESD the element lengths are those of the vector; without they are T/(N*Nfe), T = 12 N *)
Len1(i) == IF cfg.fesd THEN HV[i] ELSE 12 \div cfg.lay[StageOf(cfg.lay, i)]
XLast(k, e) == L("x", k, e, XStages(cfg), 0)
Walk == /\ n < NE(cfg.lay) /\ n' = n + 1
        /\ LET k == StageOf(cfg.lay, n') e == ElemOf(cfg.lay, n') g == out.grid[Len(out.grid)] + Len1(n')
               m == MStages(cfg, k, e)
           IN out' = [out EXCEPT
             !.x_list = Append(@, XLast(k, e)), !.x_all = @ \o [j \in 1..XStages(cfg) |-> L("x", k, e, j, 0)],
             !.u_list = IF e = 1 THEN Append(@, L("u", k, 0, 0, 0)) ELSE @,
             !.sot = IF kind = "view" /\ ((cfg.sot = "LOCAL" /\ e = 1) \/ (cfg.sot = "GLOBAL" /\ n = 0)) THEN Append(@, L("sot", k, 0, 0, 0)) ELSE @,
             !.weights = IF kind = "view" THEN Append(@, [q \in 1..NSys(cfg) |-> L(IF Stewart(cfg) THEN "theta" ELSE "alpha", k, e, cfg.s, q)]) ELSE @,
             !.mults = IF kind = "view" THEN Append(@, [q \in 1..NSys(cfg) |-> L(IF Stewart(cfg) THEN "lam" ELSE "lambda_n", k, e, m, q)]) ELSE @,
             !.mults_p = IF kind = "view" /\ ~Stewart(cfg) THEN Append(@, [q \in 1..NSys(cfg) |-> L("lambda_p", k, e, m, q)]) ELSE @,
             !.z_list = IF kind = "view" /\ cfg.dim.z > 0 THEN Append(@, L("z", k, e, m, 0)) ELSE @,
             !.steps = Append(@, Len1(n')), !.grid = Append(@, g),
             !.grid_u = IF e = cfg.lay[k] THEN Append(@, g) ELSE @,
             !.switch = IF kind = "switch" /\ n > 0 /\ pat[n'] # pat[n] THEN Append(@, out.grid[Len(out.grid)]) ELSE @]
        /\ UNCHANGED <<cfg, req, tid, kind, pat>>
RNext == Walk
RDone == n = NE(cfg.lay)
(* -------------------------------- invariants -------------------------------- *)
GridIncreases == \A i \in 1..Len(out.grid) - 1 : out.grid[i] < out.grid[i + 1]
Lengths == RDone => Len(out.x_list) = NE(cfg.lay) /\ Len(out.grid) = NE(cfg.lay) + 1 /\ Len(out.grid_u) = Len(cfg.lay) + 1 /\ Len(out.u_list) = Len(cfg.lay)
SubGrid == Range(out.grid_u) \subseteq Range(out.grid)
SwitchInside == \A i \in 1..Len(out.switch) : out.switch[i] \in Range(out.grid) \ {0, out.grid[Len(out.grid)] + 1}
FixedGridEnds == (RDone /\ ~cfg.fesd) => out.grid[Len(out.grid)] = 12 * Len(cfg.lay)
REmit == RDone => CSVWrite("%1$s", <<ToJson([kind |-> kind, cfg |-> cfg, pat |-> pat])>>, IOEnv.OUT)
(* ----------------------------- trace validation ----------------------------- *)
RTInit == /\ tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ kind = Trace[tid].kind /\ pat = Trace[tid].pat /\ req = {} /\ n = 0 /\ out = Empty
O == Trace[tid].obs
UDim == IF kind = "view" THEN cfg.dim.u ELSE 1
RBad == If(O.grid # out.grid, "t_grid") \cup If(O.grid_u # out.grid_u, "t_grid_u") \cup If(O.steps # out.steps, "time_steps")
  \cup (IF kind = "switch" THEN If(O.switch # out.switch, "switch_times")
  ELSE If(O.x_out # out.x_list[Len(out.x_list)], "x_out") \cup If(O.x_list # out.x_list, "x_list")
  \cup If(O.x_traj # <<<<"x0">>>> \o out.x_list, "x_traj") \cup If(O.x_all # <<<<"x0">>>> \o out.x_all, "x_all_list")
  \cup If(UDim > 0 /\ (O.u_list # out.u_list \/ O.u_traj # out.u_list), "u_list")
  \cup If(O.weights # out.weights, "weights") \cup If(O.mults # out.mults, "multipliers") \cup If(O.mults_p # out.mults_p, "multipliers-p")
  \cup If(cfg.dim.z > 0 /\ O.z_list # out.z_list, "z_list") \cup If(O.sot # out.sot, "speed-of-time")
  \cup If(cfg.dim.v > 0 /\ O.v_global # L("v_global", 0, 0, 0, 0), "v_global")
  \cup If(~O.kept, "primal-vector-modified"))
RTEmit == RDone => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> RBad])>>, IOEnv.OUT)
=============================================================================
