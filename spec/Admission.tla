----------------------------- MODULE Admission -----------------------------
(***************************************************************************)
(* Which problem descriptions are accepted (property C20).  A description is a *)
(* record of presence flags and dimensions; it is admitted step by step by the *)
(* constructor, the options, the model and the OCP checks, and an NLP is posed  *)
(* only at the end.  Descriptions are obtained from well-formed ones by up to   *)
(* two edits (which can also repair each other).  -1: left out, default.        *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
VARIABLES cfg, edits, phase, tid
vars == <<cfg, edits, phase, tid>>
NX == 3
Half(s, f) == [i \in 1..Len(s) |-> f[i]]
(* regions and switching functions of the subsystems *)
NF == <<2, 4>>
NC == <<1, 2>>
FL == <<1, 2>>
Base(form, pss, n, full, ocp, N) ==
  [form |-> form, n |-> n, F |-> form # "FX", c |-> form # "FG", S |-> form = "FCS", g |-> form = "FG", fx |-> form = "FX", al |-> form = "FX",
   Fs |-> [i \in 1..n |-> <<NX, NF[i]>>], cs |-> [i \in 1..n |-> NC[i]], Ss |-> [i \in 1..n |-> <<NF[i], NC[i]>>],
   gs |-> [i \in 1..n |-> NF[i]], fs |-> (IF n = 1 THEN <<3>> ELSE <<1, 2>>), as |-> [i \in 1..n |-> NC[i]],
   x0 |-> NX, npg |-> (IF full THEN 2 ELSE 0), pgv |-> (IF full THEN 2 ELSE -1), npt |-> (IF full THEN 2 ELSE 0), ptr |-> (IF full THEN N ELSE -1), ptc |-> (IF full THEN 2 ELSE 0),
   nz |-> (IF full THEN 2 ELSE 0), z0 |-> (IF full THEN 2 ELSE -1), lbz |-> (IF full THEN 2 ELSE -1), ubz |-> (IF full THEN 2 ELSE -1),
   nu |-> (IF full THEN 2 ELSE 0), nv |-> (IF full THEN 2 ELSE 0), ocp |-> ocp, lbu |-> (IF full THEN 2 ELSE -1), ubu |-> (IF full THEN 2 ELSE -1), ug |-> (IF full THEN 2 ELSE -1),
   lbx |-> (IF full THEN NX ELSE -1), ubx |-> (IF full THEN NX ELSE -1), ng |-> (IF full THEN 2 ELSE 0), lbg |-> (IF full THEN 2 ELSE -1), ubg |-> (IF full THEN 2 ELSE -1),
   lbv |-> (IF full THEN 2 ELSE -1), ubv |-> (IF full THEN 2 ELSE -1), vg |-> (IF full THEN 2 ELSE -1), gpc |-> 2,
   pss |-> pss, tf |-> FALSE, tvar |-> FALSE, N |-> N, nfl |-> (IF full THEN N ELSE -1), opt |-> "", optv |-> ""]
Bases == {Base(f, IF f = "FX" THEN "STEP" ELSE IF f = "FG" THEN "STEWART" ELSE p, n, full, ocp, N) :
   f \in {"FCS", "FG", "FX"}, p \in {"STEWART", "STEP"}, n \in {1, 2}, full \in BOOLEAN, ocp \in BOOLEAN, N \in {1, 2}}
(* full descriptions come with an OCP (otherwise the bounds are not used) *)
BaseOk(b) == (b.nu > 0) = b.ocp /\ ((b.N = 2) => b.ocp)
Opts == <<
 <<"terminal_time", "number">>, <<"use_fesd", "bool">>, <<"print_level", "int">>, <<"max_iter_homotopy", "int">>, <<"initialization_strategy", "enum">>, <<"irk_representation", "enum">>,
 <<"n_s", "int">>, <<"irk_scheme", "enum">>, <<"cross_comp_mode", "enum">>, <<"mpcc_mode", "enum">>, <<"constraint_handling", "enum">>, <<"pss_mode", "enum">>,
 <<"use_upper_bound_h", "bool">>, <<"gamma_h", "float">>, <<"smoothing_parameter", "float">>, <<"fix_active_set_fe0", "bool">>, <<"N_finite_elements", "int">>, <<"Nfe_list", "list">>,
 <<"comp_tol", "float">>, <<"sigma_0", "float">>, <<"sigma_N", "float">>, <<"homotopy_update_slope", "float">>, <<"homotopy_update_exponent", "float">>, <<"homotopy_update_rule", "enum">>,
 <<"step_equilibration", "enum">>, <<"step_equilibration_sigma", "float">>, <<"rho_h", "float">>, <<"fb_ip_aug1_weight", "float">>, <<"fb_ip_aug2_weight", "float">>, <<"do_polishing_step", "bool">>,
 <<"N_stages", "int">>, <<"equidistant_control_grid", "bool">>, <<"g_path_at_fe", "bool">>, <<"g_path_at_stg", "bool">>, <<"s_elastic_0", "float">>, <<"s_elastic_max", "float">>, <<"s_elastic_min", "float">>,
 <<"objective_scaling_direct", "bool">>, <<"time_freezing", "bool">>, <<"time_freezing_tolerance", "float">>, <<"speed_of_time_variables", "enum">>, <<"speed_of_time_min", "float">>, <<"speed_of_time_max", "float">>,
 <<"rootfinder_for_initial_z", "bool">> >>
WrongValues(kind) == CASE kind = "int" -> {"text", "none", "fraction", "list", "tuple", "array"} [] kind = "float" -> {"text", "none", "list", "tuple", "array"}
                      [] kind = "number" -> {"text", "none", "list", "tuple", "array"} [] kind = "bool" -> {"text", "none", "fraction", "list", "array"}
                      [] kind = "enum" -> {"text", "none", "one", "other-enum", "list", "class"} [] kind = "list" -> {"text", "none", "one", "tuple", "array"}
(* ----------------------------------- edits ---------------------------------- *)
E(f, i, v) == [f |-> f, i |-> i, v |-> v]
N3(n) == {n + 1} \cup (IF n > 1 THEN {n - 1, 1} ELSE {})
Vec(f, n, b) == {E(f, 0, v) : v \in (N3(n) \ {n}) \cup {-1}}
(* sizes of lists: 0: last entry dropped, 1: one more entry *)
EditsOf(b) ==
     {E(f, 0, 0) : f \in {"F?", "c?", "S?", "g?", "fx?"} \cup (IF b.form = "FX" THEN {"al?"} ELSE {})}
  \cup {E(f, 0, v) : f \in {"Fs#", "cs#", "Ss#", "gs#", "fs#", "as#"}, v \in {-1, 1}}
  \cup UNION {{E("Fr", i, v) : v \in {1, 2, 4}} \cup {E("Fc", i, v) : v \in {1, NF[i] + 1, NF[i] - 1}}
         \cup {E("Sr", i, v) : v \in {NF[i] + 1, NF[i] - 1}} \cup {E("Sc", i, v) : v \in {NC[i] + 1} \cup (IF NC[i] > 1 THEN {NC[i] - 1} ELSE {})}
         \cup {E("cl", i, v) : v \in {NC[i] + 1} \cup (IF NC[i] > 1 THEN {NC[i] - 1} ELSE {})}
         \cup {E("gl", i, v) : v \in {NF[i] + 1, NF[i] - 1}} \cup {E("fl", i, b.fs[i] + 1)} \cup (IF b.fs[i] > 1 THEN {E("fl", i, b.fs[i] - 1), E("fl", i, 1)} ELSE {})
         \cup {E("alen", i, v) : v \in {NC[i] + 1} \cup (IF NC[i] > 1 THEN {NC[i] - 1} ELSE {})} : i \in 1..b.n}
  \cup {E("x0", 0, v) : v \in {1, 2, 4}}
  \cup Vec("pgv", b.npg, b) \cup Vec("ptr", b.N, b) \cup (IF b.npt > 0 THEN {E("ptc", 0, 1), E("ptc", 0, 3)} ELSE {E("ptc", 0, 1)})
  \cup Vec("z0", b.nz, b) \cup Vec("lbz", b.nz, b) \cup Vec("ubz", b.nz, b)
  \cup (IF b.ocp THEN Vec("lbu", b.nu, b) \cup Vec("ubu", b.nu, b) \cup Vec("ug", b.nu, b) \cup Vec("lbx", NX, b) \cup Vec("ubx", NX, b)
          \cup Vec("lbg", b.ng, b) \cup Vec("ubg", b.ng, b) \cup Vec("lbv", b.nv, b) \cup Vec("ubv", b.nv, b) \cup Vec("vg", b.nv, b) \cup {E("gpc", 0, 1), E("gpc", 0, 3)} ELSE {})
  \cup {E("pss", 0, 0), E("tf", 0, 0), E("tvar", 0, 0)}
  \cup {E("nfl", 0, v) : v \in {-1, 1, 2, 3, 4} \ {b.N}} (* entries of the list of elements per stage *)
OptEdits == {E("opt", i, v) : i \in 1..Len(Opts), v \in {"text", "none", "fraction", "list", "one", "other-enum"}}
Resize(s, v, new) == IF v = -1 THEN SubSeq(s, 1, Len(s) - 1) ELSE Append(s, new)
Apply(b, e) == CASE e.f = "F?" -> [b EXCEPT !.F = ~@] [] e.f = "c?" -> [b EXCEPT !.c = ~@] [] e.f = "S?" -> [b EXCEPT !.S = ~@]
  [] e.f = "g?" -> [b EXCEPT !.g = ~@] [] e.f = "fx?" -> [b EXCEPT !.fx = ~@] [] e.f = "al?" -> [b EXCEPT !.al = ~@]
  [] e.f = "Fs#" -> [b EXCEPT !.Fs = Resize(@, e.v, <<NX, 2>>)] [] e.f = "cs#" -> [b EXCEPT !.cs = Resize(@, e.v, 1)] [] e.f = "Ss#" -> [b EXCEPT !.Ss = Resize(@, e.v, <<2, 1>>)]
  [] e.f = "gs#" -> [b EXCEPT !.gs = Resize(@, e.v, 2)] [] e.f = "fs#" -> [b EXCEPT !.fs = Resize(@, e.v, 1)] [] e.f = "as#" -> [b EXCEPT !.as = Resize(@, e.v, 1)]
  [] e.f = "Fr" -> [b EXCEPT !.Fs[e.i][1] = e.v] [] e.f = "Fc" -> [b EXCEPT !.Fs[e.i][2] = e.v] [] e.f = "Sr" -> [b EXCEPT !.Ss[e.i][1] = e.v]
  [] e.f = "Sc" -> [b EXCEPT !.Ss[e.i][2] = e.v] [] e.f = "cl" -> [b EXCEPT !.cs[e.i] = e.v] [] e.f = "gl" -> [b EXCEPT !.gs[e.i] = e.v]
  [] e.f = "fl" -> [b EXCEPT !.fs[e.i] = e.v] [] e.f = "alen" -> [b EXCEPT !.as[e.i] = e.v]
  [] e.f = "pss" -> [b EXCEPT !.pss = IF @ = "STEP" THEN "STEWART" ELSE "STEP"] [] e.f = "tf" -> [b EXCEPT !.tf = ~@] [] e.f = "tvar" -> [b EXCEPT !.tvar = ~@]
  [] e.f = "x0" -> [b EXCEPT !.x0 = e.v] [] e.f = "nfl" -> [b EXCEPT !.nfl = e.v] [] e.f = "pgv" -> [b EXCEPT !.pgv = e.v] [] e.f = "ptr" -> [b EXCEPT !.ptr = e.v] [] e.f = "ptc" -> [b EXCEPT !.ptc = e.v]
  [] e.f = "z0" -> [b EXCEPT !.z0 = e.v] [] e.f = "lbz" -> [b EXCEPT !.lbz = e.v] [] e.f = "ubz" -> [b EXCEPT !.ubz = e.v]
  [] e.f = "lbu" -> [b EXCEPT !.lbu = e.v] [] e.f = "ubu" -> [b EXCEPT !.ubu = e.v] [] e.f = "ug" -> [b EXCEPT !.ug = e.v] [] e.f = "lbx" -> [b EXCEPT !.lbx = e.v] [] e.f = "ubx" -> [b EXCEPT !.ubx = e.v]
  [] e.f = "lbg" -> [b EXCEPT !.lbg = e.v] [] e.f = "ubg" -> [b EXCEPT !.ubg = e.v] [] e.f = "lbv" -> [b EXCEPT !.lbv = e.v] [] e.f = "ubv" -> [b EXCEPT !.ubv = e.v] [] e.f = "vg" -> [b EXCEPT !.vg = e.v]
  [] e.f = "gpc" -> [b EXCEPT !.gpc = e.v] [] e.f = "opt" -> [b EXCEPT !.opt = Opts[e.i][1], !.optv = e.v]
Applicable(b, e) == e.i = 0 \/ e.f = "opt" \/ CASE e.f \in {"Fr", "Fc"} -> e.i <= Len(b.Fs) [] e.f \in {"Sr", "Sc"} -> e.i <= Len(b.Ss) [] e.f = "cl" -> e.i <= Len(b.cs)
   [] e.f = "gl" -> e.i <= Len(b.gs) [] e.f = "fl" -> e.i <= Len(b.fs) [] e.f = "alen" -> e.i <= Len(b.as) [] OTHER -> TRUE
(* only edits of what the description contains *)
(* (S next to f_x is not used: neither required to be accepted nor to be rejected) *)
Relevant(b, e) == CASE e.f = "S?" -> ~b.fx [] e.f \in {"Fs#", "Fr", "Fc"} -> b.F [] e.f \in {"cs#", "cl"} -> b.c [] e.f \in {"Ss#", "Sr", "Sc"} -> b.S [] e.f \in {"gs#", "gl"} -> b.g
   [] e.f \in {"fs#", "fl"} -> b.fx [] e.f \in {"as#", "alen"} -> b.al [] e.f = "ptc" -> b.ptr # -1 [] OTHER -> TRUE
(* ------------------------------- well-formedness ------------------------------ *)
Fits(v, n) == v = -1 \/ v = n
Form(b) == CASE b.F /\ b.c /\ b.S /\ ~b.g /\ ~b.fx /\ ~b.al -> "FCS" [] b.F /\ ~b.c /\ ~b.S /\ b.g /\ ~b.fx /\ ~b.al -> "FG"
             [] ~b.F /\ b.c /\ ~b.S /\ ~b.g /\ b.fx /\ b.al -> "FX" [] OTHER -> "none"
FormOk(b) == Form(b) # "none"
OptionsOk(b) == b.opt = "" /\ (b.nfl = -1 \/ b.nfl = b.N)
SystemOk(b) ==
  /\ Form(b) = "FCS" => (Len(b.Fs) = Len(b.cs) /\ Len(b.Ss) = Len(b.Fs)
        /\ \A i \in 1..Len(b.Fs) : b.Fs[i][1] = NX /\ b.Fs[i][2] >= 2 /\ b.Ss[i] = <<b.Fs[i][2], b.cs[i]>>)
  /\ Form(b) = "FG" => (Len(b.gs) = Len(b.Fs) /\ b.pss = "STEWART" /\ \A i \in 1..Len(b.Fs) : b.Fs[i][1] = NX /\ b.Fs[i][2] >= 2 /\ b.gs[i] = b.Fs[i][2])
  /\ Form(b) = "FX" => (b.pss = "STEP" /\ Len(b.fs) = Len(b.cs) /\ Len(b.as) = Len(b.cs) /\ SumSeq(b.fs) = NX /\ \A i \in 1..Len(b.cs) : b.as[i] = b.cs[i])
  /\ Len(b.cs) > 0 /\ Len(b.Fs) > 0 /\ Len(b.fs) > 0
DataOk(b) == b.x0 = NX /\ (IF b.pgv = -1 THEN b.npg = 0 ELSE b.pgv = b.npg) /\ (b.ptr = -1 \/ (b.ptr = b.N /\ b.ptc = b.npt))
   /\ Fits(b.z0, b.nz) /\ Fits(b.lbz, b.nz) /\ Fits(b.ubz, b.nz) /\ (b.tf => b.tvar)
OcpOk(b) == b.ocp => (Fits(b.lbu, b.nu) /\ Fits(b.ubu, b.nu) /\ Fits(b.ug, b.nu) /\ Fits(b.lbx, NX) /\ Fits(b.ubx, NX) /\ Fits(b.lbg, b.ng) /\ Fits(b.ubg, b.ng)
   /\ Fits(b.lbv, b.nv) /\ Fits(b.ubv, b.nv) /\ Fits(b.vg, b.nv) /\ b.gpc = 2)
WellFormed(b) == FormOk(b) /\ OptionsOk(b) /\ SystemOk(b) /\ DataOk(b) /\ OcpOk(b)
(* -------------------------------- admission ---------------------------------- *)
MaxEdits == 2
Presence == {"F?", "c?", "S?", "g?", "fx?", "al?"}
AllPresence == \A k \in 1..Len(edits) : edits[k].f \in Presence
Describe == /\ phase = "describe" /\ (Len(edits) < MaxEdits \/ (AllPresence /\ Len(edits) < 4))
            /\ \E e \in EditsOf(Base(cfg.form, cfg.pss, cfg.n, cfg.nu > 0, cfg.ocp, cfg.N)) :
                 /\ Applicable(cfg, e) /\ Relevant(cfg, e) /\ (Len(edits) >= MaxEdits => e.f \in Presence) /\ edits' = Append(edits, e) /\ cfg' = Apply(cfg, e)
            /\ UNCHANGED <<phase, tid>>
DescribeOpt == /\ phase = "describe" /\ Len(edits) = 0 /\ (Tier > 1 \/ cfg.N = 2 \/ (cfg.n = 1 /\ cfg.nu = 0 /\ cfg.form # "FX"))
               /\ \E i \in 1..Len(Opts) : \E v \in WrongValues(Opts[i][2]) :
                     LET e == [f |-> "opt", i |-> i, v |-> 0] IN edits' = Append(edits, e) /\ cfg' = [cfg EXCEPT !.opt = Opts[i][1], !.optv = v]
               /\ UNCHANGED <<phase, tid>>
Step(from, to, ok) == phase = from /\ phase' = (IF ok THEN to ELSE "rejected") /\ UNCHANGED <<cfg, edits, tid>>
Admit == Step("describe", "constructed", FormOk(cfg)) \/ Step("constructed", "options", OptionsOk(cfg)) \/ Step("options", "model", SystemOk(cfg) /\ DataOk(cfg))
      \/ Step("model", "posed", OcpOk(cfg))
Init == cfg \in {b \in Bases : BaseOk(b)} /\ edits = <<>> /\ phase = "describe" /\ tid = 0
Next == Describe \/ DescribeOpt \/ Admit
(* -------------------------------- invariants ---------------------------------- *)
Sound == (phase = "posed" => WellFormed(cfg)) /\ (phase = "rejected" => ~WellFormed(cfg))
(* ---------------------------------- emission --------------------------------- *)
FH(f) == CASE f = "F?" -> 1 [] f = "c?" -> 2 [] f = "S?" -> 3 [] f = "g?" -> 4 [] f = "fx?" -> 5 [] f = "Fr" -> 6 [] f = "Fc" -> 7 [] f = "Sc" -> 8 [] f = "cl" -> 9 [] f = "gl" -> 10
            [] f \in {"lbx", "ubx"} -> 11 [] f \in {"lbu", "ubu"} -> 12 [] f = "pgv" -> 13 [] f = "pss" -> 14 [] f = "tf" -> 15 [] f = "ptr" -> 16 [] f = "Fs#" -> 17 [] f = "alen" -> 18 [] OTHER -> 19
Hash == (FH(edits[1].f) * 7 + edits[1].i * 3 + (edits[1].v + 2) + FH(edits[2].f) * 13 + edits[2].i * 5 + (edits[2].v + 2) * 11 + (IF cfg.pss = "STEP" THEN 1 ELSE 0) + cfg.N + Len(cfg.cs))
Distinct == Len(edits) < 2 \/ (edits[1] # edits[2] /\ <<edits[1].f, edits[1].i>> # <<edits[2].f, edits[2].i>>)
(* surplus entries that are not used: S next to f_x, alpha next to F *)
Unspecified == (cfg.fx /\ cfg.S /\ ~cfg.F) \/ (cfg.F /\ cfg.al /\ ~cfg.fx)
Keep == Len(edits) < 2 \/ (AllPresence /\ Cardinality({edits[k] : k \in 1..Len(edits)}) = Len(edits) /\ ~Unspecified)
  \/ (Len(edits) = 2 /\ Distinct /\ ((edits[1].i = edits[2].i /\ edits[1].i # 0) \/ Hash % (IF Tier = 1 THEN 29 ELSE 5) = 0 \/ (phase = "posed" /\ Hash % (IF Tier = 1 THEN 5 ELSE 2) = 0)))
Emit == (phase \in {"posed", "rejected"} /\ Keep) => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, edits |-> edits])>>, IOEnv.OUT)
(* ----------------------------- trace validation ----------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ edits = Trace[tid].edits /\ phase = "describe"
TNext == Admit
If(t, s) == IF t THEN {s} ELSE {}
O == Trace[tid].obs
(* obs.built: a solver was returned; obs.posed: number of NLPs handed to the NLP solver *)
Bad == If(phase = "rejected" /\ O.built, "ill-formed-description-accepted") \cup If(phase = "rejected" /\ ~O.built /\ O.posed > 0, "rejected-after-an-nlp-was-posed")
  \cup If(phase = "posed" /\ ~O.built, "well-formed-description-rejected")
TEmit == phase \in {"posed", "rejected"} => CSVWrite("%1$s", <<ToJson([id |-> Trace[tid].id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
