------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Life of options objects (property C18).  An object is what can be read      *)
(* from it (f), what the user set on it (e), and the values preprocessing has  *)
(* derived for unset options (d).  Tolerances are exponents of 1/10; U: unset. *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANT Tier
VARIABLES theme, objs, ex, hist, tid, bad
vars == <<theme, objs, ex, hist, tid, bad>>
U == 99
Defaults == [ct |-> 8, s0 |-> 0, sl |-> 1, tol |-> U, dit |-> U, cit |-> U, mut |-> U, mi |-> 0, ns |-> 1, nfe |-> 2, nl |-> <<>>,
             nst |-> 2, sch |-> "RADAU_IIA", rep |-> "INTEGRAL", nmi |-> 500, pl |-> 0, acc |-> U, gam |-> 1, tf |-> 1]
NoDer == [tol |-> U, mi |-> 0, nl |-> <<>>]
Tols == {"tol", "dit", "cit", "mut"}
(* the configuration of a problem whose options have the explicit values e (U, 0, <<>>: unset) *)
Iters(f) == ((f.ct + f.s0) \div f.sl) + 1
Resolve(e) == LET t == e.ct + 2 IN
  [e EXCEPT !.mi = IF @ = 0 THEN Iters(e) ELSE @,
            !.nl = IF @ = <<>> THEN [i \in 1..e.ns |-> e.nfe] ELSE @,
            !.tol = IF @ = U THEN t ELSE @,
            !.dit = IF e.tol = U /\ @ = U THEN t ELSE @,
            !.cit = IF e.tol = U /\ @ = U THEN t ELSE @,
            !.mut = IF e.tol = U /\ @ = U THEN t ELSE @]
(* ------------------------------- transitions ------------------------------- *)
Val(k, v) == CASE k = "nl" -> <<<<>>, <<5>>, <<1, 3>>>>[v + 1] [] k = "sch" -> <<"RADAU_IIA", "GAUSS_LEGENDRE">>[v]
              [] k = "rep" -> <<"INTEGRAL", "DIFFERENTIAL", "DIFFERENTIAL_LIFT_X">>[v] [] OTHER -> v
Put(f, k, c) == LET v == Val(k, c) IN IF k = "tol" THEN [f EXCEPT !.tol = v, !.dit = v, !.cit = v, !.mut = v] ELSE [f EXCEPT ![k] = v]
Fresh(def) == [f |-> def, d |-> NoDer]
Prep(ob) ==
  LET t == ob.f.ct + 2
      tolU == ob.f.tol \in {U, ob.d.tol}
      rt(k) == IF tolU /\ ob.f[k] \in {U, ob.d.tol} THEN t ELSE ob.f[k]
      mi == IF ob.f.mi \in {0, ob.d.mi} THEN Iters(ob.f) ELSE ob.f.mi
      nl == IF ob.f.nl \in {<<>>, ob.d.nl} THEN [i \in 1..ob.f.ns |-> ob.f.nfe] ELSE ob.f.nl
  IN [f |-> [ob.f EXCEPT !.tol = rt("tol"), !.dit = rt("dit"), !.cit = rt("cit"), !.mut = rt("mut"), !.mi = mi, !.nl = nl],
      d |-> [tol |-> IF tolU THEN t ELSE ob.d.tol,
             mi |-> IF ob.f.mi \in {0, ob.d.mi} THEN mi ELSE ob.d.mi,
             nl |-> IF ob.f.nl \in {<<>>, ob.d.nl} THEN nl ELSE ob.d.nl]]
Do(op, def) ==
  /\ hist' = Append(hist, op)
  /\ CASE op.a = "new" -> objs' = Append(objs, Fresh(def)) /\ ex' = Append(ex, def)
       [] op.a = "copy" -> objs' = Append(objs, objs[op.o]) /\ ex' = Append(ex, ex[op.o])
       [] op.a = "set" -> objs' = [objs EXCEPT ![op.o].f = Put(@, op.k, op.v)] /\ ex' = [ex EXCEPT ![op.o] = Put(@, op.k, op.v)]
       [] op.a = "append" -> objs' = [objs EXCEPT ![op.o].f.nl = Append(@, op.v)] /\ ex' = [ex EXCEPT ![op.o].nl = objs'[op.o].f.nl]
       [] op.a \in {"pre", "build"} -> objs' = [objs EXCEPT ![op.o] = Prep(@)] /\ ex' = ex
(* --------------------------------- histories -------------------------------- *)
S(k, v) == [a |-> "set", o |-> 0, k |-> k, v |-> v]
Sets(t) == CASE t = "tol" -> {S("ct", 6), S("ct", 4), S("s0", 2), S("sl", 2), S("tol", 5), S("tol", U), S("dit", 3), S("mut", U), S("mut", 3), S("cit", 4), S("mi", 20), S("mi", 0)}
             [] t = "grid" -> {S("ns", 2), S("ns", 1), S("nfe", 1), S("nfe", 4), S("nl", 1), S("nl", 2), S("nl", 0), [a |-> "append", o |-> 0, k |-> "nl", v |-> 3]}
             [] t = "irk" -> {S("nst", 1), S("nst", 3), S("sch", 1), S("sch", 2), S("rep", 2), S("rep", 3), S("rep", 1)}
             [] t = "nlp" -> {S("nmi", 7), S("nmi", 40), S("pl", 3), S("acc", 5), S("acc", 2), S("gam", 0), S("tf", 3), S("tol", 8)}
             [] t = "mix" -> {S("ct", 4), S("ns", 2), S("tol", 5), S("nmi", 7), S("nst", 1), S("mi", 20)}
Themes == {"tol", "grid", "irk", "nlp", "mix"}
MaxObj == IF Tier = 1 THEN 2 ELSE 3
MaxLen == IF Tier = 1 \/ theme = "tol" THEN 6 ELSE 7
Builds == Cardinality({i \in 1..Len(hist) : hist[i].a = "build"})
Count(a) == Cardinality({i \in 1..Len(hist) : hist[i].a = a})
Buildable(ob) == LET p == Prep(ob).f IN Len(p.nl) = p.ns
Last == hist[Len(hist)]
News == {[a |-> "new", o |-> 0, k |-> "", v |-> 0]} \cup {[a |-> "copy", o |-> o, k |-> "", v |-> 0] : o \in 1..Len(objs)}
Ops == (IF Len(objs) < MaxObj THEN News ELSE {})
  \cup {[s EXCEPT !.o = o] : s \in Sets(theme), o \in 1..Len(objs)}
  \cup {[a |-> "pre", o |-> o, k |-> "", v |-> 0] : o \in {o \in 1..Len(objs) : Buildable(objs[o]) /\ Last.a # "build" /\ Count("pre") < 2}}
  \cup {[a |-> "build", o |-> o, k |-> "", v |-> 0] : o \in {o \in 1..Len(objs) : Buildable(objs[o]) /\ Builds < 3}}
(* two sets of independent fields commute: only one order is explored *)
Rank(op) == CASE op.k = "" -> 0 [] op.k \in {"ct", "ns", "nst", "nmi"} -> 1 [] op.k \in {"s0", "nfe", "sch", "pl"} -> 2 [] op.k \in {"sl", "rep", "acc"} -> 3 [] op.k = "mi" -> 4 [] OTHER -> 5
Ordered(op) == (op.a = "set" /\ Last.a = "set") => (Last.o < op.o \/ (Last.o = op.o /\ Rank(Last) <= Rank(op) /\ <<Last.k, Last.v>> # <<op.k, op.v>>))
Init == /\ theme \in Themes /\ objs = <<Fresh(Defaults)>> /\ ex = <<Defaults>> /\ hist = <<[a |-> "new", o |-> 0, k |-> "", v |-> 0]>> /\ tid = 0 /\ bad = {}
Next == Len(hist) < MaxLen /\ \E op \in Ops : Ordered(op) /\ Do(op, Defaults) /\ UNCHANGED <<theme, tid, bad>>
(* -------------------------------- invariants -------------------------------- *)
Own == (Last.a \in {"pre", "build"}) => objs[Last.o].f = Resolve(ex[Last.o])
Idempotent == (Last.a \in {"pre", "build"}) => Prep(objs[Last.o]) = objs[Last.o]
Kept == \A o \in 1..Len(objs) : \A k \in {"tol", "mi", "nl"} : (ex[o][k] # Defaults[k]) => objs[o].f[k] = ex[o][k]
(* ---------------------------------- emission --------------------------------- *)
RECURSIVE HH(_)
HH(s) == IF s = <<>> THEN 7 ELSE LET op == Head(s) IN
  (HH(Tail(s)) * 31 + 5 * op.o + Rank(op) * 11 + (IF op.a = "build" THEN 17 ELSE IF op.a = "pre" THEN 23 ELSE IF op.a = "copy" THEN 3 ELSE 1)
   + op.v) % 100003
Keep == LET n == Len(hist) IN IF n <= 4 THEN TRUE ELSE HH(hist) % (IF Tier = 1 THEN (IF n = 5 THEN 7 ELSE 211) ELSE IF n = 5 THEN 1 ELSE IF n = 6 THEN 41 ELSE 3011) = 0
Emit == (Last.a = "build" /\ Keep) => CSVWrite("%1$s", <<ToJson([theme |-> theme, hist |-> hist])>>, IOEnv.OUT)
(* ----------------------------- trace validation ----------------------------- *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
T == Trace[tid]
TInit == /\ tid \in 1..Len(Trace) /\ theme = Trace[tid].theme /\ objs = <<>> /\ ex = <<>> /\ hist = <<>> /\ bad = {}
If(t, s) == IF t THEN {s} ELSE {}
(* obs.reads[k]: what is read from every object after operation k; obs.build[k]: the problem built by operation k *)
Diff(rd) == IF Len(rd) # Len(objs') THEN {"objects"} ELSE UNION {UNION {If(rd[o][k] # objs'[o].f[k],
     IF o = Len(objs') /\ hist'[Len(hist')].a = "new" THEN "new-object-without-defaults:" \o k
     ELSE IF hist'[Len(hist')].o # o THEN "other-object-changed:" \o k ELSE "value:" \o k) : k \in DOMAIN Defaults} : o \in 1..Len(objs')}
BuildBad(b, r) == If(b.tol # r.tol, "ipopt-tol") \cup If(b.dit # r.dit, "ipopt-dual_inf_tol") \cup If(b.cit # r.cit, "ipopt-compl_inf_tol") \cup If(b.mut # r.mut, "ipopt-mu_target")
  \cup If(b.nmi # r.nmi, "ipopt-max_iter") \cup If(b.pl # r.pl, "ipopt-print_level") \cup If(b.acc # r.acc, "ipopt-other-option")
  \cup If(b.nlps # r.mi, "number-of-homotopy-iterations") \cup If(b.grid # r.nl, "finite-elements") \cup If(b.s0 # r.s0, "first-homotopy-parameter")
  \cup If(~b.same, "problem-depends-on-more-than-the-values-of-its-options")
TNext == /\ Len(hist) < Len(T.hist)
         /\ LET k == Len(hist) + 1 IN
            /\ Do(T.hist[k], T.def)
            /\ bad' = bad \cup Diff(T.obs.reads[k])
                 \cup (IF T.hist[k].a = "build" THEN BuildBad(T.obs.build[k], Resolve(ex'[T.hist[k].o])) ELSE {})
         /\ UNCHANGED <<theme, tid>>
TEmit == (Len(hist) = Len(T.hist)) => CSVWrite("%1$s", <<ToJson([id |-> T.id, bad |-> bad])>>, IOEnv.OUT)
=============================================================================
