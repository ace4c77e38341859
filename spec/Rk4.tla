-------------------------------- MODULE Rk4 --------------------------------
(***************************************************************************)
(* The explicit integrators (property C24).  A behaviour starts at an initial  *)
(* value and takes steps of the classical Runge-Kutta method of order four, in  *)
(* exact rational arithmetic; equal steps for rk4, any steps for                 *)
(* rk4_on_timegrid.  A rational is <<numerator, denominator>>, normalized.       *)
(***************************************************************************)
EXTENDS Nos, Json, CSV, IOUtils
CONSTANTS Tier
VARIABLES cfg, x, t, hs, path, tid
vars == <<cfg, x, t, hs, path, tid>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET g == Gcd(Abs(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
I(n) == <<n, 1>>
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Q((a[1] * (b[2] \div g)) + (b[1] * (a[2] \div g)), (a[2] \div g) * b[2])
Mul(a, b) == LET g == Gcd(Abs(a[1]), b[2])
                 k == Gcd(Abs(b[1]), a[2])
             IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE <<(a[1] \div g) * (b[1] \div k), (a[2] \div k) * (b[2] \div g)>>
VecAdd(a, b) == TLCEval([i \in 1..Len(a) |-> Add(a[i], b[i])])
VecMul(s, a) == TLCEval([i \in 1..Len(a) |-> Mul(s, a[i])])
(* right-hand sides *)
Systems == {"decay", "rotate", "shear", "square", "cube", "fourth", "product", "logistic", "scalar", "chain"}
Dim(sys) == CASE sys = "scalar" -> 1 [] sys = "chain" -> 3 [] OTHER -> 2
F(sys, v) ==
  CASE sys = "scalar" -> <<Mul(I(-1), v[1])>>
    [] sys = "chain" -> <<I(1), v[1], Add(v[2], Mul(I(-1), v[3]))>>
    [] sys = "decay" -> <<Mul(I(-1), v[1]), v[1]>>
    [] sys = "rotate" -> <<v[2], Mul(I(-1), v[1])>>
    [] sys = "shear" -> <<Add(v[1], v[2]), v[2]>>
    [] sys = "square" -> <<I(1), Mul(v[1], v[1])>>
    [] sys = "cube" -> <<I(1), Mul(v[1], Mul(v[1], v[1]))>>
    [] sys = "fourth" -> <<I(1), Mul(Mul(v[1], v[1]), Mul(v[1], v[1]))>>
    [] sys = "product" -> <<I(1), Mul(v[1], v[2])>>
    [] sys = "logistic" -> <<I(1), Add(v[2], Mul(I(-1), Mul(v[2], v[2])))>>
StepOf(sys, v, h) ==
  LET h2 == Mul(h, <<1, 2>>)
      k1 == F(sys, v)
      k2 == F(sys, VecAdd(v, VecMul(h2, k1)))
      k3 == F(sys, VecAdd(v, VecMul(h2, k2)))
      k4 == F(sys, VecAdd(v, VecMul(h, k3)))
  IN VecAdd(v, VecMul(Mul(h, <<1, 6>>), VecAdd(VecAdd(k1, k4), VecMul(I(2), VecAdd(k2, k3)))))
Starts3 == {<<I(1), I(0), I(2)>>, <<I(0), I(1), I(-1)>>, <<I(2), I(-1), I(0)>>} \cup (IF Tier = 1 THEN {} ELSE {<<I(-1), I(2), I(1)>>, <<I(3), I(1), I(1)>>, <<I(1), I(1), I(3)>>})
Starts(sys) == {SubSeq(s, 1, Dim(sys)) : s \in Starts3}
Lengths == {I(1), <<1, 2>>, I(2), I(0), <<5, 2>>, I(4)}
MaxSteps(sys) == IF sys = "logistic" THEN 1 ELSE IF sys = "product" THEN 2 ELSE IF sys \in {"scalar", "decay", "square"} THEN 6 ELSE 3
Init == /\ cfg \in [fn : {"rk4", "grid"}, sys : Systems, n : 1..6] /\ cfg.n <= MaxSteps(cfg.sys)
        /\ x \in Starts(cfg.sys) /\ t = I(0) /\ hs = <<>> /\ path = <<x>> /\ tid = 0
Step(h) == /\ x' = StepOf(cfg.sys, x, h) /\ t' = Add(t, h) /\ hs' = Append(hs, h) /\ path' = Append(path, x')
           /\ UNCHANGED <<cfg, tid>>
Allowed(h) == /\ (cfg.fn = "rk4" /\ hs # <<>>) => h = hs[1]
              /\ (h = I(0)) => (cfg.fn = "grid" /\ cfg.n <= 3)
              /\ (cfg.fn = "grid" /\ cfg.n > 3) => h = (IF Len(hs) % 3 = 1 THEN I(2) ELSE I(1))
              /\ (cfg.n > 3 /\ cfg.sys = "square") => h # <<1, 2>>
              /\ cfg.sys = "logistic" => h = I(1)
              (* denominators stay below two million *)
              /\ h = I(4) => cfg.n <= 2 /\ cfg.sys \in {"scalar", "decay", "rotate", "shear", "chain"}
              /\ h = <<5, 2>> => cfg.n <= 2 /\ cfg.sys \in {"scalar", "decay", "rotate", "shear", "chain"} /\ (cfg.fn = "grid" => \A k \in 1..Len(hs) : hs[k][2] = 1)
              /\ h = <<1, 2>> => (\/ cfg.n = 1
                                  \/ cfg.n = 2 /\ cfg.sys # "product"
                                  \/ cfg.fn = "grid" /\ \A k \in 1..Len(hs) : hs[k] # h)
Next == Len(hs) < cfg.n /\ \E h \in {l \in Lengths : Allowed(l)} : Step(h)
Spec == Init /\ [][Next]_vars
Done == Len(hs) = cfg.n
(* the method is of order four: exact on polynomials of degree up to four without feedback, Taylor polynomial on linear systems *)
Exact == cfg.sys \in {"square", "cube"} =>
   LET p == IF cfg.sys = "square" THEN 3 ELSE 4
       PowQ[k \in 0..4] == IF k = 0 THEN I(1) ELSE Mul(x[1], PowQ[k - 1])
       Pow0[k \in 0..4] == IF k = 0 THEN I(1) ELSE Mul(path[1][1], Pow0[k - 1])
   IN Add(x[2], Mul(I(-1), path[1][2])) = Mul(<<1, p>>, Add(PowQ[p], Mul(I(-1), Pow0[p])))
Taylor == (cfg.sys = "decay" /\ Len(hs) = 1) =>
   x[1] = Mul(path[1][1], LET h == hs[1] IN Add(Add(I(1), Mul(I(-1), h)), Add(Mul(<<1, 2>>, Mul(h, h)),
              Add(Mul(<<-1, 6>>, Mul(h, Mul(h, h))), Mul(<<1, 24>>, Mul(Mul(h, h), Mul(h, h)))))))
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, hs |-> hs, start |-> path[1]])>>, IOEnv.OUT)
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[tid]
RECURSIVE Times(_, _)
Times(k, seq) == IF k = 0 THEN I(0) ELSE Add(Times(k - 1, seq), seq[k])
Bad ==
  {b \in {"initial-value-not-first", "wrong-step", "wrong-number-of-values", "wrong-times"} :
     \/ (b = "initial-value-not-first" /\ R.obs.path # <<>> /\ R.obs.path[1] # path[1])
     \/ (b = "wrong-number-of-values" /\ Len(R.obs.path) # Len(path))
     \/ (b = "wrong-step" /\ \E k \in 2..Min2(Len(path), Len(R.obs.path)) : R.obs.path[k] # path[k])
     \/ (b = "wrong-times" /\ cfg.fn = "rk4" /\ R.obs.t # TLCEval([k \in 1..Len(path) |-> Times(k - 1, hs)]))}
TInit == tid \in 1..Len(Trace) /\ cfg = Trace[tid].cfg /\ x = Trace[tid].start /\ t = I(0) /\ hs = <<>> /\ path = <<x>>
TNext == Len(hs) < Len(R.hs) /\ Step(R.hs[Len(hs) + 1])
TEmit == (Len(hs) = Len(R.hs)) => CSVWrite("%1$s", <<ToJson([id |-> R.id, bad |-> Bad])>>, IOEnv.OUT)
=============================================================================
