----------------------------- MODULE FesdTrace -----------------------------
(* Validates recorded acceptances: the trajectory of every record is          *)
(* re-executed element by element, the verdict of the specification is        *)
(* compared with what the NLP posed by nosnoc accepted.                       *)
(* obs: [sc: right boundary is an integration point, fesd, acc]               *)
EXTENDS Fesd, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tid
tvars == <<vars, tid>>
Rec == Trace[tid]
TInit == /\ tid \in 1..Len(Trace)
         /\ cfg = Trace[tid].cfg /\ x = Trace[tid].x0 /\ us = Trace[tid].us /\ sots = Trace[tid].sots
         /\ els = <<>> /\ pat = <<>> /\ slack = 0 /\ fault = "none"
Consume ==
  /\ ~Done
  /\ LET e == Rec.els[Idx]
         d == DataOf(Fam, cfg, us, sots, StageOf(cfg.lay, Idx))
         kind == IF e.xs # x THEN "jump"
                 ELSE IF e.h > 0 /\ e.sl # Slope(Fam, e.m, d) THEN "data"
                 ELSE IF ~Valid(Fam, e.m, e.xs, e.xe) THEN "region" ELSE "none"
     IN /\ els' = Append(els, e)
        /\ x' = e.xe
        /\ fault' = IF fault = "none" THEN kind ELSE fault
  /\ UNCHANGED <<cfg, us, sots, pat, slack, tid>>
TNext == Consume
V(o) == IF o.fesd THEN VerdictFesd(Fam, cfg, Rec.x0, us, sots, els, o.sc) ELSE VerdictStd(Fam, cfg, Rec.x0, us, sots, els)
Bad(o) == CASE V(o) = "acc" /\ ~o.acc -> {"exact-solution-rejected"}
            [] V(o) = "rej" /\ o.acc -> {"non-solution-accepted"}
            [] OTHER -> {}
Emit == Done => CSVWrite("%1$s", <<ToJson([id |-> Rec.id, fault |-> fault,
             bad |-> {[o |-> Rec.obs[k], clause |-> CHOOSE c \in Bad(Rec.obs[k]) : TRUE] :
                         k \in {k \in 1..Len(Rec.obs) : Bad(Rec.obs[k]) # {}}}])>>, IOEnv.OUT)
=============================================================================
