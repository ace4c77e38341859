------------------------------ MODULE FesdGen ------------------------------
EXTENDS Fesd, Json, CSV, IOUtils
VARIABLE x00
GInit == Init /\ x00 = x
GNext == Next /\ UNCHANGED x00
Emit == Done => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, x0 |-> x00, us |-> us, sots |-> sots, els |-> els, fault |-> fault])>>, IOEnv.OUT)
EmitFam == TLCGet("level") = 1 => CSVWrite("%1$s", <<ToJson([fam |-> cfg.fam, def |-> Fam])>>, IOEnv.OUT)
=============================================================================
