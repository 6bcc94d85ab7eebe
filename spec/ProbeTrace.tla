----------------------------- MODULE ProbeTrace -----------------------------
(* Judges what is read back from the results of simulations.                  *)
EXTENDS ProbeModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, open, dead
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ cfg = 0 /\ open = <<>> /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           start == e.op = "init"
           was == IF start THEN FALSE ELSE dead
           f == IF was THEN {} ELSE IF "panic" \in DOMAIN e THEN {"panic"} ELSE IF start THEN {} ELSE ProbeStep(cfg, open, e)
       IN  /\ Report(e, f)
           /\ dead' = (was \/ f # {})
           /\ cfg' = IF start THEN e.cfg ELSE cfg
           /\ open' = IF start THEN <<>> ELSE IF e.op = "open" THEN e.fold ELSE open
Spec == Init /\ [][Next]_<<l, cfg, open, dead>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
