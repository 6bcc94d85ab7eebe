---------------------------- MODULE DatasetTrace ----------------------------
(* Judges recorded operations on popularity records and data set stages.     *)
EXTENDS DatasetModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ids, nf, dead
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ ids = {} /\ nf = 0 /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           start == e.op = "init"
           was == IF start THEN FALSE ELSE dead
           f == IF was THEN {} ELSE IF "panic" \in DOMAIN e THEN {"panic"} ELSE IF start THEN {} ELSE DatasetStep(e, ids, nf)
       IN  /\ Report(e, f)
           /\ dead' = (was \/ f # {})
           /\ nf' = IF start THEN e.cfg.nf ELSE nf
           /\ ids' = IF start THEN {} ELSE IF was THEN ids ELSE ids \cup SeenIn(e)
Spec == Init /\ [][Next]_<<l, ids, nf, dead>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
