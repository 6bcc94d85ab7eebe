---------------------------- MODULE DataFileTrace ---------------------------
(* Judges recorded operations on JSON data files.                           *)
EXTENDS DataFileModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, file, dead
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ file = <<>> /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           was == IF e.op = "init" THEN FALSE ELSE dead
           f == IF was THEN {} ELSE IF "panic" \in DOMAIN e THEN {"panic"}
                ELSE IF e.op = "init" THEN {} ELSE DataFileStep(file, e)
       IN  /\ Report(e, f)
           /\ dead' = (was \/ f # {})
           /\ file' = IF e.op = "init" THEN <<>> ELSE Written(file, e)
Spec == Init /\ [][Next]_<<l, file, dead>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
