---------------------------- MODULE AvroFileTrace ---------------------------
(* Judges recorded operations on Avro data files.                           *)
EXTENDS AvroFileModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, file, cur, dead
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ file = <<>> /\ cur = -1 /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           was == IF e.op = "init" THEN FALSE ELSE dead
           f == IF was THEN {} ELSE IF "panic" \in DOMAIN e THEN {"panic"}
                ELSE IF e.op = "init" THEN {} ELSE AvroStep(file, cur, e)
       IN  /\ Report(e, f)
           /\ dead' = (was \/ f # {})
           /\ file' = IF e.op = "init" THEN <<>> ELSE Written(file, e)
           /\ cur' = IF e.op = "init" \/ was \/ f # {} THEN -1 ELSE AvroCur(file, cur, e)
Spec == Init /\ [][Next]_<<l, file, cur, dead>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
