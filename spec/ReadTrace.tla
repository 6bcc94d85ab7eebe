------------------------------- MODULE ReadTrace ----------------------------
(* Judges recorded readings of datasets and answers of the record filters.  *)
EXTENDS ReadModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l + 1] IN
           Report(e, IF "panic" \in DOMAIN e THEN {"panic"}
                     ELSE IF e.op \in {"file", "folder"} THEN ReadStep(e)
                     ELSE IF e.op = "filter" THEN FilterStep(e) ELSE {})
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
