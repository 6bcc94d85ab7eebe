---------------------------- MODULE SimDataTrace ----------------------------
(* Judges recorded conversions of tables into training data.                *)
EXTENDS SimDataModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cols, tab, maps, last, dead
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ cols = <<>> /\ tab = <<>> /\ maps = <<>> /\ last = <<>> /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           was == IF e.op = "init" THEN FALSE ELSE dead
           f == IF was THEN {} ELSE IF "panic" \in DOMAIN e THEN {"panic"}
                ELSE IF e.op = "init" THEN {} ELSE SimDataStep(cols, tab, maps, last, e)
           stop == was \/ f # {}
       IN  /\ Report(e, f)
           /\ dead' = stop
           /\ cols' = IF e.op = "init" THEN e.cfg.cols ELSE cols
           /\ tab' = IF e.op = "init" THEN [c \in DOMAIN e.cfg.cols |-> e.cfg.cols[c].v] ELSE IF stop THEN tab ELSE TabNext(tab, e)
           /\ maps' = IF e.op = "init" THEN [c \in {} |-> 0] ELSE IF stop THEN maps ELSE MapsNext(maps, e)
           /\ last' = IF e.op = "init" THEN <<>> ELSE IF stop THEN last ELSE LastNext(last, e)
Spec == Init /\ [][Next]_<<l, cols, tab, maps, last, dead>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
