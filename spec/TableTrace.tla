----------------------------- MODULE TableTrace -----------------------------
(* Judges recorded operations on support tables and training sets.           *)
EXTENDS TableModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, T, I, rows, train, dead
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ T = {} /\ I = {} /\ rows = <<>> /\ train = FALSE /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           start == e.op = "init"
           was == IF start THEN FALSE ELSE dead
           f == IF was THEN {} ELSE IF "panic" \in DOMAIN e THEN {"panic"}
                ELSE IF start THEN {} ELSE IF train THEN TrainStep(T, I, rows, e) ELSE TableStep(T, I, e)
           now == was \/ f # {}
       IN  /\ Report(e, f)
           /\ dead' = now
           /\ train' = IF start THEN e.cfg.type = "train" ELSE train
           /\ rows' = IF start THEN (IF e.cfg.type = "train" THEN e.cfg.rows ELSE <<>>) ELSE rows
           /\ T' = IF start THEN {} ELSE IF now THEN T ELSE IF train THEN SetAfter(T, rows, e) ELSE TAfter(T, I, e)
           /\ I' = IF start THEN {} ELSE IF now THEN I ELSE IAfter(I, e)
Spec == Init /\ [][Next]_<<l, T, I, rows, train, dead>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
