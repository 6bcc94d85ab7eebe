----------------------------- MODULE ClientTrace ----------------------------
(* Judges recorded operations of the agent's clients.                         *)
EXTENDS ClientModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, D, F, docs, cfg, dead
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ D = {<<>>} /\ F = {} /\ docs = {} /\ cfg = [user |-> ""] /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           start == e.op = "init"
           was == IF start THEN FALSE ELSE dead
           f == IF was THEN {} ELSE IF "panic" \in DOMAIN e THEN {"panic"} ELSE IF start THEN {} ELSE ClientStep(D, F, docs, cfg, e)
           now == was \/ f # {}
       IN  /\ Report(e, f)
           /\ dead' = now
           /\ cfg' = IF start THEN e.cfg ELSE cfg
           /\ D' = IF start THEN {<<>>} ELSE IF now THEN D ELSE DAfter(D, F, e)
           /\ F' = IF start THEN {} ELSE IF now THEN F ELSE FAfter(D, F, e)
           /\ docs' = IF start THEN {} ELSE IF now THEN docs ELSE DocsAfter(docs, e)
Spec == Init /\ [][Next]_<<l, D, F, docs, cfg, dead>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
