------------------------------ MODULE CacheTrace ----------------------------
(* Checks recorded executions of the real caches against CacheProps.  One   *)
(* state per recorded operation.  PROP selects the property.                *)
EXTENDS CacheChecks

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, pre, gh, dead, ok
vars == <<l, cfg, pre, gh, dead, ok>>

Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
IsKnown(x) == Len(x) > 6 /\ SubSeq(x, 1, 6) = "KNOWN:"

Init == l = 0 /\ cfg = <<>> /\ pre = <<>> /\ gh = <<>> /\ dead = TRUE /\ ok = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       IF "panic" \in DOMAIN e THEN
           /\ dead \/ e.op = "init" => TRUE
           /\ Report(e, IF dead /\ e.op # "init" THEN {} ELSE {"panic"})
           /\ dead' = TRUE /\ ok' = FALSE /\ UNCHANGED <<cfg, pre, gh>>
       ELSE IF e.op = "init" THEN
           LET o == Obs(e.obs)
               f == If(o.q = <<>> /\ o.st = Empty /\ o.size = 0 /\ o.req = 0 /\ o.max = e.cfg.max, "initial state") IN
           /\ cfg' = e.cfg /\ pre' = o /\ gh' = Ghost0(e)
           /\ Report(e, f) /\ dead' = (f # {}) /\ ok' = (ok /\ f = {})
       ELSE IF dead THEN UNCHANGED <<cfg, pre, gh, dead, ok>>
       ELSE LET o == Obs(e.obs)
                g2 == GhostNext(cfg, gh, pre, e, o)
                f == Check(cfg, gh, g2, pre, e, o)
                hard == {x \in f : ~IsKnown(x)}
            IN  /\ Report(e, f)
                /\ pre' = o /\ gh' = g2 /\ dead' = (hard # {}) /\ ok' = (ok /\ hard = {})
                /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
