------------------------------ MODULE AgentTrace ----------------------------
(* Checks recorded executions of the real agents against AgentModel.        *)
EXTENDS AgentModel, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, cfg, init, pre, gh, dead
vars == <<l, cfg, init, pre, gh, dead>>

MemOf(seq) == [k \in {seq[i].k : i \in DOMAIN seq} |-> LET i == CHOOSE j \in DOMAIN seq : seq[j].k = k IN seq[i].l]
Obs(o) == [o EXCEPT !.mem = MemOf(o.mem)]
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Fresh(c, e, o) ==
    IF Prop = "C29" THEN InitOk(c, e)
    ELSE If(\A s \in DOMAIN o.q : \A k \in DOMAIN o.q[s] : o.q[s][k] = 0, "table")
         \cup If(o.eps = 1000 * c.eps /\ o.step = 0 /\ o.qv = 0 /\ o.mem = Empty, "new agent")
Check(c, i, g, p, e, o) == IF Prop = "C29" THEN MapStep(c, i, p, e, o) ELSE AgentStep(c, g, p, e, o)

Init == l = 0 /\ cfg = <<>> /\ init = <<>> /\ pre = <<>> /\ gh = <<>> /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       IF "panic" \in DOMAIN e THEN
           /\ Report(e, IF dead /\ e.op # "init" THEN {} ELSE {"panic"})
           /\ dead' = TRUE /\ UNCHANGED <<cfg, init, pre, gh>>
       ELSE IF e.op = "init" THEN
           LET o == Obs(e.obs)
               f == Fresh(e.cfg, e, o) IN
           /\ cfg' = e.cfg /\ init' = e /\ pre' = o /\ gh' = [dec |-> e.cfg.dec, touched |-> {}, acts |-> e.acts]
           /\ Report(e, f) /\ dead' = (f # {})
       ELSE IF dead THEN UNCHANGED <<cfg, init, pre, gh, dead>>
       ELSE LET o == Obs(e.obs)
                f == Check(cfg, init, gh, pre, e, o)
            IN  /\ Report(e, f)
                /\ pre' = o /\ gh' = GhostStep(cfg, gh, pre, e, o)
                /\ init' = (IF e.op = "restore" /\ "init" \in DOMAIN e THEN e.init ELSE init)
                /\ dead' = (f # {}) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
