------------------------------- MODULE AiTrace ------------------------------
(* Checks recorded executions of aiRL caches against AiModel.               *)
EXTENDS AiModel

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, cfg, pre, tick, gh, dead
vars == <<l, cfg, pre, tick, gh, dead>>

StOf(seq) == [f \in {seq[i].f : i \in DOMAIN seq} |-> LET i == CHOOSE j \in DOMAIN seq : seq[j].f = f IN seq[i]]
ZOf(q, qs) == [f \in Range2(q) |-> LET i == CHOOSE j \in DOMAIN q : q[j] = f IN qs[i]]
Obs(o) == [o EXCEPT !.st = StOf(o.st)] @@ [z |-> ZOf(o.q, o.qs)]
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))

Zeros(a) == \A s \in DOMAIN a.q : \A k \in DOMAIN a.q[s] : a.q[s][k] = 0
Fresh(c, o) ==
    If(o.q = <<>> /\ o.size = 0 /\ o.max = c.max, "initial state")
    \cup If(o.ai.add.ok = HasAdd(c) /\ o.ai.evc.ok = HasEvc(c), "agents")
    \cup If(HasAdd(c) => Zeros(o.ai.add) /\ o.ai.add.eps = 1000 * c.addeps /\ o.ai.add.step = 0 /\ o.ai.add.qv = 0, "addition agent")
    \cup If(HasEvc(c) => Zeros(o.ai.evc) /\ o.ai.evc.eps = 1000 * c.evceps /\ o.ai.evc.step = 0 /\ o.ai.evc.qv = 0, "eviction agent")
Check(c, g, t, p, e, o) == IF Prop = "C31" THEN AddStep(c, g, t, p, e, o) ELSE AiStep(c, g, t, p, e, o)

Init == l = 0 /\ cfg = <<>> /\ pre = <<>> /\ tick = 0 /\ gh = <<>> /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       IF "panic" \in DOMAIN e THEN
           /\ Report(e, IF dead /\ e.op # "init" THEN {} ELSE {"panic"})
           /\ dead' = TRUE /\ UNCHANGED <<cfg, pre, tick, gh>>
       ELSE IF e.op = "init" THEN
           LET o == Obs(e.obs)
               f == Fresh(e.cfg, o) IN
           /\ cfg' = e.cfg /\ pre' = o /\ tick' = 0
           /\ gh' = AiGhost0(e.cfg) @@ [draws |-> IF "draws" \in DOMAIN e THEN e.draws ELSE <<>>]
           /\ Report(e, f) /\ dead' = (f # {})
       ELSE IF dead THEN UNCHANGED <<cfg, pre, tick, gh, dead>>
       ELSE LET o == Obs(e.obs)
                f0 == Check(cfg, gh, tick, pre, e, o)
                g2 == IF f0 = {} THEN AiNext(cfg, gh, tick, pre, e, o) ELSE gh
                f == f0 \cup (IF f0 = {} /\ Prop = "C30" /\ HasEvc(cfg) THEN CatFigures(g2, o) ELSE {})
            IN  /\ Report(e, f)
                /\ pre' = o /\ dead' = (f # {}) /\ UNCHANGED cfg
                /\ gh' = g2
                /\ tick' = (IF e.op = "clear" \/ NewInstance(e) THEN 0 ELSE IF Served(e) THEN tick + 1 ELSE tick)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
