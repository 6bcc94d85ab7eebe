----------------------------- MODULE AiLearnTrace ---------------------------
(* Checks recorded executions of aiRL caches with an eviction agent against *)
(* AiLearn.  A record "init" holds the logs of the caches of the scenario,  *)
(* one after the other, and the draws of the agent's generator.             *)
EXTENDS AiLearn

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, pre, tick, gh, dead, ws, at, seg
vars == <<l, cfg, pre, tick, gh, dead, ws, at, seg>>

StOf(seq) == [f \in {seq[i].f : i \in DOMAIN seq} |-> LET i == CHOOSE j \in DOMAIN seq : seq[j].f = f IN seq[i]]
ZOf(q, qs) == [f \in Range2(q) |-> LET i == CHOOSE j \in DOMAIN q : q[j] = f IN qs[i]]
Obs(o) == [o EXCEPT !.st = StOf(o.st)] @@ [z |-> ZOf(o.q, o.qs)]
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))

Zeros(a) == \A s \in DOMAIN a.q : \A k \in DOMAIN a.q[s] : a.q[s][k] = 0
Fresh(c, o) == If(o.q = <<>> /\ o.size = 0 /\ o.max = c.max, "initial state")
               \cup If(o.ai.evc.ok = HasEvc(c) /\ o.ai.add.ok = HasAdd(c), "agents")
               \cup If(HasEvc(c) => Zeros(o.ai.evc) /\ o.ai.evc.eps = 1000 * c.evceps /\ o.ai.evc.step = 0 /\ o.ai.evc.qv = 0, "eviction agent")

Init == l = 0 /\ cfg = <<>> /\ pre = <<>> /\ tick = 0 /\ gh = <<>> /\ dead = TRUE /\ ws = {} /\ at = 0 /\ seg = 0
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       IF "panic" \in DOMAIN e THEN
           /\ Report(e, IF dead /\ e.op # "init" THEN {} ELSE {"panic"})
           /\ dead' = TRUE /\ UNCHANGED <<cfg, pre, tick, gh, ws, at, seg>>
       ELSE IF e.op = "init" THEN
           LET o == Obs(e.obs)
               f == Fresh(e.cfg, o) IN
           /\ cfg' = e.cfg /\ pre' = o /\ tick' = 0
           /\ gh' = AiGhost0(e.cfg) @@ [draws |-> <<>>]
           /\ ws' = {World0} /\ at' = l + 1 /\ seg' = 1
           /\ Report(e, f) /\ dead' = (f # {} \/ "logs" \notin DOMAIN e)
       ELSE IF dead THEN UNCHANGED <<cfg, pre, tick, gh, dead, ws, at, seg>>
       ELSE LET o == Obs(e.obs)
                s == LearnStep(cfg, gh, tick, pre, e, o, ws, Trace[at].xd, Trace[at].logs[seg])
            IN  /\ Report(e, s.f)
                /\ IF s.f # {} \/ s.ws # {} THEN TRUE ELSE PrintT("LOST " \o ToJson([sid |-> e.sid, i |-> e.i]))
                /\ pre' = o /\ dead' = (s.f # {} \/ s.ws = {}) /\ UNCHANGED <<cfg, at>>
                /\ ws' = s.ws /\ gh' = AgentNext(cfg, gh, pre, e)
                /\ seg' = IF NewInstance(e) THEN seg + 1 ELSE seg
                /\ tick' = (IF e.op = "clear" \/ NewInstance(e) THEN 0 ELSE IF Served(e) THEN tick + 1 ELSE tick)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
