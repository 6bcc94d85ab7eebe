------------------------------ MODULE QueueTrace ----------------------------
(* Checks recorded executions of the real queues against QueueModel.        *)
EXTENDS QueueModel, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, s, dead
vars == <<l, cfg, s, dead>>

Fails(kind, e, r) ==
    IF "panic" \in DOMAIN e THEN {"panic"}
    ELSE (IF e.len # Len(r.s.q) THEN {"len"} ELSE {})
         \cup (IF Range2(e.mem) # Range2(r.s.q) THEN {"members"} ELSE {})
         \cup (IF ~e.same THEN {"stats"} ELSE {})
         \cup (IF kind # "none" /\ e.full /\ e.order # r.s.q THEN {"order"} ELSE {})
         \cup (IF kind # "none" /\ e.op \in {"removeWorst", "evict", "up2size", "best"} /\ e.l # r.l
               THEN {"answer"} ELSE {})

(* the queue without order: any files of a sufficient size, no file too many *)
FailsNone(e) ==
    IF e.op \in {"evict", "up2size"} /\ "panic" \notin DOMAIN e THEN
        LET V == Range2(e.l) IN
        IF ~(V \subseteq Range2(s.q)) \/ ~NoDup(e.l) THEN {"answer"}
        ELSE IF SumOver(s.z, V) < e.s /\ V # Range2(s.q) THEN {"too little"}
        ELSE IF e.l = <<>> THEN {}
        ELSE IF SumOver(s.z, V \ {e.l[Len(e.l)]}) >= e.s THEN {"too much"}
        ELSE {}
    ELSE {}

Result(kind, e) ==
    IF kind = "none" /\ e.op \in {"evict", "removeWorst"} /\ "panic" \notin DOMAIN e
    THEN [s |-> QRemove(s, Range2(e.l)), l |-> e.l]
    ELSE QApply(kind, s, e)

Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))

Init == l = 0 /\ cfg = [type |-> "LRU"] /\ s = EmptyQueue /\ dead = TRUE
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       IF e.op = "init" THEN
           /\ cfg' = e.cfg /\ s' = EmptyQueue
           /\ dead' = ("panic" \in DOMAIN e)
           /\ Report(e, IF "panic" \in DOMAIN e THEN {"panic"} ELSE {})
       ELSE IF dead THEN UNCHANGED <<cfg, s, dead>>
       ELSE LET kind == OrderKind(cfg.type)
                r == Result(kind, e)
                f == Fails(kind, e, r) \cup (IF kind = "none" THEN FailsNone(e) ELSE {})
            IN  /\ Report(e, f)
                /\ s' = r.s /\ dead' = (f # {}) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
