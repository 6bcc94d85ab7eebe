----------------------------- MODULE PyCacheTrace ---------------------------
(* Judges recorded requests to the LRU cache of pySim.                      *)
EXTENDS PyCacheModel, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, s, dead, z    \* z: the sizes of the files
If(cond, name) == IF cond THEN {} ELSE {name}
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ cfg = <<>> /\ s = <<>> /\ z = Empty /\ dead = TRUE

(* the figures are private; those which are there are compared              *)
Figure(m) == [size |-> m.size, hit |-> m.hit, miss |-> m.miss, written_data |-> m.dw, deleted_data |-> m.dd, read_data |-> m.dr]
Seen(m, o, t) ==
    If(Range2(o.q) = DOMAIN m.z, "files")
    \cup If(IF m.hit = 0 THEN o.hr = 0 ELSE Close(o.hr, Ratio(m.hit, m.hit + m.miss, 6), 1), "hit rate")
    \cup {x \in DOMAIN o.fig : x = "odd" \/ (x \in DOMAIN Figure(m) /\ o.fig[x] # Figure(m)[x])}
    \cup If(\A j \in DOMAIN o.per :
              LET p == o.per[j] IN  p.hit = At(m.fh, p.f) /\ p.miss = At(m.fm, p.f) /\ p.tot = p.hit + p.miss /\ p.s = t[p.f],
            "statistics of a file")
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           was == IF e.op = "init" THEN FALSE ELSE dead
           c == IF e.op = "init" THEN e.cfg ELSE cfg
           m == IF e.op = "init" THEN PyEmpty ELSE IF was THEN s
                ELSE PyGet(cfg.max, s, e.f, e.s)
           t == IF e.op = "init" THEN Empty ELSE IF was THEN z ELSE (e.f :> e.s) @@ z
           f == IF was THEN {} ELSE IF "panic" \in DOMAIN e THEN {"panic"} ELSE Seen(m, e.obs, t)
       IN  /\ Report(e, f)
           /\ dead' = (was \/ f # {}) /\ cfg' = c /\ s' = m /\ z' = t
Spec == Init /\ [][Next]_<<l, cfg, s, dead, z>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
