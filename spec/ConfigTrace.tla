----------------------------- MODULE ConfigTrace ----------------------------
(* Judges recorded runs of the simulator program.                           *)
EXTENDS ConfigModel, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
StOf(seq) == [f \in {seq[i].f : i \in DOMAIN seq} |->
                LET i == CHOOSE j \in DOMAIN seq : seq[j].f = f IN seq[i]]
ZOf(q, qs) == [f \in Range2(q) |-> LET i == CHOOSE j \in DOMAIN q : q[j] = f IN qs[i]]
Obs(o) == [o EXCEPT !.st = StOf(o.st)] @@ [z |-> ZOf(o.q, o.qs)]

VARIABLES l, coins, conf, how, cfg, st, x,
          dirs,    \* result folders with the size of their results
          dumps,   \* <<folder, file>> to the cache which was dumped there
          kept,    \* folder to the number of results put aside
          dead
vars == <<l, coins, conf, how, cfg, st, x, dirs, dumps, kept, dead>>

Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ coins = <<>> /\ conf = <<>> /\ how = "" /\ cfg = <<>> /\ st = <<>> /\ x = <<>>
        /\ dirs = Empty /\ dumps = Empty /\ kept = Empty /\ dead = TRUE

Begin(e) ==
    LET name == RunName(e.conf)
        \* an interrupted run may have left the beginning of a results file
        was == IF "prior" \in DOMAIN e THEN With(dirs, name, e.prior) ELSE dirs
        res == IF name \in DOMAIN was THEN was[name] ELSE -1
        o == Outcome3(e.conf, res)
        c == EffCache(e.conf, e.ds)
        s == EffStage(e.conf)
        k == <<name, LoadFrom(e.conf)>>
        \* The run which was to write the dump kept the earlier results
        \* instead: a results file of one row is about as long as the limit
        \* for "there are results", and its exact length differs from run to
        \* run (times and memory figures).  Nothing to compare with then.
        lost == o = "run" /\ s.load /\ k \notin DOMAIN dumps
    IN  /\ conf' = e.conf /\ how' = o /\ cfg' = c /\ st' = s
        /\ dead' = lost
        /\ x' = (IF o = "run" /\ ~lost THEN Start(c, s, IF s.load THEN dumps[k] ELSE Initial(c)) ELSE <<>>)
        /\ kept' = (IF o = "run" /\ s.load THEN With(kept, name, 1 + (IF name \in DOMAIN kept THEN kept[name] ELSE 0)) ELSE kept)
        /\ dirs' = was
        /\ UNCHANGED <<coins, dumps>>
Judge(e) ==
    IF how = "run"
    THEN LET name == RunName(conf) IN
         RunOk(cfg, st, x, e, name, IF name \in DOMAIN kept THEN kept[name] ELSE 0, IF e.hasdump THEN Obs(e.dobs) ELSE <<>>)
    ELSE NotRunOk(how, e, dirs)
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       IF e.op = "init" THEN
           /\ coins' = (IF "coins" \in DOMAIN e THEN e.coins ELSE <<>>) /\ dead' = FALSE
           /\ dirs' = Empty /\ dumps' = Empty /\ kept' = Empty /\ UNCHANGED <<conf, how, cfg, st, x>>
       ELSE IF dead THEN UNCHANGED <<coins, conf, how, cfg, st, x, dirs, dumps, kept, dead>>
       ELSE IF e.op = "stage" THEN Begin(e)
       ELSE IF e.op = "rec" THEN
           /\ x' = (IF how = "run" THEN Rec(cfg, st, x, e.r, x.k + 1 <= Len(coins) /\ coins[x.k + 1]) ELSE x)
           /\ UNCHANGED <<coins, conf, how, cfg, st, dirs, dumps, kept, dead>>
       ELSE LET f == IF "panic" \in DOMAIN e THEN {"panic"} ELSE Judge(e) IN
           /\ Report(e, f)
           /\ dead' = (f # {})
           /\ dirs' = (IF "dirs" \in DOMAIN e THEN Dirs(e.dirs) ELSE dirs)
           /\ dumps' = (IF how = "run" /\ st.dump
                        THEN With(dumps, <<RunName(conf), DumpTo(conf)>>, IF st.dumpfs THEN x.m ELSE Initial(cfg)) ELSE dumps)
           /\ UNCHANGED <<coins, conf, how, cfg, st, x, kept>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
