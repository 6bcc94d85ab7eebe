------------------------------- MODULE SimTrace -----------------------------
(* Judges recorded simulations.  One state per record of the datasets.      *)
EXTENDS SimModel, IOUtils, Json

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
StOf(seq) == [f \in {seq[i].f : i \in DOMAIN seq} |->
                LET i == CHOOSE j \in DOMAIN seq : seq[j].f = f IN seq[i]]
ZOf(q, qs) == [f \in Range2(q) |-> LET i == CHOOSE j \in DOMAIN q : q[j] = f IN qs[i]]
Obs(o) == [o EXCEPT !.st = StOf(o.st)] @@ [z |-> ZOf(o.q, o.qs)]

VARIABLES l, cfg, coins, st, x, dumped, kept, dead
vars == <<l, cfg, coins, st, x, dumped, kept, dead>>

Report(e, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Init == l = 0 /\ cfg = <<>> /\ coins = <<>> /\ st = <<>> /\ x = <<>> /\ dumped = <<>> /\ kept = 0 /\ dead = TRUE
Judge(e) ==
    CASE Prop = "C22" -> SimDays(cfg, x, e)
      [] Prop = "C23" -> SimCounts(cfg, x, e)
      [] Prop = "C25" -> SimAll(cfg, st, x, e, Obs(e.obs), IF e.hasdump THEN Obs(e.dobs) ELSE <<>>)
                         \cup If(e.kept = kept /\ e.keptok, "earlier results")
Next ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       IF e.op = "init" THEN
           /\ cfg' = e.cfg /\ coins' = (IF "coins" \in DOMAIN e THEN e.coins ELSE <<>>)
           /\ dead' = FALSE /\ kept' = 0 /\ dumped' = Initial(e.cfg) /\ UNCHANGED <<st, x>>
       ELSE IF dead THEN UNCHANGED <<cfg, coins, st, x, dumped, kept, dead>>
       ELSE IF e.op = "stage" THEN
           /\ st' = e /\ x' = Start(cfg, e, dumped) /\ kept' = kept + (IF e.load THEN 1 ELSE 0)
           /\ UNCHANGED <<cfg, coins, dumped, dead>>
       ELSE IF e.op = "rec" THEN
           /\ x' = Rec(cfg, st, x, e.r, x.k + 1 <= Len(coins) /\ coins[x.k + 1])
           /\ UNCHANGED <<cfg, coins, st, dumped, kept, dead>>
       ELSE LET f == IF "panic" \in DOMAIN e THEN {"panic"} ELSE Judge(e) IN
           /\ Report(e, f)
           /\ dead' = (f # {}) /\ dumped' = Dumped(cfg, st, x, dumped)
           /\ UNCHANGED <<cfg, coins, st, x, kept>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
