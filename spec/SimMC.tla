-------------------------------- MODULE SimMC -------------------------------
(* All simulations over small datasets: configurations, stages and records  *)
(* of a JSON file (IOEnv.MCCFG).  A behaviour is the reading of one dataset *)
(* record by record, cut into simulations ("stages") which hand over their  *)
(* dump.  Printed as scripts to be run.                                     *)
EXTENDS SimModel, IOUtils, Json

M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES c, s0,   \* configuration, stage at the beginning
          x,       \* the simulation
          one,     \* the simulation which is never interrupted
          st, dumped, clock,
          h        \* records, or -k for the beginning of a simulation with stage k
vars == <<c, s0, x, one, st, dumped, clock, h>>

K == M.cfgs[c]
Init == /\ c \in DOMAIN M.cfgs /\ s0 \in DOMAIN M.stages /\ ~M.stages[s0].load
        /\ st = s0 /\ x = Start(M.cfgs[c], M.stages[s0], Initial(M.cfgs[c])) /\ one = x
        /\ dumped = Initial(M.cfgs[c]) /\ clock = 0 /\ h = <<-s0>>
Read(i) ==
    LET r0 == M.recs[i]
        r == r0 @@ [t |-> clock + r0.d]
    IN  /\ x' = Rec(K, M.stages[st], x, r, TRUE) /\ one' = Rec(K, M.stages[s0], one, r, TRUE)
        /\ clock' = clock + r0.d /\ h' = Append(h, i) /\ UNCHANGED <<c, s0, st, dumped>>
Restart(k) ==
    /\ M.stages[st].dump /\ M.stages[k].load /\ h[Len(h)] > 0
    /\ Cardinality({i \in DOMAIN h : h[i] < 0}) < M.maxstages
    /\ dumped' = Dumped(K, M.stages[st], x, dumped)
    /\ x' = Start(K, M.stages[k], dumped') /\ st' = k /\ h' = Append(h, -k)
    /\ UNCHANGED <<c, s0, one, clock>>
Next == Len(h) < M.depth /\ ((\E i \in DOMAIN M.recs : Read(i)) \/ (\E k \in DOMAIN M.stages : Restart(k)))
Spec == Init /\ [][Next]_vars

Rows == x.rows
(* every record has one outcome *)
Counted == x.sel.tot = x.sel.jump + x.sel.filt + x.sel.inv + x.sel.requested
(* what a day asks is in the figures of the cache *)
Daily == x.m.req + x.m.red = x.sel.n /\ x.m.dr + x.m.reds = x.sel.bytes
(* days are told apart by at least 23 hours and each is written once, in order *)
DaysOk == \A i \in 1..Len(Rows) - 1 : Rows[i + 1].date - Rows[i].date >= DayLength
Skipped == x.sel.w < M.stages[st].wstart => x.sel.requested = 0 /\ x.rows = <<>>
(* a hot restart continues as if nothing had happened *)
Hot == \A i \in DOMAIN h : h[i] < 0 /\ i > 1 => LET k == M.stages[-h[i]] IN ~k.cold /\ k.filt = M.stages[s0].filt /\ k.wstart = 0 /\ k.wstop > 50
AllDumped == \A i \in DOMAIN h : h[i] < 0 => M.stages[-h[i]].dumpfs
Continues == Hot /\ AllDumped /\ M.stages[s0].wstart = 0 /\ M.stages[s0].wstop > 50 /\ ~K.red
             => x.m.q = one.m.q /\ x.m.z = one.m.z /\ x.m.size = one.m.size
                /\ \A f \in DOMAIN x.m.st : f \in DOMAIN one.m.st /\ x.m.st[f].fr = one.m.st[f].fr /\ x.m.st[f].rt = one.m.st[f].rt
Inv == Counted /\ Daily /\ DaysOk /\ Skipped /\ Continues
View == <<c, s0, st, Len(h), x.sel.lt = -1, IF x.sel.lt = -1 THEN 0 ELSE clock - x.sel.lt, x.sel.step, x.sel.w, x.sel.over, x.m.q, x.sel.n, Len(x.rows),
          Cardinality({i \in DOMAIN h : h[i] < 0}), dumped.q>>
Emit == PrintT("SCRIPT " \o ToString(<<c, h'>>))
=============================================================================
