------------------------------ MODULE CacheChecks ---------------------------
(* What the observer remembers, and which predicate decides which property. *)
EXTENDS CacheProps, IOUtils, Json

Prop == IOEnv.PROP

StOf(seq) == [f \in {seq[i].f : i \in DOMAIN seq} |->
                LET i == CHOOSE j \in DOMAIN seq : seq[j].f = f IN seq[i]]
ZOf(q, qs) == [f \in Range2(q) |-> LET i == CHOOSE j \in DOMAIN q : q[j] = f IN qs[i]]
(* observations of the traces, with st and z as functions                   *)
Obs(o) == IF "z" \in DOMAIN o THEN o ELSE [o EXCEPT !.st = StOf(o.st)] @@ [z |-> ZOf(o.q, o.qs)]

Ghost0(e) == [tick |-> 0, first |-> -1, last |-> -1, miss |-> MissGhost0, cpu |-> CpuGhost0, free |-> <<>>,
              draw |-> [k |-> 0, coins |-> IF "coins" \in DOMAIN e THEN e.coins ELSE <<>>],
              seen |-> {}, log |-> <<>>, cleared |-> FALSE]

GhostNext(c, g, p, e, o) ==
    [tick |-> IF e.op = "clear" \/ NewInstance(e) THEN 0 ELSE IF Served(e) THEN g.tick + 1 ELSE g.tick,
     first |-> IF NewInstance(e) THEN -1
               ELSE IF Served(e)
               THEN LET first == IF g.first = -1 THEN e.t ELSE g.first
                    IN  IF e.t - first >= c.step THEN e.t ELSE first
               ELSE g.first,
     last |-> IF NewInstance(e) THEN -1 ELSE IF Served(e) THEN e.t ELSE g.last,
     miss |-> IF Prop = "C14" THEN MissNext(c, g.miss, p, e, o) ELSE g.miss,
     cpu |-> IF Prop = "C08" THEN CpuNext(c, g.cpu, p, e) ELSE g.cpu,
     free |-> IF Prop = "C09" THEN FreeNext(c, g.free, p, e, o) ELSE g.free,
     draw |-> DrawNext(g.draw, p, e),
     seen |-> IF Prop = "C19" THEN SeenNext(g.seen, e) ELSE g.seen,
     log |-> IF Prop = "C21" THEN LogNext(c, g.log, g.tick, p, e, o) ELSE g.log,
     cleared |-> g.cleared \/ e.op \in {"clear", "clearFiles"}]

Coin(g) == g.draw.k + 1 <= Len(g.draw.coins) /\ g.draw.coins[g.draw.k + 1]

Check(c, g, g2, p, e, o) ==
    CASE Prop \in {"C01", "C02", "C03"} -> OrderStep(c, p, e, o)
      [] Prop = "C04" -> EvictionStep(c, p, e, o)
      [] Prop = "C05" -> OccupancyStep(c, p, e, o)
      [] Prop = "C06" -> MembershipStep(c, p, e, o)
      [] Prop = "C07" -> AccountingStep(c, p, e, o)
      [] Prop = "C08" -> CpuOk(g2.cpu, o)
      [] Prop = "C09" -> FreeOk(g2.free, o)
      [] Prop = "C10" -> WatermarkStep(c, p, e, o)
      [] Prop = "C11" -> RedirectStep(c, p, e, o)
      [] Prop = "C12" -> StatsStep(c, g, p, e, o)
      [] Prop = "C13" -> PurgeStep(c, g, p, e, o)
      [] Prop = "C14" -> MissStep(c, g.miss, p, e, o)
      [] Prop = "C15" -> ClearStep(c, p, e, o) \cup (IF g.cleared THEN AfterClear(c, g, p, e, o) ELSE {})
      [] Prop = "C16" -> (IF e.op \in {"dump", "fork"} THEN RestoreStep(c, p, e, o, Obs(e.before), Obs(e.after)) ELSE {})
                         \cup TwinStep(c, e, o)
      [] Prop = "C17" -> RandomStep(c, g.draw, p, e, o)
                         \cup (IF c.type = "random_lru" THEN OrderStep(c, p, e, o) ELSE {})
      [] Prop = "C18" -> WeightStep(c, p, e, o)
      [] Prop = "C19" -> InfiniteStep(c, g.seen, p, e, o)
      [] Prop = "C20" -> DatasetStep(c, p, e, o)
      [] Prop = "C21" -> LogStep(g.log, e)
      [] Prop = "C26" -> ReferenceStep(c, g, Coin(g), p, e, o)
=============================================================================
