------------------------------ MODULE CacheModel ----------------------------
(* The reference model of a cache of the simulator: everything an operation *)
(* does, as a function of the configuration, the state and the operation.   *)
(*                                                                          *)
(* Configuration c (all integers; sizes are in units of 1/u MB):            *)
(*   type      kind of cache            max      capacity                   *)
(*   red, bwm  redirection, bandwidth in mGbit (10800 MB per day each)      *)
(*   wm,hi,lo  watermarks in percent    step,maxday  purge times in seconds *)
(*   ds        files of the dataset (verifier)                              *)
(* State s: the observable figures (fields as in the traces: q, qs, st,     *)
(* size, max, req, hit, add, del, red, reds, dw, dr, drh, drm, dd) plus the *)
(* hidden ones:                                                             *)
(*   tick   requests since the start or the last clear of everything        *)
(*   first  time of the last purge, or of the first request (-1: none yet)  *)
(*   last   time of the last request                                        *)
(*   dm     misses per file of the latest eviction round                    *)
(*   tot    misses of earlier rounds which have not been read yet           *)
EXTENDS Order

Mb(c, x) == x * c.u              \* MB to units
Bandwidth(c) == 10800 * c.bwm    \* MB per day

ZeroFigures == [req |-> 0, hit |-> 0, add |-> 0, del |-> 0, red |-> 0, reds |-> 0,
                dw |-> 0, dr |-> 0, drh |-> 0, drm |-> 0, dd |-> 0]

Initial(c) ==
    ZeroFigures @@ [size |-> 0, max |-> c.max, q |-> <<>>, st |-> Empty, z |-> Empty,
                    tick |-> 0, first |-> -1, last |-> -1, dm |-> Empty, tot |-> 0]

Residents(s) == Range2(s.q)

(* ------------------------------ weights --------------------------------- *)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
(* Weight of a file in a weight function cache (C18): four times the weight; times are multiples of 1920 s, so that the mean   *)
(* age in minutes over 32 slots is an integer                               *)
MeanAge(rt, t) == FoldLeft(LAMBDA a, x : a + (t - x) \div 1920, 0, rt)
Weight4(c, fr, size, age) ==
    CASE c.wf = "FuncAdditive" -> 4 * c.alpha * fr + (4 \div c.u) * c.beta * size + 4 * c.gamma * age
      [] c.wf = "FuncAdditiveExp" -> 4 * (Pow(fr, c.alpha) + Pow(size, c.beta) + Pow(age, c.gamma))
      [] c.wf = "FuncMultiplicative" -> 4 * (Pow(fr, c.alpha) * Pow(size, c.beta) * Pow(age, c.gamma))
      [] OTHER -> 0

(* ------------------------------ per-file statistics --------------------- *)
MaxTimes == 32
(* the times are kept in increasing order, which is the order of the        *)
(* requests unless the times go back (then there are less than MaxTimes)    *)
AddTime(rt, t) ==
    LET old == IF Len(rt) >= MaxTimes THEN DropN(rt, 1) ELSE rt
    IN  SelectSeq(old, LAMBDA x : x <= t) \o <<t>> \o SelectSeq(old, LAMBDA x : x > t)

Tracked(c, s, f, size, t, hit) ==
    LET old == f \in DOMAIN s.st
        rt == AddTime(IF old THEN s.st[f].rt ELSE <<>>, t)
        fr == 1 + (IF old THEN s.st[f].fr ELSE 0) IN
    [f  |-> f, s  |-> size,
     fr |-> fr,
     rec |-> s.tick,
     dl |-> IF old THEN s.tick - s.st[f].rec ELSE NaN,
     nh |-> (IF hit THEN 1 ELSE 0) + (IF old THEN s.st[f].nh ELSE 0),
     nm |-> (IF hit THEN 0 ELSE 1) + (IF old THEN s.st[f].nm ELSE 0),
     ti |-> IF old THEN s.st[f].ti ELSE t,
     tl |-> t,
     rt |-> rt,
     w |-> IF c.type = "weightFunLRU" THEN Weight4(c, fr, size, MeanAge(rt, t)) ELSE 0]

(* ------------------------------ order ----------------------------------- *)
(* st gives the request counts and weights, z the sizes                     *)
RanksOf(c, st, z) ==
    [x \in DOMAIN z |-> RankOf(OrderKind(c.type), z[x],
        IF x \in DOMAIN st THEN st[x].fr ELSE 0, 0)]

(* ------------------------------ admission ------------------------------- *)
(* the policies decide before looking at the free space                     *)
Wants(c, s, f, coin) ==
    CASE c.type \in {"random", "random_lru"} -> coin
      [] c.type = "weightFunLRU" ->
           \* s already counts this request; st is not purged before the decision
           s.st[f].w * Cardinality(DOMAIN s.st) <= SumOver([x \in DOMAIN s.st |-> s.st[x].w], DOMAIN s.st)
      [] c.type = "lruDatasetVerifier" -> f \in Range2(c.ds)
      [] OTHER -> TRUE

(* ------------------------------ eviction round -------------------------- *)
(* Removes the first n files of the queue.                                  *)
Evict(s, n) ==
    LET V == Range2(TakeN(s.q, n))
        bytes == SumOver(s.z, V)
    IN  [s EXCEPT !.q = DropN(s.q, n), !.z = Only(s.z, (DOMAIN s.z) \ V),
                  !.size = @ - bytes, !.del = @ + n, !.dd = @ + bytes,
                  !.tot = @ + SumOver(s.dm, DOMAIN s.dm), !.dm = [x \in V |-> 0]]

(* an eviction round for an amount: nothing is removed if it is not positive *)
Round(s, amount) == Evict(s, MinPrefix(s.q, s.z, amount))

(* ------------------------------ a request ------------------------------- *)
Redirects(c, s) == c.red /\ 20 * s.drm >= 19 * Mb(c, Bandwidth(c))

Dirty(c, s) == s.last - s.first >= c.step
PurgeStats(c, s) ==
    [s EXCEPT !.st = Only(@, {x \in DOMAIN @ : x \in Residents(s) \/ s.last - @[x].tl < c.maxday}),
              !.first = s.last]

Watermark(c, s) ==
    IF c.wm /\ 100 * s.size >= c.hi * s.max
    THEN LET over == 100 * s.size - c.lo * s.max     \* in percent of a unit
         IN  Evict(s, MinPrefix(s.q, [x \in DOMAIN s.z |-> 100 * s.z[x]], over))
    ELSE s

CountMiss(s, f) == IF f \in DOMAIN s.dm THEN [s EXCEPT !.dm[f] = @ + 1] ELSE s

(* e: f file, s size, t time; coin: the draw of a random cache.             *)
(* The answer is [s |-> next state, ra |-> added, rr |-> redirected].       *)
Request(c, s0, e, coin) ==
    LET hit == e.f \in Residents(s0)
        s1 == IF hit THEN s0 ELSE CountMiss(s0, e.f)
    IN  IF ~hit /\ Redirects(c, s1)
        THEN [s |-> [s1 EXCEPT !.red = @ + 1, !.reds = @ + e.s], ra |-> FALSE, rr |-> TRUE]
        ELSE
        LET stf == Tracked(c, s1, e.f, e.s, e.t, hit)
            s2 == [s1 EXCEPT !.req = @ + 1, !.st = With(@, e.f, stf), !.last = e.t,
                             !.first = IF @ = -1 THEN e.t ELSE @]
            fits == s2.size + e.s <= s2.max
            s3 == IF hit \/ fits \/ ~Wants(c, s2, e.f, coin) \/ c.type = "infinite"
                  THEN s2 ELSE Round(s2, e.s)
            added == ~hit /\ Wants(c, s3, e.f, coin) /\ (c.type = "infinite" \/ s3.size + e.s <= s3.max)
            z4 == IF hit \/ added THEN With(s3.z, e.f, e.s) ELSE s3.z
            k4 == RanksOf(c, s3.st, z4)
            s4 == IF hit THEN [s3 EXCEPT !.q = UpdateRanked(@, k4, e.f), !.z = z4]
                  ELSE IF added
                  THEN [s3 EXCEPT !.q = InsertRanked(@, k4, e.f), !.z = z4, !.size = @ + e.s,
                                  !.max = IF c.type = "infinite" THEN @ + e.s ELSE @,
                                  !.add = @ + 1, !.dw = @ + e.s]
                  ELSE s3
            s5 == [s4 EXCEPT !.dr = @ + e.s,
                             !.hit = @ + (IF hit THEN 1 ELSE 0),
                             !.drh = @ + (IF hit THEN e.s ELSE 0),
                             !.drm = @ + (IF hit THEN 0 ELSE e.s)]
            s6 == IF Dirty(c, s5) THEN PurgeStats(c, s5) ELSE s5
            s7 == [s6 EXCEPT !.tick = @ + 1]
        IN  [s |-> Watermark(c, s7), ra |-> added, rr |-> FALSE]

(* ------------------------------ other operations ------------------------ *)
ClearStats(s) == [x \in DOMAIN s |-> IF x \in DOMAIN ZeroFigures THEN 0 ELSE s[x]]
ClearFiles(s) == [s EXCEPT !.q = <<>>, !.z = Empty, !.size = 0,
                           !.st = [x \in DOMAIN @ |-> [@[x] EXCEPT !.rec = 0]]]
ClearAll(s) == [ClearStats(ClearFiles(s)) EXCEPT !.st = Empty, !.tick = 0, !.dm = Empty]
FreeAmount(s, amt) == Round(s, amt)
ReadMisses(s) == [s |-> [s EXCEPT !.tot = 0, !.dm = [x \in DOMAIN @ |-> 0]],
                  v |-> s.tot + SumOver(s.dm, DOMAIN s.dm)]
(* A dump loaded into a new cache of the same configuration                 *)
Restored(c, s) ==
    [Initial(c) EXCEPT !.q = s.q, !.z = s.z, !.size = s.size, !.st = s.st,
                          !.max = IF c.type = "infinite" THEN c.max + s.size ELSE c.max]

Operation(c, s, e, coin) ==
    CASE e.op = "get" -> Request(c, s, e, coin)
      [] e.op = "clearStats" -> [s |-> ClearStats(s), ra |-> FALSE, rr |-> FALSE]
      [] e.op = "clearFiles" -> [s |-> ClearFiles(s), ra |-> FALSE, rr |-> FALSE]
      [] e.op = "clear" -> [s |-> ClearAll(s), ra |-> FALSE, rr |-> FALSE]
      [] e.op = "free" -> [s |-> Round(s, e.amt), ra |-> FALSE, rr |-> FALSE]
      [] e.op = "delmiss" -> [s |-> ReadMisses(s).s, ra |-> FALSE, rr |-> FALSE]
      [] e.op \in {"dump", "fork"} -> [s |-> Restored(c, s), ra |-> FALSE, rr |-> FALSE]
      [] OTHER -> [s |-> s, ra |-> FALSE, rr |-> FALSE]
=============================================================================
