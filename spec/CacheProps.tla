------------------------------ MODULE CacheProps ----------------------------
(* The properties of the caches, each as a predicate on one step:           *)
(*   c    configuration          g     what the observer remembers (ghost)  *)
(*   pre  figures before         post  figures after                        *)
(*   e    operation with its answers (ra: added, rr: redirected, v: value)  *)
(* Each operator returns the set of the names of the clauses which fail, so *)
(* that {} means that the step is allowed.  A property looks only at the    *)
(* figures it is about: a step that breaks one property need not break the  *)
(* others.  The same operators are evaluated on every transition of the     *)
(* reference model (CacheMC) and of the recorded executions (CacheTrace).   *)
EXTENDS CacheModel

If(cond, name) == IF cond THEN {} ELSE {name}

Res(o) == Range2(o.q)
IsGet(e) == e.op = "get"
Hit(pre, e) == e.f \in Res(pre)
Served(e) == e.op = "get" /\ ~e.rr       \* a request which is not redirected
Gone(pre, post) == Res(pre) \ Res(post)
Sizes(o) == [x \in Res(o) |-> o.z[x]]
Plain(c) == c.type \in {"lru", "lfu", "sizeBig", "sizeSmall", "aiNN", "infinite"}
Unordered(c) == c.type \in {"random", "infinite"}   \* stored files in no particular order
Fits(pre, e) == pre.size + e.s <= pre.max

(* the operations after which nothing has to be related to what was before  *)
NewInstance(e) == e.op \in {"dump", "fork", "terminate"}

(* ------------------------------- C01 C02 C03 ---------------------------- *)
(* sizes and request counts with which the file takes its place             *)
FreqAfter(pre, e) == IF e.f \in DOMAIN pre.st THEN pre.st[e.f].fr + 1 ELSE 1
RanksAfter(c, pre, e) ==
    LET kind == OrderKind(c.type) IN
    [x \in Res(pre) \cup {e.f} |->
        IF x = e.f THEN RankOf(kind, e.s, FreqAfter(pre, e), 0)
        ELSE RankOf(kind, pre.z[x], IF x \in DOMAIN pre.st THEN pre.st[x].fr ELSE 0, 0)]

(* the order once f has been touched or has come in behind n evicted files  *)
OrderAfter(c, pre, e, n) ==
    LET k == RanksAfter(c, pre, e) IN
    IF Hit(pre, e) THEN UpdateRanked(pre.q, k, e.f)
    ELSE IF e.ra THEN InsertRanked(DropN(pre.q, n), k, e.f)
    ELSE DropN(pre.q, n)

IsSuffix2(s, t) == Len(s) <= Len(t) /\ s = DropN(t, Len(t) - Len(s))

OrderStep(c, pre, e, post) ==
    CASE e.op = "get" /\ e.rr -> If(post.q = pre.q, "redirect")
      [] e.op = "get" /\ Hit(pre, e) -> If(IsSuffix2(post.q, OrderAfter(c, pre, e, 0)), "hit")
      [] e.op = "get" -> If(\E n \in 0..Len(pre.q) : IsSuffix2(post.q, OrderAfter(c, pre, e, n)), "miss")
      [] e.op \in {"clear", "clearFiles", "terminate"} -> If(post.q = <<>>, "clear")
      [] e.op = "free" -> If(IsSuffix2(post.q, pre.q), "free")
      [] e.op \in {"dump", "fork"} -> {}
      [] OTHER -> If(post.q = pre.q, "other")

OrderStepIfOrdered(c, pre, e, post) ==
    IF OrderKind(c.type) = "none" THEN {} ELSE OrderStep(c, pre, e, post)

(* ------------------------------- C04 ------------------------------------ *)
LastGone(q, V) == LET w == SelectSeq(q, LAMBDA x : x \in V) IN w[Len(w)]
Enough(c, pre, V, amount) == SumOver(pre.z, V) >= amount \/ V = Res(pre)
NotTooMany(c, pre, V, amount) ==
    V = {} \/ (IF OrderKind(c.type) = "none" THEN \E v \in V : SumOver(pre.z, V \ {v}) < amount
               ELSE SumOver(pre.z, V \ {LastGone(pre.q, V)}) < amount)

EvictionStep(c, pre, e, post) ==
    IF e.op = "get" /\ ~c.wm THEN
        LET V == Gone(pre, post) IN
        IF Hit(pre, e) \/ e.rr \/ Fits(pre, e) \/ c.type = "infinite"
        THEN If(V = {}, "needless")
        ELSE IF e.ra
        THEN If(Enough(c, pre, V, e.s), "too little") \cup If(NotTooMany(c, pre, V, e.s), "too much")
             \cup If(e.f \in Res(post), "not stored")
        ELSE If(V = {} \/ (e.s > pre.max /\ V = Res(pre)), "refused")
             \cup If(Plain(c) /\ e.s <= pre.max => V = {}, "refused fitting")
             \cup If(Plain(c) => e.s > pre.max, "not admitted")
    ELSE IF e.op = "get" /\ c.wm THEN
        (* the watermark may remove more: see C10 *)
        If(Hit(pre, e) \/ e.rr \/ e.s > pre.max \/ ~Plain(c) \/ e.ra, "not admitted")
    ELSE IF e.op = "free" THEN
        LET V == Gone(pre, post) IN
        IF e.amt <= 0 THEN If(V = {}, "needless")
        ELSE If(Enough(c, pre, V, e.amt), "too little") \cup If(NotTooMany(c, pre, V, e.amt), "too much")
             \cup If(e.v = SumOver(pre.z, V), "answer")
    ELSE IF e.op \in {"clearStats", "delmiss", "extra"} THEN If(Gone(pre, post) = {}, "needless")
    ELSE {}

(* ------------------------------- C05 ------------------------------------ *)
(* drift: by how much files changed their size while they were stored; the  *)
(* code keeps the occupancy of their admission (known finding)              *)
Drift(o) == SumOver(o.z, Res(o)) - o.size
Resized(pre, e) == IF e.op = "get" /\ Hit(pre, e) THEN e.s - pre.z[e.f] ELSE 0

OccupancyStep(c, pre, e, post) ==
    LET d == Drift(post) - (IF e.op \in {"clear", "clearFiles", "terminate", "dump", "fork"} THEN 0 ELSE Drift(pre))
        known == IF e.op = "get" /\ Served(e) THEN Resized(pre, e) ELSE 0
    IN  If(d = 0 \/ d = known, "sum")
        \cup If(d = 0 \/ d # known, "KNOWN:size-change-of-a-stored-file")
        \cup If(Drift(pre) # 0 \/ Drift(post) # 0 \/ post.size <= post.max, "maximum")
        \cup If(Drift(pre) # 0 \/ Drift(post) # 0 \/ post.size >= 0, "negative")
        \cup If(post.max > 0 => Close(post.cap, Ratio(post.size, post.max, 5), 1), "capacity")
        \cup If(post.frac = 0, "fractional")
        \cup If(c.type = "infinite" \/ post.max = c.max, "configured maximum")

(* ------------------------------- C06 ------------------------------------ *)
MembershipStep(c, pre, e, post) ==
    If(NoDup(post.q) /\ (post.nf = Len(post.q) \/ post.nf = -1), "number of files")
    \cup
    (IF e.op = "get" THEN
        LET hit == Hit(pre, e) IN
        If(e.rr \/ post.hit - pre.hit = (IF hit THEN 1 ELSE 0), "hit")
        \cup If(Res(post) \subseteq Res(pre) \cup {e.f}, "stranger")
        \cup If(e.ra => ~hit /\ ~e.rr, "added on hit")
        \cup If(c.wm \/ (e.f \in Res(post) <=> (hit \/ e.ra)), "outcome")
        \cup If(e.f \in Res(post) => hit \/ e.ra, "outcome")
        \cup If(e.s > pre.max /\ c.type # "infinite" => ~e.ra, "too big")
        \cup If(Plain(c) /\ ~hit /\ ~e.rr /\ e.s <= pre.max => e.ra, "not stored")
        \cup If(c.red \/ ~e.rr, "redirected")
     ELSE IF NewInstance(e) THEN {}
     ELSE If(Res(post) \subseteq Res(pre), "stranger")
          \cup If(e.op = "free" \/ e.op \in {"clear", "clearFiles"} \/ Res(post) = Res(pre), "lost"))

(* ------------------------------- C07 ------------------------------------ *)
Counters == {"req", "hit", "add", "del", "dw", "dr", "drh", "drm", "dd"}
Delta(pre, post, x) == post[x] - pre[x]
(* size of the files which left, counting the requested one when it came in and left again *)
LeftCount(pre, e, post) == Len(pre.q) + (IF IsGet(e) /\ e.ra THEN 1 ELSE 0) - Len(post.q)
LeftSize(pre, e, post) ==
    SumOver(pre.z, Res(pre)) + (IF IsGet(e) /\ e.ra THEN e.s ELSE 0)
    + (IF IsGet(e) /\ Hit(pre, e) THEN e.s - pre.z[e.f] ELSE 0) - SumOver(post.z, Res(post))

Expect(pre, e, post) ==
    LET hit == Hit(pre, e) IN
    [req |-> 1, hit |-> IF hit THEN 1 ELSE 0, add |-> IF e.ra THEN 1 ELSE 0,
     del |-> LeftCount(pre, e, post), dw |-> IF e.ra THEN e.s ELSE 0, dr |-> e.s,
     drh |-> IF hit THEN e.s ELSE 0, drm |-> IF hit THEN 0 ELSE e.s, dd |-> LeftSize(pre, e, post)]

RateOk(o) ==
    LET n == o.req IN
    /\ IF n = 0 THEN o.hr = 0 ELSE Close(o.hr, Ratio(o.hit, n, 5), 1)
    /\ IF n = 0 THEN o.whr = 0 ELSE (AbsI(o.drh) < 20000000 => Close(o.whr, MulDiv(100 * o.drh, o.hit, n), 1))

AccountingStep(c, pre, e, post) ==
    LET same == {x \in Counters : post[x] # pre[x]}
        nz == {x \in Counters : post[x] # 0}
    IN
    (IF Served(e) THEN {x \in Counters : Delta(pre, post, x) # Expect(pre, e, post)[x]}
     ELSE IF e.op = "free" THEN
        {x \in Counters : Delta(pre, post, x) #
            (CASE x = "del" -> LeftCount(pre, e, post) [] x = "dd" -> LeftSize(pre, e, post) [] OTHER -> 0)}
     ELSE IF e.op \in {"clear", "clearStats", "terminate", "dump", "fork"} THEN nz
     ELSE same)
    \cup If(post.drh + post.drm = post.dr, "data read")
    \cup If(RateOk(post), "hit rate")
    \cup If(post.frac = 0, "fractional")

(* ------------------------------- C08 ------------------------------------ *)
(* ghost sums in thousandths of a percent: hs, ms (hit, miss), us, ls       *)
(* (upper, lower), un, ln (how many)                                        *)
CpuGhost0 == [hs |-> 0, ms |-> 0, us |-> 0, ls |-> 0, un |-> 0, ln |-> 0, n |-> 0, h |-> 0]
BoundDiff(c, g) ==
    CASE c.region = "" -> IF g.un > 0 /\ g.ln > 0
                          THEN MaxI(0, (g.us \div g.un) - (g.ls \div g.ln)) ELSE 0
      [] c.region = "it" -> 19000
      [] c.region = "us" -> 10000
      [] OTHER -> 0
CpuGhost(c, g, pre, e) ==
    IF ~Served(e) THEN g ELSE
    LET v == 250 * e.c                  \* e.c: quarters of a percent
        loc == v # 0 /\ e.p = 1
        rem == v # 0 /\ e.p = 0
        g1 == [g EXCEPT !.us = @ + (IF loc THEN v ELSE 0), !.un = @ + (IF loc THEN 1 ELSE 0),
                        !.ls = @ + (IF rem THEN v ELSE 0), !.ln = @ + (IF rem THEN 1 ELSE 0),
                        !.n = @ + 1, !.h = @ + (IF Hit(pre, e) THEN 1 ELSE 0)]
        d == BoundDiff(c, g1)
    IN  IF Hit(pre, e) THEN [g1 EXCEPT !.hs = @ + (IF loc THEN v ELSE IF rem THEN v + d ELSE 0)]
        ELSE [g1 EXCEPT !.ms = @ + (IF loc THEN v - d ELSE IF rem THEN v ELSE 0)]

(* mean of an observed figure: the sums above may be off by one per request *)
MeanOk(obs, sum, n, slack) == IF n = 0 THEN obs = NaN ELSE AbsI(obs - sum \div n) <= slack
CpuOk(g, o) ==
    If(MeanOk(o.cu, g.us, g.un, 1), "upper bound") \cup If(MeanOk(o.cl, g.ls, g.ln, 1), "lower bound")
    \cup If(MeanOk(o.ch, g.hs, g.h, 4), "hit efficiency")
    \cup If(MeanOk(o.cm, g.ms, g.n - g.h, 4), "miss efficiency")
    \cup If(MeanOk(o.ce, g.hs + g.ms, g.n, 4), "efficiency")
CpuNext(c, g, pre, e) ==
    IF e.op \in {"clear", "clearStats", "terminate", "dump", "fork"} THEN CpuGhost0 ELSE CpuGhost(c, g, pre, e)

(* ------------------------------- C09 ------------------------------------ *)
(* ghost: the samples.  af is 100 times the mean, sd 10 times the deviation *)
(* free space when the request was served, before the watermark acts        *)
MidSize(c, pre, e) ==
    LET n == IF Hit(pre, e) \/ Fits(pre, e) THEN 0 ELSE MinPrefix(pre.q, pre.z, e.s)
        kept == DropN(pre.q, n)
    IN  SumOver(pre.z, Range2(kept)) + (IF e.ra THEN e.s ELSE 0)
(* without watermarks the occupancy after the request is the observed one *)
FreeSample(c, pre, e, post) == post.max - (IF c.wm /\ (e.ra \/ Plain(c)) THEN MidSize(c, pre, e) ELSE post.size)
FreeNext(c, g, pre, e, post) ==
    IF e.op \in {"clear", "clearStats", "terminate", "dump", "fork"} THEN <<>>
    ELSE IF Served(e) THEN Append(g, FreeSample(c, pre, e, post)) ELSE g
FreeOk(g, o) ==
    LET n == Len(g)
        s1 == SumSeq(g)
        s2 == FoldLeft(LAMBDA a, x : a + x * x, 0, g)
        \* n(n-1) times the variance
        v == n * s2 - s1 * s1
        w == n * (n - 1)
        lo == MaxI(0, o.sd - 1)
        hi == o.sd + 1
        v100 == 100 * (v \div w) + (100 * (v % w)) \div w
    IN  If(IF n = 0 THEN o.af = NaN ELSE AbsI(o.af * n - 100 * s1) <= n, "average free space")
        \cup If(IF n < 2 THEN o.sd \in {NaN, 0} ELSE lo * lo <= v100 + 1 /\ v100 <= hi * hi, "deviation of free space")

(* ------------------------------- C10 ------------------------------------ *)
MidQueue(c, pre, e) ==
    LET n == IF Hit(pre, e) \/ Fits(pre, e) \/ (~e.ra /\ e.s <= pre.max) THEN 0
             ELSE IF ~e.ra /\ ~Plain(c) THEN 0 ELSE MinPrefix(pre.q, pre.z, e.s)
    IN  OrderAfter(c, pre, e, n)
WatermarkStep(c, pre, e, post) ==
    IF ~IsGet(e) THEN {}
    ELSE IF e.rr THEN If(post.q = pre.q, "redirect")
    ELSE IF ~c.wm THEN If(Hit(pre, e) \/ Fits(pre, e) => Gone(pre, post) = {}, "no watermark")
    ELSE
    LET q == MidQueue(c, pre, e)
        z == [x \in Range2(q) |-> IF x = e.f THEN e.s ELSE pre.z[x]]
        size == SumOver(z, Range2(q))
        V == Range2(q) \ Res(post)
        over == 100 * size - c.lo * post.max
        gone == 100 * SumOver(z, V)
    IN  IF 100 * size < c.hi * post.max
        THEN If(V = {}, "below the high watermark")
        ELSE If(gone >= over \/ V = Range2(q), "not enough")
             \cup If(V = {} \/ 100 * SumOver(z, V \ {LastGone(q, V)}) <= over, "too much")
             \cup If(over <= 0 \/ V # {}, "not started")
             \cup If(IsSuffix2(post.q, q), "order")
             \cup If(c.lo < c.hi => 100 * post.size < c.hi * post.max, "still above")

(* ------------------------------- C11 ------------------------------------ *)
ShouldRedirect(c, pre, e) == ~Hit(pre, e) /\ Redirects(c, pre)
AllButRedirect == Counters \cup {"size", "max", "cap", "q", "qs", "hr", "whr", "af", "sd", "ce", "ch", "cm", "cu", "cl", "nf", "st", "bw", "bwu"}
BwOk(c, o) == /\ o.bw = Bandwidth(c)
              /\ c.bwm = 0 \/ Close(o.bwu, Ratio(o.drm, Mb(c, Bandwidth(c)), 5), 1)
RedirectStep(c, pre, e, post) ==
    (IF IsGet(e) THEN
        If(e.rr = ShouldRedirect(c, pre, e), "when")
        \cup (IF e.rr
              THEN If(post.red = pre.red + 1 /\ post.reds = pre.reds + e.s, "redirected figures")
                   \cup If(~e.ra, "added")
                   \cup {x \in AllButRedirect \ (IF Unordered(c) THEN {"q", "qs"} ELSE {}) : post[x] # pre[x]}
                   \cup If(Res(post) = Res(pre) /\ post.z = pre.z, "files")
              ELSE If(post.red = pre.red /\ post.reds = pre.reds, "redirected figures"))
     ELSE IF e.op \in {"clear", "clearStats", "terminate", "dump", "fork"} THEN If(post.red = 0 /\ post.reds = 0, "cleared")
     ELSE If(post.red = pre.red /\ post.reds = pre.reds, "redirected figures"))
    \cup If(BwOk(c, post), "bandwidth")

(* ------------------------------- C12 ------------------------------------ *)
StatFields == {"s", "fr", "rec", "dl", "nh", "nm", "ti", "tl", "rt"}
SameStat(a, b) == \A x \in StatFields : a[x] = b[x]
BadFields(a, b) == {x \in StatFields : a[x] # b[x]}
StatsStep(c, g, pre, e, post) ==
    IF Served(e) THEN
        LET want == Tracked(c, [st |-> pre.st, tick |-> g.tick], e.f, e.s, e.t, Hit(pre, e)) IN
        (IF e.f \in DOMAIN post.st THEN BadFields(post.st[e.f], want)
         ELSE If(c.maxday <= 0 /\ e.f \notin Res(post), "not tracked"))
        \cup If(\A x \in (DOMAIN post.st) \ {e.f} : x \in DOMAIN pre.st /\ SameStat(pre.st[x], post.st[x]), "others")
        \cup If(Res(post) \subseteq DOMAIN post.st, "stored but not tracked")
    ELSE IF e.op \in {"get", "clearStats", "free", "delmiss", "extra"} THEN
        If(DOMAIN post.st = DOMAIN pre.st /\ \A x \in DOMAIN post.st : SameStat(pre.st[x], post.st[x]), "others")
    ELSE {}

(* ------------------------------- C13 ------------------------------------ *)
PurgeStep(c, g, pre, e, post) ==
    IF Served(e) THEN
        LET first == IF g.first = -1 THEN e.t ELSE g.first
            dirty == e.t - first >= c.step
            all == DOMAIN pre.st \cup {e.f}
            tl(x) == IF x = e.f THEN e.t ELSE pre.st[x].tl
            old == {x \in all : e.t - tl(x) >= c.maxday}
            \* files which the watermark may have removed after the purge
            maybe == IF c.wm THEN Res(pre) \cup {e.f} ELSE Res(post)
            have == DOMAIN post.st
        IN  If(have \subseteq all, "unknown files")
            \cup If(Res(post) \subseteq have, "stored but forgotten")
            \cup (IF dirty THEN If(all \ old \subseteq have, "young but forgotten")
                                \cup If((have \cap old) \subseteq maybe, "old but kept")
                  ELSE If(have = all, "forgotten too early"))
    ELSE IF e.op \in {"get", "clearStats", "clearFiles", "free", "delmiss", "extra"}
    THEN If(DOMAIN post.st = DOMAIN pre.st, "other operation") ELSE {}

(* ------------------------------- C14 ------------------------------------ *)
(* ghost [dm, tot, ok]: ok is FALSE while what is pending is not determined *)
MissGhost0 == [dm |-> Empty, tot |-> 0, ok |-> TRUE]
NewRound(g, V) == [g EXCEPT !.tot = @ + SumOver(g.dm, DOMAIN g.dm), !.dm = [x \in V |-> 0]]
MissNext(c, g, pre, e, post) ==
    CASE e.op = "get" ->
          LET g1 == IF ~Hit(pre, e) /\ e.f \in DOMAIN g.dm THEN [g EXCEPT !.dm[e.f] = @ + 1] ELSE g IN
          IF e.rr THEN g1 ELSE
          LET tries == ~Hit(pre, e) /\ ~Fits(pre, e) /\ (Plain(c) \/ e.ra) /\ c.type # "infinite"
              n == IF tries THEN MinPrefix(pre.q, pre.z, e.s) ELSE 0
              mid == IF c.wm THEN Range2(MidQueue(c, pre, e)) ELSE {}
              V1 == IF c.wm THEN Range2(TakeN(pre.q, n)) ELSE Gone(pre, post)
              V2 == IF c.wm THEN mid \ Res(post) ELSE {}
              g2 == IF tries THEN NewRound(g1, V1) ELSE g1
          IN  IF V2 # {} THEN NewRound(g2, V2) ELSE g2
      [] e.op = "free" -> NewRound(g, Gone(pre, post))
      [] e.op = "delmiss" -> [dm |-> [x \in DOMAIN g.dm |-> 0], tot |-> 0, ok |-> TRUE]
      [] e.op = "clear" -> [g EXCEPT !.ok = FALSE, !.dm = Empty]
      [] NewInstance(e) -> MissGhost0
      [] OTHER -> g
MissStep(c, g, pre, e, post) ==
    IF e.op = "delmiss" /\ g.ok THEN If(e.v = g.tot + SumOver(g.dm, DOMAIN g.dm), "count") ELSE {}

(* ------------------------------- C15 ------------------------------------ *)
Averages == {"af", "sd", "ce", "ch", "cm", "cu", "cl"}
ClearedFigures(post) == If(\A x \in Counters \cup {"red", "reds", "hr", "whr", "bwu"} : post[x] = 0, "figures")
                        \cup If(\A x \in Averages : post[x] = NaN \/ (x = "sd" /\ post[x] = 0), "averages")
KeptFigures(pre, post) == If(\A x \in Counters \cup Averages \cup {"red", "reds", "hr", "whr", "bwu"} : post[x] = pre[x], "figures")
(* the caches without order list their files in any order                   *)
SameFiles(c, pre, post) ==
    If(/\ IF Unordered(c) THEN Res(post) = Res(pre) ELSE post.q = pre.q
       /\ post.z = pre.z /\ post.size = pre.size, "files")
NoFiles(post) == If(post.q = <<>> /\ post.size = 0 /\ post.nf \in {0, -1} /\ post.cap = 0, "files")
ClearStep(c, pre, e, post) ==
    CASE e.op = "clearStats" -> ClearedFigures(post)
            \cup SameFiles(c, pre, post)
            \cup If(post.st = pre.st, "file statistics") \cup If(post.max = pre.max, "maximum")
      [] e.op = "clearFiles" -> KeptFigures(pre, post) \cup NoFiles(post) \cup If(post.max = pre.max, "maximum")
            \cup If(post.st = [x \in DOMAIN pre.st |-> [pre.st[x] EXCEPT !.rec = 0]], "file statistics")
      [] e.op = "clear" -> ClearedFigures(post) \cup NoFiles(post)
            \cup If(post.st = Empty, "file statistics") \cup If(post.max = pre.max, "maximum")
      [] OTHER -> {}
(* after a clear the cache serves as a new one with the same contents would *)
AfterClear(c, g, pre, e, post) ==
    OrderStepIfOrdered(c, pre, e, post) \cup EvictionStep(c, pre, e, post) \cup MembershipStep(c, pre, e, post)
    \cup AccountingStep(c, pre, e, post)
    \cup (IF c.type = "infinite" THEN {} ELSE StatsStep(c, g, pre, e, post))

(* ------------------------------- C16 ------------------------------------ *)
(* e.before and e.after are the figures of the dumped cache around the dump *)
SameFigures(c, a, b) ==
    SameFiles(c, a, b) \cup If(a.st = b.st, "file statistics")
    \cup If(\A x \in Counters \cup Averages \cup {"red", "reds", "hr", "whr", "bwu", "max", "cap"} : a[x] = b[x], "figures")
RestoreStep(c, pre, e, post, before, after) ==
    IF e.op \in {"dump", "fork"} THEN
        SameFiles(c, pre, post)
        \cup If(post.st = pre.st, "file statistics")
        \cup If(IF c.type = "infinite" THEN post.max = c.max + post.size ELSE post.max = pre.max, "maximum")
        \cup (IF SameFigures(c, pre, before) # {} \/ SameFigures(c, before, after) # {} THEN {"dump changes the cache"} ELSE {})
    ELSE {}
(* the same request to the restored cache and to the original               *)
TwinStep(c, e, post) ==
    IF e.op = "get" /\ "tw" \in DOMAIN e /\ c.type \notin {"random", "random_lru"}
    THEN If(e.tw.ra = e.ra /\ e.tw.rr = e.rr, "answer")
         \cup If(IF Unordered(c) THEN Range2(e.tw.q) = Res(post) ELSE e.tw.q = post.q, "files") \cup If(e.tw.size = post.size, "occupancy")
    ELSE {}

(* ------------------------------- C17 ------------------------------------ *)
(* g.k: draws so far; g.coins: what the seeded generator gives              *)
DrawNext(g, pre, e) == IF NewInstance(e) THEN [g EXCEPT !.k = 0]
                       ELSE IF Served(e) /\ ~Hit(pre, e) THEN [g EXCEPT !.k = @ + 1] ELSE g
RandomStep(c, g, pre, e, post) ==
    IF Served(e) /\ ~Hit(pre, e) THEN
        IF g.k + 1 > Len(g.coins) THEN {}
        ELSE LET coin == g.coins[g.k + 1] IN
             If(e.ra = (coin /\ e.s <= pre.max), "admission")
             \cup If(coin \/ c.wm \/ Gone(pre, post) = {}, "eviction without admission")
    ELSE IF IsGet(e) THEN If(~e.ra, "admission on hit") ELSE {}

(* ------------------------------- C18 ------------------------------------ *)
WeightStep(c, pre, e, post) ==
    IF Served(e) THEN
        LET old == e.f \in DOMAIN pre.st
            rt == AddTime(IF old THEN pre.st[e.f].rt ELSE <<>>, e.t)
            w == Weight4(c, FreqAfter(pre, e), e.s, MeanAge(rt, e.t))
            all == DOMAIN pre.st \cup {e.f}
            sum == SumOver([x \in all |-> IF x = e.f THEN w ELSE pre.st[x].w], all)
        IN  (IF e.f \in DOMAIN post.st THEN If(post.st[e.f].w = w, "weight") ELSE {})
            \cup If(Hit(pre, e) \/ e.ra = (w * Cardinality(all) <= sum /\ e.s <= pre.max), "admission")
            \cup If(\A x \in (DOMAIN post.st) \ {e.f} : x \in DOMAIN pre.st => post.st[x].w = pre.st[x].w, "weight of others")
    ELSE IF e.op = "extra" THEN
        LET n == Cardinality(DOMAIN pre.st)
            sum == SumOver([x \in DOMAIN pre.st |-> pre.st[x].w], DOMAIN pre.st)
        IN  If(IF n = 0 THEN TRUE ELSE AbsI(e.wavg * n - 25 * sum) <= n, "mean")
    ELSE {}

(* ------------------------------- C19 ------------------------------------ *)
(* ghost: files requested since the files were cleared                      *)
SeenNext(g, e) == IF e.op \in {"clear", "clearFiles", "terminate"} THEN {}
                  ELSE IF Served(e) THEN g \cup {e.f} ELSE g
InfiniteStep(c, g, pre, e, post) ==
    IF Served(e) THEN
        If(post.hit - pre.hit = (IF e.f \in g THEN 1 ELSE 0), "hit")
        \cup If(e.ra = (e.f \notin g), "added")
        \cup If(c.wm \/ Res(post) = g \cup {e.f}, "files")
        \cup If(post.max - pre.max = (IF e.ra THEN e.s ELSE 0), "maximum")
        \cup If(c.wm \/ post.size = pre.size + (IF e.ra THEN e.s ELSE 0), "occupancy")
    ELSE IF e.op \in {"dump", "fork"} THEN If(Res(post) = Res(pre) /\ post.size = pre.size /\ post.max = c.max + post.size, "restored")
    ELSE {}

(* ------------------------------- C20 ------------------------------------ *)
DatasetStep(c, pre, e, post) ==
    If(Res(post) \subseteq Range2(c.ds), "stranger")
    \cup (IF Served(e) /\ ~Hit(pre, e)
          THEN If(e.ra = (e.f \in Range2(c.ds) /\ e.s <= pre.max), "admission")
               \cup If(e.f \in Range2(c.ds) \/ c.wm \/ Gone(pre, post) = {}, "eviction for a stranger")
          ELSE {})
    \cup OrderStep(c, pre, e, post)

(* ------------------------------- C21 ------------------------------------ *)
(* rows: [t, e, cs, cc, f, s, nr, dt]                                       *)
Cap100(size, max) == IF max = 0 THEN 0 ELSE (10000 * size + max \div 2) \div max
Row(t, ev, size, max, f, s, nr, dt) == [t |-> t, e |-> ev, cs |-> size, cc |-> Cap100(size, max), f |-> f, s |-> s, nr |-> nr, dt |-> dt]
RECURSIVE DeleteRows(_, _, _, _, _, _)
DeleteRows(t, victims, z, st, size, max) ==
    IF victims = <<>> THEN <<>>
    ELSE LET f == Head(victims)
             left == size - z[f]
         IN  <<Row(t, "DELETE", left, max, f, z[f], IF f \in DOMAIN st THEN st[f].fr ELSE -5, IF f \in DOMAIN st THEN st[f].dl ELSE -5)>>
             \o DeleteRows(t, Tail(victims), z, st, left, max)
FreeRow(t, size, max) == Row(t, "FREE", size, max, -1, -1, -1, -1)

LogNext(c, g, tick, pre, e, post) ==
    CASE e.op = "get" ->
        LET hit == Hit(pre, e)
            r0 == <<Row(tick, IF hit THEN "HIT" ELSE "MISS", pre.size, pre.max, e.f, -1, -1, -1)>>
        IN  IF e.rr THEN g \o r0 \o <<Row(tick, "REDIRECT", pre.size, pre.max, e.f, e.s, -1, -1)>>
            ELSE
            LET st1 == With(pre.st, e.f, Tracked(c, [st |-> pre.st, tick |-> tick], e.f, e.s, e.t, hit))
                \* a round before the admission
                tries == ~hit /\ ~Fits(pre, e) /\ e.s > 0 /\ (Plain(c) \/ e.ra \/ Gone(pre, post) # {})
                n == IF tries THEN MinPrefix(pre.q, pre.z, e.s) ELSE 0
                V1 == IF c.type = "random" THEN <<>> ELSE TakeN(pre.q, n)
                r1 == IF tries THEN <<FreeRow(tick, pre.size, pre.max)>> \o DeleteRows(tick, V1, pre.z, pre.st, pre.size, pre.max) ELSE <<>>
                size1 == pre.size - SumOver(pre.z, Range2(V1))
                size2 == size1 + (IF e.ra THEN e.s ELSE 0)
                r2 == IF e.ra THEN <<Row(tick, "ADD", size2, pre.max, e.f, e.s, st1[e.f].fr, st1[e.f].dl)>> ELSE <<>>
                \* the watermark acts after the tick has advanced
                q2 == OrderAfter(c, pre, e, n)
                z2 == [x \in Range2(q2) |-> IF x = e.f THEN e.s ELSE pre.z[x]]
                over == 100 * size2 - c.lo * pre.max
                trig == c.wm /\ 100 * size2 >= c.hi * pre.max /\ over > 0
                V2 == SelectSeq(q2, LAMBDA x : x \notin Res(post))
                r3 == IF trig THEN <<FreeRow(tick + 1, size2, pre.max)>> \o DeleteRows(tick + 1, V2, z2, st1, size2, pre.max) ELSE <<>>
            IN  g \o r0 \o r1 \o r2 \o r3
      [] e.op = "free" ->
        LET V == SelectSeq(pre.q, LAMBDA x : x \notin Res(post)) IN
        IF e.amt > 0 THEN g \o <<FreeRow(tick, pre.size, pre.max)>> \o DeleteRows(tick, V, pre.z, pre.st, pre.size, pre.max) ELSE g
      [] NewInstance(e) -> <<>>
      [] OTHER -> g

SameRow(a, b) == /\ a.t = b.t /\ a.e = b.e /\ a.cs = b.cs /\ AbsI(a.cc - b.cc) <= 1
                 /\ a.f = b.f /\ a.s = b.s /\ a.nr = b.nr /\ a.dt = b.dt
LogStep(g, e) ==
    IF e.op # "terminate" THEN {}
    ELSE IF e.logbad # "" THEN {"unreadable"}
    ELSE IF Len(e.log) # Len(g) THEN {"number of rows"}
    ELSE If(\A i \in 1..Len(g) : SameRow(e.log[i], g[i]), "rows")

(* ------------------------------- C26 ------------------------------------ *)
(* the whole step is the one of the reference model                         *)
StateOf(g, pre) == [x \in {"size", "max", "req", "hit", "add", "del", "red", "reds", "dw", "dr", "drh", "drm", "dd", "q", "st", "z"} |-> pre[x]]
                   @@ [tick |-> g.tick, first |-> g.first, last |-> g.last, dm |-> Empty, tot |-> 0]
ReferenceStep(c, g, coin, pre, e, post) ==
    IF e.op \in {"terminate", "extra"} \/ c.type \in {"random", "aiRL"} \/ (Unordered(c) /\ (e.op = "free" \/ (e.op = "get" /\ c.wm))) THEN {}
    ELSE LET r == Operation(c, StateOf(g, pre), e, coin) IN
         If(IF Unordered(c) THEN Residents(r.s) = Res(post) ELSE r.s.q = post.q, "q") \cup
         {x \in {"size", "max", "req", "hit", "add", "del", "red", "reds", "dw", "dr", "drh", "drm", "dd"} : r.s[x] # post[x]}
         \cup If(r.s.z = post.z, "sizes")
         \cup If(c.type = "infinite" \/
                 (DOMAIN r.s.st = DOMAIN post.st /\ \A x \in DOMAIN post.st : SameStat(r.s.st[x], post.st[x])), "file statistics")
         \cup (IF e.op = "get" THEN If(r.ra = e.ra /\ r.rr = e.rr, "answer") ELSE {})
=============================================================================
