------------------------------- MODULE SimModel -----------------------------
(* A simulation: the records of a dataset are selected and requested to a   *)
(* cache, day by day.                                                       *)
(* Stage st: win, wstart, wstop (window), filt (name of the filters), dump, *)
(* dumpfs, load, cold, coldns.                                              *)
(* Record r: t time, f file, s size, p protocol, cpu, io times, site, user, *)
(* dt data type, ft file type, ok success flag, ex exit code.               *)
EXTENDS CacheProps

DayLength == 82800        \* 23 hours

(* ------------------------------ selection ------------------------------- *)
Success(r) == r.ok /\ r.ex = 0
UsData(r) == r.dt \in {0, 3}
ItData(r) == r.dt \in {0, 1}
Mini(r) == r.ft \in {2, 9}
UsMini(r) == Mini(r) /\ r.site < 9
UsMiniNoFnal(r) == Mini(r) /\ r.site \notin {9, 16}
UsMiniNoLpc(r) == Mini(r) /\ r.site # 16
Accepts(filt, r) ==
    CASE filt = "us" -> UsData(r) /\ UsMini(r)
      [] filt = "it" -> ItData(r)
      [] filt = "usNoFnal" -> UsMiniNoFnal(r)
      [] filt = "usNoLpc" -> UsData(r) /\ UsMiniNoLpc(r)
      [] filt = "usData" -> UsData(r)
      [] OTHER -> TRUE
(* the CPU efficiency is a number within 0 and 100 percent *)
Valid(r) == LET n == r.cpu + r.io IN n # 0 /\ (IF n > 0 THEN 0 <= r.cpu /\ r.cpu <= n ELSE n <= r.cpu /\ r.cpu <= 0)
Outcome(st, r) == IF ~(Success(r) /\ Accepts(st.filt, r)) THEN "filtered"
                  ELSE IF ~Valid(r) THEN "invalid" ELSE "requested"
(* efficiency in quarters of a percent: valid records have |cpu + io| = 400 *)
RequestOf(r) == [op |-> "get", f |-> r.f, s |-> r.s, p |-> r.p, t |-> r.t,
                 c |-> IF r.cpu + r.io > 0 THEN r.cpu ELSE -r.cpu]

(* ------------------------------ one simulation -------------------------- *)
(* lt: record which began the day (-1: none); step: days of this window;    *)
(* w: window; over: stopped; n, bytes: requested in this day                *)
Sel0 == [lt |-> -1, step |-> 0, w |-> 0, over |-> FALSE, tot |-> 0, jump |-> 0, filt |-> 0, inv |-> 0,
         n |-> 0, bytes |-> 0, requested |-> 0]
Start(c, st, dumped) ==
    [sel |-> Sel0, rows |-> <<>>, k |-> 0, cpu |-> CpuGhost0, free |-> <<>>, red |-> 0, reds |-> 0,
     m |-> IF ~st.load THEN Initial(c)
           ELSE IF ~st.cold THEN Restored(c, dumped)
           ELSE IF st.coldns THEN ClearAll(Restored(c, dumped)) ELSE ClearFiles(Restored(c, dumped))]

NewDay(sel, r) == sel.lt # -1 /\ r.t - sel.lt >= DayLength

(* the way of one record through a simulation, whatever the cache does:     *)
(* [sel, closes (a day ends before it), writes (with a row), asks]          *)
Select(st, s0, r) ==
    IF s0.over THEN [sel |-> s0, closes |-> FALSE, writes |-> FALSE, asks |-> FALSE]
    ELSE
    LET closes == NewDay(s0, r)
        s1 == IF s0.lt = -1 THEN [s0 EXCEPT !.lt = r.t]
              ELSE IF closes THEN [s0 EXCEPT !.lt = r.t, !.step = @ + 1, !.n = 0, !.bytes = 0] ELSE s0
        s2 == IF s1.step = st.win THEN [s1 EXCEPT !.w = @ + 1, !.step = 0] ELSE s1
        s3 == IF s2.w = st.wstop THEN [s2 EXCEPT !.over = TRUE] ELSE s2
        o == Outcome(st, r)
        s4 == [s3 EXCEPT !.tot = @ + 1]
        done(s, asks) == [sel |-> s, closes |-> closes, writes |-> closes /\ s0.w >= st.wstart, asks |-> asks]
    IN  IF s3.over THEN done(s3, FALSE)
        ELSE IF s4.w < st.wstart THEN done([s4 EXCEPT !.jump = @ + 1], FALSE)
        ELSE IF o = "filtered" THEN done([s4 EXCEPT !.filt = @ + 1], FALSE)
        ELSE IF o = "invalid" THEN done([s4 EXCEPT !.inv = @ + 1], FALSE)
        ELSE done([s4 EXCEPT !.n = @ + 1, !.bytes = @ + r.s, !.requested = @ + 1], TRUE)

(* what is written when a day ends                                          *)
RowOf(x, v) == [date |-> x.sel.lt, n |-> x.sel.n, bytes |-> x.sel.bytes, miss |-> v, m |-> x.m, cpu |-> x.cpu, free |-> x.free]
CloseDay(x, writes) ==
    LET rm == ReadMisses(x.m)
        m1 == IF writes THEN rm.s ELSE x.m
    IN  [x EXCEPT !.rows = IF writes THEN Append(@, RowOf(x, rm.v)) ELSE @,
                  !.m = ClearStats(m1), !.cpu = CpuGhost0, !.free = <<>>]

Ask(c, st, x, r, coin) ==
    LET e0 == RequestOf(r)
        res == Operation(c, x.m, e0, coin)
        e == e0 @@ [ra |-> res.ra, rr |-> res.rr]
    IN  [x EXCEPT !.m = res.s,
                  !.cpu = CpuNext(c, @, x.m, e), !.free = FreeNext(c, @, x.m, e, res.s),
                  !.k = IF Served(e) /\ ~Hit(x.m, e) THEN @ + 1 ELSE @,
                  !.red = @ + (IF res.rr THEN 1 ELSE 0), !.reds = @ + (IF res.rr THEN r.s ELSE 0)]

Rec(c, st, x0, r, coin) ==
    LET p == Select(st, x0.sel, r)
        x1 == IF p.closes THEN CloseDay(x0, p.writes) ELSE x0
        x2 == [x1 EXCEPT !.sel = p.sel]
    IN  IF p.asks THEN Ask(c, st, x2, r, coin) ELSE x2

(* the operations on the cache which make up a simulation of stage st, for  *)
(* caches which are asked directly (C32)                                    *)
StartOps(st) ==
    (IF ~st.load THEN <<>>
     ELSE IF ~st.cold THEN <<>>
     ELSE IF st.coldns THEN <<[op |-> "clear"]>> ELSE <<[op |-> "clearFiles"]>>)
EndOfDay(writes) == (IF writes THEN <<[op |-> "delmiss", obs |-> TRUE]>> ELSE <<>>) \o <<[op |-> "clearStats"]>>
GetOf(r) == RequestOf(r) @@ [site |-> r.site, user |-> r.user, ft |-> r.ft]
Operations(st, data) ==
    FoldLeft(LAMBDA a, r :
                LET p == Select(st, a.sel, r) IN
                [sel |-> p.sel,
                 dates |-> IF p.writes THEN Append(a.dates, a.sel.lt) ELSE a.dates,
                 ops |-> a.ops \o (IF p.closes THEN EndOfDay(p.writes) ELSE <<>>) \o (IF p.asks THEN <<GetOf(r)>> ELSE <<>>)],
             [sel |-> Sel0, dates |-> <<>>, ops |-> StartOps(st)], data)

(* ------------------------------ judging --------------------------------- *)
(* C22: the rows there are, their dates, what was requested in each day     *)
DayRow(row, w) ==
    If(row.date = w.date, "date") \cup If(row.req + row.red = w.n, "requests of the day")
    \cup If(row.dr + row.reds = w.bytes, "data of the day") \cup If(row.frac = 0, "fractional")
    \cup If(row.drh + row.drm = row.dr /\ row.hit <= row.req, "figures of another day")
    \cup If(row.add <= row.req - row.hit, "added files of another day")
    \cup If(row.dw <= row.drm, "written data of another day")
    \cup If(row.hit = 0 => row.drh = 0 /\ row.ch = NaN, "hits of another day")
    \cup If(row.hit = row.req => row.drm = 0 /\ row.cm = NaN, "misses of another day")
    \cup If((row.req = 0) = (row.af = NaN), "free space of another day")
SimDays(c, x, e) ==
    If(e.bad = "", "readable")
    \cup (IF Len(e.rows) # Len(x.rows) THEN {"number of rows"}
          ELSE UNION {DayRow(e.rows[i], x.rows[i]) : i \in 1..Len(e.rows)})
    \cup If(e.obs.req + e.obs.red = x.sel.n /\ e.obs.dr + e.obs.reds = x.sel.bytes, "requests of the last day")

(* C23: the run statistics; the rows account for every requested record     *)
SimCounts(c, x, e) ==
    If(e.bad = "", "readable")
    \cup If(e.rs.tot = x.sel.tot, "records") \cup If(e.rs.jump = x.sel.jump, "skipped")
    \cup If(e.rs.filt = x.sel.filt, "filtered") \cup If(e.rs.inv = x.sel.inv, "invalid")
    \cup If(e.rs.red = x.red /\ e.rs.reds = x.reds, "redirected")
    \cup If(FoldLeft(LAMBDA a, w : a + w.req + w.red, e.obs.req + e.obs.red, e.rows) = x.sel.requested, "requested")
    \cup If(FoldLeft(LAMBDA a, w : a + w.red, e.obs.red, e.rows) = e.rs.red, "redirected in rows")

(* C25: everything                                                          *)
RowFigures == {"req", "hit", "add", "del", "red", "reds", "max", "size", "dw", "dr", "drh", "drm", "dd"}
SmallEnough(c, g) == c.max <= 200 /\ Len(g) <= 100 /\ (c.type = "infinite" => FALSE)
FullRow(c, row, w) ==
    {x \in RowFigures : row[x] # w.m[x]}
    \cup If(row.date = w.date, "date")
    \cup If(row.miss = w.miss, "misses after delete")
    \cup CpuOk(w.cpu, row)
    \cup (IF SmallEnough(c, w.free) THEN FreeOk(w.free, row) ELSE {})
    \cup If(row.max > 0 => Close(row.cap, Ratio(row.size, row.max, 5), 1), "capacity")
    \cup If(BwOk(c, row), "bandwidth")
    \cup If(IF row.req = 0 THEN row.hr = 0 ELSE Close(row.hr, Ratio(row.hit, row.req, 5), 6), "hit rate")
    \cup If(IF row.req = 0 THEN row.whr = 0 ELSE (AbsI(row.drh) < 20000000 => Close(row.whr, MulDiv(100 * row.drh, row.hit, row.req), 2)), "weighted hit rate")
SameCache(c, m, o) ==
    If(IF Unordered(c) THEN Residents(m) = Res(o) ELSE m.q = o.q, "final order")
    \cup If(m.z = o.z, "final sizes")
    \cup {x \in RowFigures : o[x] # m[x]}
    \cup If(c.type = "infinite" \/ (DOMAIN m.st = DOMAIN o.st /\ \A x \in DOMAIN o.st : SameStat(m.st[x], o.st[x])), "final file statistics")
SimAll(c, st, x, e, o, dobs) ==
    If(e.bad = "", "readable")
    \cup (IF Len(e.rows) # Len(x.rows) THEN {"number of rows"}
          ELSE UNION {FullRow(c, e.rows[i], x.rows[i]) : i \in 1..Len(e.rows)})
    \cup SameCache(c, x.m, o)
    \cup If(e.hasdump = st.dump, "dump")
    \cup (IF ~st.dump THEN {}
          ELSE IF st.dumpfs THEN {"dump: " \o y : y \in SameCache(c, Restored(c, x.m), dobs)}
          ELSE {"empty dump: " \o y : y \in SameCache(c, Initial(c), dobs)})
Dumped(c, st, x, dumped) == IF ~st.dump THEN dumped ELSE IF st.dumpfs THEN x.m ELSE Initial(c)
=============================================================================
