----------------------------- MODULE ProbeModel -----------------------------
(* Reading the results of simulations back (Probe): the log of the choices,  *)
(* the files of the results, and the tables of their measures.                *)
(* A row of a log: t tick, e action or event, cs size, cc occupancy, f file, *)
(* s size, nr number of requests (sizes in hundredths).                       *)
EXTENDS Util, SequencesExt

Events == {"ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"}
Actions == {"KEEP", "DELETE"}

-----------------------------------------------------------------------------
(* the reader *)
(* One pass over the rows.                                                    *)
(*   open, cur     there is a round, the last one                             *)
(*   acting        the rows of its actions have not ended                     *)
(*   gone, group   the files of the last group of deletions which are not    *)
(*                 missed since (file, requests); the group has not ended     *)
Nothing == [t |-> 0, e |-> "", cs |-> 0, cc |-> 0, files |-> {}, sz |-> 0, nm |-> 0]
Start == [open |-> FALSE, out |-> <<>>, cur |-> Nothing, acting |-> FALSE, gone |-> {}, group |-> FALSE, dels |-> <<>>, skips |-> <<>>]
Opened(w) == [Nothing EXCEPT !.t = w.t, !.e = w.e, !.cs = w.cs, !.cc = w.cc]
Step(s, w) ==
    LET ev == w.e \in Events
        act == s.open /\ s.acting /\ w.e \in Actions
        known == {x \in s.gone : x[1] = w.f}
    IN  [open |-> s.open \/ ev,
         out |-> IF ev /\ s.open THEN Append(s.out, s.cur) ELSE s.out,
         acting |-> ev \/ act,
         cur |-> IF ev THEN Opened(w)
                 ELSE IF act THEN (IF w.e = "DELETE" THEN [s.cur EXCEPT !.files = @ \cup {w.f}, !.sz = @ + w.s] ELSE s.cur)
                 ELSE IF s.open /\ w.e = "MISS" /\ w.f \in s.cur.files THEN [s.cur EXCEPT !.nm = @ + 1]
                 ELSE s.cur,
         group |-> w.e = "DELETE" \/ (s.group /\ w.e = "KEEP"),
         gone |-> IF w.e = "DELETE" THEN (IF s.group THEN s.gone \ known ELSE {}) \cup {<<w.f, w.nr>>}
                  ELSE IF w.e = "MISS" THEN s.gone \ known ELSE s.gone,
         dels |-> IF w.e = "MISS" /\ known # {} THEN Append(s.dels, (CHOOSE x \in known : TRUE)[2]) ELSE s.dels,
         skips |-> IF w.e = "SKIP" THEN Append(s.skips, w.nr) ELSE s.skips]
Read(log) == FoldLeft(Step, Start, log)
Shown(r) == [t |-> r.t, e |-> r.e, cs |-> r.cs, cc |-> r.cc, nd |-> Cardinality(r.files), sz |-> r.sz, nm |-> r.nm]
RoundsOf(s) == LET l == IF s.open THEN Append(s.out, s.cur) ELSE s.out IN [i \in DOMAIN l |-> Shown(l[i])]

-----------------------------------------------------------------------------
(* the same, said of the log as a whole *)
Starts(log) == SetToSortSeq({i \in DOMAIN log : log[i].e \in Events}, <)
RECURSIVE SizeOf(_, _)
SizeOf(log, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN log[i].s + SizeOf(log, S \ {i})
Whole(log) ==
    LET b == Starts(log)
    IN  [k \in DOMAIN b |->
            LET i == b[k]
                end == IF k < Len(b) THEN b[k + 1] - 1 ELSE Len(log)
                acts == {j \in i + 1..end : \A x \in i + 1..j : log[x].e \in Actions}
                d == {j \in acts : log[j].e = "DELETE"}
                files == {log[j].f : j \in d}
            IN  [t |-> log[i].t, e |-> log[i].e, cs |-> log[i].cs, cc |-> log[i].cc, nd |-> Cardinality(files), sz |-> SizeOf(log, d),
                 nm |-> Cardinality({j \in i + 1..end : j \notin acts /\ log[j].e = "MISS" /\ log[j].f \in files})]]
(* the row of the last group of deletions before row i that deleted its file,*)
(* if it was not missed between (0: none)                                     *)
DeletedBy(log, i) ==
    LET before == {j \in 1..i - 1 : log[j].e = "DELETE"}
        last == IF before = {} THEN 0 ELSE Max(before)
        group == {j \in before : \A x \in j..last : log[x].e \in Actions}
        mine == {j \in group : log[j].f = log[i].f /\ \A x \in j + 1..i - 1 : ~(log[x].e = "MISS" /\ log[x].f = log[i].f)}
    IN  IF mine = {} THEN 0 ELSE Max(mine)
Back(log) ==
    LET b == SetToSortSeq({i \in DOMAIN log : log[i].e = "MISS" /\ DeletedBy(log, i) # 0}, <)
    IN  [k \in DOMAIN b |-> log[DeletedBy(log, b[k])].nr]
Skipped(log) == LET b == SetToSortSeq({i \in DOMAIN log : log[i].e = "SKIP"}, <) IN [k \in DOMAIN b |-> log[b[k]].nr]

-----------------------------------------------------------------------------
(* the results *)
(* cfg.results[r]: fold (which folder), comps (the folders above the file:   *)
(* kind k, name, essential part a), rows, cols, haslog, log                   *)
Features(c) ==
    CASE c.k = "plain" -> {c.name}
      [] c.k = "alg" -> {c.a}
      [] c.k = "weight" -> {"weightFunLRU_" \o c.a}
      [] OTHER -> {"aiRL"} \cup (IF c.a = "" THEN {} ELSE {c.a})
Of(cfg, r) == {cfg.folders[cfg.results[r].fold]} \cup UNION {Features(cfg.results[r].comps[j]) : j \in DOMAIN cfg.results[r].comps}
Selected(cfg, r, e) == Range(e.all) \subseteq Of(cfg, r) /\ (e.any # <<>> => Range(e.any) \cap Of(cfg, r) # {})
There(cfg, fold) == {r \in DOMAIN cfg.results : cfg.results[r].fold \in Range(fold)}

Sum(l, f(_)) == FoldLeft(LAMBDA t, w : t + f(w), 0, l)
(* measures, in millionths; everything divides exactly                       *)
Has(x, c) == c \in Range(x.cols)
Mean(x, f(_)) == Sum(x.rows, f) * (1000000 \div Len(x.rows))
MeanOver(x, f(_), c) == Sum(x.rows, f) * (1000000 \div (c * Len(x.rows)))
MeanPercent(x, f(_), g(_)) == Sum(x.rows, LAMBDA w : f(w) * (100000000 \div (g(w) * Len(x.rows))))
Size(x) == x.rows[1].c
Measure(x, m) ==
    CASE m = "Throughput" -> MeanOver(x, LAMBDA w : w.h - w.w, Size(x))
      [] m = "Cost" -> IF Has(x, "deleted data") THEN MeanOver(x, LAMBDA w : w.w + w.d, Size(x)) ELSE 0
      [] m = "Throughput (TB)" -> Mean(x, LAMBDA w : w.h - w.w)
      [] m = "Cost (TB)" -> IF Has(x, "deleted data") THEN Mean(x, LAMBDA w : w.w + w.d) ELSE 0
      [] m = "Read on hit ratio" -> MeanPercent(x, LAMBDA w : w.h, LAMBDA w : w.r)
      [] m = "Read on hit (TB)" -> Mean(x, LAMBDA w : w.h)
      [] m = "Bandwidth" -> IF Has(x, "bandwidth usage") THEN Mean(x, LAMBDA w : w.b) ELSE 0
      [] m = "Bandwidth (TB)" -> Mean(x, LAMBDA w : w.m)
      [] m = "Redirect Vol." -> IF Has(x, "size redirected") THEN MeanPercent(x, LAMBDA w : w.x, LAMBDA w : w.c) ELSE 0
      [] m = "Avg. Free Space" -> IF Has(x, "avg free space") THEN MeanPercent(x, LAMBDA w : w.a, LAMBDA w : w.c) ELSE 0
      [] m = "Std. Dev. Free Space" -> IF Has(x, "std dev free space") THEN MeanPercent(x, LAMBDA w : w.s, LAMBDA w : w.c) ELSE 0
      [] m = "Hit over Miss" -> Sum(x.rows, LAMBDA w : w.h * (1000000 \div (w.m * Len(x.rows))))
      [] m = "Num. miss after del." -> IF Has(x, "num miss after delete") THEN Mean(x, LAMBDA w : w.k) ELSE 0
      [] m = "Hit rate" -> IF Has(x, "hit rate") THEN Mean(x, LAMBDA w : w.g) ELSE 0
      [] m \in {"CPU Eff.", "CPU efficiency"} -> IF Has(x, "CPU efficiency") THEN Mean(x, LAMBDA w : w.e) ELSE 0
Short == <<"Throughput", "Cost", "Read on hit ratio", "Bandwidth", "Num. miss after del.", "CPU Eff.">>
Long == <<"Throughput", "Cost", "Throughput (TB)", "Cost (TB)", "Read on hit ratio", "Read on hit (TB)", "Bandwidth", "Bandwidth (TB)", "Redirect Vol.",
          "Avg. Free Space", "Std. Dev. Free Space", "Hit over Miss", "Num. miss after del.", "Hit rate", "CPU Eff.">>
Single == <<"Throughput", "Cost", "Read on hit ratio", "Bandwidth", "Num. miss after del.", "CPU efficiency">>
(* a row of a table goes before another one                                   *)
Key(x, roh) ==
    LET t == Measure(x, "Throughput") c == 0 - Measure(x, "Cost") h == Measure(x, "Read on hit ratio") m == Measure(x, "Num. miss after del.")
    IN  IF roh THEN <<h, t, c, m>> ELSE <<t, c, h, m>>
Before(a, b) == \E i \in 1..4 : a[i] > b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
Row(x, cols) == [j \in DOMAIN cols |-> Measure(x, cols[j])]

(* the name of a result: its folders; in a table some of them are not shown   *)
(* and some in other words                                                    *)
RECURSIVE Joined(_, _)
Joined(l, by) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o by \o Joined(Tail(l), by)
Folders(cfg, r, prefix) ==
    (IF prefix /\ cfg.results[r].fold = 1 THEN <<>> ELSE <<cfg.folders[cfg.results[r].fold]>>)
    \o [j \in DOMAIN cfg.results[r].comps |-> cfg.results[r].comps[j].name]
Words(n) ==
    CASE n \in {"run_full_normal", "epsilon_test", "random_cache_test", "100T"} -> <<>>
      [] n = "no_size_feature" -> <<"[NO size feature]">>
      [] n = "no_num_req_feature" -> <<"[NO num_req feature]">>
      [] n \in {"slow", "fast"} -> <<"[epsilon " \o n \o "]">>
      [] OTHER -> <<n>>
InTable(l) == Joined(FoldLeft(LAMBDA a, n : a \o Words(n), <<>>, l), " ")

-----------------------------------------------------------------------------
(* judging *)
If2(b, what) == IF b THEN {} ELSE {what}
Expected(x, target) == LET s == Read(x.log) IN IF target = "AFTERDELETE" THEN RoundsOf(s) ELSE <<[dels |-> s.dels, skips |-> s.skips]>>
(* open: the folders which are open; e.ans what the operation gave            *)
ProbeStep(cfg, open, e) ==
    IF e.exc # "" THEN {"answer"} ELSE
    LET a == e.ans
        X(r) == cfg.results[r]
    IN
    CASE e.op = "open" ->
            LET all == There(cfg, e.fold)
            IN  If2(Range(a.files) = all /\ Len(a.files) = Cardinality(all) /\ a.n = Cardinality(all), "results")
                \cup If2(Range(a.comps) = UNION {Of(cfg, r) : r \in all} /\ Len(a.comps) = Cardinality(Range(a.comps)), "components")
      [] e.op = "df" ->
            If2(IF Selected(cfg, e.r, e) THEN a.there = 1 /\ a.rows = [i \in DOMAIN X(e.r).rows |-> [date |-> X(e.r).rows[i].date, n |-> X(e.r).rows[i].n]] ELSE a.there = 0, "result")
      [] e.op = "log" ->
            If2(IF Selected(cfg, e.r, e) /\ X(e.r).haslog THEN a.there = 1 /\ a.rows = [i \in DOMAIN X(e.r).log |-> [t |-> X(e.r).log[i].t, e |-> X(e.r).log[i].e, f |-> X(e.r).log[i].f]] ELSE a.there = 0, "log")
      [] e.op = "report" ->
            LET scope == IF e.all THEN There(cfg, open) ELSE Range(e.rs)
                got(r) == {a.out[i].l : i \in {i \in DOMAIN a.out : a.out[i].r = r}}
            IN  If2(Len(a.out) = Cardinality({a.out[i].r : i \in DOMAIN a.out}) /\ \A i \in DOMAIN a.out : a.out[i].r \in scope, "names")
                \cup If2(\A i \in DOMAIN a.out : a.out[i].r \in scope => a.out[i].name = Joined(Folders(cfg, a.out[i].r, e.prefix), "/"), "name")
                \cup If2(\A r \in scope :
                            IF ~X(r).haslog THEN got(r) \subseteq {<<>>}
                            ELSE LET x == Expected(X(r), e.target) IN IF x = <<>> /\ e.gen THEN got(r) = {} ELSE got(r) = {x}, "evaluation of the log")
      [] e.op = "table" ->
            LET cols == IF e.ext THEN Long ELSE Short
                n == IF e.top = 0 THEN Len(e.rs) ELSE MinI(e.top, Len(e.rs))
                key == [r \in Range(e.rs) |-> Key(X(r), e.roh)]
            IN  If2(Len(a.src) = n /\ Range(a.src) \subseteq Range(e.rs) /\ Cardinality(Range(a.src)) = n /\ a.file = a.src /\ Len(a.v) = n, "rows")
                \cup (IF Len(a.src) # n \/ Len(a.v) # n \/ ~(Range(a.src) \subseteq Range(e.rs)) THEN {}
                      ELSE If2(\A i \in DOMAIN a.src : a.names[i] = InTable(Folders(cfg, a.src[i], e.prefix)), "names")
                           \cup If2(\A i \in DOMAIN a.src : a.v[i] = Row(X(a.src[i]), cols), "measures")
                           \cup If2(\A i \in 1..n - 1 : ~Before(key[a.src[i + 1]], key[a.src[i]]), "order")
                           \cup If2(\A r \in Range(e.rs) \ Range(a.src) : \A i \in DOMAIN a.src : ~Before(key[r], key[a.src[i]]), "best ones"))
                \cup If2(a.cols = cols, "columns")
      [] e.op = "metrics" ->
            LET one(x, i) == Row([x EXCEPT !.rows = <<x.rows[i]>>], Single)
                all == FoldLeft(LAMBDA l, r : l \o [i \in DOMAIN X(r).rows |-> one(X(r), i)], <<>>, e.rs)
            IN  If2(a.cols = Single /\ a.v = all, "metrics")
=============================================================================
