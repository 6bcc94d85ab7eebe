---------------------------- MODULE DatasetModel ----------------------------
(* Popularity records and the stages that turn them into a data set.         *)
(* A request is [n, comps, type, cpu, path]: its number, the components of   *)
(* the path of its file, its type and its CPU time.                          *)
EXTENDS Util, SequencesExt

If(cond, name) == IF cond THEN {} ELSE {name}
Bag(s) == LET S == Range2(s) IN [x \in S |-> Cardinality({j \in DOMAIN s : s[j] = x})]
Flat(bs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, bs)

(* ---- records ------------------------------------------------------------ *)
Analysed(r) == r.type = "analysis"
HasFeatures(r) == Len(r.comps) >= 5
Popular(r) == HasFeatures(r) /\ r.comps[2] \in {"data", "mc"}
Features(r) == IF HasFeatures(r) THEN <<[k |-> "campaign", v |-> r.comps[3]], [k |-> "file_type", v |-> r.comps[5]],
                                        [k |-> "process", v |-> r.comps[4]], [k |-> "store_type", v |-> r.comps[2]]>> ELSE <<>>
(* the numbers of the ids: one for each list of features                     *)
SeenIn(e) ==
    IF "panic" \in DOMAIN e THEN {}
    ELSE IF e.op = "pop" THEN IF e.id # 0 THEN {<<e.f, e.id>>} ELSE {}
    ELSE IF e.op = "merge" THEN {<<e.r.f, e.r.id>>}
    ELSE IF e.op = "stage" /\ e.stage # "raw" THEN {<<e.out[j].f, e.out[j].id>> : j \in DOMAIN e.out}
    ELSE {}
OneId(ids) == \A x, y \in ids : (x[1] = y[1]) = (x[2] = y[2])

(* ---- stages -------------------------------------------------------------- *)
RawOut(rs, nf) == LET a == SelectSeq(rs, Analysed) IN [j \in DOMAIN a |-> [n |-> a[j].n, name |-> a[j].path, valid |-> 1, nf |-> nf]]
(* what the featured stage takes has been analysed                            *)
FeaturedOut(rs) == LET a == SelectSeq(rs, LAMBDA r : Analysed(r) /\ Popular(r)) IN [j \in DOMAIN a |-> [n |-> a[j].n, f |-> Features(a[j]), valid |-> 1]]
NoId(out) == [j \in DOMAIN out |-> [n |-> out[j].n, f |-> out[j].f, valid |-> out[j].valid]]
(* groups of equal features: [f, cpu, req]                                    *)
GroupsOf(rs) ==
    LET fs == {Features(r) : r \in Range2(rs)}
    IN  {LET mine == SelectSeq(rs, LAMBDA r : Features(r) = f) IN [f |-> f, cpu |-> SumSeq([j \in DOMAIN mine |-> mine[j].cpu]), req |-> Len(mine)] : f \in fs}
Plain(out) == [j \in DOMAIN out |-> [f |-> out[j].f, cpu |-> out[j].cpu, req |-> out[j].req]]
Grouped(out, gs) == Len(out) = Cardinality(gs) /\ Range2(Plain(out)) = gs

(* good: the score (CPU time of a request) is not below the mean of the       *)
(* scores.  Exact where the numbers of requests divide 64, else within the    *)
(* rounding of the quotients.                                                 *)
Classified(out) ==
    LET exact == \A j \in DOMAIN out : 64 % out[j].req = 0
        scale == IF exact THEN 64 ELSE 1000
        s == [j \in DOMAIN out |-> (out[j].cpu * scale) \div out[j].req]
        n == Len(out)
        mean == SumSeq(s)
        tol == IF exact THEN 0 ELSE 2 * n
    IN  \A j \in DOMAIN out :
            /\ out[j].cls \in {"good", "bad"}
            /\ s[j] * n > mean + tol \/ (exact /\ s[j] * n = mean) => out[j].cls = "good"
            /\ s[j] * n < mean - tol => out[j].cls = "bad"

(* what stage k makes of the analysed and the popular ones among rs           *)
Result(k, rs, out, nf) ==
    CASE k = "raw" -> Bag(out) = Bag(RawOut(rs, nf))
      [] k = "featured" -> Bag(NoId(out)) = Bag(FeaturedOut(rs))
      [] OTHER -> Grouped(out, GroupsOf(SelectSeq(rs, LAMBDA r : Analysed(r) /\ Popular(r)))) /\ Classified(out)

(* the inputs of a stage which works alone: only what the stage before leaves *)
Taken(k, rs) == IF k = "raw" THEN rs ELSE IF k = "featured" THEN SelectSeq(rs, Analysed) ELSE SelectSeq(rs, Popular)
AloneOut(k, b, nf) == IF k = "raw" THEN RawOut(b, nf) ELSE FeaturedOut(b)
Alone(e, nf) ==
    IF e.exc # "" THEN FALSE
    ELSE IF e.how = "process" THEN
        \* batch by batch, in order
        IF e.stage # "test0"
        THEN (IF e.stage = "raw" THEN e.out ELSE NoId(e.out)) = Flat([j \in DOMAIN e.batches |-> AloneOut(e.stage, Taken(e.stage, e.batches[j]), nf)])
        ELSE Bag(Plain(e.out)) = Bag(Flat([j \in DOMAIN e.batches |-> SetToSeq(GroupsOf(Taken(e.stage, e.batches[j])))]))
    ELSE LET rs == Flat([j \in DOMAIN e.batches |-> Taken(e.stage, e.batches[j])])
         IN  IF e.stage = "test0" THEN Grouped(e.out, GroupsOf(rs)) /\ Classified(e.out) ELSE Result(e.stage, rs, e.out, nf)

(* ---- batches -------------------------------------------------------------- *)
Numbered(a, b) == [j \in 1..(b - a) |-> a + j]
Batches(n, size) == [j \in 1..((n + size - 1) \div size) |-> Numbered((j - 1) * size, MinI(n, j * size))]

(* ---- dates ---------------------------------------------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysOf(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Tomorrow(d) == IF d[3] < DaysOf(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>> ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
RECURSIVE After(_, _)
After(d, k) == IF k = 0 THEN d ELSE After(Tomorrow(d), k - 1)
Window(d, size, step, next) ==
    LET s == IF step = 0 THEN 1 ELSE step
        RECURSIVE Go(_, _)
        Go(at, left) == IF left <= 0 THEN <<>> ELSE <<at>> \o Go(After(at, s), left - s)
    IN  Go(IF next THEN After(d, size) ELSE d, size)

(* ---- configuration -------------------------------------------------------- *)
Top == {"master", "app_name"}
Given(l) == {x.k : x \in Range2(l)}
Value(l, k) == l[CHOOSE j \in DOMAIN l : l[j].k = k].v
Conf(first, then, over) ==
    LET base == [k \in {"app_name", "spark.driver.memory", "spark.executor.memory"} |-> IF k = "app_name" THEN "SPARK" ELSE IF k = "spark.driver.memory" THEN "2g" ELSE "1g"]
        Upd(c, l, o) == [k \in (DOMAIN c) \cup Given(l) |-> IF k \in Given(l) /\ (k \in Top \/ o \/ k \notin DOMAIN c) THEN Value(l, k) ELSE c[k]]
    IN  Upd(Upd(base, first, TRUE), then, over)
ConfIs(e) ==
    LET want == Conf(e.first, e.then, e.over)
        ks == {x \in Given(e.conf) : x # "master" \/ x \in DOMAIN want}
    IN  ks = DOMAIN want /\ \A k \in ks : Value(e.conf, k) = want[k]

(* ---- pipelines ------------------------------------------------------------ *)
Stages == <<"raw", "featured", "test0">>
InWindow(e) ==
    LET w == Range2(Window(e.start, e.size, 1, FALSE))
        ds == SelectSeq(e.days, LAMBDA d : <<d.y, d.m, d.d>> \in w)
    IN  Flat([j \in DOMAIN ds |-> Flat(ds[j].l)])
PipelineIs(e, nf) ==
    LET rs == InWindow(e) IN
    /\ e.exc = ""
    /\ Result(Stages[e.stages], rs, e.out, nf)
    /\ e.saved = e.out
    /\ e.len = Len(e.out)
    /\ e.save => /\ Len(e.kept) = e.stages
                 /\ \A j \in DOMAIN e.kept : e.kept[j].stage = Stages[j] /\ Result(Stages[j], rs, e.kept[j].out, nf)

(* ---- what an operation has to answer --------------------------------------- *)
DatasetStep(e, ids, nf) ==
    If(OneId(ids \cup SeenIn(e)), "id of the features") \cup
    (CASE e.op = "pop" -> If(e.exc = "" /\ (e.valid = 1) = Popular(e.r) /\ e.f = Features(e.r) /\ e.n = e.r.n /\ (e.id # 0) = Popular(e.r), "popularity record")
      [] e.op = "raw" -> If((e.valid = 1) = Analysed(e.r) /\ e.name = e.r.path /\ (Analysed(e.r) => e.nf = nf /\ e.n = e.r.n), "raw record")
      [] e.op = "merge" -> LET c == SumSeq([j \in DOMAIN e.l |-> e.l[j].cpu]) IN
                           If(Plain(<<e.r>>)[1] = [f |-> Features(e.l[1]), cpu |-> c, req |-> Len(e.l)] /\ e.r.cls = e.cls /\ AbsI(e.score * Len(e.l) - c * 100) <= Len(e.l), "merged record")
      [] e.op = "stage" -> If(Alone(e, nf), "output of the stage")
      [] e.op = "tasks" -> If(e.exc = "" /\ Bag(e.out) = Bag([j \in 1..e.n |-> j]), "inputs of the stage")
      [] e.op = "batches" -> If(e.exc = "" /\ e.out = Batches(e.n, e.size), "batches")
      [] e.op = "window" -> If(e.exc = "" /\ e.out = Window(<<e.y, e.m, e.d>>, e.size, e.step, e.next), "window of dates")
      [] e.op = "conf" -> If(ConfIs(e), "configuration")
      [] e.op = "pipeline" -> If(PipelineIs(e, nf), "result of the pipeline") \cup If(\A j \in DOMAIN e.who : e.who[j] = <<"u", "p">>, "account")
      [] OTHER -> {})
=============================================================================
