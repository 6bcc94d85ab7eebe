------------------------------- MODULE AiLearn ------------------------------
(* The eviction agent of an aiRL cache, call by call (C34).                 *)
(*                                                                          *)
(* What an agent decides follows from its table, its exploration rate and   *)
(* the numbers its generator gives (draws: [millionths, place of one of     *)
(* five, picks of two, three, four]); only the order in which the groups of *)
(* files are visited is free, and told by the log.  A world is everything   *)
(* not shown after each operation:                                          *)
(*   k     draws used so far                                                *)
(*   mem   choices remembered of a file, [s, a, z] (z: occupancy then)      *)
(*   nd    states of the files kept since the last punishment               *)
(*   last  what the last call did, by state                                 *)
(*   pos   rows of the log so far                                           *)
(*   dm    misses of the files deleted by the last call                     *)
(* and, inside an operation, q, eps, step, qv, acts and tch (updated cells).*)
(* There may be more than one world: equal values are told apart only up to *)
(* the precision of the table within one operation.                         *)
EXTENDS AiModel

World0 == [k |-> 0, mem |-> Empty, nd |-> <<>>, last |-> Empty, pos |-> 0, dm |-> Empty, tot |-> 0, tok |-> TRUE]
MaxWorlds == 40

(* X: [c, draws, log, tick, rk, acts, order, hr (hit rate), max, dec]       *)
PairSizes(X) == SizesOf(X.c.evcfeats, X.order)

(* ------------------------------ choices --------------------------------- *)
Pick(d, n) == IF n = 2 THEN d[3] ELSE IF n = 3 THEN d[4] ELSE d[5]
(* the sets of places which may hold the largest values of a row            *)
Maxima(X, w, s) ==
    LET v == w.q[s + 1]
        rk == X.rk[s + 1]
        new(i) == <<s + 1, i>> \in w.tch
        m == Max(Range2(v))
        close == {i \in DOMAIN v : v[i] >= m - (IF \E j \in DOMAIN v : new(j) THEN 2 * Near ELSE 0)}
    IN  IF \A i \in close : ~new(i)
        THEN {{i \in close : \A j \in close : rk[j] <= rk[i]}}
        ELSE {E \in SUBSET close : E # {} /\ \A i \in E, j \in close : new(i) \/ new(j) \/ rk[j] < rk[i] \/ (rk[j] = rk[i] /\ j \in E)}
(* answers [i, n]: the place taken and the draws used.  The first place is  *)
(* taken only if nothing or a single other value is as large                *)
Best(X, w, s) ==
    {LET others == E \ {1} IN
     IF Cardinality(others) > 1
     THEN [i |-> IF w.k + 1 > Len(X.draws) THEN 0 ELSE SetToSortSeq(others, LAMBDA a, b : a < b)[1 + Pick(X.draws[w.k + 1], Cardinality(others))], n |-> 1]
     ELSE [i |-> IF 1 \in E THEN 1 ELSE CHOOSE i \in E : TRUE, n |-> 0] : E \in Maxima(X, w, s)}
(* the decisions for a state: [a, k]                                        *)
Decide(X, w, s) ==
    IF w.k + 2 > Len(X.draws) THEN {}
    ELSE LET d == X.draws[w.k + 1]
             explore == {[a |-> X.acts[X.draws[w.k + 2][2] + 1], k |-> w.k + 2]}
             exploit == {[a |-> X.acts[b.i], k |-> w.k + 1 + b.n] : b \in {x \in Best(X, [w EXCEPT !.k = @ + 1], s) : x.i # 0}}
         IN  IF d[1] < w.eps - 1 THEN explore ELSE IF d[1] > w.eps + 1 THEN exploit ELSE explore \cup exploit

(* ------------------------------ learning -------------------------------- *)
NextRate(X, w) == IF w.eps <= 100000 THEN w
                  ELSE [w EXCEPT !.step = @ + 1, !.eps = IF KnownRate(X.dec, w.step + 1) THEN RateAt(X.dec, w.step + 1) ELSE @]
(* the reward r (quarters) of the action a in state s, s2 being next        *)
Update(X, w, s, s2, a, r) ==
    LET k == AG!Col(X.acts, a)
        best == Max(Range2(w.q[s2 + 1]))
        w1 == [w EXCEPT !.q[s + 1][k] = RoundDiv(2 * @ + 45000 * r + 9 * best, 20), !.tch = @ \cup {<<s + 1, k>>}, !.qv = @ + r, !.nu = @ + 1]
    IN  {[NextRate(X, w1) EXCEPT !.k = @ + b.n] : b \in Best(X, w, s2)}
UpdateAll(X, ws, s, s2, a, r) == UNION {Update(X, w, s, s2, a, r) : w \in ws}

(* a kept file may be in a state again: same size and age, more requests    *)
PlaceOf(X, s, n) ==
    LET at == {k \in DOMAIN X.order : X.order[k] = n} IN
    AG!Digit(PairSizes(X), s, IF at = {} THEN 1 ELSE CHOOSE k \in at : TRUE)
Follows(X, s, s2) ==
    /\ PlaceOf(X, s2, "catSize") = PlaceOf(X, s, "catSize")
    /\ PlaceOf(X, s2, "catDeltaLastRequest") = PlaceOf(X, s, "catDeltaLastRequest")
    /\ PlaceOf(X, s2, "catNumReq") >= PlaceOf(X, s, "catNumReq")

Few(ws) == IF Cardinality(ws) <= MaxWorlds THEN ws ELSE {}
(* room is missing: every file that was kept is held against the states of  *)
(* the last call which may be its own, in any order                         *)
Orders(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
Punish1(X, ws, s) ==
    UNION {LET T == {x \in DOMAIN w.last : Follows(X, s, x)} IN
           UNION {FoldLeft(LAMBDA v, s2 : UpdateAll(X, v, s, s2, -5, -4), {w}, p) : p \in Orders(T)} : w \in ws}
Punish(X, w) == {[v EXCEPT !.nd = <<>>] : v \in FoldLeft(LAMBDA ws, s : Few(Punish1(X, ws, s)), {w}, w.nd)}
(* the last call made room, or did not                                      *)
Reward(X, w, made) ==
    FoldLeft(LAMBDA ws, s : UpdateAll(X, ws, s, s, w.last[s], IF ~made /\ w.last[s] = -5 THEN -4 ELSE 4), {w}, SetToSeq(DOMAIN w.last))
(* a file is asked for                                                      *)
Later(m, n, hit) ==
    IF hit THEN IF m.a # -5 THEN 4 ELSE IF m.z >= n.z THEN 12 ELSE 8
    ELSE IF m.a = -5 THEN -4 ELSE IF m.z < n.z THEN -12 ELSE -8
Asked(X, w, f, hit) ==
    LET l == IF f \in DOMAIN w.mem THEN w.mem[f] ELSE <<>> IN
    FoldLeft(LAMBDA ws, i : Few(UpdateAll(X, ws, l[i].s, l[i + 1].s, l[i].a, Later(l[i], l[i + 1], hit))), {w}, [i \in 1..MaxI(0, Len(l) - 1) |-> i])

(* ------------------------------ a call ---------------------------------- *)
RowIs(X, w, i, r) == w.pos + i <= Len(X.log) /\ SameRow(X.log[w.pos + i], r)
Logged(X, ws, r) == {[w EXCEPT !.pos = @ + 1] : w \in {v \in ws : RowIs(X, v, 1, r)}}
Event(X, w, ev, size) == Logged(X, {w}, Row(X.tick, ev, size, X.max, -1, -1, -1, -1))

StateOfCat(X, k, L, r, size) ==
    AG!StateIndex(PairSizes(X), [i \in DOMAIN X.order |-> EvcPlace(X.c, X.order[i], k, r, L, Percent2(size, X.max), X.hr, X.max)])
NumOf(a, n) == CASE a = -5 -> n [] a = -4 -> n [] a = -3 -> MaxI(1, n \div 2) [] a = -2 -> MaxI(1, n \div 4) [] OTHER -> 1
Gains(s, f, x) == With(s, f, Append(IF f \in DOMAIN s THEN s[f] ELSE <<>>, x))

(* the rows of an action on the files L of a group: [w, del], or nothing    *)
Act(X, b, L, r, s, d) ==
    LET w == b.w
        n == NumOf(d.a, Cardinality(L))
        rows == IF w.pos + n <= Len(X.log) THEN SubSeq(X.log, w.pos + 1, w.pos + n) ELSE <<>>
        fs == {rows[i].f : i \in DOMAIN rows}
        keep == d.a = -5
        size(i) == IF keep THEN b.size ELSE b.size - SumSeq([j \in 1..i |-> r[rows[j].f].s])
        good == /\ Len(rows) = n /\ Cardinality(fs) = n /\ fs \subseteq L
                /\ (keep \/ fs \in Removals(L, r, ActName(d.a)))
                /\ \A i \in DOMAIN rows : SameRow(rows[i], Row(X.tick, IF keep THEN "KEEP" ELSE "DELETE", size(i), X.max, rows[i].f,
                                                               r[rows[i].f].s, r[rows[i].f].fr, r[rows[i].f].dl))
                /\ (d.a \in {-3, -2} => \A i \in 1..(n - 1) : r[rows[i].f].rec >= r[rows[i + 1].f].rec)
        mem1 == FoldLeft(LAMBDA m, i : Gains(m, rows[i].f, [s |-> s, a |-> d.a, z |-> size(i)]), w.mem, [i \in DOMAIN rows |-> i])
    IN  IF ~good THEN {}
        ELSE {[w |-> [w EXCEPT !.k = d.k, !.pos = @ + n, !.mem = mem1, !.last = With(@, s, d.a),
                               !.nd = IF keep THEN @ \o [i \in 1..n |-> s] ELSE @,
                               !.dm = IF keep THEN @ ELSE @ @@ [x \in fs |-> 0],
                               !.acts[Slot(ActName(d.a))] = @ + 1],
               size |-> size(n), at |-> b.at, del |-> IF keep THEN b.del ELSE b.del \cup fs]}
RECURSIVE Groups(_, _, _, _, _, _)
Groups(X, b, todo, files, r, cat) ==
    IF todo = {} THEN {b}
    ELSE IF b.w.pos >= Len(X.log) \/ X.log[b.w.pos + 1].f \notin files \/ cat[X.log[b.w.pos + 1].f] \notin todo THEN {}
    ELSE LET k == cat[X.log[b.w.pos + 1].f]
             L == {x \in files : cat[x] = k}
             s == StateOfCat(X, k, L, r, b.at)
         IN  UNION {Groups(X, nb, todo \ {k}, files, r, cat) : nb \in UNION {Act(X, b, L, r, s, d) : d \in Decide(X, b.w, s)}}
(* b: [w, files, size]                                                      *)
Call(X, b, r, cat) ==
    LET w1 == [b.w EXCEPT !.tot = @ + SumOver(b.w.dm, DOMAIN b.w.dm), !.dm = Empty, !.last = Empty] IN
    {[w |-> o.w, files |-> b.files \ o.del, size |-> o.size] :
        o \in Groups(X, [w |-> w1, size |-> b.size, at |-> b.size, del |-> {}], {cat[x] : x \in b.files}, b.files, r, cat)}
Calls(X, bs, r, cat) == UNION {Call(X, b, r, cat) : b \in bs}

(* ------------------------------ operations ------------------------------ *)
Started(w, a) == w @@ [q |-> a.q, eps |-> a.eps, step |-> a.step, qv |-> a.qv, acts |-> NoActs, tch |-> {}, nu |-> 0]
Keeping(b, ws) == {[b EXCEPT !.w = w] : w \in ws}

(* a request: the worlds after it, [w, files, size, ra]                     *)
GetWorlds(X, g, pre, e, post, w0) ==
    LET c == X.c
        a == pre.ai.evc
        r == Recs(pre, e, X.tick, c)
        hit == Hit(pre, e)
        cat == [x \in Res(pre) \cup {e.f} |-> CategoryOf(c, r[x])]
        look == Looked(g.ep, g.eb, a, e.t # g.t, c.evcunl, g.ed)
        w1 == [Started(w0, a) EXCEPT !.eps = look.eps, !.step = look.step, !.mem = IF look.wipe THEN Empty ELSE @, !.nd = IF look.wipe THEN <<>> ELSE @,
                                     !.dm = IF ~hit /\ e.f \in DOMAIN @ THEN [@ EXCEPT ![e.f] = @ + 1] ELSE @]
        ws == Logged(X, {w1}, Row(X.tick, IF hit THEN "HIT" ELSE "MISS", pre.size, pre.max, e.f, -1, -1, -1))
        b0 == {[w |-> w, files |-> Res(pre), size |-> pre.size] : w \in ws}
        willing == Willing(c, pre, post)
        AddRow(size) == Row(X.tick, "ADD", size, pre.max, e.f, e.s, r[e.f].fr, r[e.f].dl)
        room == ~hit /\ willing /\ ~Fits(pre, e)
        first == CASE c.evtype \in {"onK", "onDayEnd"} -> Calls(X, UNION {UNION {Keeping(b, Punish(X, w)) : w \in Event(X, b.w, "FORCEDCALL", b.size)} : b \in b0}, r, cat)
                   [] c.evtype = "onFree" -> Calls(X, UNION {Keeping(b, Event(X, b.w, "ONFREE", b.size)) : b \in b0}, r, cat)
                   [] OTHER -> b0
        b1 == IF ~room THEN b0 ELSE IF HasAdd(c) THEN Calls(X, first, r, cat) ELSE first
        Enter(b) ==
            IF hit THEN {b @@ [ra |-> FALSE]}
            ELSE IF ~willing THEN {bb @@ [ra |-> FALSE] : bb \in Keeping(b, Logged(X, {b.w}, Row(X.tick, "SKIP", b.size, pre.max, e.f, e.s, r[e.f].fr, r[e.f].dl)))}
            ELSE IF b.size + e.s > pre.max THEN {bb @@ [ra |-> FALSE] : bb \in Keeping(b, Reward(X, b.w, FALSE))}
            ELSE LET ws2 == IF room THEN Reward(X, b.w, TRUE) ELSE {b.w} IN
                 {[w |-> w, files |-> b.files \cup {e.f}, size |-> b.size + e.s, ra |-> TRUE] : w \in Logged(X, ws2, AddRow(b.size + e.s))}
        b2 == UNION {Enter(b) : b \in b1}
        b3 == UNION {Keeping(b, Asked(X, b.w, e.f, hit)) : b \in b2}
    IN  IF c.evtype = "onK" /\ g.step <= 0
        THEN UNION {LET bs == Keeping([w |-> b.w, files |-> b.files, size |-> b.size], Event(X, b.w, "ONK", b.size)) IN
                    {o @@ [ra |-> b.ra] : o \in Calls(X, bs, r, cat)} : b \in b3}
        ELSE b3

DayWorlds(X, pre, w0) ==
    LET cat == [x \in Res(pre) |-> CategoryOf(X.c, pre.st[x])]
        bs == {[w |-> w, files |-> Res(pre), size |-> pre.size] : w \in Event(X, Started(w0, pre.ai.evc), "ONDAYEND", pre.size)}
    IN  Calls(X, bs, pre.st, cat)

(* what is remembered of the value functions and the period                 *)
AgentNext(c, g, pre, e) ==
    CASE NewInstance(e) -> [g EXCEPT !.t = -1, !.ep = 0, !.eb = 0, !.step = c.evk, !.ed = c.adddec]
      [] Served(e) -> LET el == Looked(g.ep, g.eb, pre.ai.evc, e.t # g.t, c.evcunl, g.ed) IN
                      [g EXCEPT !.t = e.t, !.ep = el.prev, !.eb = el.bad,
                                !.step = IF c.evtype # "onK" THEN @ ELSE IF @ <= 0 THEN c.evk ELSE @ - 1]
      [] OTHER -> g

(* ------------------------------ judgement ------------------------------- *)
TableOk(w, a, b) ==
    \A s \in DOMAIN a.q : \A k \in DOMAIN a.q[s] :
        IF <<s, k>> \in w.tch THEN Close(b.q[s][k], w.q[s][k], Near) ELSE b.q[s][k] = a.q[s][k]
RateOk3(w, b) == IF w.eps = 100000 THEN Close(b.eps, w.eps, 1) /\ b.step >= w.step /\ b.step <= w.step + w.nu
                 ELSE Close(b.eps, w.eps, 1) /\ b.step = w.step
Agrees(o, pre, e, post) ==
    /\ o.files = Res(post) /\ o.size = post.size
    /\ TableOk(o.w, pre.ai.evc, post.ai.evc) /\ RateOk3(o.w, post.ai.evc) /\ o.w.qv = post.ai.evc.qv
    /\ IF e.op = "get" THEN o.w.acts = EvcDelta(pre, post) /\ o.ra = e.ra
       ELSE \A i \in 1..5 : post.ai.acts[i + 2] = o.w.acts[i]
Why(outs, pre, e, post) ==
    IF outs = {} THEN {"log rows"}
    ELSE LET some(P(_)) == \E o \in outs : P(o) IN
         {"no course of events agrees"}
         \cup If(some(LAMBDA o : o.files = Res(post) /\ o.size = post.size), "files")
         \cup If(some(LAMBDA o : TableOk(o.w, pre.ai.evc, post.ai.evc)), "table")
         \cup If(some(LAMBDA o : RateOk3(o.w, post.ai.evc)), "exploration rate")
         \cup If(some(LAMBDA o : o.w.qv = post.ai.evc.qv), "value function")
         \cup If(some(LAMBDA o : e.op # "get" \/ o.w.acts = EvcDelta(pre, post)), "actions")
Only9(w) == [k |-> w.k, mem |-> w.mem, nd |-> w.nd, last |-> w.last, pos |-> w.pos, dm |-> w.dm, tot |-> w.tot, tok |-> w.tok]

XOf(c, g, tick, pre, draws, log, hr) ==
    [c |-> c, draws |-> draws, log |-> log, tick |-> tick, rk |-> pre.ai.evc.rk, acts |-> pre.ai.evc.acts, order |-> pre.ai.evc.order,
     hr |-> hr, max |-> pre.max, dec |-> g.ed]
(* [f (what is wrong), ws (worlds afterwards)]; no worlds and nothing wrong: *)
(* too many courses of events, or not enough draws                          *)
LearnStep(c, g, tick, pre, e, post, ws, draws, log) ==
    LET far == \E w \in ws : w.k + 400 > Len(draws)
        X == XOf(c, g, tick, pre, draws, log, IF e.op = "get" THEN Percent2(pre.hit, pre.req) ELSE <<0, 1>>)
        Judge(outs) == LET ok == {o \in outs : Agrees(o, pre, e, post)} IN
                       IF far THEN [f |-> {}, ws |-> {}]
                       ELSE [f |-> IF ok = {} THEN Why(outs, pre, e, post) ELSE {}, ws |-> Few({Only9(o.w) : o \in ok})]
    IN
    CASE Served(e) -> Judge(UNION {GetWorlds(X, g, pre, e, post, w) : w \in ws})
      [] e.op = "clearStats" /\ c.evtype = "onDayEnd" -> Judge(UNION {DayWorlds(X, pre, w) : w \in ws})
      [] e.op = "delmiss" ->
            LET sum(w) == w.tot + SumOver(w.dm, DOMAIN w.dm) IN
            [f |-> If(\E w \in ws : w.tok => e.v = sum(w), "misses of deleted files"),
             ws |-> {[w EXCEPT !.tot = 0, !.dm = [x \in DOMAIN @ |-> 0], !.tok = TRUE] : w \in {v \in ws : v.tok => e.v = sum(v)}}]
      [] NewInstance(e) ->
            [f |-> If("log" \in DOMAIN e /\ e.logbad = "", "unreadable log") \cup If(\E w \in ws : w.pos = Len(log), "rows after the last operation"), ws |-> {World0}]
      [] OTHER -> LET cleared == e.op \in {"clear", "clearFiles"} IN
            [f |-> If(post.ai.evc = pre.ai.evc, "untouched"),
             ws |-> {[w EXCEPT !.last = IF cleared THEN Empty ELSE @, !.tok = @ /\ e.op # "clear", !.dm = IF e.op = "clear" THEN Empty ELSE @] : w \in ws}]
=============================================================================
