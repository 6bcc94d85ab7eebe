------------------------------- MODULE AiModel ------------------------------
(* The caches driven by learning agents (aiRL; C30, C31).                   *)
(*                                                                          *)
(* Configuration c, besides that of CacheProps: rl (SCDL, SCDL2), evtype    *)
(* (none, onK, onDayEnd, onFree), evk, addfeats, evcfeats (features as in   *)
(* AgentModel, <<>>: no such agent), addeps, adddec, evceps, evcdec         *)
(* (thousandths), addunl, evcunl.                                           *)
(* Figures o.ai: acts (store, not store, delete all, half, quarter, one,    *)
(* not delete), evst (calls, forced), vf (hundredths), ep (millionths),     *)
(* cat (hundredths), add and evc: [ok, order, acts, q, eps, step, qv].      *)
(* Sizes are whole MB (u = 1).                                              *)
EXTENDS CacheProps, IOUtils, Json

AG == INSTANCE AgentModel

Tabs == JsonDeserialize(IOEnv.TABS)          \* exploration rates by decay
RateTab == [d \in {Tabs[i].d : i \in DOMAIN Tabs} |-> LET i == CHOOSE j \in DOMAIN Tabs : Tabs[j].d = d IN Tabs[i].t]
KnownRate(d, k) == k + 1 <= Len(RateTab[d])
RateAt(d, k) == RateTab[d][k + 1]

HasAdd(c) == c.addfeats # <<>>
HasEvc(c) == c.rl = "SCDL2" /\ c.evcfeats # <<>>

(* ------------------------------ states of the agents -------------------- *)
FeatOf(feats, n) == CHOOSE f \in Range2(feats) : f.name = n
(* the place of the value num/den halves                                    *)
Place(f, num, den) ==
    LET vs == AG!Values(f) IN
    Min({k \in DOMAIN vs : vs[k] = AG!Inf \/ num <= vs[k] * den} \cup {Len(vs) + 1}) - 1
PlaceInf(f) == Len(AG!Values(f)) - 1
SizesOf(feats, order) == [k \in DOMAIN order |-> AG!Size(FeatOf(feats, order[k]))]

Percent2(a, b) == IF b = 0 THEN <<0, 1>> ELSE <<200 * a, b>>       \* halves of a percent

(* the place of a feature of a request                                      *)
AddPlace(c, n, pre, e, hit, stf) ==
    LET f == FeatOf(c.addfeats, n) IN
    CASE n = "hit" -> AG!IndexOf(f, IF hit THEN 1 ELSE 0)
      [] n = "size" -> Place(f, 2 * e.s, 1)
      [] n = "numReq" -> Place(f, stf.fr, 1)
      [] n = "deltaLastRequest" -> IF stf.dl = NaN THEN PlaceInf(f) ELSE Place(f, stf.dl, 1)
      [] n = "percOcc" -> LET p == Percent2(pre.size, pre.max) IN Place(f, p[1], p[2])
      [] n = "hitRate" -> LET p == Percent2(pre.hit, pre.req) IN Place(f, p[1], p[2])
AddState(c, order, pre, e, hit, stf) ==
    AG!StateIndex(SizesOf(c.addfeats, order), [k \in DOMAIN order |-> AddPlace(c, order[k], pre, e, hit, stf)])

(* ------------------------------ categories ------------------------------ *)
FileFeats == {"catSize", "catNumReq", "catDeltaLastRequest"}
CatValue(n, r) == CASE n = "catSize" -> 2 * r.s [] n = "catNumReq" -> r.fr [] OTHER -> r.rec
CategoryOf(c, r) == [n \in {f.name : f \in Range2(c.evcfeats)} \cap FileFeats |-> Place(FeatOf(c.evcfeats, n), CatValue(n, r), 1)]

NotDel == "not"  All == "all"  Half == "half"  Quarter == "quarter"  One == "one"
EvcActions == {NotDel, All, Half, Quarter, One}
ActName(a) == CASE a = -5 -> NotDel [] a = -4 -> All [] a = -3 -> Half [] a = -2 -> Quarter [] OTHER -> One
(* acts of the figures: 3 all, 4 half, 5 quarter, 6 one, 7 not              *)
Slot(a) == CASE a = All -> 1 [] a = Half -> 2 [] a = Quarter -> 3 [] a = One -> 4 [] OTHER -> 5
NoActs == <<0, 0, 0, 0, 0>>

(* sets of n files of L which are the n latest (oldest) by rec              *)
Extreme(L, r, n, latest) ==
    LET key(x) == IF latest THEN -r[x].rec ELSE r[x].rec
        below(v) == Cardinality({x \in L : key(x) <= v})
        t == Min({key(x) : x \in {y \in L : below(key(y)) >= n}})
        must == {x \in L : key(x) < t}
        tie == {x \in L : key(x) = t}
    IN  {must \cup s : s \in kSubset(n - Cardinality(must), tie)}

(* the sets of files an action removes from the files L of a category       *)
Removals(L, r, a) ==
    LET n == Cardinality(L) IN
    CASE a = NotDel -> {{}}
      [] a = All -> {L}
      [] a = Half -> Extreme(L, r, MaxI(1, n \div 2), TRUE)
      [] a = Quarter -> Extreme(L, r, MaxI(1, n \div 4), TRUE)
      [] a = One -> Extreme(L, r, 1, FALSE)

(* outcomes of the calls on a category: [left, acts].  target: the files    *)
(* which are still stored afterwards; allow(left): the actions in question  *)
CallOn(outs, r, target, allow(_)) ==
    UNION {IF o.left = {} THEN {o}
           ELSE UNION {{[left |-> o.left \ d, acts |-> [o.acts EXCEPT ![Slot(a)] = @ + 1]] :
                            d \in {x \in Removals(o.left, r, a) : x \cap target = {}}} : a \in allow(o.left)} : o \in outs}
AnyAct(left) == EvcActions
(* only the first of the calls is looked at with allow                      *)
CallsOn(n, outs, r, target, allow(_)) ==
    IF n = 0 THEN outs
    ELSE IF n = 1 THEN CallOn(outs, r, target, allow)
    ELSE CallOn(CallOn(outs, r, target, allow), r, target, AnyAct)

AddVec(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]

(* all the files of a cache with categories.  q: [files, r (records), cat,  *)
(* forced (calls), f (file to come in, or -1), k (a periodic call),         *)
(* target, allow1(cat, left), allowK(cat, left)]                            *)
(* answer: set of [bytes left after the forced calls, categories before     *)
(* the periodic call, actions]                                              *)
Totals(q, allow1(_, _), allowK(_, _)) ==
    LET CatOf(x) == q.cat[x]
        cats == {CatOf(x) : x \in q.files} \cup (IF q.f = -1 THEN {} ELSE {CatOf(q.f)})
        PerCat(k) ==
            LET L == {x \in q.files : CatOf(x) = k}
                T == q.target
                o1 == CallsOn(q.forced, {[left |-> L, acts |-> NoActs]}, q.r, L \cap T, LAMBDA l : allow1(k, l))
                \* without a periodic call the files which stay are known
                o1f == IF q.k THEN o1 ELSE {o \in o1 : o.left = L \cap T}
                In(o) == [bytes |-> SumOver([x \in L |-> q.r[x].s], o.left), acts |-> o.acts,
                          left |-> IF q.f # -1 /\ CatOf(q.f) = k THEN o.left \cup {q.f} ELSE o.left]
                o2 == {In(o) : o \in o1f}
                Fin(o) == IF ~q.k THEN {[bytes |-> o.bytes, acts |-> o.acts, n |-> IF o.left = {} THEN 0 ELSE 1]}
                          ELSE {[bytes |-> o.bytes, acts |-> w.acts, n |-> IF o.left = {} THEN 0 ELSE 1] :
                                 w \in {v \in CallOn({[left |-> o.left, acts |-> o.acts]}, q.r, o.left \cap T, LAMBDA l : allowK(k, l)) : v.left = o.left \cap T}}
            IN  UNION {Fin(o) : o \in o2}
        Join(S, R) == {[bytes |-> a.bytes + b.bytes, acts |-> AddVec(a.acts, b.acts), n |-> a.n + b.n] : a \in S, b \in R}
    IN  FoldSet(LAMBDA k, S : Join(S, PerCat(k)), {[bytes |-> 0, acts |-> NoActs, n |-> 0]}, cats)

(* ------------------------------ what is remembered ---------------------- *)
(* k: draws so far (-1: unknown); t: time of the last request; ap, ab, ep,  *)
(* eb: value functions and bad ones in a row of the agents; mem, memok:     *)
(* choices of the addition agent; step: requests until the periodic call;   *)
(* cats: categories after the requests since the last clear (catok)         *)
AiGhost0(c) == [k |-> 0, t |-> -1, ap |-> 0, ab |-> 0, ep |-> 0, eb |-> 0, mem |-> Empty, step |-> c.evk, cats |-> <<>>, catok |-> TRUE, touched |-> {}, ed |-> c.evcdec]

MaxBad == 8
LowRate == 110000
(* an agent in front of a request: [prev, bad, eps, step, fire, wipe]       *)
FirstDown(d) == IF \E k \in DOMAIN RateTab[d] : RateTab[d][k] <= 500000
                THEN (CHOOSE k \in DOMAIN RateTab[d] : RateTab[d][k] <= 500000 /\ (k = 1 \/ RateTab[d][k - 1] > 500000)) - 1 ELSE 0
Looked(prev, bad, a, moved, unl, dec) ==
    LET look == moved /\ a.eps <= LowRate
        b1 == IF look /\ prev # 0 THEN (IF a.qv < prev THEN bad + 1 ELSE 0) ELSE bad
        p1 == IF look THEN a.qv ELSE prev
        fire == moved /\ a.ok /\ b1 >= MaxBad
        k == IF a.qv < 0 THEN 0 ELSE FirstDown(dec)
    IN  [prev |-> p1, bad |-> IF fire THEN 0 ELSE b1,
         eps |-> IF fire /\ unl THEN RateAt(dec, k) ELSE a.eps,
         step |-> IF fire /\ unl THEN k ELSE a.step,
         wipe |-> fire /\ a.qv < 0]

(* ------------------------------ rewards --------------------------------- *)
(* quarters; memories are [s, a, z] (state, action, size)                   *)
NotStoreA == -7
StoreA == -6
Unit4(z) == z \div 256                              \* quarters of GB
RewardSCDL(c, pre, m, hit) ==
    LET B == Bandwidth(c)                    \* MB per day
        u == Unit4(m.z)
        r1 == IF m.a = NotStoreA THEN (IF 2 * pre.drm < B \/ (pre.dr > 0 /\ 10 * pre.dw < pre.dr) THEN -u ELSE 0)
              ELSE (IF 4 * pre.drm > 3 * B \/ (pre.dr > 0 /\ 2 * pre.dw > pre.dr) THEN -u ELSE 0)
        r2 == IF pre.dr > 0 /\ 2 * pre.drm > pre.dr THEN r1 - u ELSE r1
    IN  IF r2 # 0 THEN r2 ELSE IF hit THEN u ELSE -u
RewardSCDL2(m, hit) == IF hit THEN 4 ELSE IF m.a = NotStoreA THEN -8 ELSE -4

(* updates: sequences of [s, s2, a, r]                                      *)
UpdatesSCDL(c, pre, l, hit) == [i \in DOMAIN l |-> [s |-> l[i].s, s2 |-> l[i].s, a |-> l[i].a, r |-> RewardSCDL(c, pre, l[i], hit)]]
UpdatesSCDL2(l, hit) == [i \in 1..MaxI(0, Len(l) - 2) |-> [s |-> l[i].s, s2 |-> l[i + 1].s, a |-> l[i].a, r |-> RewardSCDL2(l[i], hit)]]

RoundDiv(x, d) == IF x >= 0 THEN (2 * x + d) \div (2 * d) ELSE -((2 * (-x) + d) \div (2 * d))
Apply1(acts, q, u) ==
    LET k == AG!Col(acts, u.a)
        best == Max(Range2(q[u.s2 + 1]))
    IN  [q EXCEPT ![u.s + 1][k] = RoundDiv(2 * @ + 45000 * u.r + 9 * best, 20)]
ApplyAll(acts, q, us) == FoldLeft(LAMBDA t, u : Apply1(acts, t, u), q, us)
Cells(acts, us) == {<<us[i].s + 1, AG!Col(acts, us[i].a)>> : i \in DOMAIN us}

(* m rate steps from [eps, step]                                            *)
RateOk2(dec, a, m, post) ==
    /\ post.step <= a.step + m /\ post.step >= a.step
    /\ (a.eps < 100000 => post.step = a.step)
    /\ (post.step = a.step => post.eps = a.eps)
    /\ (post.step > a.step /\ KnownRate(dec, post.step) => Close(post.eps, RateAt(dec, post.step), 1))
    /\ (post.step < a.step + m /\ a.eps >= 100000 => post.eps <= 100000)

(* ------------------------------ C31: the addition agent ------------------ *)
Near == 4
Remembered(g, f) == IF f \in DOMAIN g.mem THEN g.mem[f] ELSE <<>>
LimitOf(c, l) == IF c.rl = "SCDL" /\ Len(l) > 32 THEN DropN(l, Len(l) - 32) ELSE l

(* what a request does to the addition agent: [look, us, dec (eps and table *)
(* of the decision), state, mem (afterwards, without the new choice)]       *)
AddPlan(c, g, pre, e, tick) ==
    LET a == pre.ai.add
        hit == Hit(pre, e)
        look == Looked(g.ap, g.ab, a, e.t # g.t, c.addunl, c.adddec)
        mem1 == IF look.wipe THEN Empty ELSE g.mem
        stf == Tracked(c, [st |-> pre.st, tick |-> tick], e.f, e.s, e.t, hit)
        s == AddState(c, a.order, pre, e, hit, stf)
    IN  [look |-> look, mem |-> mem1, s |-> s, hit |-> hit]

ActDelta(pre, post) == [i \in 1..7 |-> post.ai.acts[i] - pre.ai.acts[i]]
Chosen(pre, post) == IF ActDelta(pre, post)[1] = 1 THEN StoreA ELSE NotStoreA
Choice(p, a, e) == [s |-> p.s, a |-> a, z |-> e.s]

(* the updates of the request and the choices remembered after it           *)
Learn(c, p, pre, e, act) ==
    LET old == Remembered([mem |-> p.mem], e.f) IN
    IF c.rl = "SCDL" THEN
        [us |-> UpdatesSCDL(c, pre, old, p.hit),
         mem |-> LET m == Only(p.mem, (DOMAIN p.mem) \ {e.f}) IN IF p.hit THEN m ELSE With(m, e.f, <<Choice(p, act, e)>>)]
    ELSE LET l == IF p.hit THEN old ELSE Append(old, Choice(p, act, e)) IN
         [us |-> UpdatesSCDL2(l, p.hit), mem |-> IF l = <<>> THEN p.mem ELSE With(p.mem, e.f, l)]

(* answers which the decision may give: sets of [a, k (draws used)]         *)
Decisions(c, g, q, acts, s, eps) ==
    LET row == q[s + 1]
        x == row[AG!Col(acts, NotStoreA)]
        y == row[AG!Col(acts, StoreA)]
        unsure == \E k \in DOMAIN row : <<s + 1, k>> \in g.touched
        best == (IF x >= y - (IF unsure THEN Near ELSE 0) THEN {NotStoreA} ELSE {})
                \cup (IF y > x \/ (unsure /\ y >= x - Near) THEN {StoreA} ELSE {})
        any == {NotStoreA, StoreA}
    IN  IF g.k = -1 \/ g.k + 2 > Len(g.draws) THEN {[a |-> a, k |-> -1] : a \in any}
        ELSE LET d == g.draws[g.k + 1]
                 d2 == g.draws[g.k + 2]
                 explore == [a |-> IF d2 < 500000 THEN NotStoreA ELSE StoreA, k |-> g.k + 2]
                 exploit == {[a |-> a, k |-> g.k + 1] : a \in best}
             IN  IF d < eps - 1 THEN {explore} ELSE IF d > eps + 1 THEN exploit ELSE {[a |-> a, k |-> -1] : a \in any}

AddStep(c, g, tick, pre, e, post) ==
    IF ~HasAdd(c) THEN If(~post.ai.add.ok /\ (IsGet(e) => ActDelta(pre, post)[1] = 0 /\ ActDelta(pre, post)[2] = 0), "no agent")
    ELSE
    LET a == pre.ai.add
        b == post.ai.add
        still == a = b
    IN
    If(post.ai.ep[1] = b.eps /\ post.ai.vf[1] = 25 * b.qv, "printed figures")
    \cup
    CASE Served(e) ->
            LET p == AddPlan(c, g, pre, e, tick)
                act == Chosen(pre, post)
                d == ActDelta(pre, post)
                w == Learn(c, p, pre, e, act)
                q1 == ApplyAll(a.acts, a.q, w.us)
                cells == Cells(a.acts, w.us)
                ds == IF c.rl = "SCDL" THEN Decisions(c, [g EXCEPT !.touched = @ \cup cells], q1, a.acts, p.s, b.eps)
                      ELSE Decisions(c, g, a.q, a.acts, p.s, p.look.eps)
            IN  If(d[1] + d[2] = (IF p.hit THEN 0 ELSE 1) /\ d[1] >= 0 /\ d[2] >= 0, "one choice per miss")
                \cup If(p.hit \/ \E x \in ds : x.a = act, "choice")
                \cup If(p.hit \/ act = StoreA \/ ~e.ra, "stored against the choice")
                \cup If(Len(b.q) = Len(a.q) /\ \A s \in DOMAIN a.q : \A k \in DOMAIN a.q[s] :
                          IF <<s, k>> \in cells THEN Close(b.q[s][k], q1[s][k], Near) ELSE b.q[s][k] = a.q[s][k], "table")
                \cup If(b.qv = a.qv + FoldLeft(LAMBDA t, u : t + u.r, 0, w.us), "value function")
                \cup If(RateOk2(c.adddec, p.look, Len(w.us), b), "exploration rate")
                \cup If(b.order = a.order /\ b.acts = a.acts, "features")
      [] e.op \in {"dump", "fork"} ->
            If(b.q = a.q /\ b.order = a.order /\ b.acts = a.acts, "restored table")
            \cup If(b.eps = 1000 * c.addeps /\ b.step = 0 /\ b.qv = 0, "restored parameters")
      [] e.op = "terminate" -> {}
      [] OTHER -> If(still, "untouched")

(* ------------------------------ C30: contracts and evictions ------------ *)
Recs(pre, e, tick, c) == With(pre.st, e.f, Tracked(c, [st |-> pre.st, tick |-> tick], e.f, e.s, e.t, Hit(pre, e)))
Willing(c, pre, post) == HasAdd(c) => Chosen(pre, post) = StoreA
WantsRoom(c, pre, e, post) == ~Hit(pre, e) /\ ~Fits(pre, e) /\ Willing(c, pre, post)
ForcedCalls(c) == (IF c.evtype = "none" THEN 0 ELSE 1) + (IF HasAdd(c) THEN 1 ELSE 0)
Punishing(c) == c.evtype \in {"onK", "onDayEnd"}
EvcDelta(pre, post) == [i \in 1..5 |-> ActDelta(pre, post)[i + 2]]

(* actions of a greedy agent with the table q for the category k: sets of   *)
(* names.  left: its files; p1: occupancy, p2: hit rate                     *)
EvcPlace(c, n, k, r, left, p1, p2, max) ==
    LET f == FeatOf(c.evcfeats, n) IN
    CASE n \in FileFeats -> k[n]
      [] n = "catPercOcc" -> LET p == Percent2(SumOver([x \in left |-> r[x].s], left), max) IN Place(f, p[1], p[2])
      [] n = "percOcc" -> Place(f, p1[1], p1[2])
      [] n = "hitRate" -> Place(f, p2[1], p2[2])
Greedy(c, a, q, k, r, left, p1, p2, max) ==
    LET s == AG!StateIndex(SizesOf(c.evcfeats, a.order), [i \in DOMAIN a.order |-> EvcPlace(c, a.order[i], k, r, left, p1, p2, max)])
        row == q[s + 1]
        m == Max(Range2(row))
    IN  {ActName(a.acts[i]) : i \in {j \in DOMAIN row : row[j] >= m - 2 * Near}}

MeanOf(s) == IF s = <<>> THEN 0 ELSE SumSeq(s) \div Len(s)
CatFigures(g, post) ==
    LET n == Len(g.cats)
        m == MeanOf(g.cats)
        ss == FoldLeft(LAMBDA t, x : t + (x - m) * (x - m), 0, g.cats)
        o == post.ai.cat
    IN  IF ~g.catok THEN {}
        ELSE If(o[1] = 100 * m, "mean of the categories")
             \cup If(IF n = 0 THEN o[2] = 0 ELSE IF n = 1 THEN o[2] = NaN
                     ELSE LET v == 10000 * (ss \div (n - 1)) + (10000 * (ss % (n - 1))) \div (n - 1) IN
                          (MaxI(0, o[2] - 1)) * (MaxI(0, o[2] - 1)) <= v + 1 /\ v <= (o[2] + 1) * (o[2] + 1), "deviation of the categories")

(* the outcomes of a request which agree with what has been seen            *)
Outcomes(c, g, tick, pre, e, post) ==
    LET r == Recs(pre, e, tick, c)
        hit == Hit(pre, e)
        forced == IF WantsRoom(c, pre, e, post) THEN ForcedCalls(c) ELSE 0
        kcall == c.evtype = "onK" /\ g.step <= 0
        \* other files may have left the statistics only when they are not stored
        q == [files |-> Res(pre), r |-> r, cat |-> [x \in Res(pre) \cup {e.f} |-> CategoryOf(c, r[x])],
              forced |-> forced, f |-> IF e.ra THEN e.f ELSE -1, k |-> kcall, target |-> Res(post)]
        a == pre.ai.evc
        eps == Looked(g.ep, g.eb, a, e.t # g.t, c.evcunl, g.ed).eps
        p2 == Percent2(pre.hit, pre.req)
        size2 == pre.size + (IF e.ra THEN e.s ELSE 0)
        greedy1 == eps = 0 /\ ~Punishing(c) /\ c.evtype # "none"
        greedyN == eps = 0 /\ c.evtype = "none"
        greedyK == eps = 0 /\ forced = 0
    IN  Totals(q, LAMBDA k, l : IF greedy1 \/ greedyN THEN Greedy(c, a, a.q, k, r, l, Percent2(pre.size, pre.max), p2, pre.max) ELSE EvcActions,
                  LAMBDA k, l : IF greedyK THEN Greedy(c, a, post.ai.evc.q, k, r, l, Percent2(size2, pre.max), p2, pre.max) ELSE EvcActions)
Fitting(c, pre, e, outs, post) ==
    {o \in outs : o.acts = EvcDelta(pre, post) /\ (Hit(pre, e) \/ e.ra = (Willing(c, pre, post) /\ o.bytes + e.s <= pre.max))}

AiContracts(c, pre, e, post) ==
    OccupancyStep(c, pre, e, post)
    \cup MembershipStep(c, pre, e, post)
    \cup (IF HasEvc(c) /\ e.op = "clearStats" /\ c.evtype = "onDayEnd" THEN
              If(\A x \in Counters \ {"del", "dd"} : post[x] = 0, "figures")
              \cup If(post.del = Len(pre.q) - Len(post.q) /\ post.dd = SumOver(pre.z, Gone(pre, post)), "deleted")
          ELSE AccountingStep(c, pre, e, post))

(* MembershipStep looks at a cache whose files leave only for others        *)
Excused(c, e) == IF HasEvc(c) THEN {"outcome", "lost"} ELSE {}

EvictionAgentStep(c, g, tick, pre, e, post) ==
    LET a == pre.ai.evc
        b == post.ai.evc
        calls == post.ai.evst[1] - pre.ai.evst[1]
        pun == post.ai.evst[2] - pre.ai.evst[2]
    IN
    If(post.ai.ep[2] = b.eps /\ post.ai.vf[2] = 25 * b.qv, "printed figures")
    \cup If(b.eps >= 0 /\ b.eps <= 1000000 /\ (b.step > 0 /\ b.step < 400 => b.eps >= 100000), "exploration rate")
    \cup If(b.step > 0 /\ KnownRate(g.ed, b.step) /\ ~NewInstance(e) => Close(b.eps, RateAt(g.ed, b.step), 1), "exploration rate")
    \cup If(\A s \in DOMAIN b.q : \A x \in DOMAIN b.q[s] : AbsI(b.q[s][x]) <= 60004, "table")
    \cup
    CASE Served(e) ->
            LET hit == Hit(pre, e)
                room == WantsRoom(c, pre, e, post)
                kcall == c.evtype = "onK" /\ g.step <= 0
                n == (IF room THEN ForcedCalls(c) ELSE 0) + (IF kcall THEN 1 ELSE 0)
                fit == Fitting(c, pre, e, Outcomes(c, g, tick, pre, e, post), post)
                el == Looked(g.ep, g.eb, a, e.t # g.t, c.evcunl, g.ed)
            IN  If(b.step >= el.step /\ (b.step = el.step => b.eps = el.eps) /\ (el.eps < 100000 => b.step = el.step), "exploration step")
                \cup If(calls = n, "calls") \cup If(pun = (IF room /\ Punishing(c) THEN 1 ELSE 0), "forced calls")
                \cup If(fit # {}, "actions on the categories")
                \cup If(n > 0 \/ Gone(pre, post) = {}, "eviction without a call")
                \cup If(IF kcall THEN e.f \in Res(post) => (hit \/ e.ra) ELSE e.f \in Res(post) <=> (hit \/ e.ra), "stored")
      [] e.op = "clearStats" ->
            LET day == c.evtype = "onDayEnd"
                r == pre.st
                q == [files |-> Res(pre), r |-> r, cat |-> [x \in Res(pre) |-> CategoryOf(c, r[x])],
                      forced |-> IF day THEN 1 ELSE 0, f |-> -1, k |-> FALSE, target |-> Res(post)]
                outs == Totals(q, LAMBDA k, l : IF a.eps = 0 THEN Greedy(c, a, a.q, k, r, l, Percent2(pre.size, pre.max), <<0, 1>>, pre.max) ELSE EvcActions,
                                  LAMBDA k, l : EvcActions)
            IN  If(post.ai.evst = <<IF day THEN 1 ELSE 0, 0>>, "calls")
                \cup If(\E o \in outs : \A i \in 1..5 : post.ai.acts[i + 2] = o.acts[i], "actions on the categories")
                \cup If(post.ai.acts[1] = 0 /\ post.ai.acts[2] = 0, "cleared actions")
                \cup If(day \/ Res(post) = Res(pre), "eviction without a call")
                \cup If(post.ai.evc.q = a.q, "table")
      [] e.op \in {"dump", "fork"} ->
            If(b.q = a.q /\ b.order = a.order /\ b.acts = a.acts, "restored table")
            \cup If(b.eps = 1000 * c.addeps /\ b.step = 0 /\ b.qv = 0, "restored parameters")
            \cup If(post.ai.evst = <<0, 0>>, "calls")
      [] e.op = "terminate" -> {}
      [] OTHER -> If(calls = 0 /\ pun = 0 /\ post.ai.evc = a, "untouched")

NoEvictionAgentStep(c, g, tick, pre, e, post) ==
    OrderStep(c, pre, e, post) \cup EvictionStep(c, pre, e, post)
    \cup If(~post.ai.evc.ok /\ post.ai.evst = <<0, 0>> /\ post.ai.cat = <<-100, -100>>, "no eviction agent")
    \cup (IF Served(e) /\ ~Hit(pre, e) THEN
            LET store == HasAdd(c) => Chosen(pre, post) = StoreA IN
            If(e.ra = (store /\ e.s <= pre.max), "admission")
            \cup If(store \/ c.wm \/ Gone(pre, post) = {}, "eviction without admission")
          ELSE {})
    \cup If(e.op = "clearStats" => post.ai.acts = <<0, 0, 0, 0, 0, 0, 0>>, "cleared actions")

AiStep(c, g, tick, pre, e, post) ==
    (AiContracts(c, pre, e, post) \ Excused(c, e))
    \cup (IF HasEvc(c) THEN EvictionAgentStep(c, g, tick, pre, e, post)
          ELSE NoEvictionAgentStep(c, g, tick, pre, e, post))

(* ------------------------------ memory of the observer ------------------- *)
AiNext(c, g, tick, pre, e, post) ==
    CASE NewInstance(e) -> [AiGhost0(c) EXCEPT !.touched = g.touched, !.ed = c.adddec] @@ [draws |-> g.draws]
      [] Served(e) ->
            LET p == AddPlan(c, g, pre, e, tick)
                act == Chosen(pre, post)
                w == Learn(c, p, pre, e, act)
                ds == IF c.rl = "SCDL" THEN Decisions(c, g, ApplyAll(pre.ai.add.acts, pre.ai.add.q, w.us), pre.ai.add.acts, p.s, post.ai.add.eps)
                      ELSE Decisions(c, g, pre.ai.add.q, pre.ai.add.acts, p.s, p.look.eps)
                ks == {x.k : x \in {y \in ds : y.a = act}}
                el == Looked(g.ep, g.eb, pre.ai.evc, e.t # g.t, c.evcunl, g.ed)
                fit == Fitting(c, pre, e, Outcomes(c, g, tick, pre, e, post), post)
                ns == {o.n : o \in fit}
                g1 == IF HasAdd(c)
                      THEN [g EXCEPT !.ap = p.look.prev, !.ab = p.look.bad, !.mem = w.mem,
                                     !.touched = @ \cup Cells(pre.ai.add.acts, w.us),
                                     !.k = IF p.hit THEN @ ELSE IF Cardinality(ks) = 1 THEN CHOOSE k \in ks : TRUE ELSE -1]
                      ELSE g
                g2 == [g1 EXCEPT !.t = e.t, !.ep = el.prev, !.eb = el.bad,
                                 !.step = IF c.evtype # "onK" THEN @ ELSE IF @ <= 0 THEN c.evk ELSE @ - 1]
            IN  IF HasEvc(c) THEN [g2 EXCEPT !.cats = IF Cardinality(ns) = 1 THEN Append(@, CHOOSE n \in ns : TRUE) ELSE @,
                                             !.catok = @ /\ Cardinality(ns) = 1]
                ELSE g2
      [] e.op = "clearStats" -> [g EXCEPT !.cats = <<>>, !.catok = TRUE]
      [] e.op = "clear" -> [g EXCEPT !.catok = FALSE]
      [] OTHER -> g
=============================================================================
