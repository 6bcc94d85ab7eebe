-------------------------------- MODULE AiMC --------------------------------
(* Small caches driven by learning agents, whose choices are left open:     *)
(* every request may be stored or not, every category may lose its files in *)
(* every way an action allows.  Each transition is checked against the      *)
(* relations of AiModel (C30, C31) and printed as a script for the real     *)
(* caches.  Configurations, operations and depth are in IOEnv.MCCFG.        *)
EXTENDS AiModel

M == JsonDeserialize(IOEnv.MCCFG)
Depth == M.depth

VARIABLES c, s, gh, h, bad
vars == <<c, s, gh, h, bad>>

NoAgent == [ok |-> FALSE, order |-> <<>>, acts |-> <<>>, q |-> <<>>, eps |-> 0, step |-> 0, qv |-> 0]
Agent(ok, feats, acts, eps) ==
    IF ~ok THEN NoAgent
    ELSE LET order == [i \in DOMAIN feats |-> feats[i].name] IN
         [ok |-> TRUE, order |-> order, acts |-> acts, eps |-> 1000 * eps, step |-> 0, qv |-> 0,
          q |-> [i \in 1..AG!NumStates(SizesOf(feats, order)) |-> [j \in DOMAIN acts |-> 0]]]
AddActs == <<-7, -6>>
EvcActs == <<-5, -1, -2, -3, -4>>
Zero7 == <<0, 0, 0, 0, 0, 0, 0>>

InitAi(k) == [acts |-> Zero7, evst |-> <<0, 0>>, add |-> Agent(HasAdd(k), k.addfeats, AddActs, k.addeps),
              evc |-> Agent(HasEvc(k), k.evcfeats, EvcActs, k.evceps)]

(* ------------------------------ calls of the eviction agent -------------- *)
(* x: [left, acts]; r: records of the files                                  *)
OnCategory(k, r, X, cat) ==
    UNION {LET L == {f \in x.left : CategoryOf(k, r[f]) = cat} IN
           IF L = {} THEN {x}
           ELSE UNION {{[left |-> x.left \ d, acts |-> [x.acts EXCEPT ![Slot(a) + 2] = @ + 1]] : d \in Removals(L, r, a)} : a \in EvcActions} : x \in X}
CallAgent(k, r, x) == FoldSet(LAMBDA cat, X : OnCategory(k, r, X, cat), {x}, {CategoryOf(k, r[f]) : f \in x.left})
RECURSIVE Calls(_, _, _, _)
Calls(n, k, r, X) == IF n = 0 THEN X ELSE Calls(n - 1, k, r, UNION {CallAgent(k, r, x) : x \in X})

(* the files of left stay                                                    *)
Leave(m, left, acts, calls) ==
    LET V == Residents(m) \ left
        bytes == SumOver(m.z, V)
    IN  [m EXCEPT !.q = SelectSeq(@, LAMBDA f : f \in left), !.z = Only(@, left), !.size = @ - bytes,
                  !.del = @ + Cardinality(V), !.dd = @ + bytes, !.ai.acts = acts, !.ai.evst[1] = @ + calls]

(* ------------------------------ a request -------------------------------- *)
RoomFor(k, m, e) ==
    IF m.size + e.s <= m.max THEN {m}
    ELSE IF ~HasEvc(k) THEN {Round(m, e.s)}
    ELSE {LET y == Leave(m, x.left, x.acts, ForcedCalls(k)) IN [y EXCEPT !.ai.evst[2] = @ + (IF Punishing(k) THEN 1 ELSE 0)] :
            x \in Calls(ForcedCalls(k), k, m.st, {[left |-> Residents(m), acts |-> m.ai.acts]})}

StepRate(dec, a) == IF a.eps >= 100000 THEN [a EXCEPT !.step = @ + 1, !.eps = RateAt(dec, a.step + 1)] ELSE a
RECURSIVE Steps(_, _, _)
Steps(dec, a, n) == IF n = 0 THEN a ELSE Steps(dec, StepRate(dec, a), n - 1)
Taught(k, a, us) == Steps(k.adddec, [a EXCEPT !.q = ApplyAll(a.acts, a.q, us), !.qv = FoldLeft(LAMBDA t, u : t + u.r, @, us)], Len(us))

Figures(k, m) ==
    m @@ [qs |-> [i \in DOMAIN m.q |-> m.z[m.q[i]]], nf |-> Len(m.q), frac |-> 0,
          cap |-> Ratio(m.size, m.max, 5), hr |-> IF m.req = 0 THEN 0 ELSE Ratio(m.hit, m.req, 5),
          whr |-> IF m.req = 0 THEN 0 ELSE (100 * m.drh * m.hit) \div m.req,
          bw |-> Bandwidth(k), bwu |-> Ratio(m.drm, Mb(k, Bandwidth(k)), 5)]
Obs(k, m, cats) ==
    LET mean == MeanOf(cats)
        f == Figures(k, m)
    IN  [f EXCEPT !.ai = @ @@ [vf |-> <<25 * m.ai.add.qv, 25 * m.ai.evc.qv>>, ep |-> <<m.ai.add.eps, m.ai.evc.eps>>,
                                cat |-> IF HasEvc(k) THEN <<100 * mean, NaN>> ELSE <<-100, -100>>]]

(* answers: sets of [m, ra]                                                  *)
Served1(k, g, m, e) ==
    LET hit == e.f \in Residents(m)
        pre == Obs(k, m, g.cats)
        p == AddPlan(k, g, pre, e, m.tick)
        m1 == [m EXCEPT !.st = With(@, e.f, Tracked(k, m, e.f, e.s, e.t, hit)), !.req = @ + 1, !.last = e.t,
                        !.ai.add.eps = p.look.eps, !.ai.add.step = p.look.step]
        Count(y, a) == IF HasAdd(k) THEN [y EXCEPT !.ai.acts[IF a = StoreA THEN 1 ELSE 2] = @ + 1] ELSE y
        Put(y) == IF y.size + e.s <= y.max
                  THEN [m |-> [y EXCEPT !.q = Append(@, e.f), !.z = With(@, e.f, e.s), !.size = @ + e.s, !.add = @ + 1, !.dw = @ + e.s], ra |-> TRUE]
                  ELSE [m |-> y, ra |-> FALSE]
        served == IF hit THEN {[m |-> [m1 EXCEPT !.q = Append(SelectSeq(@, LAMBDA f : f # e.f), e.f)], ra |-> FALSE, a |-> NotStoreA]}
                  ELSE (IF HasAdd(k) THEN {[m |-> Count(m1, NotStoreA), ra |-> FALSE, a |-> NotStoreA]} ELSE {})
                       \cup {Put(y) @@ [a |-> IF HasAdd(k) THEN StoreA ELSE NotStoreA] : y \in RoomFor(k, Count(m1, StoreA), e)}
        Learnt(x) == IF ~HasAdd(k) THEN x ELSE
                     LET w == Learn(k, p, pre, e, IF hit THEN NotStoreA ELSE x.a) IN [x EXCEPT !.m.ai.add = Taught(k, @, w.us)]
        kcall == HasEvc(k) /\ k.evtype = "onK" /\ m.step <= 0
        Periodic(x) == IF ~kcall THEN {[x EXCEPT !.m.step = IF k.evtype = "onK" THEN @ - 1 ELSE @]}
                       ELSE {[x EXCEPT !.m = [Leave(x.m, y.left, y.acts, 1) EXCEPT !.step = k.evk]] :
                                y \in CallAgent(k, x.m.st, [left |-> Residents(x.m), acts |-> x.m.ai.acts])}
        Closed(x) == [x EXCEPT !.m = [@ EXCEPT !.tick = @ + 1, !.dr = @ + e.s, !.hit = @ + (IF hit THEN 1 ELSE 0),
                                               !.drh = @ + (IF hit THEN e.s ELSE 0), !.drm = @ + (IF hit THEN 0 ELSE e.s)]]
    IN  {Closed(y) : y \in UNION {Periodic(Learnt(x)) : x \in served}}

NewDay(k, m) ==
    LET z == [ClearStats(m) EXCEPT !.ai.acts = Zero7, !.ai.evst = <<0, 0>>] IN
    IF HasEvc(k) /\ k.evtype = "onDayEnd"
    THEN {[m |-> Leave(z, x.left, x.acts, 1), ra |-> FALSE] : x \in CallAgent(k, z.st, [left |-> Residents(z), acts |-> Zero7])}
    ELSE {[m |-> z, ra |-> FALSE]}

Answers(k, g, m, e) == CASE e.op = "get" -> Served1(k, g, m, e)
                         [] e.op = "clearFiles" -> {[m |-> ClearFiles(m), ra |-> FALSE]}
                         [] OTHER -> NewDay(k, m)

(* the deviation of the number of categories needs no model: it is checked on real executions *)
CheckMC(k, g, t, pre, e, post) == AiStep(k, g, t, pre, e, post) \cup AddStep(k, g, t, pre, e, post)

Configs == DOMAIN M.cfgs
Init == /\ c \in Configs
        /\ s = Initial(M.cfgs[c]) @@ [ai |-> InitAi(M.cfgs[c]), step |-> M.cfgs[c].evk]
        /\ gh = AiGhost0(M.cfgs[c]) @@ [draws |-> <<>>] /\ h = <<>> /\ bad = {}
Do(i) ==
    LET k == M.cfgs[c]
        e1 == M.ops[i] @@ [t |-> 60 * Len(h)] IN
    /\ Len(h) < Depth
    /\ \E x \in Answers(k, gh, s, e1) :
         LET e == e1 @@ [ra |-> x.ra, rr |-> FALSE]
             pre == Obs(k, s, gh.cats)
             p0 == Obs(k, x.m, gh.cats)
             g2 == AiNext(k, gh, s.tick, pre, e, p0)
         IN  /\ s' = x.m /\ gh' = g2
             /\ bad' = CheckMC(k, gh, s.tick, pre, e, Obs(k, x.m, g2.cats))
    /\ h' = Append(h, i) /\ UNCHANGED c
Next == \E i \in DOMAIN M.ops : Do(i)
Spec == Init /\ [][Next]_vars
View == <<c, Len(h), bad, s.q, s.st, s.ai, s.step>>

Holds == bad = {}
Inv == /\ NoDup(s.q) /\ DOMAIN s.z = Residents(s)
       /\ s.size = SumOver(s.z, Residents(s)) /\ s.size <= s.max
       /\ s.step >= 0 /\ s.step <= M.cfgs[c].evk
       /\ s.ai.add.eps >= 0 /\ s.ai.add.eps <= 1000000
       /\ \A f \in DOMAIN gh.mem : M.cfgs[c].rl = "SCDL" => Len(gh.mem[f]) <= 32
       /\ gh.step = s.step
Emit == PrintT("SCRIPT " \o ToString(<<c, h'>>))
=============================================================================
