------------------------------ MODULE AgentModel ----------------------------
(* Q-learning agents over feature maps (C28, C29).                          *)
(*                                                                          *)
(* Configuration c: role (add, evc), feats (sequence of [name, type, vals,  *)
(* open, file]), eps, dec (thousandths), unl, tabs (exploration rates in    *)
(* millionths: tabs[i] = [d |-> decay, t |-> rates after 0, 1, ... steps]). *)
(* Values of features are integers: halves for float, n for the string vn,  *)
(* 0 and 1 for bool; Inf is the last bucket of an open feature.             *)
(* Figures o: q (values by state and action, ten thousandths), eps          *)
(* (millionths), step, qv (quarters), mem (choices by key).                 *)
EXTENDS Util

Inf == 1000000000
If(cond, name) == IF cond THEN {} ELSE {name}

(* ------------------------------ features -------------------------------- *)
Numeric(f) == f.type \in {"int", "float"}
Values(f) == IF f.open /\ Numeric(f) THEN Append(f.vals, Inf) ELSE f.vals
Size(f) == Len(Values(f))

(* the place of a value: the first bucket that is not below it, or the      *)
(* first equal value; -1 if there is none                                   *)
IndexOf(f, v) ==
    LET vs == Values(f)
        fits == {k \in DOMAIN vs : IF Numeric(f) THEN v <= vs[k] ELSE v = vs[k]}
    IN  IF fits = {} THEN -1 ELSE Min(fits) - 1

RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
(* printed with two decimals in nine places                                 *)
Fixed(h) == LET s == ToString(h \div 2) \o (IF h % 2 = 0 THEN ".00" ELSE ".50") IN Zeros(9 - Len(s)) \o s
Text(f, v) ==
    CASE Numeric(f) /\ v = Inf -> "max"
      [] f.type = "int" -> ToString(v)
      [] f.type = "float" -> Fixed(v)
      [] f.type = "string" -> "v" \o ToString(v)
      [] OTHER -> IF v = 1 THEN "true" ELSE "false"

(* states: mixed radix numbers, the last feature counts ones                *)
RECURSIVE Weight(_, _)
Weight(sizes, k) == IF k >= Len(sizes) THEN 1 ELSE sizes[k + 1] * Weight(sizes, k + 1)
NumStates(sizes) == FoldLeft(LAMBDA a, b : a * b, 1, sizes)
StateIndex(sizes, t) == SumSeq([k \in DOMAIN t |-> t[k] * Weight(sizes, k)])
Digit(sizes, s, k) == (s \div Weight(sizes, k)) % sizes[k]
Tuple(sizes, s) == [k \in DOMAIN sizes |-> Digit(sizes, s, k)]

(* ------------------------------ actions --------------------------------- *)
Actions(role) == IF role = "add" THEN {-7, -6} ELSE {-5, -4, -3, -2, -1}
ActionName(a) ==
    CASE a = -7 -> "ActionNotStore" [] a = -6 -> "ActionStore" [] a = -5 -> "ActionNotDelete"
      [] a = -4 -> "ActionDeleteAll" [] a = -3 -> "ActionDeleteHalf" [] a = -2 -> "ActionDeleteQuarter"
      [] OTHER -> "ActionDeleteOne"
Col(acts, a) == CHOOSE k \in DOMAIN acts : acts[k] = a

(* ------------------------------ exploration ----------------------------- *)
Rate(c, d, k) == LET i == CHOOSE i \in DOMAIN c.tabs : c.tabs[i].d = d IN c.tabs[i].t[k + 1]
MinRate == 100000

(* ------------------------------ memory ---------------------------------- *)
MaxChoices == 32
ChoiceOf(e) == <<e.s, e.a, e.n, e.n + 1, e.n % 7, e.n % 2, e.n % 5, e.n % 3>>
Saved(mem, k, ch, nlim) ==
    LET old == IF k \in DOMAIN mem THEN mem[k] ELSE <<>>
        kept == IF ~nlim /\ Len(old) >= MaxChoices THEN DropN(old, 1) ELSE old
    IN  With(mem, k, Append(kept, ch))

(* ------------------------------ learning -------------------------------- *)
MaxOf(row) == Max(Range2(row))
(* learning rate 0.9, discount 0.5: 20 new = 2 old + 18 reward + 9 best     *)
Learned(old, r4, best, new) == AbsI(20 * new - 2 * old - 45000 * r4 - 9 * best) <= 16

(* ------------------------------ one step -------------------------------- *)
(* g: [dec, touched, acts]                                                  *)
Same(pre, post, what) == {x \in what : pre[x] # post[x]}
AllFigures == {"q", "eps", "step", "qv", "mem"}
Updates(g, e) == e.a \in Range2(g.acts)
MustPanic(g, pre, e) == (e.op = "upd" /\ ~Updates(g, e)) \/ (e.op = "memories" /\ e.k \notin DOMAIN pre.mem)

AgentStep(c, g, pre, e, post) ==
    IF "panicked" \in DOMAIN e THEN
        If(MustPanic(g, pre, e), "panic") \cup If(post.q = pre.q /\ post.mem = pre.mem, "table")
    ELSE If(~MustPanic(g, pre, e), "accepted") \cup
    CASE e.op = "upd" ->
            LET k == Col(g.acts, e.a) IN
            If(Learned(pre.q[e.s + 1][k], e.r, MaxOf(pre.q[e.s2 + 1]), post.q[e.s + 1][k]), "value")
            \cup If(\A s \in DOMAIN pre.q : \A x \in DOMAIN pre.q[s] :
                      (s = e.s + 1 /\ x = k) \/ post.q[s][x] = pre.q[s][x], "other values")
            \cup If(post.qv = pre.qv + e.r, "value function")
            \cup Same(pre, post, {"eps", "step", "mem"})
      [] e.op = "best" ->
            LET row == pre.q[e.s + 1] IN
            If(e.v2 \in Range2(g.acts) /\ row[Col(g.acts, e.v2)] = MaxOf(row), "best action")
            \cup If(e.v3 = MaxOf(row), "best value") \cup If(e.v4 = row[e.a + 1], "value of the action")
            \cup Same(pre, post, AllFigures)
      [] e.op = "eps" ->
            LET goes == post.step = pre.step + 1 /\ Close(post.eps, Rate(c, g.dec, pre.step + 1), 1)
                stays == post.step = pre.step /\ post.eps = pre.eps
            IN  If(IF pre.eps > MinRate THEN goes ELSE IF pre.eps < MinRate THEN stays ELSE goes \/ stays, "rate")
                \cup Same(pre, post, {"q", "qv", "mem"})
      [] e.op = "unleash" ->
            (IF ~c.unl THEN Same(pre, post, {"eps", "step"})
             ELSE If(Close(post.eps, Rate(c, g.dec, post.step), 1), "rate")
                  \cup (IF e.e < 0 THEN If(post.step = 0, "unleashed")
                        ELSE If(Rate(c, g.dec, post.step) <= 1000 * e.e + 1, "not down")
                             \cup LET before == Rate(c, g.dec, post.step - 1)
                                      due == post.step = 0 \/ before > 1000 * e.e \/ (before = 1000 * e.e /\ post.step > 1)
                                  IN If(due, "too far down")))
            \cup Same(pre, post, {"q", "qv", "mem"})
      [] e.op = "params" ->
            If(post.eps = 1000 * e.e /\ post.step = 0 /\ post.qv = 0, "parameters") \cup Same(pre, post, {"q", "mem"})
      [] e.op = "resetq" -> If(post.qv = 0, "value function") \cup Same(pre, post, AllFigures \ {"qv"})
      [] e.op = "resettable" ->
            If(post.q = [s \in DOMAIN pre.q |-> [x \in DOMAIN pre.q[s] |-> 0]], "table") \cup Same(pre, post, AllFigures \ {"q"})
      [] e.op = "save" -> If(post.mem = Saved(pre.mem, e.k, ChoiceOf(e), e.nlim), "memory") \cup Same(pre, post, AllFigures \ {"mem"})
      [] e.op = "remember" ->
            If(e.v3 = (e.k \in DOMAIN pre.mem), "remembered")
            \cup If(e.v2 = (IF e.k \in DOMAIN pre.mem THEN pre.mem[e.k] ELSE <<>>), "choices")
            \cup If(post.mem = Only(pre.mem, (DOMAIN pre.mem) \ {e.k}), "memory") \cup Same(pre, post, AllFigures \ {"mem"})
      [] e.op = "memories" -> If(e.k \in DOMAIN pre.mem => e.v2 = pre.mem[e.k], "choices") \cup Same(pre, post, AllFigures)
      [] e.op = "forget" -> If(post.mem = Only(pre.mem, (DOMAIN pre.mem) \ {e.k}), "memory") \cup Same(pre, post, AllFigures \ {"mem"})
      [] e.op = "forgetall" -> If(post.mem = Empty, "memory") \cup Same(pre, post, AllFigures \ {"mem"})
      [] e.op = "cov" ->
            LET cells == {<<s, x>> : s \in DOMAIN pre.q, x \in DOMAIN g.acts}
                sure == {y \in cells : pre.q[y[1]][y[2]] # 0}
                ns == Len(pre.q)
                States(Y) == Cardinality({y[1] : y \in Y})
                Between(v, lo, hi, n) == Ratio(lo, n, 5) - 1 <= v /\ v <= Ratio(hi, n, 5) + 1
            IN  If(Between(e.v2, Cardinality(sure), Cardinality(g.touched), ns * Len(g.acts)), "action coverage")
                \cup If(Between(e.v3, States(sure), States(g.touched), ns), "state coverage")
                \cup Same(pre, post, AllFigures)
      [] e.op = "restore" -> Same(pre, post, AllFigures \ {"mem"}) \cup If(post.mem = Empty, "memory")
      [] OTHER -> Same(pre, post, AllFigures)

GhostStep(c, g, pre, e, post) ==
    CASE e.op = "params" -> [g EXCEPT !.dec = e.d]
      [] e.op = "upd" /\ Updates(g, e) -> [g EXCEPT !.touched = @ \cup {<<e.s + 1, Col(g.acts, e.a)>>}]
      [] e.op = "resettable" -> [g EXCEPT !.touched = {}]
      [] OTHER -> g

(* ------------------------------ feature map ----------------------------- *)
Ordered(i) == [k \in DOMAIN i.feats |-> i.feats[k].name]
FeatOf(c, n) == CHOOSE f \in Range2(c.feats) : f.name = n
SizesOf(c, i) == [k \in DOMAIN i.feats |-> Size(FeatOf(c, i.feats[k].name))]
PlaceMap(s) == {[f |-> s[k], v |-> k - 1] : k \in DOMAIN s}

InitOk(c, i) ==
    LET order == Ordered(i)
        sizes == SizesOf(c, i)
        files == SelectSeq(order, LAMBDA n : FeatOf(c, n).file)
        fsizes == [k \in DOMAIN files |-> Size(FeatOf(c, files[k]))]
    IN
    IF ~(NoDup(order) /\ Range2(order) = {f.name : f \in Range2(c.feats)}) THEN {"features"}
    ELSE If(\A k \in DOMAIN i.feats : LET f == FeatOf(c, i.feats[k].name) IN
               i.feats[k].type = f.type /\ i.feats[k].vals = Values(f) /\ i.feats[k].file = f.file, "values")
         \cup If(i.files = files, "file features")
         \cup If(Range2(i.fidx) = PlaceMap(order) /\ Range2(i.ffidx) = PlaceMap(files), "places")
         \cup If(i.fw = [k \in DOMAIN sizes |-> Weight(sizes, k)], "weights")
         \cup If(i.ffw = [k \in DOMAIN fsizes |-> Weight(fsizes, k)], "weights of the file features")
         \cup If(i.ns = NumStates(sizes) /\ i.nv = i.ns * Len(i.acts), "number of states")
         \cup If(Len(i.states) = NumStates(sizes) /\ \A s \in DOMAIN i.states : i.states[s] = Tuple(sizes, s - 1), "states")
         \cup If(NoDup(i.acts) /\ Range2(i.acts) = Actions(c.role), "actions")

MapStep(c, i, pre, e, post) ==
    CASE e.op = "index" -> If(e.v2 = IndexOf(FeatOf(c, e.f), e.v), "index")
      [] e.op = "value" ->
            LET f == FeatOf(c, e.f) IN
            If(e.all = Values(f) /\ e.size = Size(f), "values") \cup If(e.idx = [k \in 1..Size(f) |-> k - 1], "places")
            \cup If(e.str = [k \in 1..Size(f) |-> Text(f, Values(f)[k])], "text")
      [] e.op = "state" -> If(e.v2 = StateIndex(SizesOf(c, i), e.l), "state")
      [] e.op = "idxs" ->
            If(Len(e.v2) = Len(i.feats) /\ \A k \in DOMAIN e.v2 :
                 LET f == FeatOf(c, i.feats[k].name) IN Numeric(f) => e.v2[k] = IndexOf(f, e.l[k]), "places of the values")
      [] e.op = "str" ->
            LET sizes == SizesOf(c, i) IN
            If(e.head = [k \in DOMAIN i.acts |-> ActionName(i.acts[k])] \o Ordered(i), "header")
            \cup If(Len(e.vals) = Len(pre.q) /\ Len(e.fcells) = Len(pre.q), "rows")
            \cup If(\A s \in DOMAIN e.vals : \A k \in DOMAIN e.vals[s] : AbsI(100 * e.vals[s][k] - pre.q[s][k]) <= 51, "printed values")
            \cup If(\A s \in DOMAIN e.fcells : e.fcells[s] = [k \in DOMAIN sizes |->
                       LET f == FeatOf(c, i.feats[k].name) IN Text(f, Values(f)[Digit(sizes, s - 1, k) + 1])], "printed features")
      [] e.op = "restore" -> InitOk(c, e.init) \cup If(Ordered(e.init) = Ordered(i), "order of the features")
      [] OTHER -> {}
=============================================================================
