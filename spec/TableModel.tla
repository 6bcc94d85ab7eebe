----------------------------- MODULE TableModel -----------------------------
(* Support tables: what was inserted, the numbers gen_indexes gave, and      *)
(* what the conversions answer.                                              *)
(*   T  set of <<table, key, value>>: the values which were inserted         *)
(*   I  set of <<table, key, value, number>>: the current indexes            *)
(* Tables and keys are numbers in the order of their names; a value is the   *)
(* sequence of its character codes.                                          *)
EXTENDS Util, SequencesExt

If(cond, name) == IF cond THEN {} ELSE {name}
Unknown == <<95, 95, 117, 110, 107, 110, 111, 119, 110, 95, 95>>
Lower(v) == [i \in DOMAIN v |-> IF v[i] \in 65..90 THEN v[i] + 32 ELSE v[i]]
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))

Groups(S) == {<<x[1], x[2]>> : x \in S}
Values(S, g) == {x[3] : x \in {y \in S : y[1] = g[1] /\ y[2] = g[2]}}
Numbers(I, g) == {<<x[3], x[4]>> : x \in {y \in I : y[1] = g[1] /\ y[2] = g[2]}}
Dumped(d) == {<<x.t, x.k, x.v, x.i>> : x \in Range2(d)}

(* numbers 0..n-1, one for each value, in the order of the values (without   *)
(* regard to case; values which differ in case only may come in any order)   *)
Numbered(vals, num) ==
    LET n == Cardinality(vals) IN
    /\ Cardinality(num) = n
    /\ {x[1] : x \in num} = vals
    /\ {x[2] : x \in num} = 0..(n - 1)
    /\ LET at == [i \in 0..(n - 1) |-> Lower((CHOOSE x \in num : x[2] = i)[1])]
       IN  \A i \in 0..(n - 2) : ~Less(at[i + 1], at[i])
Indexed(T, D) == Groups(D) = Groups(T) /\ \A g \in Groups(T) : Numbered(Values(T, g), Numbers(D, g))

Size(I, g) == Cardinality(Numbers(I, g))
NumberOf(I, g, v) == {x[2] : x \in {y \in Numbers(I, g) : y[1] = v}}
(* the number of the shortest value v starts with, else that of the unknown  *)
(* value, else none                                                          *)
CloseTo(I, g, v) ==
    LET p == {x \in Numbers(I, g) : IsPrefix(x[1], v)} IN
    IF p # {} THEN {(CHOOSE x \in p : \A y \in p : Len(x[1]) <= Len(y[1]))[2]}
    ELSE NumberOf(I, g, Unknown)
The(S) == CHOOSE x \in S : TRUE

KeysOf(I, t) == SetToSortSeq({x[2] : x \in {y \in I : y[1] = t}}, LAMBDA a, b : a < b)
HasKey(data, k) == \E j \in DOMAIN data : data[j].k = k
ValueAt(data, k) == data[CHOOSE j \in DOMAIN data : data[j].k = k].v
Convertible(I, t, data) ==
    LET ks == KeysOf(I, t) IN
    ks # <<>> /\ \A j \in DOMAIN ks : HasKey(data, ks[j]) /\ CloseTo(I, <<t, ks[j]>>, ValueAt(data, ks[j])) # {}
Converted(I, t, data) == LET ks == KeysOf(I, t) IN [j \in DOMAIN ks |-> The(CloseTo(I, <<t, ks[j]>>, ValueAt(data, ks[j])))]
Sizes(I, t) == LET ks == KeysOf(I, t) IN [j \in DOMAIN ks |-> Size(I, <<t, ks[j]>>)]
OneHot(num, sizes) == FoldLeft(LAMBDA acc, j : acc \o [i \in 1..sizes[j] |-> IF i = num[j] + 1 THEN 10000 ELSE 0], <<>>, [j \in DOMAIN num |-> j])
IsNormal(ans, num, sizes) == Len(ans) = Len(num) /\ \A j \in DOMAIN num : AbsI(ans[j] * sizes[j] - num[j] * 10000) <= sizes[j]
IsConversion(ans, I, t, data, norm) ==
    LET num == Converted(I, t, data)
        sizes == Sizes(I, t)
    IN  IF norm THEN IsNormal(ans, num, sizes) ELSE ans = OneHot(num, sizes)

(* reducing: every value is replaced by its first word, followed by up to    *)
(* lvls further words, each of them that which is new last in the order of   *)
(* the values                                                                *)
Words(v) ==
    LET r == FoldLeft(LAMBDA a, c : IF c \in {32, 45, 95} THEN [done |-> IF a.cur = <<>> THEN a.done ELSE Append(a.done, a.cur), cur |-> <<>>]
                                    ELSE [a EXCEPT !.cur = Append(@, c)], [done |-> <<>>, cur |-> <<>>], v)
    IN  IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)
Joined(ws) == FoldLeft(LAMBDA a, w : IF a = <<>> THEN w ELSE a \o <<32>> \o w, <<>>, ws)
RECURSIVE Extended(_, _, _)
Extended(lists, p, lvls) ==
    LET more == {j \in DOMAIN lists : Len(lists[j]) > Len(p) /\ IsPrefix(p, lists[j])}
        first(w) == CHOOSE j \in more : lists[j][Len(p) + 1] = w /\ \A k \in more : lists[k][Len(p) + 1] = w => j <= k
        ws == {lists[j][Len(p) + 1] : j \in more}
    IN  IF lvls = 0 \/ more = {} THEN p
        ELSE Extended(lists, Append(p, CHOOSE w \in ws : \A x \in ws : first(x) <= first(w)), lvls - 1)
Reduced(vals, lvls) ==
    LET sorted == SetToSortSeq(vals \ {Unknown}, Less)
        lists == SelectSeq([j \in DOMAIN sorted |-> Words(sorted[j])], LAMBDA l : l # <<>>)
    IN  {Joined(Extended(lists, <<w>>, lvls)) : w \in {lists[j][1] : j \in DOMAIN lists}} \cup {Unknown}
ReducedIn(T, g, lvls) == {x \in T : <<x[1], x[2]>> # g} \cup {<<g[1], g[2], v>> : v \in Reduced(Values(T, g), lvls)}

Inserted(T, e) == T \cup {<<e.t, e.k, e.v>>} \cup IF e.unk THEN {<<e.t, e.k, Unknown>>} ELSE {}

(* what an operation has to answer                                           *)
TableStep(T, I, e) ==
    LET g == IF "k" \in DOMAIN e THEN <<e.t, e.k>> ELSE <<0, 0>> IN
    CASE e.op = "gen" -> If(Indexed(T, Dumped(e.d)), "numbers of the values")
      [] e.op = "dict" -> If(Dumped(e.d) = I, "exported indexes")
      [] e.op = "attr" -> LET sub == {x \in I : x[1] = e.t} IN If(IF sub = {} THEN e.exc # "" ELSE e.exc = "" /\ Dumped(e.d) = sub, "table by its name")
      [] e.op = "get" -> LET a == NumberOf(I, g, e.v) IN If(IF a = {} THEN e.exc # "" ELSE e.exc = "" /\ e.ans = The(a), "number of a value")
      [] e.op = "close" -> LET a == CloseTo(I, g, e.v) IN If(IF a = {} THEN e.exc # "" ELSE e.exc = "" /\ e.ans = The(a), "number of a close value")
      [] e.op = "conv" -> If(IF e.norm = e.hot \/ ~Convertible(I, e.t, e.data) THEN e.exc # "" ELSE e.exc = "" /\ IsConversion(e.ans, I, e.t, e.data, e.norm), "converted features")
      [] e.op = "len" -> If(IF Numbers(I, g) = {} THEN e.exc # "" ELSE e.exc = "" /\ e.ans = Size(I, g), "number of values")
      [] e.op = "keys" -> LET ks == KeysOf(I, e.t) IN If(IF ks = <<>> THEN e.exc # "" ELSE e.exc = "" /\ e.ans = ks, "sorted keys")
      [] e.op = "tables" -> If(Range2(e.ans) = {x[1] : x \in I} /\ NoDup(e.ans) /\ e.at = e.ans, "list of tables")
      [] e.op = "reduce" -> If((e.exc # "") = (g \notin Groups(T)), "reduction")
      [] OTHER -> {}
TAfter(T, I, e) ==
    CASE e.op = "insert" -> Inserted(T, e)
      [] e.op = "reduce" -> IF <<e.t, e.k>> \in Groups(T) THEN ReducedIn(T, <<e.t, e.k>>, e.lvls) ELSE T
      [] e.op = "rebuild" -> {<<x[1], x[2], x[3]>> : x \in I}
      [] OTHER -> T
IAfter(I, e) == IF e.op = "gen" THEN Dumped(e.d) ELSE I

(* ---- training sets: a table of the features (1) and one of the classes (2)*)
RowsIn(T, rows) ==
    T \cup UNION {{<<1, x.k, x.v>> : x \in Range2(rows[j].f)} \cup {<<1, x.k, Unknown>> : x \in Range2(rows[j].f)} \cup {<<2, 1, rows[j].c>>} : j \in DOMAIN rows}
SetAfter(T, rows, e) ==
    IF e.op # "gen" THEN T
    ELSE LET a == RowsIn(T, rows)
         IN  {x \in a : x[1] = 2} \cup UNION {{<<1, g[2], v>> : v \in Reduced(Values(a, g), e.lvls)} : g \in {h \in Groups(a) : h[1] = 1}}
ClassOf(I, c) == The(CloseTo(I, <<2, 1>>, c))
Label(I, rows, c, hot) ==
    IF ~hot THEN ClassOf(I, c) ELSE [k \in 1..Cardinality({rows[j].c : j \in DOMAIN rows}) |-> IF k = ClassOf(I, c) + 1 THEN 1 ELSE 0]
Are(x, y, some, I, norm, rows, hot) ==
    Len(x) = Len(some) /\ Len(y) = Len(some) /\ \A j \in DOMAIN some : IsConversion(x[j], I, 1, some[j].f, norm) /\ y[j] = Label(I, rows, some[j].c, hot)
TrainStep(T, I, rows, e) ==
    LET n == Len(rows) IN
    CASE e.op = "gen" -> If(Indexed(SetAfter(T, rows, e), Dumped(e.d)), "numbers of the values")
      [] e.op = "train" ->
            IF e.exc # "" THEN {"training set"}
            ELSE IF e.k = 0 THEN If(Len(e.folds) = 1 /\ e.folds[1].val = 0 /\ Are(e.folds[1].x, e.folds[1].y, rows, I, e.norm, rows, e.hot), "training set")
            ELSE LET c == n \div e.k IN
                 If(Len(e.folds) = e.k /\ \A j \in 1..e.k :
                        LET f == e.folds[j]
                            v == SubSeq(rows, (j - 1) * c + 1, j * c)
                            t == SubSeq(rows, 1, (j - 1) * c) \o SubSeq(rows, j * c + 1, n)
                        IN  f.val = 1 /\ Are(f.x, f.y, t, I, e.norm, rows, e.hot) /\ Are(f.vx, f.vy, v, I, e.norm, rows, e.hot), "folds of the training set")
      [] e.op = "score" -> LET s == SumSeq([j \in DOMAIN rows |-> rows[j].cpu \div rows[j].req]) IN If(AbsI(e.ans * n - s * 1000) <= n, "mean score")
      [] e.op = "classes" -> If(e.ans = Cardinality({rows[j].c : j \in DOMAIN rows}), "number of classes")
      [] OTHER -> If(e.ans = n, "number of records")
=============================================================================
