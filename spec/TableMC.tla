------------------------------- MODULE TableMC ------------------------------
(* The algorithm of the tables: conversions are remembered (as a call of     *)
(* functools.lru_cache does), and so are the keys and the sizes of a table,  *)
(* until the indexes are generated again.  Whatever the order of the         *)
(* operations, the answers are those of TableModel.                          *)
EXTENDS TableModel, IOUtils, Json
M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES T, I,
          cache,   \* set of <<operation, table, key, value, answer>>
          known,   \* set of <<table, keys, sizes>>
          h, bad
vars == <<T, I, cache, known, h, bad>>
Init == T = {} /\ I = {} /\ cache = {} /\ known = {} /\ h = <<>> /\ bad = {}

(* sorted() of the values, without case; ties as they come                    *)
Key(v) == Lower(v)
Order(vals) == SetToSortSeq(vals, LAMBDA a, b : Less(Key(a), Key(b)) \/ (Key(a) = Key(b) /\ Less(a, b)))
Gen == UNION {LET s == Order(Values(T, g)) IN {<<g[1], g[2], s[j], j - 1>> : j \in DOMAIN s} : g \in Groups(T)}
AsDump(D) == [j \in 1..Cardinality(D) |-> LET x == SetToSeq(D)[j] IN [t |-> x[1], k |-> x[2], v |-> x[3], i |-> x[4]]]

(* the first indexed value, in the order of the indexes, v starts with        *)
Scan(g, v) ==
    LET n == Numbers(I, g)
        hits == {x \in n : IsPrefix(x[1], v)}
    IN  IF hits # {} THEN {(CHOOSE x \in hits : \A y \in hits : x[2] <= y[2])[2]} ELSE NumberOf(I, g, Unknown)
Found(op, g, v) ==
    LET c == {x \in cache : x[1] = op /\ x[2] = g[1] /\ x[3] = g[2] /\ x[4] = v}
    IN  IF c # {} THEN {The(c)[5]} ELSE IF op = "get" THEN NumberOf(I, g, v) ELSE Scan(g, v)
Remembered(op, g, v) == {<<op, g[1], g[2], v, x>> : x \in Found(op, g, v)}
Known(t) == LET k == {x \in known : x[1] = t} IN IF k # {} THEN The(k) ELSE <<t, KeysOf(I, t), Sizes(I, t)>>

Do(i) ==
    LET e == M.ops[i]
        g == IF "k" \in DOMAIN e THEN <<e.t, e.k>> ELSE <<0, 0>>
        a == IF e.op = "gen" THEN e @@ [d |-> AsDump(Gen)]
             ELSE IF e.op \in {"get", "close"} THEN LET x == Found(e.op, g, e.v) IN e @@ [exc |-> IF x = {} THEN "KeyError" ELSE "", ans |-> IF x = {} THEN -1 ELSE The(x)]
             ELSE IF e.op = "conv" THEN
                LET kn == Known(e.t)
                    xs == [j \in DOMAIN kn[2] |-> Found("close", <<e.t, kn[2][j]>>, ValueAt(e.data, kn[2][j]))]
                    ok == kn[2] # <<>> /\ \A j \in DOMAIN xs : xs[j] # {}
                IN  e @@ [exc |-> IF ok THEN "" ELSE "KeyError", ans |-> IF ok THEN OneHot([j \in DOMAIN xs |-> The(xs[j])], kn[3]) ELSE <<>>]
             ELSE e
    IN  /\ Len(h) < M.depth
        /\ h' = Append(h, i)
        /\ bad' = TableStep(T, I, a)
        /\ T' = TAfter(T, I, e)
        /\ I' = IF e.op = "gen" THEN Gen ELSE I
        /\ cache' = IF e.op \in {"gen", "pickle", "rebuild"} THEN {} ELSE IF e.op \in {"get", "close"} THEN cache \cup Remembered(e.op, g, e.v)
                    ELSE IF e.op = "conv" THEN LET ks == Known(e.t)[2] IN cache \cup UNION {Remembered("close", <<e.t, ks[j]>>, ValueAt(e.data, ks[j])) : j \in DOMAIN ks}
                    ELSE cache
        /\ known' = IF e.op \in {"gen", "rebuild"} THEN {} ELSE IF e.op = "conv" /\ Known(e.t)[2] # <<>> THEN known \cup {Known(e.t)} ELSE known
Next == \E i \in DOMAIN M.ops : Do(i)
Spec == Init /\ [][Next]_vars
View == <<T, I, cache, known, Len(h), bad>>
Holds == bad = {}
Inv == \A x \in cache : <<x[2], x[3]>> \in Groups(I)
Emit == PrintT("SCRIPT " \o ToString(h'))
=============================================================================
