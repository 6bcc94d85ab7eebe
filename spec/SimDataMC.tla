------------------------------ MODULE SimDataMC -----------------------------
(* The algorithm of the conversion (a dictionary from keys to numbers, a    *)
(* search through the buckets, "max" beyond them) on small tables, for      *)
(* every history of maps made, made again, columns modified and data: what  *)
(* it gives is what SimDataModel asks for, different classes get different  *)
(* places, and every place is within the row.  Maximal paths are scripts.   *)
EXTENDS SimDataModel, IOUtils, Json
M == JsonDeserialize(IOEnv.MCCFG)
Cols == M.cols
VARIABLES tab, maps, h, bad
vars == <<tab, maps, h, bad>>
Init == tab = [c \in DOMAIN Cols |-> Cols[c].v] /\ maps = [c \in {} |-> 0] /\ h = <<>> /\ bad = {}

(* make_converter_map                                                       *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
Made(e, c) ==
    LET keys == IF e.buckets # <<>> THEN e.buckets ELSE Sorted(Values(tab[c]))
        from == IF e.unk = 1 THEN 1 ELSE 0
        open == e.buckets # <<>> /\ e.open
    IN  [c |-> c, feature |-> c, type |-> TypeOf(Kind(Cols, c), e.text), keys |-> keys, unk |-> e.unk, buckets |-> IF e.buckets # <<>> THEN 1 ELSE 0,
         open |-> IF open THEN 1 ELSE 0, vals |-> [i \in DOMAIN keys |-> [k |-> keys[i], n |-> i - 1 + from]],
         max |-> IF open THEN Len(keys) + from ELSE -1]
(* __get_category_value: a number, or -1 for an exception                   *)
RECURSIVE Search(_, _, _)
Search(m, v, i) == IF i > Len(m.keys) THEN (IF m.open = 1 THEN m.max ELSE -1)
                   ELSE IF v <= m.keys[i] THEN (CHOOSE x \in Values(m.vals) : x.k = m.keys[i]).n ELSE Search(m, v, i + 1)
Category(m, v) ==
    IF m.buckets = 1 THEN Search(m, v, 1)
    ELSE LET x == {y \in Values(m.vals) : y.k = v} IN IF x # {} THEN (CHOOSE y \in x : TRUE).n ELSE IF m.unk = 1 THEN 0 ELSE -1

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Cell(c, v) == IF c \in DOMAIN maps THEN OneHot(Category(maps[c], v), Width(maps[c])) ELSE <<Plain(Cols, c, v)>>
Answer(e) ==
    CASE e.op = "map" ->
            LET new == [c \in DOMAIN maps \cup Values(e.cols) |-> IF c \in Values(e.cols) THEN Made(e, c) ELSE maps[c]]
            IN  [exc |-> "", obs |-> [maps |-> [i \in 1..Cardinality(DOMAIN new) |-> new[Sorted(DOMAIN new)[i]]], other |-> 0]]
      [] e.op = "data" ->
            LET lab == IF e.label = 0 THEN Len(Cols) ELSE e.label
                n == Len(tab[1])
                no == \E c \in Values(e.cols) \cup {lab} : c \in DOMAIN maps /\ \E r \in 1..n : Category(maps[c], tab[c][r]) = -1
                rows == [r \in 1..n |-> Flat([j \in DOMAIN e.cols |-> Cell(e.cols[j], tab[e.cols[j]][r])])]
                labels == [r \in 1..n |-> Cell(lab, tab[lab][r])]
            IN  IF no THEN [exc |-> "Exception", ans |-> <<>>]
                ELSE [exc |-> "", ans |-> [shape |-> IF e.cnn THEN <<n, Len(rows[1]), 1>> ELSE <<n, Len(rows[1])>>, rows |-> rows,
                                           lshape |-> IF lab \in DOMAIN maps THEN <<n, Len(labels[1])>> ELSE <<n>>, labels |-> labels]]
      [] OTHER -> [exc |-> ""]
Do(i) ==
    LET e == M.ops[i]
        r == e @@ Answer(e)
    IN  /\ Len(h) < M.depth
        /\ h' = Append(h, i)
        /\ bad' = SimDataStep(Cols, tab, maps, <<>>, r)
        /\ tab' = TabNext(tab, r)
        /\ maps' = MapsNext(maps, r)
Next == \E i \in DOMAIN M.ops : Do(i)
Spec == Init /\ [][Next]_vars
View == <<tab, maps, Len(h), bad>>
Holds == bad = {}
(* classes keep apart, and within the row                                   *)
Inv == \A c \in DOMAIN maps : \A v, w \in (-1)..9 :
        LET m == maps[c]
            a == Category(m, v)
            b == Category(m, w) IN
        /\ a < Width(m)
        /\ a >= 0 /\ m.buckets = 0 /\ v # w /\ v \in Values(m.keys) => a # b
        /\ a >= 0 /\ b >= 0 /\ m.buckets = 1 /\ v <= w => a <= b
Emit == PrintT("SCRIPT " \o ToString(h'))
=============================================================================
