---------------------------- MODULE SimDataModel ----------------------------
(* Tables of requests (SimulatorDatasetReader): columns of values (integers *)
(* that stand for numbers, quarters, truth values or words in their order), *)
(* converter maps of columns, and the training data made of them.           *)
(*   tab:  column -> sequence of values                                     *)
(*   maps: column -> [keys, vals, max, unk, buckets, open]                  *)
EXTENDS Util, FiniteSets

If(cond, name) == IF cond THEN {} ELSE {name}
Values(seq) == {seq[i] : i \in DOMAIN seq}
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Different(s) == Cardinality(Values(s)) = Len(s)
Kind(cols, c) == cols[c].kind
TypeOf(kind, text) == IF text THEN "string" ELSE CASE kind = "int" -> "int" [] kind = "float" -> "float" [] kind = "bool" -> "bool" [] OTHER -> "string"

(* the number of the i-th key, of all that is beyond the last bucket, and   *)
(* how many numbers there are (from 0)                                      *)
Nth(m, i) == i - 1 + (IF m.unk = 1 THEN 1 ELSE 0)
Width(m) == Len(m.keys) + (IF m.unk = 1 THEN 1 ELSE 0) + (IF m.open = 1 THEN 1 ELSE 0)
Beyond(m) == Nth(m, Len(m.keys) + 1)
(* the numbers which v may get; none: it cannot be converted                *)
Numbers(m, v) ==
    LET at == {i \in DOMAIN m.keys : IF m.buckets = 1 THEN v <= m.keys[i] ELSE v = m.keys[i]} IN
    IF at # {} THEN {Nth(m, CHOOSE i \in at : \A j \in at : i <= j)}
    ELSE IF m.buckets = 1 THEN (IF m.open = 1 THEN {Beyond(m)} ELSE {})
    ELSE IF m.unk = 1 THEN {0} ELSE {}

(* what a map made by e of column c has to be                               *)
MapFails(cols, tab, e, m) ==
    LET c == m.c
        bk == e.buckets # <<>> IN
    If(m.feature = c, "name of the column in its map")
    \cup If(m.type = TypeOf(Kind(cols, c), e.text), "type of the map")
    \cup If(m.unk = e.unk /\ m.buckets = (IF bk THEN 1 ELSE 0) /\ m.open = (IF bk /\ e.open THEN 1 ELSE 0), "kind of the map")
    \cup If(IF bk THEN m.keys = e.buckets ELSE Different(m.keys) /\ Values(m.keys) = Values(tab[c]), "keys")
    \cup If(e.sort => Ascending(m.keys), "order of the keys")
    \cup If(/\ Len(m.vals) = Len(m.keys)
            /\ \A i \in DOMAIN m.keys : \E j \in DOMAIN m.vals : m.vals[j].k = m.keys[i] /\ m.vals[j].n = Nth(m, i), "numbers of the keys")
    \cup If(m.max = (IF m.open = 1 THEN Beyond(m) ELSE -1), "number beyond the last bucket")

MapOf(l, c) == LET S == {i \in DOMAIN l : l[i].c = c} IN IF S = {} THEN {} ELSE {l[CHOOSE i \in S : TRUE]}
Same(m, o) == [x \in DOMAIN m \ {"vals"} |-> m[x]] = [x \in DOMAIN o \ {"vals"} |-> o[x]] /\ Values(m.vals) = Values(o.vals)
MapStep(cols, tab, maps, e) ==
    If(e.exc = "", "maps made")
    \cup If({e.obs.maps[i].c : i \in DOMAIN e.obs.maps} = DOMAIN maps \cup Values(e.cols) /\ e.obs.other = 0, "columns which have a map")
    \cup UNION {IF e.obs.maps[i].c \in Values(e.cols) THEN MapFails(cols, tab, e, e.obs.maps[i])
                ELSE IF e.obs.maps[i].c \in DOMAIN maps THEN If(Same(e.obs.maps[i], maps[e.obs.maps[i].c]), "map of another column") ELSE {} : i \in DOMAIN e.obs.maps}

(* the scale at which numbers are recorded: quarters                        *)
Plain(cols, c, v) == IF Kind(cols, c) = "float" THEN v ELSE 4 * v
OneHot(n, w) == [k \in 1..w |-> IF k = n + 1 THEN 4 ELSE 0]
(* the part of a row that column c gives                                    *)
Part(cols, maps, c, v) == IF c \in DOMAIN maps THEN OneHot(CHOOSE n \in Numbers(maps[c], v) : TRUE, Width(maps[c])) ELSE <<Plain(cols, c, v)>>
RECURSIVE Row(_, _, _, _, _)
Row(cols, tab, maps, cs, r) == IF cs = <<>> THEN <<>> ELSE Part(cols, maps, Head(cs), tab[Head(cs)][r]) \o Row(cols, tab, maps, Tail(cs), r)
Fits(tab, maps, c) == c \in DOMAIN maps => \A r \in DOMAIN tab[c] : Numbers(maps[c], tab[c][r]) # {}

DataStep(cols, tab, maps, e) ==
    LET lab == IF e.label = 0 THEN Len(cols) ELSE e.label
        n == Len(tab[1]) IN
    IF \E c \in Values(e.cols) \cup {lab} : ~Fits(tab, maps, c) THEN If(e.exc # "", "value which cannot be converted")
    ELSE IF e.exc # "" THEN {"data made"}
    ELSE LET want == [r \in 1..n |-> Row(cols, tab, maps, e.cols, r)]
             labels == [r \in 1..n |-> Part(cols, maps, lab, tab[lab][r])]
             w == Len(want[1]) IN
         If(e.ans.shape = (IF e.cnn THEN <<n, w, 1>> ELSE <<n, w>>), "shape of the data")
         \cup If(e.ans.rows = want, "rows of the data")
         \cup If(e.ans.lshape = (IF lab \in DOMAIN maps THEN <<n, Len(labels[1])>> ELSE <<n>>), "shape of the labels")
         \cup If(e.ans.labels = labels, "labels")

SimDataStep(cols, tab, maps, last, e) ==
    CASE e.op = "map" -> MapStep(cols, tab, maps, e)
      [] e.op = "modify" -> If(e.exc = "", "column modified")
      [] e.op = "data" -> DataStep(cols, tab, maps, e)
      [] e.op = "again" -> IF last = <<>> THEN {} ELSE If(e.exc = "" /\ e.ans = last, "data read back")
      [] OTHER -> {}
TabNext(tab, e) == IF e.op = "modify" THEN [tab EXCEPT ![e.c] = [r \in DOMAIN @ |-> @[r] + e.add]] ELSE tab
MapsNext(maps, e) == IF e.op # "map" THEN maps
                     ELSE [c \in {e.obs.maps[i].c : i \in DOMAIN e.obs.maps} |-> CHOOSE m \in MapOf(e.obs.maps, c) : TRUE]
(* nothing is demanded of what is kept after data could not be made         *)
LastNext(last, e) == IF e.op # "data" THEN last ELSE IF e.exc = "" THEN e.ans ELSE <<>>
=============================================================================
