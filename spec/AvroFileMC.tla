----------------------------- MODULE AvroFileMC -----------------------------
(* The algorithm of the Avro reader: the descriptor stands before a block   *)
(* of records; an iterator keeps what is left of the block it read last;    *)
(* the length is counted once, from the start, and the descriptor put back. *)
(* Whatever the order of the operations, the answers are those of           *)
(* AvroFileModel.  Every maximal path is printed as a script.               *)
EXTENDS AvroFileModel, IOUtils, Json
M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES bl,    \* sizes of the blocks (one for each call of the writer)
          dp,    \* number of blocks before the descriptor
          mem,   \* records of the last block which the iterator still has
          ln,    \* the length if it was counted (otherwise 0)
          cur, h, bad
vars == <<bl, dp, mem, ln, cur, h, bad>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
n == Total(bl)
File == [i \in 1..n |-> i]
Block(k) == LET b == Total(TakeN(bl, k - 1)) IN [i \in 1..bl[k] |-> b + i]
Splits(m) == IF m = 0 THEN {<<>>} ELSE {s \in UNION {[1..k -> 1..m] : k \in 1..m} : Total(s) = m}

Init == bl \in UNION {Splits(m) : m \in 1..M.records} /\ dp = 0 /\ mem = <<>> /\ ln = 0 /\ cur = -1 /\ h = <<>> /\ bad = {}

(* an iterator r = [dp, mem] gives k more records: [r, got]                 *)
RECURSIVE More(_, _, _)
More(r, k, got) ==
    IF k = 0 THEN [r |-> r, got |-> got]
    ELSE IF r.mem # <<>> THEN More([r EXCEPT !.mem = Tail(@)], k - 1, Append(got, Head(r.mem)))
    ELSE IF r.dp < Len(bl) THEN More([dp |-> r.dp + 1, mem |-> Block(r.dp + 1)], k, got)
    ELSE [r |-> r, got |-> got]
R == [dp |-> dp, mem |-> mem]
Fresh == [dp |-> 0, mem |-> <<>>]
Reverse2(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Out(r, got, exc, v) == [r |-> r, got |-> got, exc |-> exc, v |-> v]

Answer(e) ==
    CASE e.op = "index" ->
            LET x == More(Fresh, IF e.at < 0 THEN n + 1 ELSE e.at + 1, <<>>) IN
            IF e.at < 0 \/ Len(x.got) <= e.at THEN Out(x.r, <<>>, "IndexError", 0) ELSE Out(x.r, <<x.got[e.at + 1]>>, "", 0)
      [] e.op = "slice" ->
            LET a == Given(e.a, 0)
                s == Given(e.s, 1)
                lo == IF a > e.b THEN e.b + 1 ELSE a
                hi == IF a > e.b THEN a + 1 ELSE e.b
                ts == [k \in 1..((hi - lo + s - 1) \div s) |-> lo + (k - 1) * s]
                last == IF ts = <<>> THEN -1 ELSE ts[Len(ts)]
                x == More(Fresh, last + 1, <<>>)
                got == [k \in DOMAIN ts |-> x.got[ts[k] + 1]]
            IN  IF Len(x.got) <= last THEN Out(x.r, <<>>, "IndexError", 0) ELSE Out(x.r, IF a > e.b THEN Reverse2(got) ELSE got, "", 0)
      [] e.op = "start" -> Out(Fresh, <<>>, "", 0)
      [] e.op = "next" -> LET x == More(R, 1, <<>>) IN Out(x.r, x.got, IF x.got = <<>> THEN "StopIteration" ELSE "", 0)
      [] e.op = "list" -> LET x == More(Fresh, n + 1, <<>>) IN Out(x.r, x.got, "", 0)
      [] e.op = "len" -> Out(R, <<>>, "", n)
      [] OTHER -> Out(R, <<>>, "", 0)
Do(i) ==
    LET e == M.ops[i]
        a == Answer(e)
    IN  /\ Len(h) < M.depth
        /\ e.op = "next" => cur >= 0
        /\ h' = Append(h, i) /\ dp' = a.r.dp /\ mem' = a.r.mem
        /\ ln' = IF e.op \in {"len", "list"} THEN n ELSE ln
        /\ cur' = AvroCur(File, cur, e)
        /\ bad' = AvroStep(File, cur, e @@ [got |-> a.got, exc |-> a.exc, v |-> a.v])
        /\ UNCHANGED bl
Next == \E i \in DOMAIN M.ops : Do(i)
Spec == Init /\ [][Next]_vars
View == <<bl, Len(h), dp, mem, ln, cur, bad>>
Holds == bad = {}
(* an iteration which goes on has what it has not given yet                 *)
Inv == cur >= 0 => n - cur = Len(mem) + Total(DropN(bl, dp))
Emit == PrintT("SCRIPT " \o ToString(<<Len(bl)>> \o bl \o h'))
=============================================================================
