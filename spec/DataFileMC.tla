------------------------------ MODULE DataFileMC ----------------------------
(* The reader's algorithm: one position in the file, shared by all          *)
(* operations, the last record an index access found and its position, and  *)
(* checkpoints.  Whatever the order of the operations, the answers are      *)
(* those of DataFileModel.  Every maximal path is printed as a script.      *)
EXTENDS DataFileModel, IOUtils, Json
M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES n,     \* number of records: the file is <<1, ..., n>>
          pos,   \* the record which is read next
          li,    \* last index and its position
          lip,
          cps,   \* indexes of the checkpoints (each with its position)
          h, bad
vars == <<n, pos, li, lip, cps, h, bad>>
File == [i \in 1..n |-> i]

Init == n \in 0..M.records /\ pos = 0 /\ li = 0 /\ lip = 0 /\ cps = {} /\ h = <<>> /\ bad = {}

Below(t) == {k \in cps : k < t}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* one index access from reader state r = [pos, li, lip]: [r, got]          *)
Lookup(r, t) ==
    LET cp == Below(t)
        at == IF cp = {} THEN 0 ELSE MaxOf(cp)
        r1 == IF cp = {} THEN r ELSE [r EXCEPT !.li = at, !.lip = at]
        jump == r1.li > at /\ t > r1.li
        cur == IF jump THEN r1.li ELSE at         \* the index it thinks it is at
        p == IF jump THEN r1.lip ELSE at          \* where it is
        \* it reads on until its index is t or the file ends
        steps == t - cur
        found == p + steps < n
        end == IF found THEN p + steps ELSE n - 1  \* position of the last record read
    IN  IF p >= n THEN [r |-> [r1 EXCEPT !.pos = p], got |-> <<>>]
        ELSE [r |-> [pos |-> end + 1, li |-> cur + (end - p), lip |-> end], got |-> IF found THEN <<File[end + 1]>> ELSE <<>>]
RECURSIVE Lookups(_, _, _)
Lookups(r, ts, got) == IF ts = <<>> THEN [r |-> r, got |-> got]
                       ELSE LET x == Lookup(r, Head(ts)) IN Lookups(x.r, Tail(ts), got \o x.got)

R == [pos |-> pos, li |-> li, lip |-> lip]
Reverse2(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Answer(e) ==
    CASE e.op = "index" ->
            LET p == Place(File, e.at) IN
            IF p < 0 THEN [r |-> [R EXCEPT !.pos = n], got |-> <<>>, exc |-> "IndexError", v |-> 0]
            ELSE LET x == Lookup(R, p) IN [r |-> x.r, got |-> x.got, exc |-> IF x.got = <<>> THEN "IndexError" ELSE "", v |-> 0]
      [] e.op = "slice" ->
            LET a == Given(e.a, 0)
                s == Given(e.s, 1)
                lo == IF a > e.b THEN e.b + 1 ELSE a
                hi == IF a > e.b THEN a + 1 ELSE e.b
                ts == [k \in 1..((hi - lo + s - 1) \div s) |-> lo + (k - 1) * s]
                x == Lookups(R, ts, <<>>)
            IN  [r |-> x.r, got |-> IF a > e.b THEN Reverse2(x.got) ELSE x.got, exc |-> "", v |-> 0]
      [] e.op = "iter" ->
            LET g == First(File, e.k) IN [r |-> [R EXCEPT !.pos = IF e.k < 0 THEN n ELSE MinI(n, e.k + 1)], got |-> g, exc |-> "", v |-> 0]
      [] e.op = "from" ->
            LET cp == Below(e.at)
                at == IF cp = {} THEN 0 ELSE MaxOf(cp)
                start == MinI(n, at + (e.at - at))
                g == First(DropN(File, start), e.k)
            IN  [r |-> [R EXCEPT !.pos = n], got |-> g, exc |-> "", v |-> 0]
      \* the length is found without moving; list() asks for it after iter()
      [] e.op = "list" -> [r |-> [R EXCEPT !.pos = n], got |-> File, exc |-> "", v |-> 0]
      [] e.op = "len" -> [r |-> R, got |-> <<>>, exc |-> "", v |-> n]
      [] OTHER -> [r |-> R, got |-> <<>>, exc |-> "", v |-> 0]
Do(i) ==
    LET e == M.ops[i]
        a == Answer(e)
    IN  /\ Len(h) < M.depth
        /\ e.op = "cp" => e.at < n
        /\ h' = Append(h, i) /\ pos' = a.r.pos /\ li' = a.r.li /\ lip' = a.r.lip
        /\ cps' = IF e.op = "cp" THEN cps \cup {e.at} ELSE cps
        /\ bad' = DataFileStep(File, e @@ [got |-> a.got, exc |-> a.exc, v |-> a.v])
        /\ UNCHANGED n
Next == \E i \in DOMAIN M.ops : Do(i)
Spec == Init /\ [][Next]_vars
View == <<n, Len(h), pos, li, lip, cps, bad>>
Holds == bad = {}
Inv == li = lip /\ (n > 0 => li < n)
Emit == PrintT("SCRIPT " \o ToString(<<n, h'>>))
=============================================================================
