---------------------------- MODULE DataFileModel ---------------------------
(* JSON data files: what the file holds (a sequence of record numbers) and  *)
(* what the operations of a reader answer.  The answers depend on the file  *)
(* only: neither on what was read before nor on checkpoints.                *)
EXTENDS Util

If(cond, name) == IF cond THEN {} ELSE {name}

(* the indexes of a slice [a:b:s]; NaN is a bound which is not given; a     *)
(* slice from a higher to a lower bound goes downwards (by one)             *)
Given(x, d) == IF x = NaN THEN d ELSE x
SliceOf(file, a0, b, s0) ==
    LET a == Given(a0, 0)
        s == IF Given(s0, 1) = 0 THEN 1 ELSE Given(s0, 1)
        n == Len(file)
        up == IF a < b THEN [k \in 1..((b - a + s - 1) \div s) |-> a + (k - 1) * s]
              ELSE [k \in 1..(a - b) |-> a - (k - 1)]
        there == SelectSeq(up, LAMBDA i : i < n)
    IN  [k \in DOMAIN there |-> file[there[k] + 1]]
Place(file, i) == IF i < 0 THEN i + Len(file) ELSE i
From(file, i) == DropN(file, MinI(i, Len(file)))
First(seq, k) == IF k < 0 \/ k > Len(seq) THEN seq ELSE TakeN(seq, k)
Chunks(n, k) == [j \in 1..((n + k - 1) \div k) |-> IF j * k <= n THEN k ELSE n - (j - 1) * k]

Written(file, e) == IF e.op = "write" THEN (IF e.mode = "a" THEN file ELSE <<>>) \o e.l ELSE file

(* what e has to answer on the file                                         *)
DataFileStep(file, e) ==
    CASE e.op = "write" -> If((e.exc # "") = (e.how = "bad"), "refusal")
      [] e.op = "index" ->
            LET p == Place(file, e.at) IN
            IF p >= 0 /\ p < Len(file) THEN If(e.exc = "" /\ e.got = <<file[p + 1]>>, "record")
            ELSE If(e.exc # "" /\ e.got = <<>>, "record which is not there")
      [] e.op = "slice" -> If(e.exc = "" /\ e.got = SliceOf(file, e.a, e.b, e.s), "records of the slice")
      [] e.op \in {"iter", "data"} -> If(e.exc = "" /\ e.got = First(file, e.k), "records in order")
      [] e.op = "from" -> If(e.exc = "" /\ e.got = First(From(file, e.at), e.k), "records from an index")
      [] e.op \in {"list", "mid"} -> If(e.exc = "" /\ e.got = file, "list of the records")
      [] e.op = "len" -> If(e.v = Len(file), "length")
      [] e.op = "raw" -> If(e.got = file, "raw data")
      [] e.op = "chunks" -> If(e.got = file /\ e.lens = Chunks(Len(file), e.k), "chunks")
      [] OTHER -> {}
=============================================================================
