----------------------------- MODULE ClientModel ----------------------------
(* The agent's clients: what is on the servers after each operation, and     *)
(* what the operation answers.                                                *)
(*   D     set of paths (sequences of names): the directories                 *)
(*   F     set of <<path, content>>: the files                                *)
(*   docs  set of documents (numbers) in the index                            *)
(* e.fail is the number of the request which fails (0: none).                 *)
EXTENDS DataFileModel, SequencesExt

PathsUp(p) == {TakeN(p, j) : j \in 0..Len(p)}
Below(p, x) == IsPrefix(p, x)
FileAt(F, p) == {x \in F : x[1] = p}
Exists(D, F, p) == p \in D \/ FileAt(F, p) # {}
Full(D, F, p) == (\E x \in D : Below(p, x) /\ x # p) \/ (\E x \in F : Below(p, x[1]) /\ x[1] # p)
Fails(e, k) == e.fail # 0 /\ e.fail <= k

(* is the operation refused (an exception)                                    *)
Refused(D, F, e) ==
    CASE e.op = "mkdir" -> Fails(e, 1)
      [] e.op = "create" -> Fails(e, 2) \/ e.p \in D \/ (FileAt(F, e.p) # {} /\ ~e.over) \/ e.how = "missing"
      [] e.op = "open" -> Fails(e, 1) \/ FileAt(F, e.p) = {}
      [] e.op = "list" -> Fails(e, 1) \/ e.p \notin D
      [] e.op = "delete" -> Fails(e, 1) \/ (e.p \in D /\ ~e.rec /\ Full(D, F, e.p))
      [] OTHER -> FALSE
DAfter(D, F, e) ==
    IF Refused(D, F, e) THEN D
    ELSE CASE e.op = "mkdir" -> D \cup PathsUp(e.p)
           [] e.op = "create" -> D \cup (PathsUp(e.p) \ {e.p})
           [] e.op = "delete" -> {x \in D : ~Below(e.p, x)} \cup {<<>>}
           [] OTHER -> D
FAfter(D, F, e) ==
    IF Refused(D, F, e) THEN F
    ELSE CASE e.op = "create" -> (F \ FileAt(F, e.p)) \cup {<<e.p, e.c>>}
           [] e.op = "delete" -> {x \in F : ~Below(e.p, x[1])}
           [] OTHER -> F
Listing(D, F, p) ==
    LET d == {x \in D : Len(x) = Len(p) + 1 /\ Below(p, x)}
        f == {x \in F : Len(x[1]) = Len(p) + 1 /\ Below(p, x[1])}
    IN  {[t |-> "DIRECTORY", n |-> Last(x), p |-> x] : x \in d} \cup {[t |-> "FILE", n |-> Last(x[1]), p |-> x[1]] : x \in f}

(* what a command puts, request by request                                    *)
Sent(e) ==
    LET l == IF e.op = "put" THEN From(e.l, e.at) ELSE e.l
        size == IF e.op = "docs" THEN MaxI(1, Len(l)) ELSE IF e.bulk = 0 THEN 1 ELSE e.bulk
        n == (Len(l) + size - 1) \div size
        done == IF e.fail = 0 THEN n ELSE MinI(n, e.fail - 1)
    IN  [all |-> n, done |-> [j \in 1..done |-> SubSeq(l, (j - 1) * size + 1, MinI(j * size, Len(l)))]]
DocsAfter(docs, e) == IF e.op \in {"put", "docs"} THEN docs \cup UNION {Range2(Sent(e).done[j]) : j \in DOMAIN Sent(e).done} ELSE docs
Broken(e) == Len(Sent(e).done) < Sent(e).all

(* e after the operation; ids: the numbers of the documents' ids so far       *)
ClientStep(D, F, docs, cfg, e) ==
    LET no == Refused(D, F, e) IN
    (CASE e.op \in {"mkdir", "create"} -> If(IF no THEN e.exc # "" ELSE e.exc = "" /\ e.ans = 1, "answer")
       [] e.op = "open" -> If(IF no THEN e.exc # "" ELSE e.exc = "" /\ {<<e.p, e.ans>>} = FileAt(F, e.p), "content of the file")
       [] e.op = "delete" -> If(IF no THEN e.exc # "" ELSE e.exc = "" /\ (e.ans = 1) = Exists(D, F, e.p), "answer")
       [] e.op = "list" -> If(IF no THEN e.exc # "" ELSE e.exc = "" /\ NoDup(e.got) /\ Range2(e.got) = Listing(D, F, e.p), "listing")
       [] e.op = "docs" -> If(e.exc = "" /\ (e.ans = 1) = ~Broken(e), "answer")
       [] e.op = "put" -> If(e.exc = "" /\ (e.ans = 0) = ~Broken(e), "exit status")
       [] e.op = "get" ->
             IF e.at # NaN
             THEN LET p == Place(e.l, e.at) IN If(IF p >= 0 /\ p < Len(e.l) THEN e.exc = "" /\ e.got = <<e.l[p + 1]>> ELSE e.exc # "", "printed record")
             ELSE If(e.exc = "" /\ e.got = SliceOf(e.l, e.a, e.b, e.s), "printed records"))
    \cup If(e.op \in {"put", "docs"} => e.puts = Sent(e).done, "documents sent")
    \cup If(Range2(e.dirs) = DAfter(D, F, e), "directories")
    \cup If({<<x.p, x.c>> : x \in Range2(e.files)} = FAfter(D, F, e), "files")
    \cup If({x.d : x \in Range2(e.docs)} = DocsAfter(docs, e) /\ Len(e.docs) = Cardinality(DocsAfter(docs, e)), "documents")
    \cup If(\A j \in DOMAIN e.calls : e.calls[j].auth = cfg.sent /\ (e.op \notin {"put", "docs", "get"} => e.calls[j].user = IF cfg.user = "" THEN "root" ELSE cfg.user), "credentials")
=============================================================================
