------------------------------ MODULE QueueModel ----------------------------
(* The queues of the caches: which files they hold and in which order.      *)
(* State s: [q |-> files worst first, k |-> rank of every file, z |-> size]  *)
EXTENDS Order

EmptyQueue == [q |-> <<>>, k |-> Empty, z |-> Empty]

QInsert(kind, s, f, size, freq, weight) ==
    LET k == With(s.k, f, RankOf(kind, size, freq, weight))
    IN  [q |-> InsertRanked(s.q, k, f), k |-> k, z |-> With(s.z, f, size)]

QUpdate(kind, s, f, size, freq, weight) ==
    LET k == With(s.k, f, RankOf(kind, size, freq, weight))
    IN  [q |-> UpdateRanked(s.q, k, f), k |-> k, z |-> With(s.z, f, size)]

QRemove(s, S) ==
    [q |-> SelectSeq(s.q, LAMBDA x : x \notin S),
     k |-> Only(s.k, (DOMAIN s.k) \ S), z |-> Only(s.z, (DOMAIN s.z) \ S)]

QDropWorst(s, n) == QRemove(s, Range2(TakeN(s.q, n)))

(* sizes are quarters of a MB, like the amounts asked for *)
QUpTo(s, amount) == TakeN(s.q, MinPrefix(s.q, s.z, amount))

(* What an operation does: the next state and the list it answers with.     *)
QApply(kind, s, e) ==
    CASE e.op = "insert" -> [s |-> QInsert(kind, s, e.f, e.s, e.fr, e.w), l |-> <<>>]
      [] e.op = "update" -> [s |-> QUpdate(kind, s, e.f, e.s, e.fr, e.w), l |-> <<>>]
      [] e.op = "remove" -> [s |-> QRemove(s, Range2(e.l)), l |-> e.l]
      [] e.op = "removeWorst" -> LET n == MinI(e.n, Len(s.q))
                                 IN  [s |-> QDropWorst(s, n), l |-> TakeN(s.q, n)]
      [] e.op = "evict" -> [s |-> QRemove(s, Range2(QUpTo(s, e.s))), l |-> QUpTo(s, e.s)]
      [] e.op = "up2size" -> [s |-> s, l |-> QUpTo(s, e.s)]
      [] e.op = "best" -> [s |-> s, l |-> Reverse(s.q)]
      [] e.op = "reinit" -> [s |-> EmptyQueue, l |-> <<>>]

QEnabled(s, e) ==
    CASE e.op = "insert" -> e.f \notin Range2(s.q)
      [] e.op = "update" -> e.f \in Range2(s.q)
      [] e.op = "remove" -> Range2(e.l) \subseteq Range2(s.q) /\ NoDup(e.l)
      [] e.op \in {"evict", "up2size"} -> e.s > 0
      [] OTHER -> TRUE

QInv(s) == NoDup(s.q) /\ SortedBy(s.q, s.k) /\ DOMAIN s.k = Range2(s.q) /\ DOMAIN s.z = Range2(s.q)
=============================================================================
