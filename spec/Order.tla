-------------------------------- MODULE Order -------------------------------
(* The eviction order of every kind of queue.                               *)
(*                                                                          *)
(* A queue is a sequence of files, first to be evicted first, sorted by a   *)
(* rank; among equal ranks the file that got that rank earlier comes first. *)
(*   recency     every rank is 0, so the sequence is the order of last use  *)
(*   frequency   the number of requests                                     *)
(*   size small  the size           size big   minus the size               *)
(*   weight      the weight                                                 *)
(* ranks is a function from files to ranks.                                 *)
EXTENDS Util

OrderKind(type) ==
    CASE type \in {"lru", "random_lru", "lruDatasetVerifier", "weightFunLRU", "aiNN", "aiRL", "LRU"} -> "recency"
      [] type \in {"lfu", "LFU"} -> "frequency"
      [] type \in {"sizeBig", "SizeBig"} -> "sizebig"
      [] type \in {"sizeSmall", "SizeSmall"} -> "sizesmall"
      [] type = "Weighted" -> "weight"
      [] OTHER -> "none"

RankOf(kind, size, freq, weight) ==
    CASE kind = "frequency" -> freq
      [] kind = "sizebig" -> -size
      [] kind = "sizesmall" -> size
      [] kind = "weight" -> weight
      [] OTHER -> 0

(* f takes its place after every file of a lower or equal rank *)
InsertRanked(q, ranks, f) ==
    LET before == SelectSeq(q, LAMBDA x : ranks[x] <= ranks[f])
        after  == SelectSeq(q, LAMBDA x : ranks[x] > ranks[f])
    IN  before \o <<f>> \o after

(* an update moves the file behind the files of its new rank *)
UpdateRanked(q, ranks, f) == InsertRanked(RemoveElem(q, f), ranks, f)

(* the sequence is sorted by rank *)
SortedBy(q, ranks) == \A i \in 1..(Len(q) - 1) : ranks[q[i]] <= ranks[q[i + 1]]

(* number of files in the shortest prefix holding at least the amount; all  *)
(* of them when the whole queue holds less                                  *)
RECURSIVE PrefixUpTo(_, _, _, _)
PrefixUpTo(q, sizes, amount, n) ==
    IF amount <= 0 \/ n >= Len(q) THEN n
    ELSE PrefixUpTo(q, sizes, amount - sizes[q[n + 1]], n + 1)

MinPrefix(q, sizes, amount) == PrefixUpTo(q, sizes, amount, 0)
=============================================================================
