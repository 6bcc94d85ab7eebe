---------------------------- MODULE PyCacheModel ----------------------------
(* The LRU cache of pySim: a queue of files with their sizes (constant per  *)
(* file) and its figures.  A file which does not fit pushes out the files   *)
(* used least recently, as few as it takes; one larger than the cache is    *)
(* not stored and pushes out nothing.                                       *)
EXTENDS Util

PyEmpty == [q |-> <<>>, z |-> Empty, size |-> 0, hit |-> 0, miss |-> 0, dw |-> 0, dd |-> 0, dr |-> 0, fh |-> Empty, fm |-> Empty]
Bytes(z) == SumOver(z, DOMAIN z)
RECURSIVE Drops(_, _, _)
(* how many files of q (sizes z) have to go until there is room             *)
Drops(q, z, over) == IF over <= 0 \/ q = <<>> THEN 0 ELSE 1 + Drops(Tail(q), z, over - z[Head(q)])
At(g, f) == IF f \in DOMAIN g THEN g[f] ELSE 0
Without(q, f) == SelectSeq(q, LAMBDA x : x # f)
PyGet(max, c, f, s) ==
    LET hit == f \in DOMAIN c.z
        k == IF hit \/ s > max THEN 0 ELSE Drops(c.q, c.z, c.size + s - max)
        V == {c.q[j] : j \in 1..k}
        gone == SumOver(c.z, V)
        added == ~hit /\ s <= max
    IN  [q |-> IF hit THEN Append(Without(c.q, f), f)
               ELSE DropN(c.q, k) \o (IF added THEN <<f>> ELSE <<>>),
         z |-> LET rest == [x \in DOMAIN c.z \ V |-> c.z[x]] IN IF added THEN (f :> s) @@ rest ELSE rest,
         size |-> c.size - gone + (IF added THEN s ELSE 0),
         hit |-> c.hit + (IF hit THEN 1 ELSE 0),
         miss |-> c.miss + (IF hit THEN 0 ELSE 1),
         dw |-> c.dw + (IF added THEN s ELSE 0),
         dd |-> c.dd + gone,
         dr |-> c.dr + s,
         \* hits and misses of every file that was ever requested
         fh |-> (f :> At(c.fh, f) + (IF hit THEN 1 ELSE 0)) @@ c.fh,
         fm |-> (f :> At(c.fm, f) + (IF hit THEN 0 ELSE 1)) @@ c.fm]
=============================================================================
