------------------------------ MODULE PyCacheMC -----------------------------
(* Every history of requests up to a depth: the queue holds the stored      *)
(* files once each, the cache is never over its size, a file which is small *)
(* enough is stored by its request, the files which stay are used more      *)
(* recently than those which went, and no file goes without need.           *)
EXTENDS PyCacheModel, IOUtils, Json
M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES c, h, used, ok
vars == <<c, h, used, ok>>
Init == c = PyEmpty /\ h = <<>> /\ used = Empty /\ ok = TRUE
Do(i) ==
    LET e == M.ops[i]
        d == PyGet(M.max, c, e.f, e.s)
        out == DOMAIN c.z \ DOMAIN d.z
        stay == DOMAIN c.z \cap DOMAIN d.z
    IN  /\ Len(h) < M.depth
        /\ c' = d /\ h' = Append(h, i)
        /\ used' = (e.f :> Len(h)) @@ [x \in DOMAIN used \ {e.f} |-> used[x]]
        /\ ok' = (/\ (e.f \in DOMAIN d.z) = (e.s <= M.max)
                  /\ \A x \in out, y \in stay : used[x] < used[y]
                  \* without the last file which went there would have been no room
                  /\ out # {} => \E x \in out : /\ \A y \in out : used[y] <= used[x]
                                               /\ d.size + c.z[x] > M.max)
Next == \E i \in DOMAIN M.ops : Do(i)
Spec == Init /\ [][Next]_vars
View == <<c.q, Len(h), ok>>
Sound == /\ ok
         /\ c.size = Bytes(c.z) /\ c.size <= M.max
         /\ {c.q[j] : j \in DOMAIN c.q} = DOMAIN c.z /\ Len(c.q) = Cardinality(DOMAIN c.z)
         /\ c.size = c.dw - c.dd /\ c.hit + c.miss = Len(h)
         /\ c.hit = SumOver(c.fh, DOMAIN c.fh) /\ c.miss = SumOver(c.fm, DOMAIN c.fm) /\ DOMAIN c.z \subseteq DOMAIN c.fm
         /\ \A j, k \in DOMAIN c.q : j < k => used[c.q[j]] < used[c.q[k]]
Emit == PrintT("SCRIPT " \o ToString(h'))
=============================================================================
