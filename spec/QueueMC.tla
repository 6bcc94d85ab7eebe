------------------------------- MODULE QueueMC ------------------------------
(* Every behaviour of the queues within small constants.  Each transition   *)
(* is also printed with the operations leading to it: the scripts which the *)
(* conformance check replays on the real queues.                            *)
EXTENDS QueueModel, IOUtils, Json

Kind == IOEnv.KIND                    \* order kind of the queue
Type == IOEnv.QTYPE                   \* name of the queue type in the scripts
Depth == atoi(IOEnv.DEPTH)
F == 1..atoi(IOEnv.NF)
Keys == IF Kind = "recency" THEN {1} ELSE 1..2

VARIABLES s, h
vars == <<s, h>>

(* the key is what the queue orders by; the others are kept constant        *)
Mk(op, f, k) == [op |-> op, f |-> f, s |-> IF Kind \in {"sizebig", "sizesmall"} THEN k ELSE 1,
                 fr |-> IF Kind = "frequency" THEN k ELSE 1, w |-> IF Kind = "weight" THEN k ELSE 1]
Ops == {Mk("insert", f, k) : f \in F, k \in Keys} \cup {Mk("update", f, k) : f \in F, k \in Keys}
       \cup {[op |-> "remove", l |-> <<f>>] : f \in F}
       \cup {[op |-> "remove", l |-> <<f, g>>] : f \in F, g \in {1}}
       \cup {[op |-> "evict", s |-> a] : a \in 1..3}
       \cup {[op |-> "removeWorst", n |-> 2]}
       \cup {[op |-> "best"]}

Init == s = EmptyQueue /\ h = <<>>
Step(e) == QEnabled(s, e) /\ Len(h) < Depth /\ s' = QApply(Kind, s, e).s /\ h' = Append(h, e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

View == <<s, Len(h)>>
Inv == QInv(s)
(* evicting removes a prefix, and no file that stays ranks lower *)
EvictWorst == [][\A n \in 0..Len(s.q) : s'.q = DropN(s.q, n)
                   => \A x \in Range2(s.q) \ Range2(s'.q), y \in Range2(s'.q) : s.k[x] <= s.k[y]]_vars
Emit == PrintT("SCRIPT " \o ToJson(h'))
=============================================================================
