------------------------------ MODULE SimScript -----------------------------
(* The operations on a cache which simulations consist of: for each         *)
(* scenario of IOEnv.SCEN and each of its stages, printed as scripts for a  *)
(* cache which is asked directly (C32).                                     *)
EXTENDS SimModel, IOUtils, Json

S == ndJsonDeserialize(IOEnv.SCEN)
VARIABLE n
Init == n = 0
Next == /\ n < Len(S) /\ n' = n + 1
        /\ LET s == S[n + 1] IN
           PrintT("SCRIPT " \o ToJson([id |-> s.id, stages |-> [k \in DOMAIN s.ops |->
               LET o == Operations(s.ops[k], s.ops[k].data) IN [ops |-> o.ops, dates |-> o.dates]]]))
Spec == Init /\ [][Next]_n
=============================================================================
