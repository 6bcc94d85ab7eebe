------------------------------- MODULE ClientMC -----------------------------
(* All histories of a few operations, with failing requests, on the servers: *)
(* the tree stays a tree, and every path is printed as a script.              *)
EXTENDS ClientModel, IOUtils, Json
M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES D, F, docs, h
vars == <<D, F, docs, h>>
Init == D = {<<>>} /\ F = {} /\ docs = {} /\ h = <<>>
Do(i) ==
    LET e == M.ops[i] IN
    /\ Len(h) < M.depth
    /\ h' = Append(h, i)
    /\ D' = DAfter(D, F, e) /\ F' = FAfter(D, F, e) /\ docs' = DocsAfter(docs, e)
Next == \E i \in DOMAIN M.ops : Do(i)
Spec == Init /\ [][Next]_vars
View == <<D, F, docs, Len(h)>>
Inv == /\ <<>> \in D
       /\ \A x \in D \cup {y[1] : y \in F} : PathsUp(x) \ {x} \subseteq D
       /\ \A x \in F : Cardinality(FileAt(F, x[1])) = 1
Holds == \A x \in F : x[1] \notin D
Emit == PrintT("SCRIPT " \o ToString(h'))
=============================================================================
