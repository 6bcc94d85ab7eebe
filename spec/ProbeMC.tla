------------------------------- MODULE ProbeMC ------------------------------
(* All logs of a few rows: reading them row by row gives what can be said of *)
(* the log as a whole; every log is printed as a script.                      *)
EXTENDS ProbeModel, IOUtils, Json
M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES h, s
vars == <<h, s>>
Init == h = <<>> /\ s = Start
Log(x) == [i \in DOMAIN x |-> M.rows[x[i]]]
(* a file is skipped only when it was just missed                            *)
Possible(w) == w.e = "SKIP" => \E i \in DOMAIN h : M.rows[h[i]].e = "MISS" /\ M.rows[h[i]].f = w.f /\ \A j \in i + 1..Len(h) : M.rows[h[j]].e \notin {"MISS", "SKIP"}
Add(i) == Len(h) < M.depth /\ Possible(M.rows[i]) /\ h' = Append(h, i) /\ s' = Step(s, M.rows[i])
Next == \E i \in DOMAIN M.rows : Add(i)
Spec == Init /\ [][Next]_vars
Rounds == RoundsOf(s) = Whole(Log(h))
Missed == s.dels = Back(Log(h)) /\ s.skips = Skipped(Log(h))
Folded == s = Read(Log(h))
Bound == Len(Whole(Log(h))) = Cardinality({i \in DOMAIN h : M.rows[h[i]].e \in Events})
Emit == PrintT("SCRIPT " \o ToString(h'))
=============================================================================
