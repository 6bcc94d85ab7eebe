-------------------------------- MODULE ReadMC ------------------------------
(* A table read through its header: whatever the order of the columns, the  *)
(* index of each standard column is found, once.  The algorithm of the code *)
(* (for each standard name, the positions of that name in the header) gives *)
(* the columns by name for every permutation, with one unknown column.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
Num(s) == CHOOSE n \in 0..9 : ToString(n) = s
N == Num(IOEnv.NCOLS)
VARIABLES header, idx, pos
Init == header \in {p \in [1..(N + 1) -> 1..(N + 1)] : \A i, j \in 1..(N + 1) : i # j => p[i] # p[j]} /\ idx = <<>> /\ pos = 1
(* one step: the next standard name is looked for in the whole header       *)
RECURSIVE Found(_, _)
Found(name, i) == IF i > Len(header) THEN <<>> ELSE (IF header[i] = name THEN <<i>> ELSE <<>>) \o Found(name, i + 1)
Next == pos <= N /\ idx' = idx \o Found(pos, 1) /\ pos' = pos + 1 /\ UNCHANGED header
Spec == Init /\ [][Next]_<<header, idx, pos>>
RightColumns == Len(idx) = pos - 1 /\ \A i \in DOMAIN idx : header[idx[i]] = i
Emit == pos' = N + 1 => PrintT("SCRIPT " \o ToString(header))
=============================================================================
