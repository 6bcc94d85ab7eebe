------------------------------- MODULE StageMC ------------------------------
(* The scheduler of a stage: an input starts a process when fewer than par   *)
(* are listed; the processes put their results into a queue and end, at any  *)
(* time; the stage, while it waits, first takes away those that have ended   *)
(* and then writes what is in the queue (in the other order, results put in  *)
(* between would be lost: ~Holds).  Whatever the order in which the          *)
(* processes move, the output holds every input once.                        *)
EXTENDS DatasetModel, IOUtils, Json
M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES n, par,  \* inputs and processes
          next,    \* next input
          pc,      \* "feed", "flush"
          run,     \* inputs in process: started, no result yet
          put,     \* result in the queue, not ended yet
          ended,   \* ended, still in the list of processes
          queue, out,
          h        \* what happened
vars == <<n, par, next, pc, run, put, ended, queue, out, h>>
Init == n \in 1..M.inputs /\ par \in 1..M.par /\ next = 1 /\ pc = "feed" /\ run = {} /\ put = {} /\ ended = {} /\ queue = <<>> /\ out = <<>> /\ h = <<>>
Listed == run \cup put \cup ended
Note(x) == h' = Append(h, x)
Start == /\ pc = "feed" /\ next <= n /\ Cardinality(Listed) < par
         /\ run' = run \cup {next} /\ next' = next + 1 /\ Note("S")
         /\ UNCHANGED <<n, par, pc, put, ended, queue, out>>
Put(i) == /\ i \in run /\ run' = run \ {i} /\ put' = put \cup {i} /\ queue' = Append(queue, i) /\ Note("P" \o ToString(i))
          /\ UNCHANGED <<n, par, next, pc, ended, out>>
End(i) == /\ i \in put /\ put' = put \ {i} /\ ended' = ended \cup {i} /\ Note("E" \o ToString(i))
          /\ UNCHANGED <<n, par, next, pc, run, queue, out>>
(* a round of waiting: the list is full, or there are no more inputs          *)
Look == /\ pc = "feed" /\ Listed # {} /\ (Cardinality(Listed) = par \/ next > n)
        /\ ended' = {} /\ pc' = "flush" /\ Note("L")
        /\ UNCHANGED <<n, par, next, run, put, queue, out>>
Flush == /\ pc = "flush" /\ out' = out \o queue /\ queue' = <<>> /\ pc' = "feed" /\ Note("F")
         /\ UNCHANGED <<n, par, next, run, put, ended>>
Done == pc = "feed" /\ next > n /\ Listed = {}
Next == Start \/ (\E i \in 1..n : Put(i) \/ End(i)) \/ Look \/ Flush
Spec == Init /\ [][Next]_vars
View == <<n, par, next, pc, run, put, ended, Range2(queue), Len(queue), Range2(out), Len(out)>>
Holds == Done => queue = <<>> /\ Bag(out) = Bag([j \in 1..n |-> j])
Inv == /\ Range2(out) \cap Range2(queue) = {} /\ NoDup(out) /\ NoDup(queue)
       /\ Range2(out) \cup Range2(queue) = (1..(next - 1)) \ run
       /\ Cardinality(Listed) <= par
       /\ ended = {} => Range2(queue) \subseteq (1..(next - 1)) \ run
Emit == PrintT("SCRIPT " \o ToString(<<n, par>> \o h'))
=============================================================================
