------------------------------ MODULE LogWriter -----------------------------
(* The choice log: the cache puts rows in a channel of 24 places (Cap here),*)
(* a writer goroutine takes them and writes them to the file; Terminate     *)
(* puts the exit mark, waits for the writer and closes the file.            *)
EXTENDS Integers, Sequences, IOUtils

Rows == atoi(IOEnv.ROWS)
Cap == 2

VARIABLES sent, chan, written, pc, wpc, closed
vars == <<sent, chan, written, pc, wpc, closed>>
Exit == 0

Init == sent = 0 /\ chan = <<>> /\ written = <<>> /\ pc = "run" /\ wpc = "take" /\ closed = FALSE

\* SimpleCache.toLogBuffer
Send == /\ pc = "run" /\ sent < Rows /\ Len(chan) < Cap
        /\ sent' = sent + 1 /\ chan' = Append(chan, sent + 1)
        /\ UNCHANGED <<written, pc, wpc, closed>>
\* Terminate: flushAndCloseLog
SendExit == /\ pc = "run" /\ Len(chan) < Cap
            /\ chan' = Append(chan, Exit) /\ pc' = "wait"
            /\ UNCHANGED <<sent, written, wpc, closed>>
Take == /\ wpc = "take" /\ chan # <<>>
        /\ chan' = Tail(chan)
        /\ IF Head(chan) = Exit THEN wpc' = "close" /\ UNCHANGED written
           ELSE written' = Append(written, Head(chan)) /\ UNCHANGED wpc
        /\ UNCHANGED <<sent, pc, closed>>
Close == wpc = "close" /\ closed' = TRUE /\ wpc' = "done" /\ UNCHANGED <<sent, chan, written, pc>>
\* done <- true meets <-logClose
Join == wpc = "done" /\ pc = "wait" /\ pc' = "end" /\ wpc' = "end" /\ UNCHANGED <<sent, chan, written, closed>>
Finished == pc = "end" /\ UNCHANGED vars

Next == Send \/ SendExit \/ Take \/ Close \/ Join \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Close \/ Join)

Prefix == \A i \in DOMAIN written : written[i] = i
NothingLost == pc = "end" => closed /\ Len(written) = sent /\ chan = <<>>
Inv == Prefix /\ NothingLost /\ Len(written) <= sent
Ends == (pc = "wait") ~> (pc = "end")
=============================================================================
