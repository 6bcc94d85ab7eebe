---------------------------- MODULE AvroFileModel ---------------------------
(* Avro data files: what the file holds (a sequence of record numbers),     *)
(* what the operations of a reader answer, and where the iteration which    *)
(* was started goes on (cur; -1: something else was read since).            *)
EXTENDS DataFileModel

(* the indexes a slice asks for                                             *)
Beyond(file, e) == LET a == Given(e.a, 0) IN IF a = e.b THEN FALSE ELSE MaxI(a, e.b - 1) >= Len(file)

AvroStep(file, cur, e) ==
    CASE e.op = "index" ->
            IF e.at >= 0 /\ e.at < Len(file) THEN If(e.exc = "" /\ e.got = <<file[e.at + 1]>>, "record")
            ELSE If(e.exc # "" /\ e.got = <<>>, "record which is not there")
      [] e.op = "slice" ->
            If(\/ e.exc = "" /\ e.got = SliceOf(file, e.a, e.b, e.s)
               \/ e.exc # "" /\ e.got = <<>> /\ Beyond(file, e), "records of the slice")
      [] e.op = "start" -> If(e.exc = "", "start of an iteration")
      [] e.op = "next" ->
            IF cur < 0 THEN {}
            ELSE IF cur < Len(file) THEN If(e.exc = "" /\ e.got = <<file[cur + 1]>>, "next record")
            ELSE If(e.exc = "StopIteration" /\ e.got = <<>>, "end of the iteration")
      [] OTHER -> DataFileStep(file, e)
AvroCur(file, cur, e) ==
    CASE e.op = "start" -> 0
      [] e.op = "next" -> IF cur < 0 THEN cur ELSE MinI(cur + 1, Len(file))
      [] e.op = "len" -> cur
      [] OTHER -> -1
=============================================================================
