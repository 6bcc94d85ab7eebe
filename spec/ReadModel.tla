------------------------------- MODULE ReadModel ----------------------------
(* What reading a dataset gives.  A file has a name (character codes),      *)
(* columns (names) and rows (one integer per column); a folder is a         *)
(* sequence of files in any order.                                          *)
EXTENDS SimModel

Fields == {"Filename", "SiteName", "UserID", "TaskID", "TaskMonitorID", "JobID", "Protocol", "JobExecExitCode",
           "Size", "DataType", "FileType", "JobLengthH", "JobLengthM", "JobSuccess", "CPUTime", "IOTime", "reqDay",
           "Region", "Campaign", "Process"}

ColumnOf(cols, name) == CHOOSE i \in DOMAIN cols : cols[i] = name
(* sizes are in quarters of a MB: SizeM is the same number                  *)
RecordOf(cols, row) == [x \in Fields \cup {"SizeM"} |-> row[ColumnOf(cols, IF x = "SizeM" THEN "Size" ELSE x)]]
RecordsOf(file) == LET at == [x \in Fields |-> ColumnOf(file.cols, x)] IN
    [i \in DOMAIN file.rows |-> [x \in Fields \cup {"SizeM"} |-> file.rows[i][at[IF x = "SizeM" THEN "Size" ELSE x]]]]

(* the extension: from the last dot on                                      *)
Dot == 46
LastDot(n) == IF \E i \in DOMAIN n : n[i] = Dot THEN CHOOSE i \in DOMAIN n : n[i] = Dot /\ \A j \in DOMAIN n : j > i => n[j] # Dot ELSE 0
Ext(n) == IF LastDot(n) = 0 THEN <<>> ELSE SubSeq(n, LastDot(n), Len(n))
Known == {<<46, 99, 115, 118>>, <<46, 103, 122>>, <<46, 103, 122, 105, 112>>}     \* .csv .gz .gzip
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
              ELSE IF Head(a) = Head(b) THEN Less(Tail(a), Tail(b)) ELSE Head(a) < Head(b)
InFolder(files) ==
    LET read == SelectSeq(files, LAMBDA f : ~f.dir /\ Ext(f.name) \in Known)
        sorted == SortSeq(read, LAMBDA a, b : Less(a.name, b.name))
    IN  FoldLeft(LAMBDA a, f : a \o RecordsOf(f), <<>>, sorted)
Expected(e) == IF e.op = "file" THEN RecordsOf(e.files[1]) ELSE InFolder(e.files)

ReadStep(e) ==
    LET want == Expected(e) IN
    If(e.frac = 0, "fractional")
    \cup (IF Len(want) # Len(e.got) THEN {"number of records"}
          ELSE {x \in Fields \cup {"SizeM"} : \E i \in DOMAIN want : want[i][x] # e.got[i][x]})

(* ------------------------------ filters --------------------------------- *)
FilterStep(e) ==
    LET want == [UsDataMcTypes |-> UsData(e), ItDataMcTypes |-> ItData(e), SuccessJob |-> Success(e),
                 UsMINIAODNOT1andT3 |-> UsMini(e), UsMINIAODNOFNALLPCNOT1FNALLFilter |-> UsMiniNoFnal(e),
                 UsMINIAODandNOFNALLPCFilter |-> UsMiniNoLpc(e)]
    IN  {x \in DOMAIN want : want[x] # e.ans[x]}
=============================================================================
