---------------------------- MODULE AiConfigTrace ---------------------------
(* Runs of the simulator program with learning agents (C33): each record is *)
(* a run, what AiConfig says about it (spec), and what the simulation it    *)
(* describes wrote (twin).                                                  *)
EXTENDS SimAiTrace

Dirs(seq) == {<<seq[i].n, seq[i].res>> : i \in DOMAIN seq}
SameRow(r, w) ==
    {x \in (DOMAIN r) \cup (DOMAIN w) : x \notin DOMAIN r \/ x \notin DOMAIN w \/ r[x] # w[x]}
SameFile(t, w) == t.ok = w.ok /\ (t.ok => Len(t.vals) = Len(w.vals) /\ \A r \in Range2(t.vals) : CountOf(r, t.vals) = CountOf(r, w.vals))
RunJudge(e) ==
    IF "panic" \in DOMAIN e THEN {"panic"}
    ELSE IF e.spec.how = "refused" THEN
        If(e.rc # 0, "exit status")
        \cup If(\A d \in Dirs(e.before) : d \in Dirs(e.dirs), "results of another run")
        \cup If(\A d \in Dirs(e.dirs) : d \in Dirs(e.before) \/ d[2] = 0 \/ d[1] = e.spec.name, "results of a refused run")
    ELSE If(e.rc = 0, "exit status") \cup If(e.chg = <<e.spec.name>>, "folder of the results")
         \cup (IF e.chg # <<e.spec.name>> THEN {} ELSE
            If(e.bad = "", "readable")
            \cup (IF Len(e.rows) # Len(e.twin.rows) THEN {"number of rows"}
                  ELSE UNION {SameRow(e.rows[i], e.twin.rows[i]) : i \in DOMAIN e.rows})
            \cup (IF e.bad = "" THEN If(e.rs = e.twin.rs, "run statistics") ELSE {})
            \cup (IF "tables" \in DOMAIN e
                  THEN If(SameFile(e.tables.add, e.twin.tables.add), "addition table") \cup If(SameFile(e.tables.evc, e.twin.tables.evc), "eviction table")
                  ELSE {"tables"})
            \cup If(e.hasdump = e.spec.st.dump, "dump")
            \cup If(e.kept = e.loads /\ e.keptok, "earlier results")
            \cup (IF e.spec.st.dump /\ e.hasdump THEN {"dump: " \o y : y \in SameCache(e.dobs, e.twin.dobs)} ELSE {}))

NextRun == /\ l < Len(Trace) /\ l' = l + 1
           /\ LET e == Trace[l + 1]
                  f == RunJudge(e) IN IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
SpecRun == Init /\ [][NextRun]_l
=============================================================================
