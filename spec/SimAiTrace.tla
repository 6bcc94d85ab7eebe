----------------------------- MODULE SimAiTrace -----------------------------
(* Simulations of caches with learning agents (C32).  One record for each   *)
(* simulation: what it wrote and left behind, and (twin) what the same      *)
(* cache showed when it was asked directly, by the operations of SimScript. *)
EXTENDS Util, IOUtils, Json

AG == INSTANCE AgentModel
Trace == ndJsonDeserialize(IOEnv.TRACE)
If(cond, name) == IF cond THEN {} ELSE {name}

(* ------------------------------ a row ----------------------------------- *)
Exact == {"req", "hit", "add", "del", "red", "reds", "max", "size", "dw", "dr", "drh", "drm", "dd"}
Printed == {"cap", "bw", "bwu", "af", "sd", "ce", "ch", "cm", "cu", "cl"}
Columns(o) == o.ai.ep \o o.ai.vf \o o.ai.evst \o o.ai.cat \o o.ai.acts
ColumnNames == <<"addition rate", "eviction rate", "addition value", "eviction value", "calls", "forced calls",
                 "mean categories", "deviation of categories", "stored", "not stored", "all", "half", "quarter", "one", "not deleted">>
RowOk(row, date, o, v) ==
    {x \in Exact : row[x] # o[x]}
    \cup {x \in Printed : ~Close(row[x], o[x], 1)}
    \cup If(Close(row.hr, o.hr, 6), "hit rate") \cup If(Close(row.whr, o.whr, 1), "weighted hit rate")
    \cup If(row.date = date, "date") \cup If(row.miss = v, "misses after delete")
    \cup (IF "ai" \notin DOMAIN row THEN {"columns of the agents"}
          ELSE {ColumnNames[k] : k \in {j \in DOMAIN ColumnNames : row.ai[j] # Columns(o)[j]}})

(* ------------------------------ what is left behind --------------------- *)
(* features are in no fixed order: tables are the same up to the order      *)
CountOf(r, q) == Cardinality({i \in DOMAIN q : q[i] = r})
SameTable(a, b) == IF a.order = b.order THEN a.q = b.q
                   ELSE Len(a.q) = Len(b.q) /\ \A r \in Range2(a.q) : CountOf(r, a.q) = CountOf(r, b.q)
SameAgent(a, b) == /\ a.ok = b.ok /\ a.eps = b.eps /\ a.step = b.step /\ a.qv = b.qv /\ a.acts = b.acts
                   /\ Range2(a.order) = Range2(b.order) /\ SameTable(a, b)
(* a cache with an eviction agent keeps its files in no order               *)
Files(o) == {<<o.q[i], o.qs[i]>> : i \in DOMAIN o.q}
SameCache(o, p) ==
    If(IF o.ai.evc.ok THEN Files(o) = Files(p) /\ Len(o.q) = Len(p.q) ELSE o.q = p.q /\ o.qs = p.qs, "files")
    \cup
    {x \in (DOMAIN o) \cup (DOMAIN p) : x \notin {"ai", "q", "qs"}
        /\ (x \notin DOMAIN o \/ x \notin DOMAIN p
            \/ (IF x \in Printed \cup {"hr", "whr"} THEN ~Close(o[x], p[x], 1) ELSE o[x] # p[x]))}
    \cup {x \in {"acts", "evst", "vf", "ep", "cat"} : o.ai[x] # p.ai[x]}
    \cup If(SameAgent(o.ai.add, p.ai.add), "addition agent") \cup If(SameAgent(o.ai.evc, p.ai.evc), "eviction agent")

FeatOf(feats, n) == CHOOSE f \in Range2(feats) : f.name = n
TableOk(feats, a, t) ==
    IF ~a.ok THEN If(~t.ok, "a table without an agent")
    ELSE LET sizes == [k \in DOMAIN a.order |-> AG!Size(FeatOf(feats, a.order[k]))] IN
         If(t.ok, "no table")
         \cup (IF ~t.ok THEN {} ELSE
               If(t.head = [k \in DOMAIN a.acts |-> AG!ActionName(a.acts[k])] \o a.order, "header of the table")
               \cup If(Len(t.vals) = Len(a.q) /\ \A s \in DOMAIN a.q : Len(t.vals[s]) = Len(a.q[s])
                       /\ \A k \in DOMAIN a.q[s] : AbsI(100 * t.vals[s][k] - a.q[s][k]) <= 51, "values of the table")
               \cup If(\A s \in DOMAIN t.fcells : t.fcells[s] = [k \in DOMAIN sizes |->
                         LET f == FeatOf(feats, a.order[k]) IN AG!Text(f, AG!Values(f)[AG!Digit(sizes, s - 1, k) + 1])], "states of the table"))

Judge(e) ==
    IF "panic" \in DOMAIN e THEN {"panic"}
    ELSE If(e.bad = "", "readable")
    \cup (IF Len(e.rows) # Len(e.twin.rows) THEN {"number of rows"}
          ELSE UNION {RowOk(e.rows[i], e.twin.dates[i], e.twin.rows[i].obs, e.twin.rows[i].v) : i \in DOMAIN e.rows})
    \cup {"left: " \o y : y \in SameCache(e.obs, e.twin.final)}
    \cup TableOk(e.cfg.addfeats, e.obs.ai.add, e.tables.add) \cup TableOk(e.cfg.evcfeats, e.obs.ai.evc, e.tables.evc)
    \cup If(e.hasdump = e.dump, "dump")
    \cup (IF e.dump /\ e.hasdump THEN {"dump: " \o y : y \in SameCache(e.dobs, e.twin.dumped)} ELSE {})

VARIABLE l
Init == l = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l + 1]
               f == Judge(e) IN IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([sid |-> e.sid, i |-> e.i, what |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
