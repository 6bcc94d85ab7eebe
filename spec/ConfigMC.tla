------------------------------ MODULE ConfigMC ------------------------------
(* All sequences of runs of the program with the configurations of a JSON   *)
(* file (IOEnv.MCCFG), every run over the same small dataset.  Whether a    *)
(* results file passes the limit of 600 bytes follows from its rows.        *)
EXTENDS ConfigModel, IOUtils, Json

M == JsonDeserialize(IOEnv.MCCFG)
VARIABLES h, dirs, dumps, last
vars == <<h, dirs, dumps, last>>

RECURSIVE Fold(_, _, _, _)
Fold(c, st, x, k) == IF k > Len(M.recs) THEN x ELSE Fold(c, st, Rec(c, st, x, M.recs[k], TRUE), k + 1)

Init == h = <<>> /\ dirs = Empty /\ dumps = Empty /\ last = [o |-> "none", n |-> "", rows |-> 0, before |-> Empty]
Run(i) ==
    LET conf == M.confs[i]
        name == RunName(conf)
        o == Outcome3(conf, IF name \in DOMAIN dirs THEN dirs[name] ELSE -1)
        c == EffCache(conf, M.ds)
        s == EffStage(conf)
        k == <<name, LoadFrom(conf)>>
    IN  /\ s.load => k \in DOMAIN dumps      \* a dump has to be there
        /\ h' = Append(h, i)
        /\ IF o # "run" THEN UNCHANGED <<dirs, dumps>> /\ last' = [o |-> o, n |-> name, rows |-> 0, before |-> dirs]
           ELSE LET x == Fold(c, s, Start(c, s, IF s.load THEN dumps[k] ELSE Initial(c)), 1) IN
                /\ dirs' = With(dirs, name, 330 + 150 * Len(x.rows))
                /\ dumps' = IF s.dump THEN With(dumps, <<name, DumpTo(conf)>>, IF s.dumpfs THEN x.m ELSE Initial(c)) ELSE dumps
                /\ last' = [o |-> o, n |-> name, rows |-> Len(x.rows), before |-> dirs]
Next == Len(h) < M.depth /\ \E i \in DOMAIN M.confs : Run(i)
Spec == Init /\ [][Next]_vars

(* a finished simulation is not touched unless it is to be overwritten, and no run touches the results of another configuration *)
Others == \A n \in DOMAIN last.before : n \in DOMAIN dirs /\ (n # last.n => dirs[n] = last.before[n])
Protected == (last.o = "run" /\ last.n \in DOMAIN last.before /\ last.before[last.n] > Done)
             => Get(M.confs[h[Len(h)]], "overwrite", FALSE)
NotRun == last.o \in {"kept", "refused"} => dirs = last.before
(* what is not said in the file has its documented default; a default window is empty *)
Unsaid == last.o = "run" /\ Get(M.confs[h[Len(h)]], "window.stop", 0) = 0 => last.rows = 0
Inv == Others /\ Protected /\ NotRun /\ Unsaid
View == <<Len(h), dirs, [k \in DOMAIN dumps |-> dumps[k].q], last.o, last.n>>
Emit == PrintT("SCRIPT " \o ToString(<<0, h'>>))
=============================================================================
