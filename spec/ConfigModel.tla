----------------------------- MODULE ConfigModel ----------------------------
(* The simulator program: what a configuration file asks for, where the     *)
(* results go and when an earlier result is kept.                           *)
(* conf: the keys which are written in the file, numbers scaled to integers *)
(* (bandwidth in mGbit, ages in seconds, sizes in the unit given).          *)
EXTENDS SimModel

Get(conf, k, default) == IF k \in DOMAIN conf THEN conf[k] ELSE default

(* ------------------------------ the cache ------------------------------- *)
Kinds == {"lru", "lfu", "sizeBig", "sizeSmall", "random", "random_lru", "lruDatasetVerifier", "weightFunLRU", "infinite", "aiNN", "aiRL"}
Functions == {"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}
Upper(u) == CASE u \in {"m", "M"} -> "M" [] u \in {"g", "G"} -> "G" [] u \in {"t", "T"} -> "T" [] u \in {"p", "P"} -> "P" [] OTHER -> "?"
Megabytes(v, u) == CASE Upper(u) = "M" -> v [] Upper(u) = "G" -> v * 1024 [] Upper(u) = "T" -> v * 1048576 [] Upper(u) = "P" -> v * 1073741824 [] OTHER -> 0

Kind(conf) == Get(conf, "cache.type", "")
SizeU(conf) == Get(conf, "cache.size.unit", "T")
(* a size which is no integer is given in sixteenths of its unit            *)
Sixteenths == "cache.size.sixteenths"
RoundEven16(k) == LET d == k \div 16 r == k % 16 IN IF r > 8 \/ (r = 8 /\ d % 2 = 1) THEN d + 1 ELSE d
SizeV(conf) == IF Sixteenths \in DOMAIN conf THEN RoundEven16(conf[Sixteenths]) ELSE Get(conf, "cache.size.value", 100)
SizeMb(conf) == IF Sixteenths \in DOMAIN conf THEN Megabytes(conf[Sixteenths], SizeU(conf)) \div 16
                ELSE Megabytes(SizeV(conf), SizeU(conf))
Mgbit(conf) == Get(conf, "cache.bandwidth.value", 10000)
Region(conf) == Get(conf, "region", "all")
Function(conf) == Get(conf, "weightfunc.name", "FuncAdditiveExp")

EffCache(conf, ds) ==
    [type |-> Kind(conf), u |-> 1,
     max |-> SizeMb(conf),
     red |-> Get(conf, "cache.bandwidth.redirect", FALSE), bwm |-> Mgbit(conf),
     wm |-> Get(conf, "cache.watermarks", FALSE),
     hi |-> Get(conf, "cache.watermark.high", 95), lo |-> Get(conf, "cache.watermark.low", 75),
     maxday |-> Get(conf, "cache.stats.maxNumDayDiff", 6 * 86400), step |-> Get(conf, "cache.stats.deltaDaysStep", 7 * 86400),
     region |-> IF Region(conf) \in {"us", "it"} THEN Region(conf) ELSE "",
     wf |-> Function(conf), alpha |-> Get(conf, "weightfunc.alpha", 1),
     beta |-> Get(conf, "weightfunc.beta", 1), gamma |-> Get(conf, "weightfunc.gamma", 1),
     ds |-> ds, log |-> Get(conf, "log", FALSE)]

(* ------------------------------ the simulation -------------------------- *)
EffStage(conf) ==
    [win |-> Get(conf, "window.size", 7), wstart |-> Get(conf, "window.start", 0), wstop |-> Get(conf, "window.stop", 0),
     filt |-> IF Region(conf) \in {"us", "it"} THEN Region(conf) ELSE "",
     dump |-> Get(conf, "dump", FALSE), dumpfs |-> Get(conf, "dumpfilesandstats", TRUE),
     load |-> Get(conf, "loaddump", FALSE), cold |-> Get(conf, "coldstart", FALSE), coldns |-> Get(conf, "coldstartnostats", FALSE)]

(* ------------------------------ the results ----------------------------- *)
Decimal(a) == ToString(a) \o ".00"
SizeName(conf) == ToString(SizeV(conf)) \o Upper(SizeU(conf))
BandName(conf) == ToString((Mgbit(conf) + 500) \div 1000) \o "Gbit"
Join(a, b) == a \o "_" \o b
RunName(conf) ==
    IF Kind(conf) = "weightFunLRU"
    THEN Join(Kind(conf), Join(Function(conf), Join(Decimal(Get(conf, "weightfunc.alpha", 1)),
              Join(Decimal(Get(conf, "weightfunc.beta", 1)), Decimal(Get(conf, "weightfunc.gamma", 1))))))
    ELSE Join(Kind(conf), Join(SizeName(conf), Join(BandName(conf), Region(conf))))
Default(x, d) == IF x = "" THEN d ELSE x
DumpTo(conf) == Default(Get(conf, "dumpfilename", ""), "cache_dump.json.gz")
LoadFrom(conf) == Default(Get(conf, "loaddumpfilename", ""), "cache_dump.json.gz")

(* ------------------------------ outcome of a run ------------------------ *)
(* res: size of the results file there is (-1: none)                        *)
Done == 600
Outcome3(conf, res) ==
    IF ~Get(conf, "overwrite", FALSE) /\ res > Done THEN "kept"
    ELSE IF Kind(conf) \notin Kinds \/ Upper(SizeU(conf)) = "?" \/ Get(conf, "data", "") = "missing"
            \/ (Kind(conf) = "aiNN" /\ "ai.featuremap" \notin DOMAIN conf)
            \/ (Kind(conf) = "weightFunLRU" /\ Function(conf) \notin Functions)
    THEN "refused"
    ELSE "run"

(* ------------------------------ judging --------------------------------- *)
(* e.chg: folders which changed; e.dirs: the folders and the size of their  *)
(* results; before: the same for the previous run                           *)
Dirs(seq) == [n \in {seq[i].n : i \in DOMAIN seq} |-> LET i == CHOOSE j \in DOMAIN seq : seq[j].n = n IN seq[i].res]
RunStats(x, e) ==
    If(e.rs.tot = x.sel.tot /\ e.rs.jump = x.sel.jump /\ e.rs.filt = x.sel.filt /\ e.rs.inv = x.sel.inv, "run statistics")
    \cup If(e.rs.red = x.red /\ e.rs.reds = x.reds, "redirected")
RunOk(c, st, x, e, name, nkept, dobs) ==
    If(e.rc = 0, "exit status")
    \cup If(e.chg = <<name>>, "folder of the results")
    \cup (IF e.chg # <<name>> THEN {} ELSE
            If(e.bad = "", "readable")
            \cup (IF e.bad # "" THEN {} ELSE
                    (IF Len(e.rows) # Len(x.rows) THEN {"number of rows"}
                     ELSE UNION {FullRow(c, e.rows[i], x.rows[i]) : i \in 1..Len(e.rows)})
                    \cup RunStats(x, e))
            \cup If(e.hasdump = st.dump, "dump")
            \cup If(e.kept = nkept /\ e.keptok, "earlier results")
            \cup (IF ~(st.dump /\ e.hasdump) THEN {}
                  ELSE LET c0 == c IN
                       IF st.dumpfs THEN {"dump: " \o y : y \in SameCache(c0, Restored(c0, x.m), dobs)}
                       ELSE {"empty dump: " \o y : y \in SameCache(c0, Initial(c0), dobs)}))
NotRunOk(o, e, before) ==
    If(IF o = "kept" THEN e.rc = 0 ELSE e.rc # 0, "exit status")
    \cup If(o = "kept" => e.chg = <<>>, "results which had to stay")
    \cup (LET d == Dirs(e.dirs) IN
         If((\A n \in DOMAIN before : n \in DOMAIN d /\ d[n] = before[n]) /\ (\A n \in DOMAIN d : n \in DOMAIN before \/ d[n] = 0), "results of another run"))
=============================================================================
