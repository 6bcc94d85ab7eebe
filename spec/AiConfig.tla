------------------------------- MODULE AiConfig -----------------------------
(* The options for learning agents of the simulator program (C33).  Prints, *)
(* for every run of the scenarios of IOEnv.SCEN, what it has to be: the     *)
(* outcome, the folder, and the cache and simulation it describes.          *)
(* Rates are in 1/10000000.  Maps: "there", "missing" or left out.          *)
EXTENDS ConfigModel, IOUtils, Json

RlType(conf) == Get(conf, "ai.rl.type", "SCDL2")
EvType(conf) == Get(conf, "ai.rl.eviction.type", "onK")
Rl(t) == CASE t \in {"SCDL", "scdl"} -> "SCDL" [] t \in {"SCDL2", "scdl2"} -> "SCDL2" [] OTHER -> "?"
Ev(t) == CASE t \in {"onK", "on_k", "ONK"} -> "onK"
           [] t \in {"onDayEnd", "on_day_end", "ONDAYEND"} -> "onDayEnd"
           [] t \in {"onFree", "on_free", "ONFREE"} -> "onFree"
           [] t \in {"None", "NONE", "none", "NoEviction", "NOEVICTION", "noEviction", "noeviction"} -> "none"
           [] OTHER -> "?"
MapOf(conf, agent) == Get(conf, "ai.rl." \o agent \o ".featuremap", "")
UsesEvc(conf) == Rl(RlType(conf)) = "SCDL2" /\ MapOf(conf, "eviction") # ""
Unit == 10000000
(* an agent's own value, or the common one                                  *)
Common(conf, k) == Get(conf, "ai.rl.epsilon." \o k, IF k = "start" THEN Unit ELSE 42)
Own(conf, agent, k) == LET v == Get(conf, "ai.rl." \o agent \o ".epsilon." \o k, -Unit) IN
                       IF v = -Unit THEN Common(conf, k) ELSE v
Unleash(conf, agent) == Get(conf, "ai.rl.epsilon.unleash", TRUE) \/ Get(conf, "ai.rl." \o agent \o ".epsilon.unleash", FALSE)

AiName(conf) ==
    Join(Kind(conf), Join(IF RlType(conf) = "SCDL2" THEN RlType(conf) \o "-" \o EvType(conf) ELSE RlType(conf),
         Join(SizeName(conf), Join(BandName(conf), Region(conf)))))
AiOutcome(conf) ==
    IF Rl(RlType(conf)) = "?" \/ Upper(SizeU(conf)) = "?" \/ Get(conf, "data", "") = "missing"
       \/ (Rl(RlType(conf)) = "SCDL" /\ MapOf(conf, "addition") = "")
       \/ (Rl(RlType(conf)) = "SCDL2" /\ Ev(EvType(conf)) = "?")
       \/ MapOf(conf, "addition") = "missing" \/ (UsesEvc(conf) /\ MapOf(conf, "eviction") = "missing")
    THEN "refused" ELSE "run"
EffAi(conf) ==
    EffCache(conf, <<>>) @@
    [rl |-> Rl(RlType(conf)), evtype |-> Ev(EvType(conf)), evk |-> Get(conf, "ai.rl.eviction.k", 32),
     adds |-> MapOf(conf, "addition") # "", evcs |-> UsesEvc(conf), seed |-> Get(conf, "seed", 42), epsunit |-> Unit,
     addeps |-> Own(conf, "addition", "start"), adddec |-> Own(conf, "addition", "decay"), addunl |-> Unleash(conf, "addition"),
     evceps |-> Own(conf, "eviction", "start"), evcdec |-> Own(conf, "eviction", "decay"), evcunl |-> Unleash(conf, "eviction"),
     reps |-> Common(conf, "start"), rdec |-> Common(conf, "decay")]

S == ndJsonDeserialize(IOEnv.SCEN)
VARIABLE n
Init == n = 0
Next == /\ n < Len(S) /\ n' = n + 1
        /\ LET s == S[n + 1] IN
           PrintT("SCRIPT " \o ToJson([id |-> s.id, runs |-> [k \in DOMAIN s.confs |->
               [name |-> AiName(s.confs[k]), how |-> AiOutcome(s.confs[k]), c |-> EffAi(s.confs[k]), st |-> EffStage(s.confs[k])]]]))
Spec == Init /\ [][Next]_n
=============================================================================
