------------------------------- MODULE CacheMC ------------------------------
(* All behaviours of the reference model within the constants of a JSON     *)
(* file (IOEnv.MCCFG): configurations, operations, depth and the fields of  *)
(* the state which are told apart.  Every transition is checked against the *)
(* predicate of the property PROP and printed as a script, to be replayed   *)
(* on the real caches.                                                      *)
EXTENDS CacheChecks

M == JsonDeserialize(IOEnv.MCCFG)
Depth == M.depth

VARIABLES c,      \* index of the configuration
          s,      \* state of the model
          gh,     \* ghost, as in CacheTrace
          clock,
          h,      \* indices of the operations so far
          bad     \* clauses which failed
vars == <<c, s, gh, clock, h, bad>>

(* what the observer sees of a state                                        *)
Figures == {"size", "max", "req", "hit", "add", "del", "red", "reds", "dw", "dr", "drh", "drm", "dd", "q", "st", "z"}
Avg(sum, n) == IF n = 0 THEN NaN ELSE sum \div n
RECURSIVE Sqrt(_, _)
Sqrt(n, k) == IF k * k > n THEN k - 1 ELSE Sqrt(n, k + 1)
Dev(g) == LET n == Len(g)
              v == n * FoldLeft(LAMBDA a, x : a + x * x, 0, g) - SumSeq(g) * SumSeq(g)
          IN  IF n < 2 THEN NaN ELSE Sqrt((100 * v) \div (n * (n - 1)), 0)
ObsOf(k, m, g) ==
    [x \in Figures |-> m[x]] @@
    [qs |-> [i \in DOMAIN m.q |-> m.z[m.q[i]]], nf |-> Len(m.q), frac |-> 0,
     cap |-> IF m.max = 0 THEN 0 ELSE Ratio(m.size, m.max, 5),
     hr |-> IF m.req = 0 THEN 0 ELSE Ratio(m.hit, m.req, 5),
     whr |-> IF m.req = 0 THEN 0 ELSE (100 * m.drh * m.hit) \div m.req,
     bw |-> Bandwidth(k), bwu |-> IF k.bwm = 0 THEN 0 ELSE Ratio(m.drm, Mb(k, Bandwidth(k)), 5),
     cu |-> Avg(g.cpu.us, g.cpu.un), cl |-> Avg(g.cpu.ls, g.cpu.ln), ch |-> Avg(g.cpu.hs, g.cpu.h),
     cm |-> Avg(g.cpu.ms, g.cpu.n - g.cpu.h), ce |-> Avg(g.cpu.hs + g.cpu.ms, g.cpu.n),
     af |-> IF g.free = <<>> THEN NaN ELSE (100 * SumSeq(g.free)) \div Len(g.free), sd |-> Dev(g.free)]

Configs == DOMAIN M.cfgs
Coins == IF \E k \in Configs : M.cfgs[k].type \in {"random", "random_lru"} THEN BOOLEAN ELSE {TRUE}

Init == /\ c \in Configs
        /\ s = Initial(M.cfgs[c]) /\ gh = Ghost0([op |-> "init"])
        /\ clock = 0 /\ h = <<>> /\ bad = {}

Do(i, coin) ==
    LET k == M.cfgs[c]
        e0 == M.ops[i]
        e1 == IF e0.op = "get" THEN e0 @@ [t |-> clock + e0.dt] ELSE e0
        r == Operation(k, s, e1, coin)
        dd == r.s.dd - s.dd
        pre0 == ObsOf(k, s, gh)
        e == e1 @@ [ra |-> r.ra, rr |-> r.rr,
                    wavg |-> IF DOMAIN s.st = {} THEN NaN
                             ELSE (25 * SumOver([x \in DOMAIN s.st |-> s.st[x].w], DOMAIN s.st)) \div Cardinality(DOMAIN s.st),
                    before |-> pre0, after |-> pre0,
                    v |-> IF e0.op = "delmiss" THEN ReadMisses(s).v ELSE dd]
        g == [gh EXCEPT !.draw.coins = [j \in 1..(gh.draw.k + 1) |-> coin]]
        pre == pre0
        \* the ghost looks at observed figures only
        p0 == ObsOf(k, r.s, gh)
        g2 == GhostNext(k, g, pre, e, p0)
        post == ObsOf(k, r.s, g2)
    IN  /\ Len(h) < Depth
        /\ s' = r.s /\ gh' = g2 /\ h' = Append(h, i) /\ UNCHANGED c
        /\ clock' = IF e0.op = "get" THEN clock + e0.dt ELSE clock
        /\ bad' = Check(k, g, g2, pre, e, post)

Next == \E i \in DOMAIN M.ops, coin \in Coins : Do(i, coin)
Spec == Init /\ [][Next]_vars

Field(x) == CASE x = "fr" -> [f \in DOMAIN s.st |-> s.st[f].fr]
              [] x = "w" -> [f \in DOMAIN s.st |-> s.st[f].w]
      [] x = "tl" -> [f \in DOMAIN s.st |-> clock - s.st[f].tl]
              [] x = "idle" -> clock - s.first
              [] x = "clock" -> clock
              [] x = "cpu" -> gh.cpu
              [] x = "free" -> gh.free
              [] x = "miss" -> gh.miss
              [] x = "seen" -> gh.seen
              [] x = "log" -> gh.log
              [] x = "k" -> gh.draw.k
              [] x = "cleared" -> gh.cleared
              [] OTHER -> s[x]
View == <<c, Len(h), bad, [i \in DOMAIN M.view |-> Field(M.view[i])]>>

(* the property, on every transition *)
Holds == bad = {}
(* invariants of the model itself *)
Inv == /\ NoDup(s.q) /\ DOMAIN s.z = Residents(s)
       /\ s.size = SumOver(s.z, Residents(s))
       /\ s.size <= s.max /\ s.size >= 0
       /\ s.drh + s.drm = s.dr /\ s.add - s.del >= -Len(h)
       /\ (M.cfgs[c].type # "infinite" => \A f \in Residents(s) : f \in DOMAIN s.st)
Emit == PrintT("SCRIPT " \o ToString(<<c, h'>>))
=============================================================================
