------------------------------- MODULE AgentMC ------------------------------
(* Every behaviour of a small agent (two states, two actions): the values   *)
(* stay within the largest reward over one minus the discount, every step   *)
(* of the exact rational model is one AgentStep allows, and each transition *)
(* is printed as a script for the real agent.                               *)
EXTENDS AgentModel, IOUtils, Json

Depth == atoi(IOEnv.DEPTH)
Set == IOEnv.OPS
cc == JsonDeserialize(IOEnv.MCCFG)

S == 160000                                 \* 20^4: exact for four updates in a row
acts == <<-7, -6>>
VARIABLES s, h
vars == <<s, h>>

Upd(st, s2, a, r) == [op |-> "upd", s |-> st, s2 |-> s2, a |-> a, r |-> r]
Learn == {Upd(st, s2, a, r) : st \in 0..1, s2 \in 0..1, a \in {-7, -6}, r \in {-4, 0, 4}} \cup {Upd(0, 1, -1, 4)}
         \cup {[op |-> "best", s |-> 0, a |-> 0], [op |-> "resettable"], [op |-> "resetq"], [op |-> "cov"], [op |-> "restore"]}
Explore == {[op |-> "eps"], [op |-> "unleash", e |-> -1], [op |-> "unleash", e |-> 500], [op |-> "unleash", e |-> 1000], [op |-> "params", e |-> 50, d |-> 100],
            [op |-> "params", e |-> 300, d |-> 500], [op |-> "restore"], Upd(0, 0, -6, 4)}
Remember == {[op |-> "save", s |-> 0, a |-> -6, n |-> Len(h), k |-> k, nlim |-> nl] : k \in 1..2, nl \in BOOLEAN}
         \cup {[op |-> o, k |-> k] : o \in {"remember", "memories", "forget"}, k \in 1..2} \cup {[op |-> "forgetall"], [op |-> "restore"]}
Ops == CASE Set = "learn" -> Learn [] Set = "explore" -> Explore [] OTHER -> Remember

Zero == [st \in 1..2 |-> [k \in 1..2 |-> 0]]
New(old, r4, best) == (2 * old + (18 * r4 * (S \div 4)) + 9 * best) \div 20
FirstDown(d, e) == CHOOSE k \in 0..400 : Rate(cc, d, k) <= 1000 * e /\ (k = 0 \/ Rate(cc, d, k - 1) > 1000 * e)

Apply(x, e) ==
    CASE e.op = "upd" /\ e.a \in Range2(acts) ->
            [x EXCEPT !.q[e.s + 1][Col(acts, e.a)] = New(@, e.r, MaxOf(x.q[e.s2 + 1])), !.qv = @ + e.r, !.n = @ + 1,
                      !.touched = @ \cup {<<e.s + 1, Col(acts, e.a)>>}]
      [] e.op = "resettable" -> [x EXCEPT !.q = Zero, !.n = 0, !.touched = {}]
      [] e.op = "resetq" -> [x EXCEPT !.qv = 0]
      [] e.op = "eps" -> IF x.eps > MinRate THEN [x EXCEPT !.step = @ + 1, !.eps = Rate(cc, x.dec, x.step + 1)] ELSE x
      [] e.op = "unleash" -> IF ~cc.unl THEN x ELSE
            LET k == IF e.e < 0 THEN 0 ELSE FirstDown(x.dec, e.e) IN [x EXCEPT !.step = k, !.eps = Rate(cc, x.dec, k)]
      [] e.op = "params" -> [x EXCEPT !.eps = 1000 * e.e, !.step = 0, !.qv = 0, !.dec = e.d]
      [] e.op = "save" -> [x EXCEPT !.mem = Saved(@, e.k, ChoiceOf(e), e.nlim)]
      [] e.op \in {"remember", "forget"} -> [x EXCEPT !.mem = Only(@, (DOMAIN @) \ {e.k})]
      [] e.op \in {"forgetall", "restore"} -> [x EXCEPT !.mem = Empty]
      [] OTHER -> x

Round16(v) == IF v >= 0 THEN (v + 8) \div 16 ELSE -((8 - v) \div 16)
Figures(x) == [q |-> [st \in 1..2 |-> [k \in 1..2 |-> Round16(x.q[st][k])]], eps |-> x.eps, step |-> x.step, qv |-> x.qv, mem |-> x.mem]
Ghost(x) == [dec |-> x.dec, touched |-> x.touched, acts |-> acts]
(* the operation with the answers of the model                              *)
Answered(x, e) ==
    CASE MustPanic(Ghost(x), x, e) -> e @@ [panicked |-> TRUE]
      [] e.op = "best" -> e @@ [v2 |-> acts[CHOOSE k \in 1..2 : x.q[1][k] = MaxOf(x.q[1])], v3 |-> MaxOf(Figures(x).q[1]), v4 |-> Figures(x).q[1][1]]
      [] e.op = "remember" -> e @@ [v2 |-> IF e.k \in DOMAIN x.mem THEN x.mem[e.k] ELSE <<>>, v3 |-> e.k \in DOMAIN x.mem]
      [] e.op = "memories" -> e @@ [v2 |-> x.mem[e.k]]
      [] e.op = "cov" -> e @@ [v2 |-> Ratio(Cardinality({y \in x.touched : x.q[y[1]][y[2]] # 0}), 4, 5),
                               v3 |-> Ratio(Cardinality({y[1] : y \in {y \in x.touched : x.q[y[1]][y[2]] # 0}}), 2, 5)]
      [] OTHER -> e

Init == /\ s = [q |-> Zero, eps |-> 1000 * cc.eps, step |-> 0, qv |-> 0, mem |-> Empty, dec |-> cc.dec, n |-> 0, touched |-> {}]
        /\ h = <<>>
Next == \E e \in Ops : Len(h) < Depth /\ (e.op = "upd" => s.n < 4) /\ s' = Apply(s, e) /\ h' = Append(h, e)
Spec == Init /\ [][Next]_vars
View == <<s, Len(h)>>
Bounded == \A st \in 1..2, k \in 1..2 : AbsI(s.q[st][k]) <= 2 * S
Remembered == \A k \in DOMAIN s.mem : s.mem[k] # <<>>
Allowed == [][LET e == h'[Len(h')] IN AgentStep(cc, Ghost(s), Figures(s), Answered(s, e), Figures(s')) = {}]_vars
Emit == PrintT("SCRIPT " \o ToJson(h'))
=============================================================================
