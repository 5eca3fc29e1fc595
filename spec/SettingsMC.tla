----------------------------- MODULE SettingsMC -----------------------------
EXTENDS Settings, TLC
CONSTANTS MaxRank, NRules
NoBound == 0 - 1
Bounds == {b \in [closed : BOOLEAN, lo : {1}, hi : 1..MaxRank] : TRUE} \cup {[closed |-> c, lo |-> NoBound, hi |-> h] : c \in BOOLEAN, h \in {2, NoBound}}
Rule(kind, b, fb) == [kind |-> kind, closed |-> b.closed, lo |-> b.lo, hi |-> b.hi, fclosed |-> fb.closed, flo |-> fb.lo, fhi |-> fb.hi, choices |-> <<"x", "y">>]
Rules == {Rule("int", b, b) : b \in Bounds} \cup {Rule("intfloat", b, [b EXCEPT !.closed = ~b.closed]) : b \in Bounds} \cup {Rule("str", CHOOSE b \in Bounds : TRUE, CHOOSE b \in Bounds : TRUE), Rule("bool", CHOOSE b \in Bounds : TRUE, CHOOSE b \in Bounds : TRUE)}
Values == {[t |-> t, r |-> r, c |-> ""] : t \in {"int", "float", "nan"}, r \in 0..(MaxRank + 1)} \cup {[t |-> "str", r |-> 0, c |-> c] : c \in {"x", "z"}}
          \cup {[t |-> "bool", r |-> 1, c |-> ""], [t |-> "none", r |-> 0, c |-> ""]}
Init == \E R \in [1..NRules -> Rules], G \in [1..NRules -> Values] : Start(R, G)
Next == Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(status \in {"ready", "refused"})
\* closed bounds accept their ends and everything open bounds accept; the wrong type is never accepted
Laws == \A j \in DOMAIN rules : LET q == rules[j]  v == given[j] IN
    /\ q.kind = "int" /\ v.t = "int" /\ ~q.closed /\ Accepts(q, v) => Accepts([q EXCEPT !.closed = TRUE], v)
    /\ q.kind = "int" /\ v.t = "int" /\ q.closed /\ q.lo # NoBound /\ v.r \in {q.lo, q.hi} /\ (q.hi = NoBound \/ q.lo <= q.hi) => Accepts(q, v) /\ ~Accepts([q EXCEPT !.closed = FALSE], v)
    /\ v.t \in {"none", "nan"} => ~Accepts(q, v)
=============================================================================
