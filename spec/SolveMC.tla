------------------------------ MODULE SolveMC ------------------------------
(* Exhaustive check of the design for small constants *)
EXTENDS Solve, TLC
CONSTANTS NFit, Pops, MaxE, MaxX, MaxDt, MaxSolves, MGs, FEs, TBs, ESs, EPs, Sorts, MMs, Mids

Fits == 1..NFit
PopSet == UNION {[1..n -> Fits] : n \in Pops}
Cfgs == [mm : MMs, E : 1..MaxE, crit : [mg : MGs, fe : FEs, tb : TBs, es : ESs, ep : EPs], sort : Sorts, save : {TRUE}]
MidSet == IF Mids THEN {<<>>} \cup {<<q>> : q \in [1..1 -> Fits]} ELSE {<<>>}

Next ==
    \/ solves < MaxSolves /\ \E c \in Cfgs : Begin(c)
    \/ \E p \in PopSet, x \in 0..MaxX, dt \in 0..MaxDt : InitPop(p, x, dt)
    \/ \E q \in MidSet, p \in PopSet, x \in 0..MaxX, dt \in 0..MaxDt : Evolve(q, p, x, dt)
    \/ Book
    \/ Decide
    \/ (solves < MaxSolves /\ Fail)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every solve that does not fail ends
Terminates == [](phase = "init" => <>(phase \in {"done", "failed"}))
\* relabelled clock: only differences matter
Bound == clock <= 6
=============================================================================
