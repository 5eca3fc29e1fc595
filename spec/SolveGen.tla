------------------------------ MODULE SolveGen ------------------------------
(* Random behaviours of Solve.tla (tlc -simulate), written out as scripts    *)
(* that the harness replays on the real Optimizer class.                     *)
EXTENDS Solve, TLC, Json

CONSTANTS NFit, MaxPop, MaxE, MaxSolves, Focus
VARIABLE log
gvars == <<vars, log>>

Fits == 1..NFit
R(S) == RandomElement(S)
Coin(n) == R(1..n) = 1                     \* true once in n
Pop(n) == [j \in 1..n |-> R(Fits)]
\* long stretches without improvement matter for early stopping: sometimes the best of the population is kept
FlatPop(n) == [j \in 1..n |-> IF Coin(3) THEN R(Fits) ELSE run[1]]
NextPop(n) == IF Coin(2) THEN FlatPop(n) ELSE Pop(n)

RandCfg(z) ==
    LET all == Focus = "all"
        es  == Focus = "es" \/ Coin(3)
        fe  == Focus = "fe" \/ Coin(3)
        tb  == Focus = "tb" \/ Coin(3)
        mg  == Focus = "mg" \/ Coin(3)
    IN  [mm |-> R({"min", "max"}), E |-> R(1..MaxE),
         crit |-> [mg |-> IF mg THEN R(1..(MaxE + 1)) ELSE 0,
                   fe |-> IF fe THEN R(10..30) ELSE 0,
                   tb |-> IF tb THEN R(1..6) ELSE 0,
                   es |-> IF es THEN R(1..5) ELSE 0,
                   ep |-> IF es /\ Coin(2) THEN R(1..2) ELSE 0],
         sort |-> Coin(3), save |-> Coin(2)]

RandMid(z) == IF Coin(4) THEN [j \in 1..R(1..2) |-> Pop(R(1..MaxPop))] ELSE <<>>
Dt(z) == IF Coin(2) THEN 0 ELSE R(1..2)

State == [pop |-> pop', nfe |-> nfe', run |-> run', hgb |-> hgb', hcb |-> hcb', hgw |-> hgw', hcw |-> hcw',
          hpop |-> hpop', msg |-> msg', ret |-> ret', k |-> k']

GInit == Init /\ log = <<>>

DoBegin == phase \in {"idle", "done", "failed"} /\ \E c \in {RandCfg(k)} : solves < MaxSolves /\ Begin(c) /\ log' = Append(log, [a |-> "begin", cfg |-> c])
DoInit  == phase = "init" /\ \E p \in {Pop(R(1..MaxPop))}, x \in {R(0..2)}, dt \in {Dt(k)} :
              InitPop(p, x, dt) /\ log' = Append(log, [a |-> "init", p |-> p, x |-> x, dt |-> dt, s |-> State])
DoEvolve == phase = "loop" /\ \E n \in {IF Coin(5) THEN R(1..MaxPop) ELSE Len(pop)} :
            \E q \in {RandMid(k)}, p \in {NextPop(n)}, x \in {R(0..2)}, dt \in {Dt(k)}, i \in {R({"new", "inplace", "mixed"})} :
              Evolve(q, p, x, dt) /\ log' = Append(log, [a |-> "evolve", q |-> q, p |-> p, x |-> x, dt |-> dt, how |-> i])
DoBook   == Book /\ log' = Append(log, [a |-> "book", s |-> State])
DoDecide == Decide /\ log' = Append(log, [a |-> IF phase' = "done" THEN "done" ELSE "go", s |-> State])
DoFail   == Fail /\ solves < MaxSolves /\ log' = Append(log, [a |-> "fail"])
Emit     == /\ phase = "done" /\ solves = MaxSolves /\ log # <<>>
            /\ PrintT("@@" \o ToJson(log)) /\ log' = <<>> /\ UNCHANGED vars

GNext == DoBegin \/ DoInit \/ DoEvolve \/ DoBook \/ DoDecide \/ Emit
\* failures are rare: otherwise nothing else is ever explored
GNextF == IF phase \in {"init", "loop"} /\ solves < MaxSolves /\ Coin(12) THEN DoFail ELSE GNext
GSpec == GInit /\ [][GNextF]_gvars
=============================================================================
