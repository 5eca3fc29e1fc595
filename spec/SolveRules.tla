----------------------------- MODULE SolveRules -----------------------------
(***************************************************************************)
(* The rules of one optimisation run, as pure operators.  They are shared  *)
(* by the design model (Solve.tla, model checked by itself), by the trace  *)
(* specification (SolveTrace.tla, which judges recordings of the real      *)
(* optimizers) and by the generator of scripted behaviours (SolveGen.tla). *)
(*                                                                         *)
(* Fitness values are natural numbers (dense ranks of the real values);    *)
(* an agent is a triple <<s, o, f>>: solution id, objective id, fitness.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions

Strictly(mm, a, b) == IF mm = "min" THEN a < b ELSE a > b        \* a is better than b
NoWorse(mm, a, b)  == IF mm = "min" THEN a <= b ELSE a >= b      \* a is at least as good as b
Opposite(mm)       == IF mm = "min" THEN "max" ELSE "min"

\* best element of a non-empty set of fitness values
BestOf(mm, S) == CHOOSE a \in S : \A b \in S : NoWorse(mm, a, b)
WorstOf(mm, S) == BestOf(Opposite(mm), S)

BestFit(mm, pop)  == BestOf(mm, {a[3] : a \in Range(pop)})
WorstFit(mm, pop) == WorstOf(mm, {a[3] : a \in Range(pop)})

\* the best so far after seeing the best of the current population
NextBest(mm, old, cur)  == IF Strictly(mm, cur, old) THEN cur ELSE old
NextWorst(mm, old, cur) == NextBest(Opposite(mm), old, cur)

\* The number of consecutive steps without an improvement of more than ep at the end of a best-so-far history
Near(ep, a, b) == a - b <= ep /\ b - a <= ep
NextRepeat(ep, old, new, rep) == IF Near(ep, old, new) THEN rep + 1 ELSE 0

(* Stopping: a criterion with value 0 is absent; ep is the tolerance of early stopping. *)
StopMG(c, k)    == c.mg > 0 /\ k >= c.mg
StopFE(c, nfe)  == c.fe > 0 /\ nfe >= c.fe
StopTB(c, time) == c.tb > 0 /\ time >= c.tb
StopES(c, rep)  == c.es > 0 /\ rep >= c.es
StopReason(c, k, nfe, time, rep) ==
    IF StopMG(c, k) THEN "MG" ELSE IF StopFE(c, nfe) THEN "FE" ELSE
    IF StopTB(c, time) THEN "TB" ELSE IF StopES(c, rep) THEN "ES" ELSE "none"
MustStop(c, k, nfe, time, rep) == StopReason(c, k, nfe, time, rep) # "none"

\* A solution record is <<#coordinates below, #above, #not finite, dimension, #outside the discrete domain>>
Feasible(sol, nd) == sol[1] = 0 /\ sol[2] = 0 /\ sol[3] = 0 /\ sol[4] = nd /\ sol[5] = 0

RECURSIVE Dot(_, _)
Dot(w, o) == IF w = <<>> THEN 0 ELSE Head(w) * Head(o) + Dot(Tail(w), Tail(o))
=============================================================================
