------------------------------- MODULE Solve -------------------------------
(***************************************************************************)
(* The design of Optimizer.solve(): one optimizer instance that is asked   *)
(* to solve one problem after another, possibly after a failed attempt.    *)
(* One action per public step of the loop: the start of a solve, the       *)
(* initial population, the algorithm's own move (which may report interim  *)
(* populations without saving), the bookkeeping of the epoch and the       *)
(* stopping decision.  Agents are represented by their fitness.            *)
(*                                                                         *)
(* TLC checks the properties at the end of this module exhaustively for    *)
(* small constants; SolveGen.tla turns behaviours of this specification    *)
(* into scripts that are replayed on the real Optimizer class; and         *)
(* SolveTrace.tla checks recordings of all the real optimizers with the    *)
(* same rules (SolveRules.tla).                                            *)
(***************************************************************************)
EXTENDS SolveRules, SequencesExt

VARIABLES
    phase,      \* "idle" "init" "loop" "book" "check" "done" "failed"
    cfg,        \* [mm, E, crit, sort, save]: what the caller asked for
    k,          \* epochs executed
    pop,        \* the population (sequence of fitness)
    nfe,        \* objective calls
    clock, t0,  \* the clock, and its value at the start
    run,        \* best and worst so far including interim reports
    hgb, hcb, hgw, hcw, hpop,     \* histories
    msg, ret,   \* outcome
    seen,       \* (auxiliary) every fitness reported in a population so far
    series,     \* (auxiliary) <<nfe, clock>> at every stopping decision
    solves      \* solves started

vars == <<phase, cfg, k, pop, nfe, clock, t0, run, hgb, hcb, hgw, hcw, hpop, msg, ret, seen, series, solves>>

FitBest(mm, p)  == BestOf(mm, Range(p))
FitWorst(mm, p) == WorstOf(mm, Range(p))
Sorted(mm, p)   == SortSeq(p, LAMBDA a, b : Strictly(mm, a, b))

\* What get_global_repeated_times computes, by scanning the whole history
RECURSIVE Repeats(_, _)
Repeats(ep, h) == IF Len(h) < 2 THEN 0
                  ELSE IF Near(ep, h[Len(h)], h[Len(h) - 1]) THEN 1 + Repeats(ep, SubSeq(h, 1, Len(h) - 1)) ELSE 0

Init ==
    /\ phase = "idle" /\ cfg = [mm |-> "min", E |-> 1, crit |-> [mg |-> 0, fe |-> 0, tb |-> 0, es |-> 0, ep |-> 0], sort |-> FALSE, save |-> FALSE]
    /\ k = 0 /\ pop = <<>> /\ nfe = 0 /\ clock = 0 /\ t0 = 0 /\ run = <<>>
    /\ hgb = <<>> /\ hcb = <<>> /\ hgw = <<>> /\ hcw = <<>> /\ hpop = <<>>
    /\ msg = "none" /\ ret = 0 /\ seen = {} /\ series = <<>> /\ solves = 0

\* solve() is called: whatever an earlier solve left behind, also one that failed half way, is gone
Begin(c) ==
    /\ phase \in {"idle", "done", "failed"}
    /\ phase' = "init" /\ cfg' = c /\ solves' = solves + 1
    /\ k' = 0 /\ pop' = <<>> /\ nfe' = 0 /\ t0' = clock /\ clock' = clock /\ run' = <<>>
    /\ hgb' = <<>> /\ hcb' = <<>> /\ hgw' = <<>> /\ hcw' = <<>> /\ hpop' = <<>>
    /\ msg' = "none" /\ ret' = 0 /\ seen' = {} /\ series' = <<>>

\* the initial population p, after x further objective calls
InitPop(p, x, dt) ==
    /\ phase = "init"
    /\ phase' = "loop"
    /\ pop' = IF cfg.sort THEN Sorted(cfg.mm, p) ELSE p
    /\ nfe' = nfe + Len(p) + x
    /\ clock' = clock + dt
    /\ LET b == FitBest(cfg.mm, p)  w == FitWorst(cfg.mm, p)
       IN  /\ run' = <<b, w>>
           /\ hgb' = <<b>> /\ hcb' = <<b>> /\ hgw' = <<w>> /\ hcw' = <<w>>
    /\ seen' = Range(p)
    /\ UNCHANGED <<cfg, k, t0, hpop, msg, ret, series, solves>>

\* one epoch of the algorithm: interim populations are reported without saving, the next population is p
Interim(q) == FoldLeft(LAMBDA r, p : <<NextBest(cfg.mm, r[1], FitBest(cfg.mm, p)), NextWorst(cfg.mm, r[2], FitWorst(cfg.mm, p))>>, run, q)
Evolve(q, p, x, dt) ==
    /\ phase = "loop" /\ k < cfg.E
    /\ phase' = "book" /\ k' = k + 1
    /\ run' = Interim(q)
    /\ pop' = p
    /\ nfe' = nfe + Len(p) + x + FoldLeft(LAMBDA a, r : a + Len(r), 0, q)
    /\ clock' = clock + dt
    /\ seen' = seen \cup Range(p) \cup UNION {Range(q[j]) : j \in DOMAIN q}
    /\ UNCHANGED <<cfg, t0, hgb, hcb, hgw, hcw, hpop, msg, ret, series, solves>>

Book ==
    /\ phase = "book"
    /\ phase' = "check"
    /\ LET b == FitBest(cfg.mm, pop)  w == FitWorst(cfg.mm, pop)
           nb == NextBest(cfg.mm, run[1], b)  nw == NextWorst(cfg.mm, run[2], w)
       IN  /\ run' = <<nb, nw>>
           /\ hgb' = Append(hgb, nb) /\ hcb' = Append(hcb, b)
           /\ hgw' = Append(hgw, nw) /\ hcw' = Append(hcw, w)
    /\ pop' = IF cfg.sort THEN Sorted(cfg.mm, pop) ELSE pop
    /\ hpop' = IF cfg.save THEN Append(hpop, pop') ELSE hpop
    /\ UNCHANGED <<cfg, k, nfe, clock, t0, msg, ret, seen, series, solves>>

Reason == StopReason(cfg.crit, k, nfe, clock - t0, Repeats(cfg.crit.ep, hgb))

Decide ==
    /\ phase = "check"
    /\ series' = Append(series, <<nfe, clock - t0>>)
    /\ IF Reason = "none" /\ k < cfg.E
       THEN /\ phase' = "loop" /\ UNCHANGED <<hgb, hcb, hgw, hcw, msg, ret>>
       ELSE /\ phase' = "done" /\ msg' = Reason /\ ret' = run[1]
            \* the entries of the initial population are dropped
            /\ hgb' = Tail(hgb) /\ hcb' = Tail(hcb) /\ hgw' = Tail(hgw) /\ hcw' = Tail(hcw)
    /\ UNCHANGED <<cfg, k, pop, nfe, clock, t0, run, hpop, seen, solves>>

\* the objective raises: solve() ends with that exception
Fail ==
    /\ phase \in {"init", "loop"}
    /\ phase' = "failed"
    /\ UNCHANGED <<cfg, k, pop, nfe, clock, t0, run, hgb, hcb, hgw, hcw, hpop, msg, ret, seen, series, solves>>

---------------------------------------------------------------------------
(* The properties *)

Done == phase = "done"

\* S03 / S04: the reported best is the best fitness of anything reported so far, never beaten
BestSoFar == phase \in {"loop", "check", "done"} =>
                 /\ run[1] = BestOf(cfg.mm, seen) /\ run[2] = WorstOf(cfg.mm, seen)
Returned  == Done => ret = BestOf(cfg.mm, seen) /\ ret = hgb[Len(hgb)]
Monotone  == \A j \in 2..Len(hgb) : NoWorse(cfg.mm, hgb[j], hgb[j-1]) /\ NoWorse(cfg.mm, hgw[j-1], hgw[j])
Bracket   == \A j \in DOMAIN hgb : NoWorse(cfg.mm, hgb[j], hcb[j]) /\ NoWorse(cfg.mm, hcb[j], hcw[j]) /\ NoWorse(cfg.mm, hcw[j], hgw[j])

\* S05: one entry per executed epoch, nothing from the initial population, nothing from an earlier solve
Complete == Done => /\ Len(hgb) = k /\ Len(hcb) = k /\ Len(hgw) = k /\ Len(hcw) = k
                    /\ Len(hpop) = IF cfg.save THEN k ELSE 0

\* S06: at least one epoch, at most E; stopped as soon as, and only if, a criterion was reached
Bounded  == k <= cfg.E
StopsExactly ==
    Done => /\ k >= 1 /\ Len(series) = k
            /\ (k < cfg.E => msg # "none")
            /\ \A j \in 1..(k - 1) :
                 ~ MustStop(cfg.crit, j, series[j][1], series[j][2], 0)
            /\ (msg = "MG" => k >= cfg.crit.mg) /\ (msg = "FE" => series[k][1] >= cfg.crit.fe)
            /\ (msg = "TB" => series[k][2] >= cfg.crit.tb)
            /\ (msg = "ES" => k >= cfg.crit.es /\ \A i \in 1..(cfg.crit.es - 1) : Near(cfg.crit.ep, hgb[k - i + 1], hgb[k - i]))
EarlyStopNotMissed ==
    phase = "loop" /\ k >= 1 /\ cfg.crit.es > 0 =>
        \* somewhere within the last es steps the best has changed by more than the tolerance
        (k >= cfg.crit.es => \E i \in 0..(cfg.crit.es - 1) : ~Near(cfg.crit.ep, hgb[Len(hgb) - i], hgb[Len(hgb) - i - 1]))

SortedPop == cfg.sort /\ phase \in {"loop", "check", "done"} =>
                 \A i \in 1..(Len(pop) - 1) : NoWorse(cfg.mm, pop[i], pop[i+1])
=============================================================================
