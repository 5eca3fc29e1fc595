-------------------------------- MODULE ExpMC --------------------------------
(* Model checking of the experiment utilities: every study over small grids,    *)
(* with every table of fitness values the runs can produce.                     *)
EXTENDS Experiments, TLC
CONSTANTS MaxVals, MaxTrials, MaxFit, Algs, Probs

VARIABLES kind, min, grid, n, row, tab, phase, best, cfg, k, lens, files
vars == <<kind, min, grid, n, row, tab, phase, best, cfg, k, lens, files>>

Grids == UNION {{<<[i \in 1..a |-> i]>> : a \in 1..MaxVals}, {<<[i \in 1..a |-> i], [i \in 1..b |-> 10 + i]>> : a, b \in 1..2}, {<<>>}}

Init == \/ /\ kind = "tuner" /\ min \in BOOLEAN /\ grid \in Grids /\ n \in 1..MaxTrials
           /\ row = <<>> /\ tab = <<>> /\ phase = "run" /\ best = 0 /\ cfg = 0 /\ k = 0 /\ lens = 0 /\ files = <<>>
        \/ /\ kind = "multi" /\ min = TRUE /\ grid = <<>> /\ n \in 1..MaxTrials
           /\ cfg \in [a : 1..Algs, b : 1..Probs] /\ lens \in 1..(Algs * Probs + 1)
           /\ row = <<>> /\ tab = <<>> /\ phase = "run" /\ best = 0 /\ k = 0 /\ files = <<>>

\* --- Tuner: one run of the point the table is at ---
Run(f) == /\ phase = "run" /\ kind = "tuner" /\ Len(tab) < Len(Points(grid))
          /\ row' = IF Len(row) + 1 = n THEN <<>> ELSE Append(row, f)
          /\ tab' = IF Len(row) + 1 = n THEN Append(tab, Append(row, f)) ELSE tab
          /\ UNCHANGED <<kind, min, grid, n, phase, best, cfg, k, lens, files>>
\* the winner: the first of the best rows
Choose == /\ phase = "run" /\ kind = "tuner" /\ Len(tab) = Len(Points(grid))
          /\ best' = CHOOSE i \in BestRows(min, tab) : \A j \in BestRows(min, tab) : i <= j
          /\ phase' = "chosen"
          /\ UNCHANGED <<kind, min, grid, n, row, tab, cfg, k, lens, files>>
\* --- Multitask: the k-th run belongs to one cell; the file of an algorithm is written after its last run ---
Refuse == /\ phase = "run" /\ kind = "multi" /\ k = 0 /\ Entry(lens, cfg.a, cfg.b, 1, 1) = 0
          /\ phase' = "refused" /\ UNCHANGED <<kind, min, grid, n, row, tab, best, cfg, k, lens, files>>
Solve == /\ phase = "run" /\ kind = "multi" /\ Entry(lens, cfg.a, cfg.b, 1, 1) # 0 /\ k < cfg.a * cfg.b * n
         /\ k' = k + 1
         /\ tab' = Append(tab, Cell(k + 1, cfg.b, n))
         /\ files' = IF (k + 1) % (cfg.b * n) = 0 THEN Append(files, Cell(k + 1, cfg.b, n).a) ELSE files
         /\ UNCHANGED <<kind, min, grid, n, row, phase, best, cfg, lens>>
Next == (\E f \in 0..MaxFit : Run(f)) \/ Choose \/ Refuse \/ Solve
Spec == Init /\ [][Next]_vars

\* --- invariants ---
Chosen == phase = "chosen"
BestIsExtreme == Chosen => \A i \in DOMAIN tab : ~Less(min, Sum(tab[i]), Sum(tab[best]))
BestIsSteadiest == Chosen => \A i \in DOMAIN tab : Sum(tab[i]) = Sum(tab[best]) => Spread2(tab[i]) >= Spread2(tab[best]) \/ n = 1
RanksConsistent == Chosen /\ n > 1 => /\ DenseRank(min, tab, best) = 1
                             /\ \A i, j \in DOMAIN tab : Before(min, tab, i, j) <=> DenseRank(min, tab, i) < DenseRank(min, tab, j)
                             /\ Sum([x \in DOMAIN tab |-> Rank2(min, Means(tab), x)]) = Len(tab) * (Len(tab) + 1)
SpreadNonNegative == \A i \in DOMAIN tab : kind = "tuner" => Spread2(tab[i]) >= 0 /\ (n = 1 => Spread2(tab[i]) = 0)
\* every combination of the values, each once, in dictionary order
GridComplete == kind = "tuner" =>
    /\ {Points(grid)[i] : i \in DOMAIN Points(grid)} = {p \in [1..Len(grid) -> UNION {{grid[x][y] : y \in DOMAIN grid[x]} : x \in DOMAIN grid}] : \A x \in DOMAIN grid : \E y \in DOMAIN grid[x] : p[x] = grid[x][y]}
    /\ \A i, j \in DOMAIN Points(grid) : i < j => \E x \in DOMAIN grid : Points(grid)[i][x] < Points(grid)[j][x] /\ \A y \in 1..(x - 1) : Points(grid)[i][y] = Points(grid)[j][y]
\* every algorithm meets every problem n times
MultiComplete == kind = "multi" /\ phase = "run" /\ k = cfg.a * cfg.b * n /\ k > 0 =>
    /\ \A a \in 1..cfg.a, b \in 1..cfg.b, tr \in 1..n : Cardinality({x \in DOMAIN tab : tab[x] = [a |-> a, b |-> b, tr |-> tr]}) = 1
    /\ files = [i \in 1..cfg.a |-> i]
\* a list of settings is used completely, and no cell is without its setting
EntriesUsed == kind = "multi" /\ Entry(lens, cfg.a, cfg.b, 1, 1) # 0 =>
    {Entry(lens, cfg.a, cfg.b, i, j) : i \in 1..cfg.a, j \in 1..cfg.b} = 1..lens
RefusedOnlyIfUnclear == phase = "refused" => lens \notin {1, cfg.a, cfg.b, cfg.a * cfg.b}
=============================================================================
