----------------------------- MODULE Experiments -----------------------------
(* What Tuner, ParameterGrid and Multitask promise.                             *)
(*                                                                              *)
(* A grid is a sequence of value sequences, one per hyper-parameter, in the     *)
(* order in which the user wrote them; values are small numbers.  A study runs  *)
(* every point of the grid n times (Tuner), or every algorithm on every problem *)
(* n times (Multitask), in order, and fills a table with the fitness of each    *)
(* run.  The operators below say what the tables must contain; Tuner's and      *)
(* Multitask's transitions (ExpMC, ExpTrace) are written with them.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* --- grids ---------------------------------------------------------------- *)
\* all points, the last parameter changing fastest
Points(g) == FoldLeft(LAMBDA acc, vs : [k \in 1..(Len(acc) * Len(vs)) |->
                        Append(acc[((k - 1) \div Len(vs)) + 1], vs[((k - 1) % Len(vs)) + 1])], << <<>> >>, g)
\* a sequence of grids, one after the other; a point is tagged with its grid
AllPoints(gs) == FoldLeft(LAMBDA acc, i : acc \o [x \in 1..Len(Points(gs[i])) |-> [g |-> i, p |-> Points(gs[i])[x]]],
                          <<>>, [i \in 1..Len(gs) |-> i])

(* --- statistics of a row of n fitness values -------------------------------- *)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumSq(s) == FoldLeft(LAMBDA a, x : a + x * x, 0, s)
\* n * (n-1) * sample variance: a whole number
Spread2(s) == Len(s) * SumSq(s) - Sum(s) * Sum(s)

Less(min, a, b) == IF min THEN a < b ELSE a > b
\* twice the average rank of the i-th of the values (1 = best)
Rank2(min, v, i) == 2 * Cardinality({j \in DOMAIN v : Less(min, v[j], v[i])}) + Cardinality({j \in DOMAIN v : v[j] = v[i]}) + 1

Means(rows) == [i \in DOMAIN rows |-> Sum(rows[i])]          \* n times the mean; n is the same for all rows
Stds(rows) == [i \in DOMAIN rows |-> Spread2(rows[i])]
\* lexicographic: first the mean, then (two or more trials) the spread
Before(min, rows, j, i) == \/ Less(min, Means(rows)[j], Means(rows)[i])
                           \/ Means(rows)[j] = Means(rows)[i] /\ Len(rows[1]) > 1 /\ Stds(rows)[j] < Stds(rows)[i]
BestRows(min, rows) == {i \in DOMAIN rows : \A j \in DOMAIN rows : ~Before(min, rows, j, i)}
DenseRank(min, rows, i) ==
    1 + Cardinality({<<Means(rows)[j], Stds(rows)[j]>> : j \in {k \in DOMAIN rows : Before(min, rows, k, i)}})

(* --- settings lists of Multitask --------------------------------------------- *)
\* which entry of a list of `len` settings belongs to algorithm i (of n) and problem j (of m); 0: the list is refused
Entry(len, n, m, i, j) == CASE len = 1 -> 1
                            [] len = n -> i
                            [] len = m -> j
                            [] len = n * m -> (i - 1) * m + j
                            [] OTHER -> 0
\* the order of the runs: algorithm, problem, trial
Cell(k, m, n) == LET q == (k - 1) \div n IN [a |-> (q \div m) + 1, b |-> (q % m) + 1, tr |-> ((k - 1) % n) + 1]
Pad(s, len) == s \o [k \in 1..(len - Len(s)) |-> -1]
MaxLen(cols) == LET L == {Len(cols[i]) : i \in DOMAIN cols} IN CHOOSE x \in L : \A y \in L : y <= x
=============================================================================
