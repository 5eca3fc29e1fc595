------------------------------ MODULE Progress ------------------------------
(* What is recorded and reported of a run: per epoch the diversity of the    *)
(* population, the fitness of the best agents and the time; at the end the   *)
(* shares of exploration and exploitation; one log line per epoch; charts.   *)
(* A population is a sequence of positions, positions are sequences of       *)
(* integers.  Its diversity is the mean distance of its coordinates from     *)
(* their medians, the rational number Spread / (2 * Cells).                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Sum(q) == FoldLeft(LAMBDA acc, v : acc + v, 0, q)
Column(P, d) == SortSeq([i \in DOMAIN P |-> P[i][d]], LAMBDA x, y : x < y)
Median2(c) == c[(Len(c) + 1) \div 2] + c[(Len(c) \div 2) + 1]            \* twice the median
ColumnSpread(P, d) == LET c == Column(P, d)  m == Median2(c) IN Sum([i \in DOMAIN c |-> Abs(2 * c[i] - m)])
Spread(P) == Sum([d \in DOMAIN P[1] |-> ColumnSpread(P, d)])
Cells(P) == Len(P) * Len(P[1])
\* diversities as [n, d]: the number n / d
Div(P) == [n |-> Spread(P), d |-> 2 * Cells(P)]
Leq(a, b) == a.n * b.d <= b.n * a.d
MaxDiv(q) == CHOOSE m \in {q[j] : j \in DOMAIN q} : \A j \in DOMAIN q : Leq(q[j], m)
\* 100 * a / m as [n, d]
Share(a, m) == IF m.n = 0 THEN [n |-> 0, d |-> 1] ELSE [n |-> 100 * a.n * m.d, d |-> a.d * m.n]

VARIABLES divs, cur, glob, times, log, clock, explore, done
pvars == <<divs, cur, glob, times, log, clock, explore, done>>
StartRun == divs = <<>> /\ cur = <<>> /\ glob = <<>> /\ times = <<>> /\ log = <<>> /\ clock = 0 /\ explore = <<>> /\ done = FALSE
\* an epoch ends with population P; it took dt; the best fitness in it and so far
EndEpoch(P, c, g, dt) ==
    /\ ~done
    /\ divs' = Append(divs, Div(P)) /\ cur' = Append(cur, c) /\ glob' = Append(glob, g) /\ times' = Append(times, dt)
    /\ log' = Append(log, [epoch |-> Len(log) + 1, cur |-> c, glob |-> g, time |-> dt])
    /\ clock' = clock + dt /\ UNCHANGED <<explore, done>>
EndRun == /\ ~done /\ divs # <<>>
          /\ explore' = [j \in DOMAIN divs |-> Share(divs[j], MaxDiv(divs))] /\ done' = TRUE
          /\ UNCHANGED <<divs, cur, glob, times, log, clock>>

\* --- trajectories: of agents (numbers from 1) in one or two coordinates (from 1) ---
Mini(S) == CHOOSE x \in S : \A y \in S : x <= y
TrajectoryAllowed(sizes, dims, agents, coords) ==
    /\ Len(sizes) >= 2
    /\ Cardinality(coords) \in {1, 2} /\ Cardinality(agents) \in 1..10
    /\ agents \subseteq 1..Mini({sizes[j] : j \in DOMAIN sizes}) /\ coords \subseteq 1..dims
Path(pops, a, d) == [e \in DOMAIN pops |-> pops[e][a][d]]
=============================================================================
