------------------------------ MODULE Helpers ------------------------------
(* Agents, targets, and the helpers with which an optimizer chooses among   *)
(* them.  An agent is an object that refers to a solution array and to a    *)
(* target object; several agents may refer to the same one (after           *)
(* sync_if_duplicate).  The heap is a record                                *)
(*   ag:  sequence of [s, t: cell numbers, x: another attribute]            *)
(*   sol: sequence of positions (sequences of integers)                     *)
(*   tgt: sequence of [o: objectives, w: weights, f: fitness]               *)
(* Each operation is a function from heaps to heaps; a helper which may     *)
(* choose (ties) is a predicate on its result.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Rng(q) == {q[j] : j \in DOMAIN q}
Strictly(mm, a, b) == IF mm = "min" THEN a < b ELSE a > b        \* fitness a is better than b
NotWorse(mm, a, b) == ~Strictly(mm, b, a)
Dot(w, o) == FoldLeft(LAMBDA acc, j : acc + w[j] * o[j], 0, [j \in 1..Len(o) |-> j])

Empty == [ag |-> <<>>, sol |-> <<>>, tgt |-> <<>>]
Target(o, w) == [o |-> o, w |-> w, f |-> Dot(w, o)]
\* what a user can see of agent i
View(h, i) == [s |-> h.sol[h.ag[i].s], o |-> h.tgt[h.ag[i].t].o, f |-> h.tgt[h.ag[i].t].f, x |-> h.ag[i].x]
Fit(h, i) == h.tgt[h.ag[i].t].f

\* --- objects ---
New(h, s, o, w, x) == [ag |-> Append(h.ag, [s |-> Len(h.sol) + 1, t |-> Len(h.tgt) + 1, x |-> x]),
                       sol |-> Append(h.sol, s), tgt |-> Append(h.tgt, Target(o, w))]
Copy(h, i) == LET g == h.tgt[h.ag[i].t] IN New(h, h.sol[h.ag[i].s], g.o, g.w, h.ag[i].x)
CopyAll(h, a) == FoldLeft(LAMBDA acc, i : Copy(acc, i), h, a)
Rebind(h, i, s, o, w) == [ag |-> [h.ag EXCEPT ![i].s = Len(h.sol) + 1, ![i].t = Len(h.tgt) + 1], sol |-> Append(h.sol, s), tgt |-> Append(h.tgt, Target(o, w))]
Edit(h, i, j, v) == [h EXCEPT !.sol[h.ag[i].s][j] = v]
Retarget(h, i, o, w) == [h EXCEPT !.tgt[h.ag[i].t] = Target(o, w)]
SetX(h, i, v) == [h EXCEPT !.ag[i].x = v]
Same(h, i, j) == h.sol[h.ag[i].s] = h.sol[h.ag[j].s]
Sync(h, i, j) == IF Same(h, i, j) THEN [h EXCEPT !.ag[i].t = h.ag[j].t] ELSE h

\* --- choosing: a is a population (sequence of agent numbers), results are positions in it (1..Len(a)) or agents ---
IsSorting(mm, h, a, p) ==
    /\ Len(p) = Len(a) /\ Rng(p) = DOMAIN a
    /\ \A j \in 1..(Len(p) - 1) : NotWorse(mm, Fit(h, a[p[j]]), Fit(h, a[p[j + 1]]))
IsBest(mm, h, a, k) == k \in DOMAIN a /\ \A j \in DOMAIN a : NotWorse(mm, Fit(h, a[k]), Fit(h, a[j]))
IsWorst(mm, h, a, k) == k \in DOMAIN a /\ \A j \in DOMAIN a : NotWorse(mm, Fit(h, a[j]), Fit(h, a[k]))
\* the positions p are n of the best ones, best first
IsTop(mm, h, a, p, n) ==
    /\ Len(p) = Min({n, Len(a)}) /\ Rng(p) \subseteq DOMAIN a /\ Cardinality(Rng(p)) = Len(p)
    /\ \A j \in 1..(Len(p) - 1) : NotWorse(mm, Fit(h, a[p[j]]), Fit(h, a[p[j + 1]]))
    /\ \A j \in DOMAIN p, m \in DOMAIN a \ Rng(p) : NotWorse(mm, Fit(h, a[p[j]]), Fit(h, a[m]))
Other(mm) == IF mm = "min" THEN "max" ELSE "min"
GreedyPick(mm, h, o, n) == IF Strictly(mm, Fit(h, n), Fit(h, o)) THEN n ELSE o
Greedy(mm, h, a, b) == [j \in DOMAIN a |-> GreedyPick(mm, h, a[j], b[j])]
\* groups of m consecutive agents, as many as asked for; the last ones may be short
Group(a, m, k) == SubSeq(a, (k - 1) * m + 1, Min({k * m, Len(a)}))
Groups(a, n, m) == FoldLeft(LAMBDA acc, k : acc \o Group(a, m, k), <<>>, [k \in 1..n |-> k])

\* --- drawing ---
\* sampling positions 0 .. n-1 without the excluded ones
IsSample(n, ex, k, rep, q) == Len(q) = k /\ Rng(q) \subseteq (0..(n - 1)) \ ex /\ (rep \/ Cardinality(Rng(q)) = k)
Shift(e, v) == IF v >= e THEN v + 1 ELSE v          \* how one excluded index is skipped
\* weights of the roulette wheel
Weights(mm, f) ==
    LET lo == Min(Rng(f))
        g == IF lo < 0 THEN [j \in DOMAIN f |-> f[j] - lo] ELSE f
    IN IF Cardinality(Rng(f)) = 1 THEN [j \in DOMAIN f |-> 1]
       ELSE IF mm = "min" THEN [j \in DOMAIN f |-> Max(Rng(g)) - g[j]] ELSE g
SumSeq(q) == FoldLeft(LAMBDA acc, v : acc + v, 0, q)
\* a tournament of k agents with r winners, best (rev: worst last) first; rank of a fitness: how many are strictly better
IsTournament(mm, f, q, k, r, rev) ==
    LET n == Len(f)
        S(x, y) == Strictly(mm, f[x + 1], f[y + 1])
    IN /\ Len(q) = r /\ Rng(q) \subseteq 0..(n - 1) /\ Cardinality(Rng(q)) = r
       /\ \A j \in 1..(r - 1) : ~S(q[j + 1], q[j])
       \* the j-th of k different agents has at least k - j agents after it which are not better
       /\ \A j \in 1..r : IF rev THEN Cardinality({x \in 0..(n - 1) : ~S(q[j], x)}) >= k - (r - j)
                          ELSE Cardinality({x \in 0..(n - 1) : ~S(x, q[j])}) >= k - j + 1
\* the agents that are alone the best of some k agents
MayWin(mm, f, k) == {x \in 0..(Len(f) - 1) : Cardinality({y \in 0..(Len(f) - 1) : Strictly(mm, f[x + 1], f[y + 1])}) >= k - 1}
=============================================================================
