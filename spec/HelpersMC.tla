------------------------------ MODULE HelpersMC ------------------------------
(* Model checking of Helpers: all short histories of operations on a few     *)
(* agents, and in every state the laws which optimizers rely on when they    *)
(* use the helpers.                                                          *)
EXTENDS Helpers, TLC
CONSTANTS MaxAgents, Span, Low, MaxOps
Fits == {Low - 10 + v : v \in 0..Span}      \* Low = 9: from -1 (a configuration has no negative numbers)
VARIABLES h, n, linked, before, touched
vars == <<h, n, linked, before, touched>>
Ag == DOMAIN h.ag

Init == h = Empty /\ n = 0 /\ linked = {} /\ before = Empty /\ touched = {}
Do(h2, l, tch) == n < MaxOps /\ n' = n + 1 /\ h' = h2 /\ linked' = l /\ before' = h /\ touched' = tch
\* agents that see a change of the target object of i
Linked(i) == {j \in Ag : j = i \/ {i, j} \in linked}
Cut(i) == {p \in linked : i \notin p}
Next ==
    \/ /\ Len(h.ag) < MaxAgents
       /\ \E v \in Fits : Do(New(h, <<v>>, <<v>>, <<1>>, 0), linked, {Len(h.ag) + 1})
    \/ \E i \in Ag : Len(h.ag) < MaxAgents /\ Do(Copy(h, i), linked, {Len(h.ag) + 1})
    \/ \E i \in Ag, v \in Fits : Do(Edit(h, i, 1, v), linked, {i})
    \/ \E i \in Ag, v \in Fits : Do(Rebind(h, i, <<v>>, <<v>>, <<1>>), Cut(i), {i})
    \/ \E i \in Ag, v \in Fits : Do(Retarget(h, i, <<v>>, <<1>>), linked, Linked(i))
    \/ \E i \in Ag : h.ag[i].x = 0 /\ Do(SetX(h, i, 1), linked, {i})
    \/ \E i, j \in Ag : /\ i # j /\ Same(h, i, j)
                        /\ Do(Sync(h, i, j), Cut(i) \cup {{i, m} : m \in Linked(j) \ {i}}, {i})
Spec == Init /\ [][Next]_vars

\* --- the heap ---
OwnSolution == \A i, j \in Ag : i # j => h.ag[i].s # h.ag[j].s
SharedOnlyBySync == \A i, j \in Ag : i # j => (h.ag[i].t = h.ag[j].t <=> {i, j} \in linked)
\* an operation is seen only through the agents it concerns: copies are independent
Independent == \A i \in DOMAIN before.ag : i \notin touched => View(h, i) = View(before, i)
FitnessUpToDate == \A j \in DOMAIN h.tgt : h.tgt[j].f = Dot(h.tgt[j].w, h.tgt[j].o)

\* --- the helpers: for all agents as one population, in both directions ---
P == [i \in Ag |-> i]
Perms == {p \in [Ag -> Ag] : \A x, y \in Ag : x # y => p[x] # p[y]}
MMs == {"min", "max"}
Sortings(mm) == {p \in Perms : IsSorting(mm, h, P, p)}
SortExists == \A mm \in MMs : Sortings(mm) # {}
FirstIsBest == \A mm \in MMs : \A p \in Sortings(mm) : Ag # {} => IsBest(mm, h, P, p[1]) /\ IsWorst(mm, h, P, p[Len(p)])
PrefixIsTop == \A mm \in MMs : \A p \in Sortings(mm), k \in 0..Len(h.ag) : IsTop(mm, h, P, SubSeq(p, 1, k), k)
ReverseIsSorting == \A mm \in MMs : \A p \in Sortings(mm) : IsSorting(Other(mm), h, P, Reverse(p))
\* greedy selection: never worse, and doing it again changes nothing
GreedyNeverLoses == \A mm \in MMs : \A p \in Perms :
    LET g == Greedy(mm, h, P, p) IN /\ \A j \in DOMAIN g : NotWorse(mm, Fit(h, g[j]), Fit(h, P[j])) /\ NotWorse(mm, Fit(h, g[j]), Fit(h, p[j]))
                                    /\ Greedy(mm, h, g, p) = g
\* trimming keeps a best agent
TrimKeepsBest == \A mm \in MMs : \A k \in 1..Len(h.ag) : \A p \in Sortings(mm) : \E j \in 1..k : IsBest(mm, h, P, p[j])
GroupsPartition == \A m \in 1..3 : Groups(P, Len(P), m) = P /\ \A k \in 1..3 : Groups(P, k, m) = SubSeq(P, 1, Min({k * m, Len(P)}))
ShiftSkips == \A k \in 2..5 : \A e \in 0..(k - 1) : {Shift(e, v) : v \in 0..(k - 2)} = (0..(k - 1)) \ {e}
Fs == [i \in Ag |-> Fit(h, i)]
WheelFair == \A mm \in MMs : Ag # {} =>
    LET w == Weights(mm, Fs) IN /\ \A i, j \in Ag : w[i] >= 0 /\ (Strictly(mm, Fs[i], Fs[j]) => w[i] > w[j]) /\ (Fs[i] = Fs[j] => w[i] = w[j])
                                /\ SumSeq(w) > 0
\* the winners of a tournament among all are the best
WholeTournament == \A mm \in MMs : \A r \in 1..Len(h.ag) : \A p \in Perms :
    IsTournament(mm, Fs, [j \in 1..r |-> p[j] - 1], Len(h.ag), r, FALSE) <=> IsTop(mm, h, P, SubSeq(p, 1, r), r)
\* what k-way selection does gives a tournament
KWay == \A mm \in MMs : \A K \in SUBSET Ag : \A r \in 1..Cardinality(K) : \A p \in {p \in [1..Cardinality(K) -> K] : \A x, y \in DOMAIN p : (x # y => p[x] # p[y]) /\ (x < y => NotWorse(mm, Fs[p[x]], Fs[p[y]]))} :
    /\ IsTournament(mm, Fs, [j \in 1..r |-> p[j] - 1], Cardinality(K), r, FALSE)
    /\ IsTournament(mm, Fs, [j \in 1..r |-> p[Cardinality(K) - r + j] - 1], Cardinality(K), r, TRUE)
=============================================================================
