----------------------------- MODULE ProgressMC -----------------------------
EXTENDS Progress, TLC
CONSTANTS MaxAgents, MaxDims, MaxVal, MaxEpochs
Pops == UNION {[1..n -> [1..d -> 0..MaxVal]] : n \in 1..MaxAgents, d \in 1..MaxDims}
VARIABLE pops
vars == <<pvars, pops>>
Init == StartRun /\ pops = <<>>
\* smaller is better; the best so far never gets worse
Next ==
    \/ \E P \in Pops, c \in 0..1, dt \in 0..1 :
         /\ Len(divs) < MaxEpochs
         /\ (pops # <<>> => Len(P[1]) = Len(pops[1][1]))
         /\ EndEpoch(P, c, IF glob = <<>> \/ c < glob[Len(glob)] THEN c ELSE glob[Len(glob)], dt)
         /\ pops' = Append(pops, P)
    \/ EndRun /\ UNCHANGED pops
Spec == Init /\ [][Next]_vars
Lengths == \A n \in {Len(pops), Len(cur), Len(glob), Len(times), Len(log)} : n = Len(divs)
LogTrue == \A j \in DOMAIN log : log[j].epoch = j /\ log[j].cur = cur[j] /\ log[j].glob = glob[j] /\ log[j].time = times[j]
                                 /\ log[j].glob <= log[j].cur /\ (j > 1 => log[j].glob <= log[j - 1].glob)
TimesAddUp == Sum(times) = clock
\* --- laws of diversity, looked at for the newest population ---
P == pops[Len(pops)]
D == divs[Len(divs)]
Moved(Q, k) == [i \in DOMAIN Q |-> [d \in DOMAIN Q[1] |-> Q[i][d] + k]]
AllAlike(Q) == \A i, j \in DOMAIN Q : Q[i] = Q[j]
ZeroIffAlike == pops # <<>> => (D.n = 0 <=> AllAlike(P))
MovingChangesNothing == pops # <<>> => Div(Moved(P, 3)) = D
OrderChangesNothing == pops # <<>> => Div(Reverse(P)) = D
\* no other point is nearer to the coordinates than the median, and the diversity is at most half the range
NearestPoint == pops # <<>> => \A d \in DOMAIN P[1] : \A v \in 0..(2 * MaxVal) : ColumnSpread(P, d) <= Sum([i \in DOMAIN P |-> Abs(2 * P[i][d] - v)])
HalfRange == pops # <<>> => Leq(D, [n |-> MaxVal, d |-> 2])
\* --- shares ---
SharesBounded == \A j \in DOMAIN explore : explore[j].d > 0 /\ 0 <= explore[j].n /\ explore[j].n <= 100 * explore[j].d
SomeFullShare == done => (\E j \in DOMAIN explore : explore[j].n = 100 * explore[j].d) \/ \A j \in DOMAIN explore : explore[j].n = 0 /\ divs[j].n = 0
SameOrder == \A i, j \in DOMAIN explore : Leq(divs[i], divs[j]) => Leq(explore[i], explore[j])
=============================================================================
