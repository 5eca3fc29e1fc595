------------------------------ MODULE Product ------------------------------
(***************************************************************************)
(* Relations between two recorded runs of the real optimizers (a product   *)
(* of two behaviours of Solve.tla): the second run was made under a        *)
(* condition that must not matter (`rel` says what has to be preserved).   *)
(*   "same"  : every observable step is identical                          *)
(*   "bag"   : identical, except that the objective calls of one epoch may *)
(*             come in another order (worker pools)                        *)
(*   "dual"  : the same solutions at every step, every comparison mirrored *)
(*             (minimise f / maximise -f)                                  *)
(*   "gb"    : only the outcome and the function evaluations are compared  *)
(* One behaviour walks over all pairs, one epoch boundary of both runs per *)
(* step; violated clauses are collected.                                   *)
(***************************************************************************)
EXTENDS SolveRules, SequencesExt, Bags, Json, IOUtils, TLC

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Traces)

VARIABLES t, i, out, cnt
vars == <<t, i, out, cnt>>

Chk(c, ok) == IF ok THEN {} ELSE {c}

Sols(q) == [j \in DOMAIN q |-> q[j][1]]
Mirror(tr, q) == [j \in DOMAIN q |-> tr.nrank + 1 - q[j][3]]
Fits(q) == [j \in DOMAIN q |-> q[j][3]]
CountBag(q) == FoldLeft(LAMBDA b, x : b (+) SetToBag({x}), EmptyBag, q)
SameBag(a, b) == Len(a) = Len(b) /\ (a = b \/ CountBag(a) = CountBag(b))

SameAgents(tr, a, b) ==
    IF tr.rel = "dual"
    THEN Sols(a) = Sols(b) /\ (\A j \in DOMAIN a : a[j][3] + b[j][3] = tr.nrank + 1)
    ELSE a = b

EventFails(tr, a, b) ==
    UNION {
        Chk("epoch_number", a.ep = b.ep),
        Chk("objective_calls", IF tr.rel = "bag" THEN SameBag(a.evals, b.evals) ELSE a.evals = b.evals),
        Chk("population_after_move", SameAgents(tr, a.after, b.after)),
        Chk("population", SameAgents(tr, a.pop, b.pop)),
        Chk("global_best", SameAgents(tr, <<a.gb>>, <<b.gb>>)),
        Chk("function_evaluations", a.nfe = b.nfe)
    }

FinFails(tr, a, b) ==
    UNION {
        Chk("returned", SameAgents(tr, <<a.ret>>, <<b.ret>>)),
        Chk("history_global_best", SameAgents(tr, a.gb, b.gb)),
        Chk("history_current_best", SameAgents(tr, a.cb, b.cb)),
        Chk("history_global_worst", SameAgents(tr, a.gw, b.gw)),
        Chk("history_current_worst", SameAgents(tr, a.cw, b.cw)),
        Chk("history_length", a.nt = b.nt /\ a.ndiv = b.ndiv /\ a.epoch = b.epoch)
    }

A(tr) == tr.runs[1]
B(tr) == tr.runs[2]

\* Mirrored runs may break ties the other way (by position): from the first epoch on in which two candidates of the
\* first run have the same fitness, a difference says nothing.
NoTwice(q) == Cardinality(Range(q)) = Len(q)
Ranked(tr, r, k) == Fits(IF k = 1 THEN <<>> ELSE r.ev[k - 1].pop) \o [j \in DOMAIN r.ev[k].evals |-> tr.sr[r.ev[k].evals[j]]]
TiedBy(tr, k) == tr.rel = "dual" /\ \E m \in 1..(IF k < Len(A(tr).ev) THEN k ELSE Len(A(tr).ev)) : ~NoTwice(Ranked(tr, A(tr), m))
Common(tr) == IF Len(A(tr).ev) < Len(B(tr).ev) THEN Len(A(tr).ev) ELSE Len(B(tr).ev)

Tag(tr, fs, idx) == {[id |-> tr.id, clause |-> c, at |-> idx] : c \in fs}

Init == t = 1 /\ i = 1 /\ out = {} /\ cnt = [events |-> 0, equal |-> 0, tied |-> 0]

Step ==
    /\ t <= N
    /\ LET tr == Traces[t]
       IN  IF i <= Common(tr) /\ tr.rel # "gb"
           THEN LET fs == EventFails(tr, A(tr).ev[i], B(tr).ev[i])
                IN  IF fs = {}
                    THEN out' = out /\ i' = i + 1 /\ t' = t /\ cnt' = [cnt EXCEPT !.events = @ + 1]
                    ELSE IF TiedBy(tr, i)
                    THEN out' = out /\ i' = 1 /\ t' = t + 1 /\ cnt' = [cnt EXCEPT !.tied = @ + 1]
                    ELSE \* only the first difference is reported: everything after it follows
                         out' = out \cup Tag(tr, fs, i) /\ i' = 1 /\ t' = t + 1 /\ cnt' = [cnt EXCEPT !.events = @ + 1]
           ELSE LET ds == {f.n : f \in {x \in Range(tr.same) : x.a # x.b}}
                    fs == ds \cup UNION {
                        Chk("outcome", A(tr).status = B(tr).status),
                        Chk("epochs", Len(A(tr).ev) = Len(B(tr).ev)),
                        IF A(tr).status = "ok" /\ B(tr).status = "ok" THEN FinFails(tr, A(tr).fin, B(tr).fin) ELSE {} }
                    tied == ds = {} /\ fs # {} /\ TiedBy(tr, i)
                IN  /\ out' = IF tied THEN out ELSE out \cup Tag(tr, fs, i)
                    /\ i' = 1 /\ t' = t + 1
                    /\ cnt' = [cnt EXCEPT !.equal = @ + (IF fs = {} THEN 1 ELSE 0), !.tied = @ + (IF tied THEN 1 ELSE 0)]

Finish ==
    /\ t = N + 1
    /\ JsonSerialize(IOEnv.OUT, [traces |-> N, events |-> cnt.events, equal |-> cnt.equal, tied |-> cnt.tied, fails |-> out])
    /\ t' = t + 1 /\ UNCHANGED <<i, out, cnt>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
