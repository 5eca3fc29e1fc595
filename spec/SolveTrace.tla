----------------------------- MODULE SolveTrace -----------------------------
(***************************************************************************)
(* Judges recordings of real optimizer runs against the rules of           *)
(* SolveRules.tla.  One behaviour walks over all recorded runs, one event  *)
(* (= one epoch boundary) per step, keeping the specification's own state  *)
(* of the run; every clause that an event violates is collected with the   *)
(* run and event it belongs to, so that the verdict is total: it names     *)
(* what failed, or says that the run conforms.                             *)
(*                                                                         *)
(* Input  (env TRACE): ndjson, one run per line (see harness/trace.py).    *)
(* Output (env OUT):   json, the violated clauses and the counts.          *)
(***************************************************************************)
EXTENDS SolveRules, SequencesExt, Json, IOUtils, TLC

CONSTANT Props            \* the properties to judge

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Traces)

VARIABLES t, i, st, out, cnt
vars == <<t, i, st, out, cnt>>

Max2(a, b) == IF a >= b THEN a ELSE b
MaxSeq(q, d) == FoldLeft(Max2, d, q)

\* p: property, c: clause
Chk(p, c, ok) == IF p \in Props /\ ~ok THEN {p \o "." \o c} ELSE {}

Ev(tr)   == tr.runs[1].ev
Fin(tr)  == tr.runs[1].fin
Done(tr) == tr.runs[1].status = "ok"

\* ---- what one reported agent must satisfy, hi = the last solution id evaluated so far
Evaluated(tr, hi, a) == a[1] >= 1 /\ a[1] <= hi /\ a[1] <= tr.neval
PairedWith(tr, a)    == a[1] >= 1 /\ a[1] <= Len(tr.so) /\ a[2] = tr.so[a[1]]
FitOf(tr, a)         == a[2] >= 1 /\ a[2] <= Len(tr.objr) /\ a[3] = tr.objr[a[2]]
InSpace(tr, a)       == a[1] >= 1 /\ a[1] <= Len(tr.sols) /\ Feasible(tr.sols[a[1]], tr.nd)

Reported(e) == Range(e.pop) \cup Range(e.after) \cup {e.gb}

InitSt == [hi |-> 0, k |-> 0, nfe |-> 0, rep |-> 0, gb |-> <<0, 0, 0>>, started |-> FALSE]

\* the value of a fitness rank, where values are small integers (needed only for a tolerance)
FitVal(tr, r) == IF tr.term.ep = 0 THEN r ELSE tr.rval[r]
\* ---- state after an event
NextSt(tr, s, e) ==
    [hi |-> MaxSeq(e.evals, s.hi),
     k |-> IF s.started THEN s.k + 1 ELSE 0,
     nfe |-> s.nfe + Len(e.evals),
     rep |-> IF s.started THEN NextRepeat(tr.term.ep, FitVal(tr, s.gb[3]), FitVal(tr, e.gb[3]), s.rep) ELSE 0,
     gb |-> e.gb,
     started |-> TRUE]

\* ---- clauses of an ordinary event (start of an epoch, or the end of the run)
EventFails(tr, s, e, n) ==
    LET mm == tr.mm
        rep == Reported(e)
    IN  UNION {
        Chk("S01", "evaluated", \A x \in Range(e.evals) : Feasible(tr.sols[x], tr.nd)),
        Chk("S01", "reported",  \A a \in rep : InSpace(tr, a)),
        Chk("S02", "global_best_evaluated", Evaluated(tr, n.hi, e.gb)),
        Chk("S02", "global_best_target", PairedWith(tr, e.gb)),
        Chk("S02", "global_best_fitness", FitOf(tr, e.gb)),
        Chk("S02", "population_evaluated", \A a \in Range(e.pop) \cup Range(e.after) : Evaluated(tr, n.hi, a)),
        Chk("S02", "population_target", \A a \in Range(e.pop) \cup Range(e.after) : PairedWith(tr, a)),
        Chk("S02", "population_fitness", \A a \in Range(e.pop) \cup Range(e.after) : FitOf(tr, a)),
        Chk("S03", "monotone", s.started => NoWorse(mm, e.gb[3], s.gb[3])),
        Chk("S03", "best_of_population", \A a \in rep : NoWorse(mm, e.gb[3], a[3])),
        Chk("S03", "invented", s.started /\ e.gb[3] # s.gb[3] =>
                               \E x \in Range(e.evals) : tr.objr[tr.so[x]] = e.gb[3]),
        Chk("S07", "counted", e.nfe = n.nfe),
        Chk("S06", "epoch_number", e.ep = -1 \/ e.ep = n.k + 1),
        Chk("S06", "continued_too_long",
            (e.ep # -1 /\ s.started) => /\ n.k < tr.E
                                        /\ ~ MustStop(tr.term, n.k, n.nfe, 0, n.rep)),
        Chk("S13", "population_fitness", \A a \in rep : FitOf(tr, a)),
        Chk("S13", "population_objectives", \A a \in rep : PairedWith(tr, a))
        }

\* ---- clauses of a run as a whole, whether it completed or not
RunFails(tr) ==
    LET r == tr.runs[1]
        F == r.ev[1]
        first == Range(F.evals)
        total == FoldLeft(LAMBDA a, e : a + Len(e.evals), 0, r.ev)
    IN  UNION {
        Chk("S21", "completed", tr.failat >= 0 \/ r.status = "ok"),
        Chk("S21", "all_epochs", (tr.failat < 0 /\ r.status = "ok") => Len(r.ev) = tr.E + 1),
        Chk("S21", "returned_agent", (tr.failat < 0 /\ r.status = "ok") => r.fin.ret[1] >= 1 /\ r.fin.ret[3] >= 1),
        \* S17: every given starting solution is evaluated first, and is the initial population
        Chk("S17", "evaluated", (tr.start # <<>> /\ Len(r.ev) > 0) => Range(tr.start) \subseteq first),
        Chk("S17", "initial_population", (tr.start # <<>> /\ tr.strict17 /\ Len(r.ev) > 0) =>
                /\ Len(F.pop) = Len(tr.start)
                /\ {a[1] : a \in Range(F.pop)} = Range(tr.start)),
        Chk("S17", "no_worse_than_start", (tr.start # <<>> /\ (tr.strict \/ tr.strict17) /\ r.status = "ok") =>
                \A x \in Range(tr.start) : x <= tr.neval => NoWorse(tr.mm, r.fin.ret[3], tr.objr[tr.so[x]])),
        Chk("S17", "inputs_unchanged", \A x \in Range(tr.same) : x.a = x.b),
        \* S18: an exception of the objective function ends the run at that call and reaches the caller as it is
        Chk("S18", "propagates", tr.failat >= 0 => r.status = "error" /\ tr.exc = "ObjError"),
        Chk("S18", "stops_at_once", (tr.failat >= 0 /\ tr.mode \in {"single", "swarm"}) => total = tr.failat + 1)
        }

\* ---- clauses of the end of the run: the returned agent and the history
FinalFails(tr, s) ==
    LET mm == tr.mm
        f  == Fin(tr)
        ev == Ev(tr)
        K  == Len(ev) - 1                 \* epochs executed
        G(j) == ev[j + 1].gb              \* global best known after epoch j (0: after the initialisation)
        P(j) == ev[j + 1].after           \* population at the end of epoch j
        Lens == {Len(f.gb), Len(f.cb), Len(f.gw), Len(f.cw), Len(f.gbf), Len(f.cbf), f.nt, f.ndiv, f.nexpl, f.nexploit}
        LensOk == \A x \in Lens : x = K
        Hist == Range(f.gb) \cup Range(f.cb) \cup Range(f.gw) \cup Range(f.cw)
                \cup UNION {Range(f.pops[j]) : j \in DOMAIN f.pops} \cup {f.ret}
    IN  UNION {
        Chk("S01", "history", \A a \in Hist : InSpace(tr, a)),
        Chk("S02", "returned_target", Evaluated(tr, s.hi, f.ret) /\ PairedWith(tr, f.ret)),
        Chk("S02", "returned_fitness", FitOf(tr, f.ret)),
        Chk("S02", "history_evaluated", \A a \in Hist : Evaluated(tr, s.hi, a)),
        Chk("S02", "history_target", \A a \in Hist : PairedWith(tr, a)),
        Chk("S02", "history_fitness", \A a \in Hist : FitOf(tr, a)),
        Chk("S03", "returned", f.ret = s.gb),
        Chk("S03", "best_history", \A j \in 1..K : j <= Len(f.gb) /\ j <= Len(f.cb) =>
                /\ NoWorse(mm, f.gb[j][3], f.cb[j][3])
                /\ (j > 1 => NoWorse(mm, f.gb[j][3], f.gb[j-1][3]))),
        Chk("S03", "worst_history", \A j \in 1..K : j <= Len(f.gw) /\ j <= Len(f.cw) =>
                /\ NoWorse(mm, f.cw[j][3], f.gw[j][3])
                /\ (j > 1 => NoWorse(mm, f.gw[j-1][3], f.gw[j][3]))),
        Chk("S03", "current_best", \A j \in 1..K : j <= Len(f.cb) => f.cb[j][3] = BestFit(mm, P(j))),
        Chk("S03", "current_worst", \A j \in 1..K : j <= Len(f.cw) => f.cw[j][3] = WorstFit(mm, P(j))),
        Chk("S04", "best_of_all_evaluated", tr.strict =>
                \A x \in 1..s.hi : NoWorse(mm, f.ret[3], tr.objr[tr.so[x]])),
        Chk("S05", "length", LensOk),
        Chk("S05", "epoch_count", f.epoch = K),
        Chk("S05", "global_best", LensOk => \A j \in 1..K : f.gb[j] = G(j)),
        Chk("S05", "global_best_fit", LensOk => \A j \in 1..K : f.gbf[j] = G(j)[3]),
        Chk("S05", "current_best", LensOk => \A j \in 1..K : f.cb[j] \in Range(P(j))),
        Chk("S05", "current_best_fit", LensOk => \A j \in 1..K : f.cbf[j] = f.cb[j][3]),
        Chk("S05", "current_worst", LensOk => \A j \in 1..K : f.cw[j] \in Range(P(j))),
        Chk("S05", "population_count", Len(f.pops) = IF tr.savepop THEN K ELSE 0),
        Chk("S05", "population", tr.savepop => \A j \in 1..K : j <= Len(f.pops) => f.pops[j] = ev[j + 1].pop),
        Chk("S06", "stopped_too_early", K = tr.E \/ MustStop(tr.term, s.k, s.nfe, 0, s.rep)),
        Chk("S06", "at_least_one_epoch", K >= 1),
        Chk("S06", "message", LET r == StopReason(tr.term, s.k, s.nfe, 0, s.rep) IN f.msg = r),
        Chk("S13", "weights", \A o \in DOMAIN tr.objv : Dot(tr.w4, tr.objv[o]) = tr.fit4[o]),
        Chk("S13", "history", \A a \in Hist : FitOf(tr, a) /\ PairedWith(tr, a))
        }

AbortFails(tr, e) == Chk("S01", "evaluated", \A x \in Range(e.evals) : Feasible(tr.sols[x], tr.nd))

Tag(tr, fails, idx) == {[id |-> tr.id, clause |-> c, at |-> idx] : c \in fails}

Init == t = 1 /\ i = 1 /\ st = InitSt /\ out = {} /\ cnt = [events |-> 0, evals |-> 0]

Step ==
    /\ t <= N
    /\ LET tr == Traces[t]
           ev == Ev(tr)
       IN  IF i <= Len(ev)
           THEN LET e == ev[i]
                    n == NextSt(tr, st, e)
                IN  /\ st' = n
                    /\ out' = out \cup Tag(tr, IF e.ep = -2 THEN AbortFails(tr, e) ELSE EventFails(tr, st, e, n), i)
                    /\ cnt' = [events |-> cnt.events + 1, evals |-> cnt.evals + Len(e.evals)]
                    /\ i' = i + 1 /\ t' = t
           ELSE /\ out' = out \cup Tag(tr, RunFails(tr), i) \cup (IF Done(tr) THEN Tag(tr, FinalFails(tr, st), i) ELSE {})
                /\ st' = InitSt /\ i' = 1 /\ t' = t + 1 /\ cnt' = cnt

Finish ==
    /\ t = N + 1
    /\ JsonSerialize(IOEnv.OUT, [traces |-> N, events |-> cnt.events, evals |-> cnt.evals, fails |-> out])
    /\ t' = t + 1 /\ UNCHANGED <<i, st, out, cnt>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
