---------------------------- MODULE ProgressTrace ----------------------------
(* Judges what real runs record, log and draw.                               *)
(* A trace: the run [epochs, end, charts].  Positions in units of 1/s        *)
(* (exact: the units are exact), diversity in the same units.                *)
EXTENDS Progress, Json, IOUtils, TLC

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Traces)
VARIABLES t, i, out, cnt
tvars == <<t, i, out, cnt>>
Chk(c, ok) == IF ok THEN {} ELSE {c}
Tag(tr, fs, idx) == {[id |-> tr.id, clause |-> c, at |-> idx] : c \in fs}
Fresh == /\ divs' = <<>> /\ cur' = <<>> /\ glob' = <<>> /\ times' = <<>> /\ log' = <<>> /\ clock' = 0 /\ explore' = <<>> /\ done' = FALSE

\* e: pop, div (rounded), exact; c, g: fitness of the best agents at the end of the epoch (numbers of values); dt: what the clock went on
EpochFails(e) ==
    LET k == 2 * Cells(e.pop)  x == Spread(e.pop) IN
    Chk("diversity", IF e.exact THEN Abs(k * e.div - x) <= k ELSE Abs(k * e.div - x) <= 2 * k)

\* f: what the history holds at the end
EndFails(tr, f) ==
    LET n == Len(divs)
        m == MaxDiv(divs)
        fd == f.div
        md == CHOOSE v \in {fd[j] : j \in DOMAIN fd} : \A j \in DOMAIN fd : fd[j] <= v
    IN UNION {
    Chk("number_of_records", \A k \in {Len(f.div), Len(f.cur), Len(f.glob), Len(f.time), Len(f.explore), Len(f.exploit)} : k = n),
    Chk("epoch_count", f.epoch = n),
    Chk("global_best_fitness", f.glob = glob),
    Chk("current_best_fitness", f.cur = cur),
    Chk("epoch_time", f.time = times),
    Chk("finite", f.finite),
    \* in ticks of 1/100; div in ticks with at least four digits for the largest
    Chk("exploration", \A j \in DOMAIN f.explore \cap DOMAIN fd :
        IF md = 0 THEN f.explore[j] = 0 ELSE Abs(f.explore[j] * md - 10000 * fd[j]) <= 2 * md + 10000),
    Chk("exploration_bounded", \A j \in DOMAIN f.explore : f.explore[j] \in 0..10000),
    Chk("exploitation", \A j \in DOMAIN f.explore \cap DOMAIN f.exploit : Abs(f.explore[j] + f.exploit[j] - 10000) <= 1)}

LogFails(f) ==
    IF ~f.judged THEN {}
    ELSE IF ~f.wanted THEN Chk("log_not_asked_for", f.lines = <<>> /\ f.extra = 0)
    ELSE UNION {
    Chk("log_lines", Len(f.lines) = Len(log)),
    Chk("log_elsewhere", f.extra = 0),
    Chk("log_names_the_problem", f.named),
    Chk("log_tells_the_truth", \A j \in DOMAIN f.lines \cap DOMAIN log :
        /\ f.lines[j].epoch = log[j].epoch /\ f.lines[j].cur = log[j].cur /\ f.lines[j].glob = log[j].glob /\ f.lines[j].time = log[j].time)}

\* h: the lists of the history as numbers of values; c: [kind, agents, coords, got, lines: sequence of [x, y], want, text, files]
Steps(n) == [j \in 1..n |-> j - 1]
Curve(q) == <<[x |-> Steps(Len(q)), y |-> q]>>
Objectives(q) == [k \in 1..Len(q[1]) |-> [x |-> Steps(Len(q)), y |-> [e \in DOMAIN q |-> q[e][k]]]]
Expected(h, c) ==
    CASE c.kind = "global_best" -> Curve(h.glob)
      [] c.kind = "local_best" -> Curve(h.cur)
      [] c.kind = "runtime" -> Curve(h.time)
      [] c.kind = "diversity" -> Curve(h.div)
      [] c.kind = "explore" -> Curve(h.explore) \o Curve(h.exploit)
      [] c.kind = "global_objectives" -> Objectives(h.gobj)
      [] c.kind = "local_objectives" -> Objectives(h.cobj)
      [] c.kind = "trajectory" ->
            LET as == SetToSortSeq({c.agents[j] : j \in DOMAIN c.agents}, LAMBDA x, y : x < y)
                ds == SetToSortSeq({c.coords[j] : j \in DOMAIN c.coords}, LAMBDA x, y : x < y)
            IN [j \in DOMAIN as |-> IF Len(ds) = 1 THEN [x |-> Steps(Len(h.pops)), y |-> Path(h.pops, as[j], ds[1])]
                                    ELSE [x |-> Path(h.pops, as[j], ds[1]), y |-> Path(h.pops, as[j], ds[2])]]
ChartFails(h, c) ==
    LET allowed == c.kind # "trajectory" \/ TrajectoryAllowed([e \in DOMAIN h.pops |-> Len(h.pops[e])], h.dims, {c.agents[j] : j \in DOMAIN c.agents}, {c.coords[j] : j \in DOMAIN c.coords})
    IN IF allowed THEN IF c.got # "ok" THEN {"chart_refused"}
                       ELSE UNION {Chk("chart_data", c.lines = Expected(h, c)), Chk("chart_texts", c.text = c.want), Chk("chart_files", c.files = c.named),
                                   Chk("chart_changes_history", c.kept), Chk("other_figures", c.figures)}
       ELSE Chk("impossible_chart", c.got = "ValueError") \cup Chk("files_of_refused_chart", c.files = <<>>)

Init == t = 1 /\ i = 1 /\ out = {} /\ cnt = 0 /\ StartRun
Step ==
    /\ t <= N
    /\ LET tr == Traces[t]  n == Len(tr.epochs) IN
       IF i <= n
       THEN LET e == tr.epochs[i] IN
            /\ out' = out \cup Tag(tr, EpochFails(e), i) /\ cnt' = cnt + 1
            /\ EndEpoch(e.pop, e.c, e.g, e.dt) /\ i' = i + 1 /\ t' = t
       ELSE IF i = n + 1
       THEN /\ out' = out \cup Tag(tr, EndFails(tr, tr.end) \cup LogFails(tr.log), 0) /\ cnt' = cnt + 1
            /\ i' = i + 1 /\ t' = t /\ UNCHANGED pvars
       ELSE IF i <= n + 1 + Len(tr.charts)
       THEN /\ out' = out \cup Tag(tr, ChartFails(tr.h, tr.charts[i - n - 1]), i - n - 1) /\ cnt' = cnt + 1
            /\ i' = i + 1 /\ t' = t /\ UNCHANGED pvars
       ELSE t' = t + 1 /\ i' = 1 /\ Fresh /\ UNCHANGED <<out, cnt>>
Finish ==
    /\ t = N + 1
    /\ JsonSerialize(IOEnv.OUT, [traces |-> N, events |-> cnt, fails |-> out])
    /\ t' = t + 1 /\ UNCHANGED <<i, out, cnt>> /\ UNCHANGED pvars
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tvars, pvars>>
=============================================================================
