------------------------------- MODULE ExpTrace -------------------------------
(* Judges recorded uses of ParameterGrid, Tuner and Multitask.  One line per    *)
(* study; its events are the solve() calls the utility made and the results it  *)
(* published.  State: position, the solves seen so far.                         *)
EXTENDS Experiments, Json, IOUtils, TLC

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Traces)
VARIABLES t, i, seen, out, cnt
vars == <<t, i, seen, out, cnt>>

Chk(c, ok) == IF ok THEN {} ELSE {c}
IsPerm(a, b) == Len(a) = Len(b) /\ \A x \in {a[q] : q \in DOMAIN a} \cup {b[q] : q \in DOMAIN b} :
                   Cardinality({q \in DOMAIN a : a[q] = x}) = Cardinality({q \in DOMAIN b : b[q] = x})
Block(s, n, g) == SubSeq(s, (g - 1) * n + 1, g * n)

(* --- ParameterGrid ------------------------------------------------------------ *)
GridFails(tr) == UNION {
    Chk("grid_points", tr.points = AllPoints(tr.grids)),
    Chk("grid_length", tr.len = Len(AllPoints(tr.grids))),
    Chk("grid_index", tr.items = AllPoints(tr.grids)),
    Chk("grid_end", tr.beyond = "IndexError") }

(* --- Tuner ---------------------------------------------------------------------- *)
TunerSolve(tr, e, k) ==
    LET P == Points(tr.grid) IN UNION {
      Chk("too_many_runs", k <= Len(P) * tr.n),
      Chk("parameters_of_a_run", k > Len(P) * tr.n \/ (e.p = P[((k - 1) \div tr.n) + 1] /\ e.q = e.p)),
      Chk("mode_passed_on", e.m = tr.xm),
      Chk("workers_passed_on", e.w = tr.xw),
      Chk("termination_passed_on", e.t = tr.xt),
      Chk("problem_passed_on", e.b = tr.xb) }
TunerTable(tr, rows, s) ==
    LET P == Points(tr.grid)
        R == [g \in DOMAIN rows |-> rows[g].fits] IN
    IF ~(Len(rows) = Len(P) /\ Len(s) = Len(P) * tr.n /\ \A g \in DOMAIN rows : Len(rows[g].fits) = tr.n) THEN {"table_shape"}
    ELSE UNION {
      Chk("table_parameters", \A g \in DOMAIN rows : rows[g].p = P[g]),
      Chk("table_fitness", \A g \in DOMAIN rows :
            LET got == [q \in 1..tr.n |-> Block(s, tr.n, g)[q].fit]
            IN IF tr.par THEN IsPerm(rows[g].fits, got) ELSE rows[g].fits = got),
      Chk("table_mean", \A g \in DOMAIN rows : rows[g].mean = Sum(R[g])),
      Chk("table_std", \A g \in DOMAIN rows : rows[g].std = (IF tr.n = 1 THEN -1 ELSE Spread2(R[g]))),
      Chk("rank_mean", \A g \in DOMAIN rows : rows[g].rm = Rank2(tr.min, Means(R), g)),
      Chk("rank_std", tr.n = 1 \/ \A g \in DOMAIN rows : rows[g].rs = Rank2(TRUE, Stds(R), g)),
      Chk("rank_mean_std", tr.n = 1 \/ \A g \in DOMAIN rows : rows[g].rms = 2 * DenseRank(tr.min, R, g)) }
LossRows(tr, rows, loss, s) ==
    LET P == Points(tr.grid) IN
    IF Len(loss) # Len(P) * tr.n \/ Len(s) # Len(loss) \/ Len(rows) # Len(P) THEN {"loss_shape"}
    ELSE UNION {
      Chk("loss_parameters", \A q \in DOMAIN loss : loss[q].p = P[((q - 1) \div tr.n) + 1] /\ loss[q].tr = (q - 1) % tr.n),
      Chk("loss_of_run", \A q \in DOMAIN loss :
            \E x \in 1..tr.n : LET e == Block(s, tr.n, ((q - 1) \div tr.n) + 1)[x] IN
                 /\ tr.par \/ x = ((q - 1) % tr.n) + 1
                 /\ e.loss = loss[q].loss
                 /\ e.fit = rows[((q - 1) \div tr.n) + 1].fits[((q - 1) % tr.n) + 1]) }
TunerBest(tr, e, rows) ==
    LET P == Points(tr.grid)
        R == [g \in DOMAIN rows |-> rows[g].fits]
        B == BestRows(tr.min, R) IN
    IF Len(rows) # Len(P) THEN {"table_shape"} ELSE UNION {
      Chk("best_params", \E g \in B : e.p = P[g]),
      Chk("best_score", \A g \in B : e.score = Sum(R[g])),
      Chk("best_row", e.rows # <<>> /\ \A x \in DOMAIN e.rows : e.rows[x] \in B),
      Chk("best_algorithm", e.q = e.p) }
TunerResolve(tr, e, best) == UNION {
      Chk("resolve_parameters", e.p = best /\ e.q = best),
      Chk("resolve_mode", e.m = tr.rm), Chk("resolve_workers", e.w = tr.rw), Chk("resolve_termination", e.t = tr.rt),
      Chk("resolve_problem", e.b = tr.rb), Chk("resolve_result", e.ret = e.fit) }

(* --- Multitask --------------------------------------------------------------------- *)
MultiSolve(tr, e, k) ==
    IF k > tr.a * tr.m * tr.n THEN {"too_many_runs"}
    ELSE LET c == Cell(k, tr.m, tr.n)
             A == tr.live[c.a]          \* number of the algorithm in the user's list
             E(l, z) == IF l = <<>> THEN z ELSE l[Entry(Len(l), tr.all, tr.m, A, c.b)] IN UNION {
      Chk("algorithm_of_run", e.a = A),
      Chk("problem_of_run", e.b = c.b),
      Chk("termination_of_run", e.t = E(tr.terms, 0)),
      Chk("mode_of_run", e.m = E(tr.modes, tr.single)),
      Chk("workers_of_run", e.w = tr.xw) }
MultiFile(tr, e, s) ==    \* e: table of best fitness of algorithm e.a (a-th that runs): one column per problem
    LET G(b) == [q \in 1..tr.n |-> s[((e.a - 1) * tr.m + b - 1) * tr.n + q]] IN
    IF Len(s) < e.a * tr.m * tr.n THEN {"runs_missing"} ELSE UNION {
      Chk("file_columns", e.names = [b \in 1..tr.m |-> b]),
      Chk("file_fitness", Len(e.cols) = tr.m /\ \A b \in 1..tr.m :
             LET got == [q \in 1..tr.n |-> G(b)[q].fit] IN IF tr.par THEN IsPerm(e.cols[b], got) ELSE e.cols[b] = got) }
MultiConv(tr, e, s, fits) ==
    LET G == [q \in 1..tr.n |-> s[((e.a - 1) * tr.m + e.b - 1) * tr.n + q]]
        C == [q \in 1..tr.n |-> G[q].loss] IN
    IF Len(s) < e.a * tr.m * tr.n THEN {"runs_missing"} ELSE UNION {
      Chk("convergence_columns", e.names = [q \in 1..tr.n |-> q]),
      Chk("convergence_values", LET W == [q \in 1..tr.n |-> Pad(C[q], MaxLen(C))] IN IF tr.par THEN IsPerm(e.cols, W) ELSE e.cols = W) }

(* --- the run ------------------------------------------------------------------------ *)
EvFails(tr, e, s) ==
    CASE e.e = "solve" /\ tr.kind = "tuner" -> TunerSolve(tr, e, Len(s) + 1)
      [] e.e = "table" -> TunerTable(tr, tr.table, s) \cup LossRows(tr, tr.table, tr.losses, s)
      [] e.e = "best" -> TunerBest(tr, e, tr.table)
      [] e.e = "resolve" -> TunerResolve(tr, e, e.want)
      [] e.e = "solve" /\ tr.kind = "multi" -> MultiSolve(tr, e, Len(s) + 1)
      [] e.e = "file" -> MultiFile(tr, e, s)
      [] e.e = "conv" -> MultiConv(tr, e, s, <<>>)
      [] e.e = "end" -> Chk("runs_missing", Len(s) = tr.a * tr.m * tr.n)
      [] e.e = "grid" -> GridFails(tr)
      [] e.e = "same" -> Chk(e.what, e.x = e.y)
      [] e.e = "refused" -> Chk("settings_list_refused", e.got = (IF Entry(e.len, tr.all, tr.m, 1, 1) = 0 THEN "ValueError" ELSE "accepted"))
      [] OTHER -> {"unknown_event"}

Init == t = 1 /\ i = 1 /\ seen = <<>> /\ out = {} /\ cnt = 0
Step == /\ t <= N
        /\ LET tr == Traces[t] IN
           IF i <= Len(tr.ev)
           THEN LET e == tr.ev[i] IN
                /\ out' = out \cup {[id |-> tr.id, clause |-> c, at |-> i] : c \in EvFails(tr, e, seen)}
                /\ seen' = IF e.e = "solve" THEN Append(seen, e) ELSE seen
                /\ i' = i + 1 /\ t' = t /\ cnt' = cnt + 1
           ELSE t' = t + 1 /\ i' = 1 /\ seen' = <<>> /\ UNCHANGED <<out, cnt>>
Finish == /\ t = N + 1
          /\ JsonSerialize(IOEnv.OUT, [traces |-> N, events |-> cnt, fails |-> out])
          /\ t' = t + 1 /\ UNCHANGED <<i, seen, out, cnt>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
