----------------------------- MODULE HelpersTrace -----------------------------
(* Judges recorded calls of the real Agent, Target and Optimizer helpers with   *)
(* Helpers.tla.  One line per history; after each call the recording shows what *)
(* every agent looks like, which has to be what the heap of the specification   *)
(* says.  Agents are numbered as they appear; r holds the agents a call         *)
(* returned (a number that is new = a new object).                              *)
EXTENDS Helpers, Json, IOUtils, TLC

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Traces)
VARIABLES t, i, h, out, cnt, drawn
vars == <<t, i, h, out, cnt, drawn>>

Chk(c, ok) == IF ok THEN {} ELSE {c}
Abs(a) == IF a < 0 THEN -a ELSE a
Fresh(k, n) == [j \in 1..n |-> k + j]
Inc(q) == [j \in DOMAIN q |-> q[j] + 1]
Pick(a, p) == [j \in DOMAIN p |-> a[p[j]]]

\* the heap after the call; new agents are copies of agents which the call itself names in c.src (judged below)
After(c) ==
    CASE c.op = "new" -> New(h, c.s, c.o, c.w, 0)
      [] c.op = "rebind" -> Rebind(h, c.a[1], c.s, c.o, c.w)
      [] c.op = "edit" -> Edit(h, c.a[1], c.n[1], c.n[2])
      [] c.op = "retarget" -> Retarget(h, c.a[1], c.o, c.w)
      [] c.op = "setx" -> SetX(h, c.a[1], c.n[1])
      [] c.op = "sync" -> Sync(h, c.a[1], c.a[2])
      [] OTHER -> CopyAll(h, c.src)
K == Len(h.ag)
NewOnes(c) == c.r = Fresh(K, Len(c.src))
Fits(a) == [j \in DOMAIN a |-> Fit(h, a[j])]

CallFails(c) ==
    CASE c.op \in {"new", "rebind", "edit", "retarget", "setx"} -> {}
      [] c.op = "copy" -> Chk("copy", NewOnes(c) /\ c.src = c.a)
      [] c.op = "duplicate" -> Chk("duplicate_pop", NewOnes(c) /\ c.src = c.a)
      [] c.op = "sync" -> Chk("sync_if_duplicate", (c.q[1] = 1) = Same(h, c.a[1], c.a[2]))
      [] c.op = "equal" -> Chk("equal", (c.q[1] = 1) = Same(h, c.a[1], c.a[2])) \cup Chk("hash", c.q[1] = 1 => c.q[2] = 1)
      \* q: a = b, b = a, equal hashes, a = a, a = 3, size of the set {a, b} as it should be
      [] c.op = "near" -> UNION {
             Chk("near_not_equal", c.n[1] = 1 => c.q[1] = 1 /\ c.q[2] = 1),
             Chk("far_is_equal", c.n[1] = 3 => c.q[1] = 0 /\ c.q[2] = 0),
             Chk("equal_itself", c.q[4] = 1 /\ c.q[5] = 0),
             Chk("set_of_agents", c.n[1] # 2 => c.q[6] = 1),
             Chk("hash", c.n[1] = 1 => c.q[3] = 1),
             Chk("equal_but_different_hash", c.n[1] = 2 /\ c.q[1] = 1 => c.q[3] = 1)}
      [] c.op = "better_solution" -> Chk("get_better_solution", c.r = <<IF Strictly(c.mm, Fit(h, c.a[2]), Fit(h, c.a[1])) THEN c.a[2] ELSE c.a[1]>>)
                                     \cup Chk("is_better_than", (c.q[1] = 1) = Strictly(c.mm, Fit(h, c.a[1]), Fit(h, c.a[2])))
      [] c.op = "better_agent" -> LET mm == IF c.n[1] = 1 THEN Other(c.mm) ELSE c.mm IN
             Chk("get_better_agent", NewOnes(c) /\ Len(c.src) = 1 /\ c.src[1] \in Rng(c.a)
                                     /\ \A x \in Rng(c.a) : NotWorse(mm, Fit(h, c.src[1]), Fit(h, x)))
      [] c.op = "compare" -> Chk("compare_target", (c.q[1] = 1) = Strictly(c.mm, Fit(h, c.a[1]), Fit(h, c.a[2])))
                             \cup Chk("compare_fitness", (c.q[2] = 1) = Strictly(c.mm, Fit(h, c.a[1]), Fit(h, c.a[2])))
      [] c.op = "sorted" -> Chk("get_sorted_population", IsSorting(c.mm, h, c.a, Inc(c.q)) /\ c.r = Pick(c.a, Inc(c.q)) /\ c.src = <<>>)
      [] c.op = "best" -> Chk("get_best_agent", NewOnes(c) /\ Len(c.q) = 1 /\ IsBest(c.mm, h, c.a, c.q[1] + 1) /\ c.src = <<c.a[c.q[1] + 1]>>)
      [] c.op = "worst" -> Chk("get_worst_agent", NewOnes(c) /\ Len(c.q) = 1 /\ IsWorst(c.mm, h, c.a, c.q[1] + 1) /\ c.src = <<c.a[c.q[1] + 1]>>)
      \* p: the order of the sorted population; q, z: positions of the best and the worst
      [] c.op = "special" -> UNION {
             Chk("special_sorted", IsSorting(c.mm, h, c.a, Inc(c.p))),
             Chk("special_best", IsTop(c.mm, h, c.a, Inc(c.q), c.n[1])),
             Chk("special_worst", IsTop(Other(c.mm), h, c.a, Inc(c.z), c.n[2])),
             Chk("special_objects", IF c.n[3] = 1 THEN c.src = <<>> /\ c.r = <<>> ELSE NewOnes(c) /\ c.src = Pick(c.a, Inc(c.q)) \o Pick(c.a, Inc(c.z)))}
      [] c.op = "fitness" -> Chk("get_special_fitness", c.q = <<SumSeq(Fits(c.a)), Fit(h, c.a[CHOOSE x \in DOMAIN c.a : IsBest(c.mm, h, c.a, x)]),
                                                                 Fit(h, c.a[CHOOSE x \in DOMAIN c.a : IsWorst(c.mm, h, c.a, x)])>>)
      [] c.op = "greedy" -> Chk("greedy_selection_population", c.src = <<>> /\ c.r = Greedy(c.mm, h, c.a, c.b))
      [] c.op = "trim" -> Chk("get_sorted_and_trimmed_population", c.src = <<>> /\ IsTop(c.mm, h, c.a, Inc(c.q), c.n[1]) /\ c.r = Pick(c.a, Inc(c.q)))
      [] c.op = "groups" -> Chk("generate_group_population", NewOnes(c) /\ c.src = Groups(c.a, c.n[1], c.n[2]) /\ c.q = [k \in 1..c.n[1] |-> Len(Group(c.a, c.n[2], k))])
      [] c.op = "raises" -> Chk("not_rejected", c.what = "raised")
      \* --- drawing; n = <<population, how many, replacement, scalar result>> ---
      [] c.op = "sample" -> Chk("sample_indexes", IsSample(c.n[1], Rng(c.a), c.n[2], c.n[3] = 1, c.q)) \cup Chk("sample_scalar", (c.n[4] = 1) = (c.n[2] = 1))
                            \cup Chk("argument_changed", c.a = c.b)
      [] c.op = "drawn" -> Chk("indexes_never_drawn", drawn = (0..(c.n[1] - 1)) \ Rng(c.a))
      \* x: fitness, q: how often each index came; n = <<draws, tolerance>>
      [] c.op = "wheel" -> LET w == Weights(c.mm, c.a) IN
             Chk("roulette_frequency", Len(c.q) = Len(c.a) /\ \A x \in DOMAIN c.q : Abs(c.q[x] * SumSeq(w) - c.n[1] * w[x]) <= c.n[2] * SumSeq(w) /\ (w[x] = 0 => c.q[x] = 0))
      [] c.op = "tournament" -> Chk("kway_tournament", IsTournament(c.mm, c.a, c.q, c.n[1], c.n[2], c.n[3] = 1))
      [] c.op = "tournaments" -> Chk("kway_winners", Rng(c.q) \subseteq 0..(Len(c.a) - 1) /\ MayWin(c.mm, c.a, c.n[1]) \subseteq Rng(c.q))
      \* ticks: two children of dad a and mom b
      [] c.op = "crossover" -> Chk("crossover_arithmetic", \A x \in DOMAIN c.a :
             Abs(c.q[x] + c.z[x] - c.a[x] - c.b[x]) <= 2 /\ \A y \in {c.q[x], c.z[x]} : Min({c.a[x], c.b[x]}) - 1 <= y /\ y <= Max({c.a[x], c.b[x]}) + 1)
      \* a, b: agent and global best; s, o: bounds; q: opposite
      [] c.op = "opposition" -> LET Clip(v, x) == Max({c.s[x], Min({c.o[x], v})}) IN Chk("opposition", \A x \in DOMAIN c.a :
             LET e1 == Clip(c.s[x] + c.o[x] - c.b[x], x)  e2 == Clip(c.s[x] + c.o[x] - c.a[x], x) IN Min({e1, e2}) - 1 <= c.q[x] /\ c.q[x] <= Max({e1, e2}) + 1)
      [] c.op = "levy" -> Chk("levy_shape", c.q = c.a) \cup Chk("levy_finite", c.n[1] = 1)
      \* a: ranks of the fitness of the population, q: of the result; z: 1 if the agent has the target of its own position
      [] c.op = "improve" -> LET m == Len(c.a) \div 2
                                 S(f) == SortSeq(f, LAMBDA x, y : Strictly(c.mm, x, y))
                             IN UNION {
             Chk("improved_ms_size", Len(c.q) = Len(c.a)),
             Chk("improved_ms_target", \A x \in DOMAIN c.z : c.z[x] = 1),
             Chk("improved_ms_keeps_better_half", Len(c.q) >= m /\ \A x \in 1..m : NotWorse(c.mm, S(c.q)[x], S(c.a)[x])),
             Chk("improved_ms_count", c.n[1] = c.n[2])}
      [] OTHER -> {"unknown_call"}

\* what is seen of the agents afterwards
ViewFails(h2, c) == UNION {
    Chk("number_of_agents", Len(c.view) = Len(h2.ag)),
    Chk("agent_state", \A x \in DOMAIN c.view \cap DOMAIN h2.ag : LET v == View(h2, x) IN c.view[x].s = v.s /\ c.view[x].x = v.x),
    Chk("target_state", \A x \in DOMAIN c.view \cap DOMAIN h2.ag : LET v == View(h2, x) IN c.view[x].o = v.o /\ c.view[x].f = v.f),
    Chk("ids", \A x, y \in DOMAIN c.view : x # y => c.view[x].id # c.view[y].id)}

Tag(tr, fs, idx, op) == {[id |-> tr.id, clause |-> c, at |-> idx, op |-> op] : c \in fs}
Init == t = 1 /\ i = 1 /\ h = Empty /\ out = {} /\ cnt = 0 /\ drawn = {}
Step ==
    /\ t <= N
    /\ LET tr == Traces[t] IN
       IF i <= Len(tr.calls)
       THEN LET c == tr.calls[i] IN
            IF c.err THEN /\ out' = out \cup Tag(tr, {"error"}, i, c.op) /\ t' = t + 1 /\ i' = 1 /\ h' = Empty /\ drawn' = {} /\ cnt' = cnt + 1
            ELSE LET fs == CallFails(c)  ok == fs = {} /\ ~(c.src # <<>> /\ ~Rng(c.src) \subseteq DOMAIN h.ag)
                     h2 == IF ok THEN After(c) ELSE h
                     gs == IF ok /\ c.view # <<>> THEN ViewFails(h2, c) ELSE {}
                 IN /\ out' = out \cup Tag(tr, fs \cup gs, i, c.op)
                    /\ cnt' = cnt + 1
                    /\ IF fs \cup gs = {} THEN /\ h' = h2 /\ i' = i + 1 /\ t' = t
                                               /\ drawn' = IF c.op = "sample" THEN drawn \cup Rng(c.q) ELSE drawn
                       ELSE t' = t + 1 /\ i' = 1 /\ h' = Empty /\ drawn' = {}      \* nothing can be said after a failure
       ELSE t' = t + 1 /\ i' = 1 /\ h' = Empty /\ drawn' = {} /\ UNCHANGED <<out, cnt>>
Finish ==
    /\ t = N + 1
    /\ JsonSerialize(IOEnv.OUT, [traces |-> N, events |-> cnt, fails |-> out])
    /\ t' = t + 1 /\ UNCHANGED <<i, h, out, cnt, drawn>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
