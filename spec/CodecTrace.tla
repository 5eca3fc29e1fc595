------------------------------ MODULE CodecTrace ------------------------------
(* Judges calls of the real variable and problem classes with Codec.tla.       *)
(* One line per variable (or problem: several variables, whose coordinates     *)
(* are concatenated in order); one call per step; state: the values generated  *)
(* so far.                                                                     *)
EXTENDS Codec, SequencesExt, Json, IOUtils, TLC

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Traces)
VARIABLES t, i, gen, out, cnt
vars == <<t, i, gen, out, cnt>>

Chk(c, ok) == IF ok THEN {} ELSE {c}
Off(vs, j) == FoldLeft(LAMBDA a, w : a + Len1(w), 0, SubSeq(vs, 1, j - 1))
Part(vs, q, j) == SubSeq(q, Off(vs, j) + 1, Off(vs, j) + Len1(vs[j]))
Total(vs) == Off(vs, Len(vs) + 1)
All(vs, P(_, _), q) == Len(q) = Total(vs) /\ \A j \in DOMAIN vs : P(vs[j], Part(vs, q, j))
All2(vs, P(_, _, _), p, q) == Len(p) = Total(vs) /\ Len(q) = Total(vs) /\ \A j \in DOMAIN vs : P(vs[j], Part(vs, p, j), Part(vs, q, j))
Abs(a) == IF a < 0 THEN -a ELSE a

CallFails(vs, c) ==
    CASE c.op = "box" -> UNION {
             Chk("lower_bounds", c.x = FoldLeft(LAMBDA a, w : a \o Lb(w), <<>>, vs)),
             Chk("upper_bounds", c.y = FoldLeft(LAMBDA a, w : a \o Ub(w), <<>>, vs)),
             Chk("dimension", c.z = <<Total(vs)>>)}
      [] c.op = "correct" -> UNION {
             Chk("correct", All2(vs, Correct, c.x, c.y)),
             Chk("argument_changed", c.z = c.x)}
      [] c.op = "decode" -> UNION {
             Chk("decode", All2(vs, Decode, c.x, c.y)),
             Chk("decoded_value_invalid", All(vs, Valid, c.y)),
             Chk("argument_changed", c.z = c.x)}
      [] c.op = "encode" -> UNION {
             Chk("encode", All2(vs, LAMBDA w, a, b : b = Encode(w, a), c.x, c.y)),
             Chk("encoded_value_outside", All(vs, LAMBDA w, a : w.k = "tbit" \/ InBox(w, a), c.y))}
      [] c.op = "generate" -> Chk("generated_value_invalid", All(vs, Valid, c.y))
      [] c.op = "generate_encoded" -> Chk("generated_value_invalid",
             All(vs, LAMBDA w, a : w.k = "tbit" \/ InBox(w, a), c.y)
             /\ All(vs, LAMBDA w, a : w.k \notin {"int", "label", "perm", "bit", "tbit"} \/ \A j \in DOMAIN a : a[j] % T = 0, c.y))
      [] c.op = "labels" ->     \* the codes that encode() gives to the different labels: 0 .. n-1, each once
             Chk("label_codes", {c.x[j] : j \in DOMAIN c.x} = {(j - 1) * T : j \in DOMAIN c.x})
      [] c.op = "reached" ->    \* every value of a coordinate of a finite domain has been generated
             Chk("values_never_generated", \A j \in 1..Total(vs) : LET w == vs[CHOOSE m \in DOMAIN vs : Off(vs, m) < j /\ j <= Off(vs, m + 1)]
                                                                      o == j - Off(vs, CHOOSE m \in DOMAIN vs : Off(vs, m) < j /\ j <= Off(vs, m + 1))
                 IN {g[j] : g \in gen} =
                    CASE w.k = "int" -> w.lo[o]..w.hi[o]
                      [] w.k = "label" -> 1..w.n[o]
                      [] w.k = "perm" -> 1..w.n[1]
                      [] w.k \in {"bit", "tbit"} -> {0, 1}
                      [] OTHER -> {g[j] : g \in gen})
      [] c.op = "freq" ->       \* x: how often a bit was set in y[1] trials; z: expected number
             Chk("transfer_frequency", \A j \in DOMAIN c.x : Abs(c.x[j] - c.z[j]) <= c.y[2])
      [] c.op = "same" -> Chk(c.what, c.x = c.y)
      [] c.op = "raises" -> Chk("not_rejected", c.what = "raised")
      [] OTHER -> {"unknown_call"}

Tag(tr, fs, idx) == {[id |-> tr.id, clause |-> c, at |-> idx] : c \in fs}
Init == t = 1 /\ i = 1 /\ gen = {} /\ out = {} /\ cnt = 0
Step ==
    /\ t <= N
    /\ LET tr == Traces[t] IN
       IF i <= Len(tr.calls)
       THEN LET c == tr.calls[i] IN
            /\ out' = out \cup Tag(tr, IF c.err THEN {"error"} ELSE CallFails(tr.vars, c), i)
            /\ gen' = IF c.op = "generate" THEN gen \cup {c.y} ELSE gen
            /\ i' = i + 1 /\ t' = t /\ cnt' = cnt + 1
       ELSE t' = t + 1 /\ i' = 1 /\ gen' = {} /\ UNCHANGED <<out, cnt>>
Finish ==
    /\ t = N + 1
    /\ JsonSerialize(IOEnv.OUT, [traces |-> N, events |-> cnt, fails |-> out])
    /\ t' = t + 1 /\ UNCHANGED <<i, gen, out, cnt>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
