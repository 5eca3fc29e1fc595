------------------------------- MODULE CodecMC -------------------------------
(* The laws of the codec, exhaustively for all small variables, grid points *)
(* (a step of `Grid` ticks, also far outside) and values.                   *)
EXTENDS Codec, TLC
CONSTANTS Kinds, Dims, Grid, Reach

VARIABLES v, x, done
vars == <<v, x, done>>

Fn(n, S) == [1..n -> S]
Vars(k, n) ==
    CASE k = "float" -> {[k |-> k, lo |-> l, hi |-> h, n |-> <<>>, zeros |-> TRUE] : l \in Fn(n, {-2 * Grid, 0}), h \in Fn(n, {0, Grid, 3 * Grid})}
      [] k = "int"   -> {[k |-> k, lo |-> l, hi |-> h, n |-> <<>>, zeros |-> TRUE] : l \in Fn(n, {-1, 0}), h \in Fn(n, {0, 1})}
      [] k = "label" -> {[k |-> k, lo |-> <<>>, hi |-> <<>>, n |-> m, zeros |-> TRUE] : m \in Fn(n, 1..3)}
      [] OTHER       -> {[k |-> k, lo |-> <<>>, hi |-> <<>>, n |-> <<n>>, zeros |-> TRUE]}
Points(w) == UNION {{g, g - 1, g + 1} : g \in {i * Grid : i \in (-Reach)..Reach}}

Init == /\ v \in UNION {Vars(k, n) : k \in Kinds, n \in Dims}
        /\ x = <<>> /\ done = FALSE
Pick == Len(x) < Len1(v) /\ \E g \in Points(v) : x' = Append(x, g) /\ UNCHANGED <<v, done>>
Stop == Len(x) = Len1(v) /\ ~done /\ done' = TRUE /\ UNCHANGED <<v, x>>
Next == Pick \/ Stop
Spec == Init /\ [][Next]_vars

\* candidate answers (the relations are functions except for ties of a permutation)
Vals(w) == CASE w.k = "float" -> {}
             [] w.k = "int" -> Fn(Len1(w), (-3)..3)
             [] w.k = "bit" -> Fn(Len1(w), 0..2)
             [] OTHER -> Fn(Len1(w), 0..4)
Corrected(w, y) == IF w.k = "perm" THEN {p \in Fn(Len1(w), {i * T : i \in 0..3}) : IsRanking(y, p)}
                   ELSE {CASE w.k = "label" -> [j \in DOMAIN y |-> Floor(Clip(Lb(w)[j], Ub(w)[j], y[j])) * T]
                           [] OTHER -> [j \in DOMAIN y |-> Clip(Lb(w)[j], Ub(w)[j], y[j])]}

Total == done => \E y \in Corrected(v, x) : Correct(v, x, y)
Box   == done => \A y \in Corrected(v, x) : InBox(v, y)
Idempotent == done => \A y \in Corrected(v, x) : Corrected(v, y) = {y}
Faithful == done => \A d \in Vals(v), y \in Corrected(v, x) : Decode(v, y, d) => Decode(v, x, d)
ValidValues == done => \A d \in Vals(v) : Decode(v, x, d) => Valid(v, d)
DecodeTotal == done /\ v.k # "float" => \E d \in Vals(v) : Decode(v, x, d)
RoundTrip == done => \A d \in Vals(v) : Valid(v, d) => InBox(v, Encode(v, d)) /\ Decode(v, Encode(v, d), d)
                                                    /\ \A e \in Vals(v) : Decode(v, Encode(v, d), e) => e = d
\* feasible points of continuous variables are left alone
Unchanged == done /\ InBox(v, x) /\ v.k \in {"float", "int", "bit"} => Corrected(v, x) = {x}
=============================================================================
