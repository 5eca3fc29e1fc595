-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The decision variables: how points of the continuous box of the         *)
(* optimizers (tuples of real numbers) correspond to values of the user's  *)
(* domain.  Real numbers are counted in ticks of 1e-4 (the width by which  *)
(* the library keeps the half-open upper end of a discrete cell away from  *)
(* the next cell), labels are numbered 1..n in the order in which the      *)
(* encoder sorts them.                                                     *)
(*                                                                         *)
(* A variable is a record [k, lo, hi, n]:                                  *)
(*   "float"  lo, hi : bounds in ticks (sequences)                         *)
(*   "int"    lo, hi : the smallest and largest integers (sequences)       *)
(*   "label"  n      : number of labels of each coordinate (string,        *)
(*                     categorical, sequence)                              *)
(*   "perm"   n = <<length>>                                               *)
(*   "bit"    n = <<length>>  (binary and boolean)                         *)
(*   "tbit"   lo, hi : bounds in ticks; zeros: may all bits be 0           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

T == 10000                       \* ticks per unit

FloorDiv(a, b) == a \div b       \* TLA+ integer division rounds towards minus infinity for b > 0
Floor(x) == FloorDiv(x, T)
Round(x) == FloorDiv(x + T \div 2, T)        \* halves go up

Len1(v) == CASE v.k \in {"float", "int", "tbit"} -> Len(v.lo)
             [] v.k = "label" -> Len(v.n)
             [] OTHER -> v.n[1]

\* the box in which the optimizers move
Lb(v) == [j \in 1..Len1(v) |->
            CASE v.k \in {"float", "tbit"} -> v.lo[j]
              [] v.k = "int" -> v.lo[j] * T - T \div 2
              [] OTHER -> 0]
Ub(v) == [j \in 1..Len1(v) |->
            CASE v.k \in {"float", "tbit"} -> v.hi[j]
              [] v.k = "int" -> v.hi[j] * T + T \div 2 - 1
              [] v.k = "label" -> v.n[j] * T - 1
              [] v.k = "perm" -> v.n[1] * T - 1
              [] OTHER -> 2 * T - 1]

Clip(lo, hi, x) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
InBox(v, x) == Len(x) = Len1(v) /\ \A j \in DOMAIN x : Lb(v)[j] <= x[j] /\ x[j] <= Ub(v)[j]

\* rank of each coordinate, equal coordinates in any order: a set of possible answers
IsRanking(x, p) ==
    /\ DOMAIN p = DOMAIN x
    /\ {p[j] : j \in DOMAIN p} = {(i - 1) * T : i \in DOMAIN x}
    /\ \A i, j \in DOMAIN x : x[i] < x[j] => p[i] < p[j]

\* ---- correct(x) may be y
Correct(v, x, y) ==
    CASE v.k \in {"float", "int", "bit"} ->
            y = [j \in DOMAIN x |-> Clip(Lb(v)[j], Ub(v)[j], x[j])]
      [] v.k = "label" ->
            y = [j \in DOMAIN x |-> Floor(Clip(Lb(v)[j], Ub(v)[j], x[j])) * T]
      [] v.k = "perm" -> IsRanking(x, y)
      [] v.k = "tbit" ->
            /\ Len(y) = Len(x) /\ \A j \in DOMAIN y : y[j] \in {0, T}
            /\ v.zeros \/ \E j \in DOMAIN y : y[j] = T

\* ---- decode(x) may be d (floats in ticks, integers as they are, labels by number, permutations as label numbers, bits 0/1)
Decode(v, x, d) ==
    LET c == [j \in DOMAIN x |-> Clip(Lb(v)[j], Ub(v)[j], x[j])] IN
    CASE v.k = "float" -> d = c
      [] v.k = "int"   -> d = [j \in DOMAIN c |-> Round(c[j])]
      [] v.k = "bit"   -> d = [j \in DOMAIN c |-> Floor(c[j])]
      [] v.k = "label" -> d = [j \in DOMAIN c |-> Floor(c[j]) + 1]
      [] v.k = "perm"  -> IsRanking(x, [j \in DOMAIN d |-> (d[j] - 1) * T])
      [] v.k = "tbit"  -> /\ Len(d) = Len(x) /\ \A j \in DOMAIN d : d[j] \in {0, 1}
                          /\ v.zeros \/ \E j \in DOMAIN d : d[j] = 1

\* ---- the values of the domain
Valid(v, d) ==
    /\ Len(d) = Len1(v)
    /\ CASE v.k = "float" -> \A j \in DOMAIN d : v.lo[j] <= d[j] /\ d[j] <= v.hi[j]
         [] v.k = "int"   -> \A j \in DOMAIN d : v.lo[j] <= d[j] /\ d[j] <= v.hi[j]
         [] v.k = "bit"   -> \A j \in DOMAIN d : d[j] \in {0, 1}
         [] v.k = "label" -> \A j \in DOMAIN d : d[j] \in 1..v.n[j]
         [] v.k = "perm"  -> {d[j] : j \in DOMAIN d} = 1..v.n[1]
         [] v.k = "tbit"  -> (\A j \in DOMAIN d : d[j] \in {0, 1}) /\ (v.zeros \/ \E j \in DOMAIN d : d[j] = 1)

\* ---- encode(d)
Encode(v, d) ==
    CASE v.k = "float" -> d
      [] v.k \in {"int", "bit", "tbit"} -> [j \in DOMAIN d |-> d[j] * T]
      [] v.k \in {"label", "perm"} -> [j \in DOMAIN d |-> (d[j] - 1) * T]
=============================================================================
