------------------------------ MODULE Settings ------------------------------
(* What is accepted as a setting, and what becomes of it.  Numbers are       *)
(* compared only, so they are given by ranks; -1 in a bound means unbounded. *)
(* A value: [t: its type, r: its rank, c: its text if it is a string]        *)
(* A rule:  [kind, closed, lo, hi, choices]; kind "intfloat" has the bounds  *)
(* of integers in lo, hi and those of real numbers in flo, fhi.              *)
EXTENDS Integers, Sequences, FiniteSets

Numbers == {"int", "float", "bool"}
Inside(closed, lo, hi, r) ==
    /\ lo = -1 \/ (IF closed THEN lo <= r ELSE lo < r)
    /\ hi = -1 \/ (IF closed THEN r <= hi ELSE r < hi)
Accepts(k, v) ==
    CASE k.kind \in {"int", "float"} -> v.t \in Numbers /\ Inside(k.closed, k.lo, k.hi, v.r)
      [] k.kind = "str" -> v.t = "str" /\ (k.choices = <<>> \/ \E j \in DOMAIN k.choices : k.choices[j] = v.c)
      [] k.kind = "bool" -> v.t = "bool"
      [] k.kind = "intfloat" -> \/ v.t = "int" /\ Inside(k.closed, k.lo, k.hi, v.r)
                                \/ v.t = "float" /\ Inside(k.fclosed, k.flo, k.fhi, v.r)
      [] k.kind = "list" -> v.t \in {"list", "tuple"} /\ v.r >= 1          \* r: the length
      [] OTHER -> FALSE

\* --- a constructor looks at one setting after the other ---
VARIABLES rules, given, stored, k, status
vars == <<rules, given, stored, k, status>>
Start(R, G) == rules = R /\ given = G /\ stored = <<>> /\ k = 1 /\ status = "checking"
Look == /\ status = "checking"
        /\ IF k > Len(rules) THEN status' = "ready" /\ UNCHANGED <<stored, k>>
           ELSE IF Accepts(rules[k], given[k]) THEN stored' = Append(stored, given[k]) /\ k' = k + 1 /\ UNCHANGED status
           ELSE status' = "refused" /\ UNCHANGED <<stored, k>>
        /\ UNCHANGED <<rules, given>>

ReadyMeansValid == status = "ready" => \A j \in DOMAIN rules : Accepts(rules[j], given[j]) /\ stored[j] = given[j]
RefusedMeansInvalid == status = "refused" => \E j \in DOMAIN rules : ~Accepts(rules[j], given[j])
OnlyValidStored == \A j \in DOMAIN stored : Accepts(rules[j], stored[j])
=============================================================================
