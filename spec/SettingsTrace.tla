---------------------------- MODULE SettingsTrace ----------------------------
(* Judges what the real constructors, validators and solve() do with settings  *)
(* against the rules (Settings.tla).  op:                                      *)
(*   "set"    one setting is given; got: "ok", "ValueError" or another name;   *)
(*            kept: rank of the value that is stored afterwards                *)
(*   "solve"  a solve is asked for with one setting; n: objective calls of a   *)
(*            refused solve                                                    *)
(*   "same"   two results that have to be equal                                *)
EXTENDS Settings, Json, IOUtils, TLC

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Traces)
VARIABLES t, i, out, cnt
tvars == <<t, i, out, cnt>>
Chk(c, ok) == IF ok THEN {} ELSE {c}
CallFails(c) ==
    CASE c.op = "set" -> LET a == Accepts(c.rule, c.v) IN UNION {
             Chk("valid_value_refused", a => c.got = "ok"),
             Chk("invalid_value_accepted", ~a => c.got # "ok"),
             Chk("wrong_exception", c.got \in {"ok", "ValueError"}),
             Chk("stored_value", c.got = "ok" => c.kept = c.want)}
      [] c.op = "solve" -> LET a == Accepts(c.rule, c.v) IN UNION {
             Chk("valid_value_refused", a => c.got = "ok"),
             Chk("invalid_value_accepted", ~a => c.got # "ok"),
             Chk("wrong_exception", c.got \in {"ok", "ValueError"}),
             Chk("evaluated_before_refusal", c.got # "ok" => c.n = 0),
             Chk("stored_value", c.got = "ok" => c.kept = c.want)}
      [] c.op = "same" -> Chk(c.what, c.x = c.y)
      [] OTHER -> {"unknown_call"}
Tag(tr, fs, idx) == {[id |-> tr.id, clause |-> c, at |-> idx] : c \in fs}
Init == t = 1 /\ i = 1 /\ out = {} /\ cnt = 0 /\ Start(<<>>, <<>>)
Step ==
    /\ t <= N
    /\ LET tr == Traces[t] IN
       IF i <= Len(tr.calls)
       THEN /\ out' = out \cup Tag(tr, CallFails(tr.calls[i]), i) /\ i' = i + 1 /\ t' = t /\ cnt' = cnt + 1
       ELSE t' = t + 1 /\ i' = 1 /\ UNCHANGED <<out, cnt>>
    /\ UNCHANGED vars
Finish ==
    /\ t = N + 1
    /\ JsonSerialize(IOEnv.OUT, [traces |-> N, events |-> cnt, fails |-> out])
    /\ t' = t + 1 /\ UNCHANGED <<i, out, cnt>> /\ UNCHANGED vars
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<tvars, vars>>
=============================================================================
