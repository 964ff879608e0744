------------------------------ MODULE Verdict ------------------------------
(* Failure records: which clause, where, what the specification allows, what was observed. *)
EXTENDS Config, Json, IOUtils, SequencesExt

Fail(clause, at, want, got) == [clause |-> clause, at |-> at, want |-> want, got |-> got]
Field(raw) == TLCEval([c \in 1..Len(raw) |-> Raw(raw[c])])
\* failure records for the members of S violating ok, with printable expectation and observation
Each(clause, S, ok(_), want(_), got(_)) ==
  {Fail(clause, c, want(c), got(c)) : c \in {c \in S : ~ok(c)}}
If(cond, f) == IF cond THEN {} ELSE {f}
\* every value of the sequence got (raw) is one the formula want(i) can produce
Match(clause, got, want(_)) ==
  Each(clause, 1..Len(got), LAMBDA i : FFinite(got[i]) /\ Agrees(want(i), got[i]),
       LAMBDA i : Str(want(i)), LAMBDA i : FStr(got[i]))
=============================================================================
