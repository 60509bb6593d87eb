------------------------------- MODULE Writer -------------------------------
(* The writer: a state machine that writes a text letter by letter, following *)
(* a plan (a sequence of letter classes).  Every reachable full text is one   *)
(* behaviour; Emit writes it down, as spelled by each script of the job, for  *)
(* replay against the implementation.                                         *)
EXTENDS Job

VARIABLES plan, text
vars == <<plan, text>>
Init == plan \in {Job.plans[i] : i \in DOMAIN Job.plans} /\ text = <<>>
Write(t) == /\ Len(text) < Len(plan)
            /\ t \in Class[plan[Len(text) + 1]]
            /\ IF text = <<>> THEN MayStart(t) ELSE MayFollow(text[Len(text)], t)
            /\ text' = Append(text, t) /\ UNCHANGED plan
Next == \E t \in IF Len(text) < Len(plan) THEN Class[plan[Len(text) + 1]] ELSE {} : Write(t)
Spec == Init /\ [][Next]_vars

Done == Len(text) = Len(plan)
Emit == Done => Record(text)
=============================================================================
