------------------------------ MODULE AnyText -------------------------------
(* A client may send anything: texts of characters of any class, of any length,  *)
(* from any script to any other, with any options.  The library always answers,  *)
(* and its answer is a text.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
Job == JsonDeserialize(IOEnv.JOB)      \* [classes, length, pumps]
OutFile == IOEnv.OUT
Classes == 1..Job.classes
Pumps == {Job.pumps[i] : i \in DOMAIN Job.pumps}

VARIABLES sent, pump, state
vars == <<sent, pump, state>>
Init == sent = <<>> /\ pump = 1 /\ state = "writing"
Write(c) == state = "writing" /\ Len(sent) < Job.length /\ sent' = Append(sent, c) /\ UNCHANGED <<pump, state>>
\* the same piece over and over
Pump(n) == state = "writing" /\ sent # <<>> /\ pump' = n /\ state' = "sent" /\ UNCHANGED sent
Reply == state = "sent" /\ state' = "answered" /\ UNCHANGED <<sent, pump>>
Next == (\E c \in Classes : Write(c)) \/ (\E n \in Pumps : Pump(n)) \/ Reply
Spec == Init /\ [][Next]_vars /\ WF_vars(Reply)
Answered == state = "sent" ~> state = "answered"
Emit == state = "answered" => CSVWrite("%1$s", <<ToJson(<<sent, pump>>)>>, OutFile)
=============================================================================
