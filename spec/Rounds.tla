------------------------------- MODULE Rounds -------------------------------
(* Long histories of one client.  A round makes every call once, a fixed stride *)
(* apart; over all strides of a prime number of calls every call comes right     *)
(* after every other one.  Each answer is the call's own (Session.tla, Pure).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
Job == JsonDeserialize(IOEnv.JOB)   \* [calls (a prime), strides]
OutFile == IOEnv.OUT
N == Job.calls
ASSUME N > 1 /\ \A d \in 2..N-1 : d * d > N \/ N % d # 0

VARIABLES stride, made, at
vars == <<stride, made, at>>
Init == stride \in {Job.strides[i] : i \in DOMAIN Job.strides} /\ made = 0 /\ at = stride % N
Next == made < N /\ made' = made + 1 /\ at' = (at + stride) % N /\ UNCHANGED stride
Spec == Init /\ [][Next]_vars
Emit == made < N => CSVWrite("%1$s", <<ToJson(<<stride, made, at>>)>>, OutFile)
\* after a round, every call has been made
Complete == made = N => at = stride % N
=============================================================================
