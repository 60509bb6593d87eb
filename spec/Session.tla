------------------------------ MODULE Session -------------------------------
(* The library in use: clients call it, one after the other or at the same     *)
(* time, in one process.  Each call has an answer of its own, Fresh(call): the  *)
(* one a new process gives.  The library may remember things between calls      *)
(* (tables it loaded, answers it gave), but nothing it remembers may show.      *)
(* Steps are where a running call can be interrupted by another client.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Job == JsonDeserialize(IOEnv.JOB)   \* [calls, clients, steps, switches, each]
OutFile == IOEnv.OUT
Calls   == 1..Job.calls
Clients == 1..Job.clients
Steps   == Job.steps                \* a call is done after this many steps
Fresh(c) == <<"answer of a new process to", c>>

VARIABLES ask,      \* client -> the calls it still has to make
          now,      \* client -> the call it is making, or 0
          left,     \* client -> steps until that call is answered
          got,      \* client -> answers so far
          memory,   \* what the library remembers: calls and their answers
          turn,     \* whose turn it is
          schedule  \* <<client, steps>>, in order: how the clients took turns
vars == <<ask, now, left, got, memory, turn, schedule>>

Idle(k) == now[k] = 0
Done == \A k \in Clients : Idle(k) /\ ask[k] = <<>>
Switches == Len(schedule) - 1

Init == /\ ask \in [Clients -> UNION {[1..n -> Calls] : n \in {Job.each}}]
        /\ now = [k \in Clients |-> 0] /\ left = [k \in Clients |-> 0]
        /\ got = [k \in Clients |-> <<>>] /\ memory = {}
        /\ turn \in Clients /\ schedule = << <<turn, 0>> >>
        /\ (Job.clients = 1 => TRUE)

\* the client whose turn it is begins a call, or works on it
Begin(k) == /\ Idle(k) /\ ask[k] # <<>>
            /\ now' = [now EXCEPT ![k] = Head(ask[k])] /\ ask' = [ask EXCEPT ![k] = Tail(@)]
            /\ left' = [left EXCEPT ![k] = Steps]
            /\ UNCHANGED <<got, memory, turn, schedule>>
Work(k) == /\ ~Idle(k) /\ left[k] > 0
           /\ left' = [left EXCEPT ![k] = @ - 1]
           /\ schedule' = [schedule EXCEPT ![Len(schedule)] = <<@[1], @[2] + 1>>]
           /\ UNCHANGED <<ask, now, got, memory, turn>>
Answer(k) == /\ ~Idle(k) /\ left[k] = 0
             /\ LET a == IF \E m \in memory : m[1] = now[k] THEN (CHOOSE m \in memory : m[1] = now[k])[2] ELSE Fresh(now[k]) IN
                /\ got' = [got EXCEPT ![k] = Append(@, <<now[k], a>>)]
                /\ memory' \in {memory, memory \cup {<<now[k], a>>}}
             /\ now' = [now EXCEPT ![k] = 0]
             /\ UNCHANGED <<ask, left, turn, schedule>>
\* interrupted within a call, or giving way after one
Switch(k) == /\ turn # k /\ Switches < Job.switches
             /\ ~(Idle(k) /\ ask[k] = <<>>)
             /\ IF Idle(turn) THEN ask[turn] = <<>> ELSE left[turn] \in 1..Steps - 1
             /\ turn' = k /\ schedule' = Append(schedule, <<k, 0>>)
             /\ UNCHANGED <<ask, now, left, got, memory>>
Next == \/ Begin(turn) \/ Work(turn) \/ Answer(turn) \/ \E k \in Clients : Switch(k)
Spec == Init /\ [][Next]_vars

\* the guarantee
Pure == \A k \in Clients : \A i \in DOMAIN got[k] : got[k][i][2] = Fresh(got[k][i][1])
Sound == \A m \in memory : m[2] = Fresh(m[1])
Emit == Done => CSVWrite("%1$s", <<ToJson(<<[k \in Clients |-> [i \in DOMAIN got[k] |-> got[k][i][1]]], schedule>>)>>, OutFile)
=============================================================================
