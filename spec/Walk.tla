-------------------------------- MODULE Walk --------------------------------
(* Long texts.  Walk n writes a text of pseudo-random letters: at each step it *)
(* draws a letter class from the job's lottery and a letter of that class      *)
(* (three small linear congruential generators, so a walk is a function of the *)
(* seed and of n, whatever the number of workers).                             *)
EXTENDS Job

Order == TLCEval([k \in DOMAIN Class |-> SetSeq(Class[k])])
Lottery == TLCEval(Job.lottery)

VARIABLES walk, dice, text
vars == <<walk, dice, text>>
Turn(x) == <<(171 * x[1]) % 30269, (172 * x[2]) % 30307, (170 * x[3]) % 30323>>
Draw(x, k) == (x[1] + 7 * x[2] + 13 * x[3]) % k
Length == Job.length[1] + (walk % (Job.length[2] - Job.length[1] + 1))

Init == /\ walk \in 1..Job.walks
        /\ dice = Turn(Turn(Turn(<<1 + ((walk * 7 + Job.seed * 31) % 30268), 1 + ((walk * 11 + Job.seed * 17) % 30306), 1 + ((walk * 3 + Job.seed) % 30322)>>)))
        /\ text = <<>>
Drawn == LET cl == Order[Lottery[1 + Draw(dice, Len(Lottery))]] IN cl[1 + Draw(Turn(dice), Len(cl))]
Next == /\ Len(text) < Length
        /\ dice' = Turn(Turn(dice))
        /\ text' = IF (IF text = <<>> THEN MayStart(Drawn) ELSE MayFollow(text[Len(text)], Drawn)) THEN Append(text, Drawn) ELSE text
        /\ UNCHANGED walk
Spec == Init /\ [][Next]_vars
Emit == Len(text) = Length => Record(text)
=============================================================================
