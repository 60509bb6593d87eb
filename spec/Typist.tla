------------------------------- MODULE Typist -------------------------------
(* The typist: types a text in a Latin scheme, piece by piece (the scheme's    *)
(* letters, its alternative spellings, accents, separators, foreign marks).    *)
(* A text is readable when reading it yields exactly the letters that were      *)
(* typed; each readable text is written down with the syllables it stands for, *)
(* as every script of the job spells them.                                     *)
EXTENDS Job

Schemes == {Job.schemes[i] : i \in DOMAIN Job.schemes}
KeysFor(s) == SelectSeq(Alphabet(s), LAMBDA p : p.at # <<>>) \o Foreign \o (IF Job.joiners = 1 THEN Joiners ELSE <<>>)
Keys == TLCEval([s \in Schemes |-> TLCEval(KeysFor(s))])
KeysOf(K, k) == {i \in DOMAIN K :
  CASE k = "c" -> K[i].sort = kC [] k = "v" -> K[i].sort = kV [] k = "a" -> K[i].sort = kA [] k = "s" -> K[i].sort = kS
    [] k = "d" -> K[i].sort = kD [] k = "x" -> K[i].sort = kAccent [] k = "t" -> K[i].sort = kOther
    [] k = "k" -> K[i].to \in {<<C(j)>> : j \in {0,1,4,9,15,25,26,28,32,33}}
    [] k = "w" -> K[i].to \in {<<V(j)>> : j \in {0,1,2,4,10,11}}
    [] OTHER -> TRUE}
KeyClass == TLCEval([s \in Schemes |-> TLCEval([k \in {"c","v","a","s","d","x","t","k","w","*"} |-> TLCEval(SetSeq(KeysOf(Keys[s], k)))])])

VARIABLES scheme, plan, typed
vars == <<scheme, plan, typed>>
Typed(k) == \E i \in DOMAIN KeyClass[scheme][k] : typed' = Append(typed, KeyClass[scheme][k][i])
Init == /\ typed = <<>>
        /\ scheme \in Schemes
        /\ plan \in {Job.plans[i] : i \in DOMAIN Job.plans}
Next == /\ Len(typed) < Len(plan) /\ Typed(plan[Len(typed) + 1]) /\ UNCHANGED <<scheme, plan>>
Spec == Init /\ [][Next]_vars

Meant == Flatten([i \in DOMAIN typed |-> Keys[scheme][typed[i]].to])
Page  == Flatten([i \in DOMAIN typed |-> Keys[scheme][typed[i]].at])
Unambiguous(q, l) == LettersOf(scheme, q) = l /\ ~Trap(scheme, q) /\ ~Torn(scheme, q, 1)
WellFormed(w) == w # <<>> /\ MayStart(w[1]) /\ \A i \in 2..Len(w) : MayFollow(w[i-1], w[i])
Emit == Len(typed) = Len(plan) =>
  LET q == Page  l == Meant IN
  Unambiguous(q, l) =>
  LET w == SyllablesOf(scheme, l) IN
  WellFormed(w) =>
  CSVWrite("%1$s", <<ToJson(<<q, w, [i \in 1..Job.render |-> Render(Group[i], w)], scheme>>)>>, OutFile)
=============================================================================
