------------------------------ MODULE Document ------------------------------
(* A document being edited: words and the separators between them.  Its         *)
(* conversion is kept up to date cell by cell: a word's conversion depends on    *)
(* the word alone, a separator stays what it is.  Converting the whole document  *)
(* must give the same.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
Job == JsonDeserialize(IOEnv.JOB)      \* [words, separators, cells]
OutFile == IOEnv.OUT
W(i) == <<"w", i>>  S(i) == <<"s", i>>
Cells == {W(i) : i \in 1..Job.words} \cup {S(i) : i \in 1..Job.separators}
Conv(x) == IF x[1] = "w" THEN <<"converted", x>> ELSE <<"same", x>>
IsWord(x) == x[1] = "w"

VARIABLES doc, page
vars == <<doc, page>>
Insert(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Remove(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* words do not touch
Apart(q) == \A i \in 1..Len(q) - 1 : ~(IsWord(q[i]) /\ IsWord(q[i+1]))
Edit(d, p) == Apart(d) /\ Len(d) <= Job.cells /\ doc' = d /\ page' = p
Init == doc = <<>> /\ page = <<>>
Next == \E x \in Cells :
          \/ \E i \in 0..Len(doc) : Edit(Insert(doc, i, x), Insert(page, i, Conv(x)))
          \/ \E i \in DOMAIN doc : x # doc[i] /\ Edit([doc EXCEPT ![i] = x], [page EXCEPT ![i] = Conv(x)])
          \/ \E i \in DOMAIN doc : Edit(Remove(doc, i), Remove(page, i))
Spec == Init /\ [][Next]_vars
Local == page = [i \in DOMAIN doc |-> Conv(doc[i])]
Emit == Len(doc) >= 2 => CSVWrite("%1$s", <<ToJson(<<doc>>)>>, OutFile)
=============================================================================
