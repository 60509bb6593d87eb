-------------------------------- MODULE Job ---------------------------------
(* What one run of a writer is asked to do: the scripts, the plans, and where *)
(* the behaviours go.                                                         *)
EXTENDS Style, CSV

Job == JsonDeserialize(IOEnv.JOB)       \* [scripts, plans] or [scripts, walks, length, lottery, seed]
OutFile == IOEnv.OUT
Group == TLCEval(Job.scripts)
JobScripts == {Group[i] : i \in DOMAIN Group}

\* the letter classes plans are made of
Class == TLCEval([k \in {"V","M","C","A","H","D","S","O","X","c","v","m","g","r","w","n","k","s","x","b","*","_"} |->
  CASE k = "V" -> {V(i) : i \in 0..18}
    [] k = "M" -> {M(i) : i \in 1..18}
    [] k = "C" -> {C(i) : i \in 0..49}
    [] k = "A" -> {A(i) : i \in 0..2}
    [] k = "H" -> {H}
    [] k = "D" -> {D(i) : i \in 0..9}
    [] k = "S" -> {S(i) : i \in 0..2}
    [] k = "O" -> {O}
    [] k = "X" -> {\h0951, \h0952, \h1CDA}                   \* Vedic accents
    [] k = "c" -> {C(i) : i \in 0..36}                        \* without the composed letters
    [] k = "v" -> {V(i) : i \in {0,1,2,4,5,6,10,11,12,14}}
    [] k = "m" -> {M(i) : i \in {1,2,4,5,6,10,11,12,13,14}}
    [] k = "g" -> {C(i) : i \in {0,2,4,7,9,14,15,17,19,22,24,25,26,27,28,29,30,31,32}}
    [] k = "r" -> {C(i) : i \in {25,26,27,28}}                \* semivowels
    [] k = "n" -> {C(i) : i \in {4,9,14,19,24}}               \* nasals
    [] k = "k" -> {C(i) : i \in {0,2,4,9,15,17,25,26,28,32}}   \* a few that join in different ways
    [] k = "s" -> {M(i) : i \in {1,10,12}}
    [] k = "w" -> {C(0), C(26)}
    [] k = "x" -> {\h0951, \h0952, \h1CDA, \hA8F3, \hA8F4}
    [] k = "b" -> {\h0020, \h000A, \h4E2D, \h003D}          \* foreign to every alphabet
    [] k = "*" -> {V(i) : i \in 0..18} \cup {M(i) : i \in 1..18} \cup {C(i) : i \in 0..49} \cup {A(i) : i \in 0..2}
                  \cup {H, O} \cup {D(i) : i \in 0..9} \cup {S(i) : i \in 0..2}
    [] k = "_" -> {\h0020, \h002C, \h003B, \h0028, \h003D, \h0041, \h007A, \h4E2D} ])  \* foreign

\* the styles to write texts in besides: [script, native, options]
Asked == IF "styles" \in DOMAIN Job THEN Job.styles ELSE <<>>
TamilWords == TLCEval(IF "words" \in DOMAIN Job THEN Job.words ELSE <<>>)
AllCustoms == TLCEval([i \in DOMAIN Asked |-> Customs(Asked[i])])
AllWishes == TLCEval([i \in DOMAIN Asked |-> Wishes(Asked[i])])
\* how many of the scripts (from the first on) to tell the legibility of
Judged == IF "judged" \in DOMAIN Job THEN Job.judged ELSE Len(Group)
Place == TLCEval([i \in DOMAIN Asked |-> CHOOSE k \in DOMAIN Group : Group[k] = Asked[i].script])
Styled(q, i) == IF q = <<>> THEN <<>> ELSE InStyle(q, Asked[i], AllCustoms[i], AllWishes[i])

Record(w) ==
  LET plain == TLCEval([i \in DOMAIN Group |-> Render(Group[i], w)]) IN
  CSVWrite("%1$s", <<ToJson(<<w, plain, [i \in 1..Judged |-> IF Legible(Group[i], w) THEN 1 ELSE 0],
                              [i \in DOMAIN Asked |-> Styled(plain[Place[i]], i)]>>)>>, OutFile)
=============================================================================
