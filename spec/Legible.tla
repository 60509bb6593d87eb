------------------------------- MODULE Legible -------------------------------
(* Which texts can be read back from a script without loss: every letter has a *)
(* spelling of its own in the script, and no sequence of letters is spelled    *)
(* like another one.  On these the implementation has to read exactly the      *)
(* letters that were written.                                                  *)
EXTENDS Reader

Spelled(s) == UNION {{Tok(k, i - 1) : i \in DOMAIN Chart[s][k + 1]} : k \in {kV,kM,kC,kA,kH,kS,kD,kO}}
Plain(q) == q # Absent /\ q # <<>> /\ \A i \in DOMAIN q : q[i] \notin {Mark, Aux, Aux2}
Own(s) == TLCEval({t \in Spelled(s) : Plain(Glyph(s, t)) /\ \A u \in Spelled(s) \ {t} : Glyph(s, u) # Glyph(s, t)})
OwnLetters == TLCEval([s \in InUse \ Latin |-> Own(s)])

Con == {C(i) : i \in 0..49}
Med == {C(25), C(26), C(28), C(32)}
Nukta == {C(i) : i \in 33..44}
Vow == {V(i) : i \in 0..18}
Sgn == {M(i) : i \in 1..18}
\* vowel + sign spelled like om
StartsWith(q, p) == Len(q) >= Len(p) /\ \A i \in DOMAIN p : q[i] = p[i]
OmPairs(s) == IF Glyph(s, O) \in {Absent, <<>>} THEN {}
              ELSE {p \in Vow \X ({A(0), A(1), C(24)} \cup {C(i) : i \in 45..49}) : Glyph(s, p[1]) # Absent /\ Glyph(s, p[2]) # Absent
                       /\ StartsWith(Glyph(s, p[1]) \o Glyph(s, p[2]), Glyph(s, O))}
FirstOf(s, t) == IF Glyph(s, t) \in {Absent, <<>>} THEN 0 ELSE Glyph(s, t)[1]
\* a doubled letter and a letter with a diacritic share the doubling sign
Doubled(s) == {<<{x},{H},{y}>> : <<x, y>> \in {p \in Con \X Con : FirstOf(s, p[1]) = FirstOf(s, p[2])
                    /\ (Len(Glyph(s, p[1])) > 1 \/ Len(Glyph(s, p[2])) > 1)}}
Myanmar == {<<{H},Med,{H},Con>>, <<Con,{H},Med,{H}>>}

Confusable(s) ==
  {<<{p[1]},{p[2]}>> : p \in OmPairs(s)} \cup {<<{S(1)},{S(2)}>>, <<{S(2)},{S(1)}>>, <<{H},Vow>>}
  \cup (IF OmPairs(s) # {} \/ s \in {"Burmese","Mon","Ahom","Thai"} THEN {<<{O}>>} ELSE {})
  \cup
  CASE s \in {"Bengali"} -> {<<{H},{C(28)}>>}
    [] s = "Telugu" -> {<<{C(i) : i \in 45..49}>>}    \* read as candrabindu + letter
    [] s \in {"Gurmukhi","GurmukhiLoC"} -> Doubled(s) \cup {<<{C(41)},{H},{C(32)}>>}
    [] s = "Khojki" -> {<<Con,{H},Nukta>>, <<Nukta,{H},Con>>, <<{C(31)},{H},{C(29)}>>}
    [] s \in {"TamilExtended","TamilGrantha"} -> {<<Nukta>>}
    [] s = "Kharoshthi" -> {<<{D(i) : i \in 0..9}>>}    \* signs, not digits, are read back
    [] s = "SylotiNagri" -> {<<{V(0)},{V(4)}>>}
    [] s \in {"TamilBrahmi","Vatteluttu"} -> {<<{V(12)},{C(24)},{H}>>}
    [] s = "Cham" -> {<<{A(2)}>>}
    [] s = "DivesAkuru" -> {<<{C(26),C(27)},{M(4),M(5)}>>}
    [] s = "Kawi" -> {<<{M(7),M(8),M(9)}>>}
    [] s = "MasaramGondi" -> {<<{C(26)},{M(6)}>>}
    [] s \in {"GunjalaGondi","Soyombo"} -> {<<Con,{H}>>}
    [] s = "LimbuLoC" -> {<<{S(0)}>>}
    [] s \in {"Burmese","KhamtiShan"} -> Myanmar
    [] s = "Mon" -> Myanmar \cup {<<{H},{C(27)},{H},Con>>, <<Con,{H},{C(27)},{H}>>}
    [] s = "TaiLaing" -> Myanmar \cup {<<{C(28)}>>}
    [] s = "Shan" -> Myanmar \cup {<<{V(5),M(5)},{C(28)},{H}>>, <<{C(31),C(29)},{H}>>, <<{V(15)}>>}
    [] s = "ShanLoC" -> Myanmar \cup {<<{V(5),M(5)},{C(28)},{H}>>, <<{C(31)},{H}>>}
    [] s \in {"TaiTham","LaoTham","ThamLoC","LueTham","KhuenTham"} -> {<<{H},{C(26)},{H},{C(25)}>>, <<{H},{C(25)},{H},{C(26)}>>}
    [] s = "KhomThai" -> {<<{H},{C(26)},{H}>>, <<{H},{C(26)},Sgn>>}
    [] s = "Tibetan" -> {<<Con,{H},{C(32)}>>, <<{H},{C(28)},{H}>>, <<{C(28)},{H},{C(28)}>>}
    [] s = "TibetanLoC" -> {<<Con,{H},{C(32)}>>, <<{H},{C(28)},{H}>>, <<{C(28)},{H},{C(28)}>>, <<{C(8)}>>, <<{C(39)}>>}
    [] OTHER -> {}

Confusions == TLCEval([s \in InUse \ Latin |-> TLCEval(SetSeq(Confusable(s)))])
Contains(w, p) == \E i \in 1..Len(w) : MatchSeq(w, i, p)
ReadsBack(s, w) == LET q == Render(s, w) IN q # <<>> /\ ReadIn(s, q) = w /\ ~Trap(s, Normal(s, q)) /\ ~Torn(s, Normal(s, q), 1)
Legible(s, w) == IF s \in Latin THEN ReadsBack(s, w) ELSE IF s \in Alphabets \cup {"OldPersian","Thaana"} THEN FALSE ELSE
                 /\ \A i \in DOMAIN w : IsTok(w[i]) => w[i] \in OwnLetters[s]
                 /\ \A k \in DOMAIN Confusions[s] : ~Contains(w, Confusions[s][k])
=============================================================================
