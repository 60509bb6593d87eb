------------------------------ MODULE Spelling ------------------------------
(* How each script writes a text: the orthography table and Render.          *)
EXTENDS ShapingAsia, ShapingRare

CONSTANT InUse          \* the scripts this run spells
OrthographyOf(s) ==
  CASE s = "Assamese" -> Assamese [] s = "Bengali" -> Bengali
    [] s \in {"Gurmukhi","GurmukhiLoC"} -> Gurmukhi(s)
    [] s = "Kannada" -> Kannada [] s = "Malayalam" -> Malayalam [] s = "Sinhala" -> Sinhala
    [] s = "Tamil" -> Tamil [] s = "Telugu" -> Telugu [] s = "Gujarati" -> Gujarati
    [] s = "Devanagari" -> Devanagari [] s = "TamilExtended" -> TamilExtended
    [] s = "TamilGrantha" -> TamilGrantha [] s = "Grantha" -> Grantha [] s = "Sharada" -> Sharada
    [] s = "OldPersian" -> OldPersian [] s = "Thaana" -> Thaana
    [] OTHER -> AsiaRules(s)

Orthography == TLCEval([s \in InUse |-> Compile(
  IF s \in Latin THEN RomanOrthography(s) ELSE IF s \in Alphabets THEN AlphabetOrthography(s)
  ELSE OrthographyOf(s) \o <<Drop({Mark})>> \o HopDiacritic(s) \o TailSteps(s))])

\* texts the implementation is known to spell wrongly (known-findings.json): they are
\* replayed separately, so that any OTHER deviation is still a violation
Follows(w, P, Q) == \E i \in 1..Len(w) - 1 : w[i] \in P /\ w[i + 1] \in Q
Nasal(t) == t \in {A(0), A(1)} \cup {C(i) : i \in 45..49} \cup {O}
Vocalic == {V(i) : i \in 6..9} \cup {M(i) : i \in 6..9}
Known(s, w) ==
  CASE s = "GunjalaGondi" -> \/ Follows(w, {C(9)}, {C(i) : i \in (5..8) \cup {40}})
                             \/ Follows(w, {C(14)}, {C(i) : i \in (10..13) \cup {41,42}})
    \* the anusvara of a conjunct syllable goes before the syllable before it as well
    [] s = "Mongolian" -> (\E i \in 1..Len(w) - 1 : w[i] \in Vocalic /\ Nasal(w[i + 1])) \/ (\E i \in DOMAIN w : \E d \in 2..4 : i + d <= Len(w) /\ w[i] = H /\ Nasal(w[i + d]))
    [] OTHER -> FALSE

\* Kharoshthi writes numbers by adding up signs: 274 = 2 100 20 20 20 10 4
KSign(n) == CASE n = 1 -> \h10A40 [] n = 2 -> \h10A41 [] n = 3 -> \h10A42 [] n = 4 -> \h10A43
              [] n = 10 -> \h10A44 [] n = 20 -> \h10A45 [] n = 100 -> \h10A46 [] n = 1000 -> \h10A47
Many(n, sign) == [i \in 1..n |-> sign]
RECURSIVE Kharoshthi(_)
Times(n, sign) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<sign>> ELSE Kharoshthi(n) \o <<sign>>
Kharoshthi(n) ==
  Times(n \div 1000, KSign(1000)) \o Times((n % 1000) \div 100, KSign(100))
  \o Many((n % 100) \div 20, KSign(20)) \o Many((n % 20) \div 10, KSign(10))
  \o Many((n % 10) \div 4, KSign(4))
  \o (IF (n % 10) % 4 > 0 THEN <<KSign((n % 10) % 4)>> ELSE <<>>)
\* Old Persian likewise: as many signs of a hundred, twenty, ten, two and one as are needed
Persian(n) == Many(n \div 100, \h103D5) \o Many((n % 100) \div 20, \h103D4) \o Many((n % 20) \div 10, \h103D3)
              \o Many((n % 10) \div 2, \h103D2) \o Many(n % 2, \h103D1)
Additive == {"Kharoshthi","OldPersian"}
Numeral(s, n) == IF s = "Kharoshthi" THEN Kharoshthi(n) ELSE Persian(n)
\* the number written from place i on, and where it ends
IsDigit(x) == Is(x, kD)
RECURSIVE NumberAt(_, _, _)
NumberAt(q, i, n) == IF i \in DOMAIN q /\ IsDigit(q[i]) THEN NumberAt(q, i + 1, 10 * n + Idx(q[i])) ELSE <<n, i>>
RECURSIVE Numbers(_, _, _)
Numbers(s, q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE IF IsDigit(q[i]) THEN LET x == NumberAt(q, i, 0) IN Numeral(s, x[1]) \o Numbers(s, q, x[2])
  ELSE <<q[i]>> \o Numbers(s, q, i + 1)
\* zero has no sign; next to it letters do not see each other
Zero(s, w) == s = "OldPersian" /\ \E i \in DOMAIN w : w[i] = D(0) /\ (i = 1 \/ ~Is(w[i - 1], kD)) /\ (i = Len(w) \/ ~Is(w[i + 1], kD))
LongNumber(w) == \E i \in 1..Len(w) - 6 : \A j \in i..i + 6 : Is(w[j], kD)
Written(s, q) == IF s \in Additive THEN Numbers(s, q, 1) ELSE q

Lacks(s, w) == \E i \in DOMAIN w : Glyph(s, w[i]) = Absent
Render(s, w) == IF Lacks(s, w) \/ Known(s, w) \/ Zero(s, w) \/ (s \in Additive /\ LongNumber(w)) THEN <<>>
                ELSE ApplyAll(IF s \in Latin \cup Alphabets THEN Raw(s, w) ELSE LET q == Written(s, w) IN Flatten([i \in DOMAIN q |-> Glyph(s, q[i])]), Orthography[s])
=============================================================================
