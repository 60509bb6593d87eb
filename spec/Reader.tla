------------------------------- MODULE Reader -------------------------------
(* Reading a Latin (or other alphabetic) scheme.  The reader takes the longest *)
(* letter of the scheme at every position; a consonant takes the vowel that     *)
(* follows it as its sign, and is mute (virama) when none follows.              *)
EXTENDS Spelling

\* the pieces of a scheme: spellings and the letters they stand for
Piece(s, k, i) == [at |-> Gl(s, k, i), to |-> Tok(k, i)]
Usable(q) == q # Absent /\ q # <<>> /\ \A i \in DOMAIN q : q[i] \notin {Mark, Aux, Aux2}   \* letters with a mark are written, never read
PieceKinds == <<kC, kV, kA, kS, kD>>
PiecesOf(s) ==
  LET all == Flatten([k \in DOMAIN PieceKinds |-> Flatten([i \in Idxs(s, PieceKinds[k]) |->
                IF Usable(Gl(s, PieceKinds[k], i - 1)) THEN <<[at |-> Gl(s, PieceKinds[k], i - 1), to |-> <<Tok(PieceKinds[k], i - 1)>>, sort |-> PieceKinds[k]]>> ELSE <<>>])])
  IN TLCEval([i \in DOMAIN all |-> TLCEval(all[i])])
kAccent == 10  kOther == 11
AccentPieces(s) ==
  LET P(q, x) == [at |-> q, to |-> <<x>>, sort |-> kAccent]
      two(u, d, a) == <<P(u, Udatta), P(d, Dirgha), P(a, Anudatta)>> \o (IF d # <<\h2191,\h2191>> THEN <<P(u \o <<Apos>>, Dirgha)>> ELSE <<>>) \o (IF d[1] = Bsl THEN <<P(<<Bsl,96>>, Anudatta)>> ELSE <<>>)
  IN CASE s \in Accented -> two(<<\h030D>>, <<\h030E>>, <<\h0331>>)
       [] s = "RussianCyrillic" -> two(<<\h030D>>, <<\h030E>>, <<\h0331>>)
       [] s \in Escapes -> two(<<Bsl,Apos>>, <<Bsl,Quote>>, <<Bsl,Bar>>)
       [] s \in {"RomanReadable","RomanColloquial"} -> <<>>
       [] OTHER -> two(<<\h2191>>, <<\h2191,\h2191>>, <<\h2193>>)
\* other ways to type the same letters
Alt(q, l) == [at |-> q, to |-> l, sort |-> kOther]
Str == [x \in {"aa","ii","ee","uu","oo","RRi","RRI","LLi","LLI","N^","JN","chh","shh","x","GY",".n",".m",".h","dny","w","kS"} |->
   CASE x = "aa" -> <<97,97>> [] x = "ii" -> <<105,105>> [] x = "ee" -> <<101,101>> [] x = "uu" -> <<117,117>> [] x = "oo" -> <<111,111>>
     [] x = "RRi" -> <<82,82,105>> [] x = "RRI" -> <<82,82,73>> [] x = "LLi" -> <<76,76,105>> [] x = "LLI" -> <<76,76,73>>
     [] x = "N^" -> <<78,94>> [] x = "JN" -> <<74,78>> [] x = "chh" -> <<99,104,104>> [] x = "shh" -> <<115,104,104>>
     [] x = "x" -> <<120>> [] x = "GY" -> <<71,89>> [] x = ".n" -> <<46,110>> [] x = ".m" -> <<46,109>> [] x = ".h" -> <<46,104>>
     [] x = "dny" -> <<100,110,121>> [] x = "w" -> <<119>> [] x = "kS" -> <<107,83>> ]
Upper(q) == IF q[1] \in 97..122 THEN <<q[1] - 32>> \o Tail(q) ELSE q
Big == {<<C(j)>> : j \in {0,1,9,17,28,32,33}} \cup {<<V(j)>> : j \in {0,2,5,12}}
Capitals(P) == Flatten([i \in DOMAIN P |-> IF P[i].to \in Big /\ P[i].at # <<>> /\ Upper(P[i].at) # P[i].at THEN <<Alt(Upper(P[i].at), P[i].to)>> ELSE <<>>])
\* capital letters carry no meaning in the diacritic schemes
Caseless == {"IAST","ISO","Titus","IPA","IASTPali","ISOPali"}
Alternates(s) ==
  (IF s \in Caseless THEN Capitals(PiecesOf(s)) ELSE <<>>)
  \o
  CASE s = "Itrans" ->
         << Alt(Str["aa"], <<V(1)>>), Alt(Str["ii"], <<V(3)>>), Alt(Str["ee"], <<V(3)>>), Alt(Str["uu"], <<V(5)>>), Alt(Str["oo"], <<V(5)>>),
            Alt(Str["RRi"], <<V(6)>>), Alt(Str["RRI"], <<V(7)>>), Alt(Str["LLi"], <<V(8)>>), Alt(Str["LLI"], <<V(9)>>),
            Alt(Str["N^"], <<C(4)>>), Alt(Str["JN"], <<C(9)>>), Alt(Str["chh"], <<C(6)>>), Alt(Str["shh"], <<C(30)>>),
            Alt(Str["x"], <<C(0),C(30)>>), Alt(Str["kS"], <<C(0),C(30)>>), Alt(Str["kS"] \o <<104>>, <<C(0),C(30)>>), Alt(Str["GY"], <<C(7),C(9)>>), Alt(Str["dny"], <<C(7),C(9)>>),
            Alt(Str["w"], <<C(28)>>), Alt(Str[".n"], <<A(1)>>), Alt(Str[".m"], <<A(1)>>), Alt(Str[".h"], <<>>) >>
    [] s \in {"IAST","IASTPali"} -> << Alt(<<97,\hEF>>, <<V(0),V(2)>>), Alt(<<97,\hFC>>, <<V(0),V(4)>>), Alt(<<\h303>>, <<A(1)>>) >>
         \o (IF s = "IAST" THEN <<Alt(<<\h1E41>>, <<A(1)>>)>> ELSE <<>>)
    [] s \in {"ISO","ISOPali"} -> << Alt(<<97,58,105>>, <<V(0),V(2)>>), Alt(<<97,58,117>>, <<V(0),V(4)>>), Alt(<<\h1E43>>, <<A(1)>>), Alt(<<\h303>>, <<A(1)>>) >>
    [] OTHER -> <<>>
\* joiners and separators
Joiners == << Alt(<<123,125>>, <<\h200C>>), Alt(<<40,41>>, <<\h200D>>), Alt(<<95>>, <<95>>) >>
Foreign == << Alt(<<32>>, <<32>>), Alt(<<\h4E2D>>, <<\h4E2D>>), Alt(<<61>>, <<61>>) >>
Read0 == InUse \cap Latin
AlphabetOf == TLCEval([s \in Read0 |-> PiecesOf(s) \o AccentPieces(s) \o Alternates(s)])
Alphabet(s) == AlphabetOf[s]
LongestFirst(P) == Flatten([n \in 1..8 |-> SelectSeq(P, LAMBDA p : Len(p.at) = 9 - n)])
Heads == TLCEval([s \in Read0 |-> TLCEval({Alphabet(s)[i].at[1] : i \in {j \in DOMAIN Alphabet(s) : Alphabet(s)[j].at # <<>>}})])
Pieces == TLCEval([s \in Read0 |-> TLCEval([x \in Heads[s] |->
   TLCEval(LongestFirst(SelectSeq(Alphabet(s), LAMBDA p : p.at # <<>> /\ p.at[1] = x)))])])

At(q, i, p) == i + Len(p) - 1 <= Len(q) /\ \A k \in 1..Len(p) : q[i + k - 1] = p[k]
RECURSIVE FirstPiece(_, _, _, _)
FirstPiece(q, i, P, k) == IF k > Len(P) THEN 0 ELSE IF At(q, i, P[k].at) THEN k ELSE FirstPiece(q, i, P, k + 1)

\* om is a letter of its own only where it stands alone
Ascii == ((33..47) \cup (58..64) \cup (91..96) \cup (123..126))
OmIn(s) == Gl(s,kO,0)
Edge(s, q, i) == i \notin DOMAIN q \/ q[i] \in {9,10,32} \cup (Ascii \ (IF s = "Itrans" THEN {94} ELSE {}))
StandsAlone(s, q, i) == OmIn(s) \notin {<<0>>, <<>>} /\ At(q, i, OmIn(s)) /\ Edge(s, q, i - 1) /\ Edge(s, q, i + Len(OmIn(s)))

\* the letters of a Latin text, vowels still on their own
RECURSIVE Letters(_, _, _)
Letters(s, q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE LET P == IF q[i] \in Heads[s] THEN Pieces[s][q[i]] ELSE <<>>
           k == FirstPiece(q, i, P, 1)
       IN IF StandsAlone(s, q, i) THEN <<O>> \o Letters(s, q, i + Len(OmIn(s)))
          ELSE IF k = 0 THEN <<q[i]>> \o Letters(s, q, i + 1)
          ELSE P[k].to \o Letters(s, q, i + Len(P[k].at))

\* the syllables they make
\* (arrows stay where they were typed; other accents go behind anusvara and visarga)
RECURSIVE Syllables(_, _, _)
Syllables(l, i, arrows) ==
  LET nx == IF i < Len(l) THEN l[i + 1] ELSE 0 IN
  IF i > Len(l) THEN <<>>
  ELSE IF Is(l[i], kC) THEN
         IF nx = V(0) THEN <<l[i]>> \o Syllables(l, i + 2, arrows)
         ELSE IF Is(nx, kV) THEN <<l[i], M(Idx(nx))>> \o Syllables(l, i + 2, arrows)
         ELSE IF nx = Bar THEN <<l[i], H>> \o Syllables(l, i + 2, arrows)
         ELSE <<l[i], H>> \o Syllables(l, i + 1, arrows)
  ELSE IF l[i] = Bar /\ nx \in {V(2), V(4)} THEN Syllables(l, i + 1, arrows)
  ELSE IF l[i] \in Accent /\ Is(nx, kA) /\ ~arrows THEN <<nx, l[i]>> \o Syllables(l, i + 2, arrows)
  ELSE <<l[i]>> \o Syllables(l, i + 1, arrows)

\* In ITRANS, RRi and LLi after a vowel are two consonants; and some of its many
\* alternative spellings run into each other: such pages are not typed.
Has(q, p) == \E i \in 1..Len(q) - Len(p) + 1 : At(q, i, p)
Traps == {<<105,105,105>>, <<117,117,117>>, <<97,97,97>>, <<101,101,101>>, <<111,111,111>>, <<126,78,94>>, <<78,94,101>>, <<78,94,111>>, <<94,101,101>>, <<94,111,111>>, <<82,105,105>>, <<94,105,105>>, <<76,105,105>>}
VowelLetters == {97,65,105,85,117,101,111,69,79,73}
Syllabic(q) == \E i \in 1..Len(q) - 3 : q[i] \in VowelLetters /\ q[i+1] \in {82,76} /\ q[i+2] = q[i+1] /\ q[i+3] \in {105,73}
Trap(s, q) == CASE s = "Aksharaa" -> Has(q, <<95,107>>) \/ Has(q, <<95,112>>)
                [] s = "Velthuis" -> Has(q, <<95,107>>) \/ Has(q, <<95,112>>) \/ Has(q, <<111,126,109>>)
                [] s = "Itrans" -> Syllabic(q) \/ \E t \in Traps : Has(q, t)
                [] s \in {"BarahaNorth","BarahaSouth"} -> \E t \in {<<111,117>>, <<99,104>>, <<115,104>>, <<122,104>>, <<67,104>>, <<75,120>>} : Has(q, t)
                [] s = "RomanKana" -> Has(q, <<103,117>>) \/ Has(q, <<98,117>>)
                [] OTHER -> FALSE
\* capitals are small letters; other anusvaras are the scheme's own
OneAnusvara(s, x) == IF (s = "IAST" /\ x = \h1E41) \/ (s \in {"IAST","IASTPali"} /\ x = \h303) THEN \h1E43
                     ELSE IF s \in {"ISO","ISOPali"} /\ x \in {\h1E43, \h303} THEN \h1E41 ELSE x
Normal(s, q) == [i \in DOMAIN q |-> OneAnusvara(s, IF s \in Caseless /\ q[i] \in 65..90 THEN q[i] + 32 ELSE q[i])]
LettersOf(s, q) == Letters(s, Normal(s, q), 1)
Arrows(s) == s \notin Accented \cup Escapes \cup {"RussianCyrillic","RomanReadable","RomanColloquial"}
SyllablesOf(s, l) == Syllables(l, 1, Arrows(s))
ReadIn(s, q) == SyllablesOf(s, LettersOf(s, q))

\* a letter as long as the one read, straddling its end: it could be read otherwise
LengthAt(s, q, i) == LET P == IF q[i] \in Heads[s] THEN Pieces[s][q[i]] ELSE <<>>
                         k == FirstPiece(q, i, P, 1) IN IF k = 0 THEN 1 ELSE Len(P[k].at)
RECURSIVE Torn(_, _, _)
Torn(s, q, i) ==
  IF i > Len(q) THEN FALSE
  ELSE LET n == LengthAt(s, q, i) IN
       \/ \E j \in i + 1..i + n - 1 : LengthAt(s, q, j) >= n /\ j + LengthAt(s, q, j) > i + n
       \/ Torn(s, q, i + n)
=============================================================================
