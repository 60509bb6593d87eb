------------------------------- MODULE Roman --------------------------------
(* Romanisation: how the Latin (and other alphabetic) schemes write a text.   *)
(* An alphabet has no inherent vowel: every consonant letter first carries an *)
(* explicit schwa, which a vowel sign or a virama removes; independent vowels *)
(* are marked until hiatus has been made visible.                             *)
EXTENDS Shaping

Schwa == 61440     \* stands for the inherent vowel until it is written or removed
Dep   == 7807      \* stands before an independent vowel until hiatus is settled
Vir   == 215       \* the alphabets' own virama: never written
Bar   == 95        \* _ separates what would otherwise be read as one letter
Bsl   == 92  Apos == 39  Quote == 34
StartOfText(pat, out) == Rule(pat, out, <<>>, <<{-2}>>, <<>>, <<>>, <<>>)

RawLetter(s, t) ==
  IF ~IsTok(t) THEN <<t>>
  ELSE IF Kind(t) = kC THEN Glyph(s, t) \o <<Schwa>>
  ELSE IF Kind(t) = kV THEN <<Dep>> \o Glyph(s, t)
  ELSE Glyph(s, t)
Raw(s, w) == Flatten([i \in DOMAIN w |-> RawLetter(s, w[i])])

Chars(q) == {q[i] : i \in DOMAIN q}
IU(s) == Chars(v(s,2)) \cup Chars(v(s,4))
Signs(s) == {q \in Sgns(s) : TRUE} \cup {<<Vir>>}
SetAlts(Q, F(_)) == LET q == SetSeq(Q) IN Cat([i \in 1..Len(q) |-> F(q[i])])

Hiatus(s) ==
  << RAfter(<<IU(s)>>, <<Bar,-1>>, <<{Schwa},{Dep}>>),
     RAfter(<<IU(s)>>, <<Bar,-1>>, <<{Dep}>> \o Lits(v(s,0)) \o <<{Dep}>>) >>
\* k + h is not kh
StopPlusH(s) == << Cat([i \in DOMAIN Unasp |-> L(c(s,Unasp[i]) \o <<Schwa,Vir>> \o c(s,32), c(s,Unasp[i]) \o <<Bar>> \o c(s,32))]) >>
BareBeforeVowel(s) == << SetAlts(Vows(s), LAMBDA q : RBefore(<<{Schwa},{Vir}>>, <<Bar,Vir>>, Lits(q))) >>
SchwaLost(s) == << SetAlts(Signs(s), LAMBDA q : RBefore(<<{Schwa}>>, <<>>, Lits(q))) >>
Alphabetic(s) ==
  Hiatus(s) \o StopPlusH(s) \o BareBeforeVowel(s) \o SchwaLost(s)
  \o << L(<<Schwa>>, v(s,0)), Drop({Dep}), Drop({Vir}) >>

(* ---- Vedic accents ---- *)
Udatta == \h0951  Anudatta == \h0952  Dirgha == \h1CDA  Ang == \hA8F3  Anng == \hA8F4
Accented == {"IAST","IASTPali","ISO","Titus","ISOPali"}
Escapes == {"HK","Itrans","Velthuis","SLP1","WX"}
Ayogavaha(s) == {Gl(s,kA,i) : i \in 0..2}
\* an accent goes onto the vowel, before anusvara and visarga
AccentBeforeSign(s, Acc) == << SetAlts(Ayogavaha(s), LAMBDA q : R(Lits(q) \o <<Acc>>, <<-(Len(q) + 1)>> \o q)) >>
Accents(s) ==
  CASE s \in Accented ->
         << L(<<Udatta>>, <<\h030D>>) \o L(<<Dirgha>>, <<\h030E>>) \o L(<<Anudatta>>, <<\h0331>>)
            \o L(<<Anng>>, <<\h67,\h036B,\h0304>>) \o L(<<Ang>>, <<\h67,\h036B>>) >>
         \o AccentBeforeSign(s, {\h030D,\h030E,\h0331})
    [] s = "RussianCyrillic" ->
         << L(<<Udatta>>, <<\h030D>>) \o L(<<Dirgha>>, <<\h030E>>) \o L(<<Anudatta>>, <<\h0331>>)
            \o L(<<Anng>>, <<\h0433,\h0361,\h043C>>) \o L(<<Ang>>, <<\h0433,\h035C,\h043C>>) >>
         \o AccentBeforeSign(s, {\h030D,\h030E,\h0331})
    [] s \in Escapes ->
         << L(<<Udatta>>, <<Bsl,Apos>>) \o L(<<Dirgha>>, <<Bsl,Quote>>) \o L(<<Anudatta>>, <<Bsl,Bar>>)
            \o L(<<Anng>>, <<Bsl,\h6D,\h2B,\h2B>>) \o L(<<Ang>>, <<Bsl,\h6D,\h2B>>) >>
    [] s \in {"RomanReadable","RomanColloquial"} ->
         << Drop({Udatta,Dirgha,Anudatta}) \o L(<<Anng>>, <<103,103,117,109>>) \o L(<<Ang>>, <<103,117,109>>) >>
    [] s = "IPA" ->
         << L(<<Udatta>>, <<\h2191>>) \o L(<<Dirgha>>, <<\h2191,\h2191>>) \o L(<<Anudatta>>, <<\h2193>>)
            \o L(<<Anng>>, <<\h67,\h036B,\h0304>>) \o L(<<Ang>>, <<\h67,\h036B>>) >>
    [] OTHER ->
         << L(<<Udatta>>, <<\h2191>>) \o L(<<Dirgha>>, <<\h2191,\h2191>>) \o L(<<Anudatta>>, <<\h2193>>) >>

(* ---- the schemes' own habits ---- *)
Kashmiri(s) == IF s \in {"IAST","ISO","ISOPali","Titus"}
  THEN << L(<<\h75,\h02BC>>, <<\hFC>>), L(<<\h016B,\h02BC>>, <<\h01D6>>), L(<<\h61,\h02BC>>, <<\hF6>>), L(<<\h0101,\h02BC>>, <<\h022B>>) >>
  ELSE <<>>

Ipa == << L(<<\h02D0,\h0303>>, <<\h0303,\h02D0>>),
          R(<<ANY,{\h02D0},{\h68}>>, <<-1,-2,-3,-1,\h0306>>) \o R(<<ANY,{\h68}>>, <<-1,-2,-1,\h0306>>),
          L(<<\h0259,\h0338,\h0259,\h0338>>, <<\h0251,\h0337,\h02D0>>) >>

LatVow == {97,101,105,111,117}
WordChar == (48..57) \cup (65..90) \cup (97..122) \cup {95, \h4E2D}
\* nya before a vowel is ny; a nasal before its stop is assimilated
Readable(nasal) ==
  << R(<<LatVow,{110},{106},LatVow>>, <<-1,110,121,-4>>),
     R(<<Not(WordChar),{110},{106},LatVow>>, <<-1,110,121,-4>>),
     StartOfText(<<{110},{106},LatVow>>, <<110,121,-3>>),
     L(<<110,106,110,106>>, <<110,110,121>>),
     L(<<77,107>>, <<110,103,107>>) \o L(<<77,103>>, <<110,103,103>>) \o L(<<77,99>>, <<110,106,99>>) \o L(<<77,106>>, <<110,106,106>>)
       \o L(<<77,100>>, <<110,100>>) \o L(<<77,116>>, <<110,116>>) \o L(<<77,98>>, <<109,98>>) \o L(<<77,112>>, <<109,112>>),
     L(<<77>>, nasal),
     L(<<110,103,107>>, <<110,107>>), L(<<110,103,103>>, <<110,103>>), L(<<110,106,99>>, <<110,99>>), L(<<110,106,106>>, <<110,106>>),
     L(<<106,110,106>>, <<106,110,121>>) >>

Santali == << L(<<\h1C79,\h1C78>>, <<\h1C7A>>), L(<<\h1C7B,\h1C78>>, <<\h1C78,\h1C7B>>) >>
SoraSompeng == << After(Cons("SoraSompeng"), <<{\h0259}>>, <<>>), L(<<\h0259>>, <<\h110E6,\h110E8>>) >>
Mro == << L(<<\h16A43,\h16A62>>, <<\h16A4E>>), L(<<\h16A4C,\h16A62>>, <<\h16A59>>), L(<<\h16A4D,\h16A62>>, <<\h16A5A>>),
          L(<<\h16A4D,\h16A63>>, <<\h16A5B>>), L(<<\h16A49,\h16A62>>, <<\h16A5C>>), L(<<\h16A40,\h16A62>>, <<\h16A5E>>) >>
Wancho ==
  << L(<<Bsl,95>>, <<\h1E2EC>>) \o L(<<Bsl,45>>, <<\h1E2ED>>) \o L(<<Bsl,33>>, <<\h1E2EE>>) \o L(<<Bsl,59>>, <<\h1E2EF>>),
     L(<<\h1E2D5,\h02BF>>, <<\h1E2E6>>) \o L(<<\h1E2DB,\h02BF>>, <<\h1E2E7>>) \o L(<<\h1E2C0,\h02BF>>, <<\h1E2E8>>) \o L(<<\h1E2DE,\h02BF>>, <<\h1E2EA>>),
     L(<<\h02BF>>, <<\h1E2C9>>),
     L(<<\h1E2D5,\h02BE>>, <<\h1E2E2>>) \o L(<<\h1E2C0,\h02BE>>, <<\h1E2E3>>) \o L(<<\h1E2C1,\h02BE>>, <<\h1E2E4>>) \o L(<<\h1E2DC,\h02BE>>, <<\h1E2E5>>),
     L(<<\h02BE>>, <<\h1E2DD>>),
     L(<<\h1E2CB,\h1E2D7>>, <<\h1E2E1>>), L(<<\h1E2CB,\h1E2CE>>, <<\h1E2E0>>), L(<<\h1E2D3,\hD8>>, <<\h1E2D2>>), Drop({\hD8}) >>

Habits(s) ==
  CASE s = "IPA" -> Ipa
    [] s = "Santali" -> Santali
    [] s = "SoraSompeng" -> SoraSompeng
    [] s = "Mro" -> Mro
    [] s = "Wancho" -> Wancho
    [] s = "RomanReadable" -> Readable(<<109,Apos>>)
    [] s = "RomanColloquial" -> Readable(<<109>>) \o << Drop({Apos,95}) >>
    [] s \in {"IAST","IASTPali"} -> << L(<<97,95,105>>, <<97,\hEF>>), L(<<97,95,117>>, <<97,\hFC>>) >>
    [] s \in {"ISO","ISOPali"} -> << L(<<97,95,105>>, <<97,58,105>>), L(<<97,95,117>>, <<97,58,117>>) >>
    [] s = "Itrans" -> << R(<<{97,65,105,73,117,85,101,111},{82},{82},{105,73}>>, <<-1,82,95,76,-4>>),
                          R(<<{97,65,105,73,117,85,101,111},{76},{76},{105,73}>>, <<-1,76,95,76,-4>>) >>
    [] OTHER -> <<>>

Latin == {"IAST","IASTPali","ISO","ISOPali","Titus","HK","Itrans","Velthuis","SLP1","WX","RussianCyrillic","RomanReadable",
          "RomanColloquial","IPA","Aksharaa","Ariyaka","TolongSiki","RomanKana","BarahaNorth","BarahaSouth","SoraSompeng",
          "Wancho","Mro","Santali"}
\* an avagraha written with an apostrophe would be read as part of an accent before it
Apart(s) == IF Gl(s,kS,0) \in {<<39>>, <<39,Mark>>} /\ s # "RomanColloquial"
            THEN << L(<<Udatta>> \o Gl(s,kS,0), <<Udatta,\h200B>> \o Gl(s,kS,0)) >> ELSE <<>>
RomanOrthography(s) == Alphabetic(s) \o Apart(s) \o <<Drop({Mark})>> \o Accents(s) \o Kashmiri(s) \o Habits(s)
=============================================================================
