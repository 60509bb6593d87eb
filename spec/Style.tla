------------------------------- MODULE Style --------------------------------
(* Styles of writing.  Nativized: how the script is customarily written today,   *)
(* without marks that only serve transliteration.  Optional: spellings a client   *)
(* asks for by name.  Both are stated as further rewriting steps on the spelled   *)
(* text, in the order asked for.                                                  *)
EXTENDS Variants

CONSTANT Words          \* Tamil words beginning with na (data/tamil-na.json)

Signary(s) == (Cons(s) \cup Vows(s) \cup Sgns(s) \cup Row(s, kA) \cup Row(s, kN)) \ {<<>>, Absent}
Ends(s)   == Lasts(Signary(s)) \cup {h1(s)}
Starts(s) == Firsts(Signary(s)) \cup {h1(s)}
anu(s) == Gl(s, kA, 1)
Varga(s, i, k) == {c1(s, 5 * i + j) : j \in 0..k}
Nas(s, i) == c(s, 5 * i + 4)

\* a nasal before a stop of its class is written as anusvara, accents after it
NasalToAnusvara(s) ==
  [i \in 1..5 |->
     Rule(Lits(Nas(s, i-1) \o h(s)), anu(s), <<Ends(s) \ {h1(s)}>>, <<>>, <<Varga(s, i-1, 3)>>, <<>>, <<>>)
     \o Rule(Lits(Nas(s, i-1) \o h(s)), anu(s), <<Ends(s), Svara>>, <<>>, <<Varga(s, i-1, 3)>>, <<>>, <<>>)]
  \o << R(<<Svara, {anu(s)[1]}>>, <<-2, -1>>) >>
\* an m closing a syllable (not a conjunct) at the end of a word is an anusvara
MToAnusvara(s) ==
  << Rule(Lits(c(s, 24) \o h(s)), anu(s), <<Ends(s) \ {h1(s)}>>, <<>>, <<>>, <<Starts(s)>>, <<>>)
     \o Rule(Lits(c(s, 24) \o h(s)), anu(s), <<Ends(s), Svara>>, <<>>, <<>>, <<Starts(s)>>, <<>>),
     R(<<Svara, {anu(s)[1]}>>, <<-2, -1>>) >>
\* the other way round: an anusvara before a stop is the nasal of its class (nukta: characters that change the stop)
AnusvaraToNasal(s, nukta) ==
  [i \in 1..5 |->
     Rule(Lits(anu(s)), Nas(s, i-1) \o h(s), <<>>, <<>>, <<Varga(s, i-1, 3)>>, <<Varga(s, i-1, 3), nukta>>, <<>>)
     \o Rule(Lits(anu(s)) \o <<Svara>>, Nas(s, i-1) \o h(s) \o <<-(Len(anu(s)) + 1)>>, <<>>, <<>>, <<Varga(s, i-1, 3)>>, <<Varga(s, i-1, 3), nukta>>, <<>>)]

\* ya within a word (after a letter or avagraha) is written yya; of several in a row, every other one
YaToYYa(s, more) ==
  LET before == Ends(s) \cup {Last(Gl(s, kS, 0))} \cup more IN
  << R(<<before>> \o Lits(c(s, 25)), <<-1>> \o c(s, 44)) \o R(<<before, Svara>> \o Lits(c(s, 25)), <<-1, -2>> \o c(s, 44)) >>
Same(s, i, j) == L(c(s, i), c(s, j))
Each(xs, ys) == [i \in DOMAIN xs |-> L(<<xs[i]>>, <<ys[i]>>)]

GurmukhiTippi ==
  LET s == "Gurmukhi" IN
  << RAfter(<<{\h0A02}>>, <<\h0A70>>, <<Lasts(Cons(s)) \cup {x[1] : x \in {v(s,0), v(s,2), v(s,4), m(s,2), m(s,4), m(s,5)}}>>) >>
TippiGemination == << RBefore(<<{\h0A71}>>, <<\h0A70>>, <<{\h0A28, \h0A2E}>>) >>

AhomClosed ==
  LET vir == {h1("Ahom")} a == anu("Ahom") IN
  << L(<<\h11722>>, <<\h11723>>), R(<<{\h11723}, ANY, vir>>, <<\h11722, -2, -3>>), L(a \o <<\h11723>>, a \o <<\h11722>>),
     L(<<\h11724>>, <<\h11725>>), R(<<{\h11725}, ANY, vir>>, <<\h11724, -2, -3>>), L(a \o <<\h11725>>, a \o <<\h11724>>),
     R(<<{\h11726}, {\h11727}, ANY, vir>>, <<\h11726, -3, -4>>), L(<<\h11726, \h1172A, \h11727>>, a \o <<\h11727>>),
     R(<<{\h11726}, {\h11721}, ANY, vir>>, <<\h11728, -3, -4>>), L(<<\h11726, \h1172A, \h11721>>, a \o <<\h11728>>) >>

MalayalamNasals ==
  LET s == "Malayalam" nas(i, from, to) == Rule(Lits(anu(s)), Nas(s, i) \o h(s), <<>>, <<>>, <<{c1(s, 5*i + j) : j \in from..to}>>, <<>>, <<>>)
      chillu == {\h0D7A, \h0D7B, \h0D7C, \h0D7D, \h0D7E, \h0D29, \h200D, \h2E}
      back(i, from, to) == Rule(Lits(Nas(s, i) \o h(s)), anu(s), <<Ends(s) \ ({h1(s)} \cup chillu)>>, <<>>, <<{c1(s, 5*i + j) : j \in from..to}>>, <<>>, <<>>)
                           \o Rule(Lits(Nas(s, i) \o h(s)), anu(s), <<Ends(s), Svara>>, <<>>, <<{c1(s, 5*i + j) : j \in from..to}>>, <<>>, <<>>)
  IN << nas(0,0,0), nas(1,0,2), nas(2,0,3), nas(3,0,3), nas(4,0,0), back(0,1,3), back(4,1,3) >>

OldLetters(s) ==      \* letters out of use
  CASE s = "MeeteiMayek" -> << L(<<\hAAE2>>, <<\hABC6>>), L(<<\hAAE3>>, <<\hABC5>>), L(<<\hAAE4>>, <<\hABC7>>), L(<<\hAAE5>>, <<\hABCA>>), L(<<\hAAE6>>, <<\hABD7>>), L(<<\hAAE7>>, <<\hABD9>>), L(<<\hAAE8>>, <<\hABC5>>), L(<<\hAAE9>>, <<\hABC1>>), L(<<\hAAEA>>, <<\hABC1>>),
                               L(<<\hAAF5>>, <<\hABCD, \hABED>>), L(<<\hABD1, \hAAEB>>, <<\hABCF>>), L(<<\hABD1, \hAAEC>>, <<\hABCE>>), L(<<\hAAEB>>, <<\hABE4>>), L(<<\hAAEC>>, <<\hABE8>>) >>
    [] s = "Limbu" -> << L(<<\h1909>>, <<\h1908>>), L(<<\h190A>>, <<\h190F>>), L(<<\h191A>>, <<\h1919>>), L(<<\h1932>>, <<\h1931>>) >>
    [] s = "Sundanese" -> << L(<<\h1BAA, \h1BBB>>, <<\h1BA2, \h1BA9>>), L(<<\h1BAA, \h1BBC>>, <<\h1BA3, \h1BA9>>), L(<<\h1BBB>>, <<\h1B9B, \h1BA9>>), L(<<\h1BBC>>, <<\h1B9C, \h1BA9>>), L(<<\h1BBD>>, <<\h1B98>>) >>
    [] s = "Modi" -> << L(<<\h11602>>, <<\h11603>>), L(<<\h11605>>, <<\h11604>>), L(<<\h11631>>, <<\h11632>>), L(<<\h11634>>, <<\h11633>>),
                        L(<<\h11606>>, <<\h11628, \h11632>>), L(<<\h11607>>, <<\h11628, \h11632>>), L(<<\h11608>>, <<\h11629, \h11632>>), L(<<\h11609>>, <<\h11629, \h11632>>),
                        L(<<\h11635>>, <<\h1163F, \h11628, \h11632>>), L(<<\h11636>>, <<\h1163F, \h11628, \h11632>>), L(<<\h11637>>, <<\h1163F, \h11629, \h11632>>), L(<<\h11638>>, <<\h1163F, \h11629, \h11632>>) >>
    [] s = "Thaana" -> << L(<<\h7B1>>, <<\h782>>) >>
    [] s = "Khojki" -> << L(<<\h11241>>, <<\h11235, \h11226, \h1122D>>), L(<<\h11240>>, <<\h11202>>) >>
    [] OTHER -> <<>>

\* Tamil: na at the beginning of a word, nna elsewhere, but for the words known to begin with na (second members of compounds)
NaToNNa ==
  LET s == "Tamil" na == \hBA8 nna == \hBA9 vir == \hBCD ta == \hBA4
      E == (Lasts(Cons(s) \cup Vows(s) \cup Sgns(s)) \cup {vir, \hB2, \hB3, \h2074}) \ {\h2BC}
      og == Gl(s, kS, 0)
      after(pre) == Rule(<<{na}>>, <<nna>>, pre, <<>>, <<>>, <<{vir}, {ta}>>, <<>>)
  IN << after(<<E>>) \o after(<<E, Svara>>) \o after(<<{\hBC1, \hBC2, \hB86, \hB8E, \hBBE, \hBC6, \h2BC}, {\h2BC}>>) \o after(<<{\hBC1, \hBC2, \hB86, \hB8E, \hBBE, \hBC6, \h2BC}, {\h2BC}, Svara>>) \o after(Lits(og)) \o after(Lits(og) \o <<Svara>>),
        Rule(<<{nna}>>, <<na>>, Lits(<<\hBB6,\hBCD,\hBB0,\hBC0>>), <<>>, <<>>, <<{vir}>>, <<>>) >>
NaBefore == NaToNNa \o AnusvaraToNasal("Tamil", {})
            \o [i \in 1..5 |-> Rule(<<{\hBAE},{\hBCD},Svara,{\h2BC}>>, Nas("Tamil", i-1) \o <<\hBCD,-3>>, <<>>, <<>>, <<Varga("Tamil", i-1, 3)>>, <<>>, <<>>)]
\* the words known to begin with na, one after the other; only those whose letters are all there can occur
WordSteps(q) ==
  LET na(x) == <<\hBA8>> \o Tail(x)
      signs == SetSeq(Sgns("Tamil") \cup {<<\hBCD>>})
      n == Len(q)
  IN (IF q[n] \in {\hB2,\hB3,\h2074} THEN [k \in DOMAIN signs |-> L(SubSeq(q, 1, n-1) \o signs[k] \o <<q[n]>>, na(SubSeq(q, 1, n-1)) \o signs[k] \o <<q[n]>>)] ELSE <<>>)
     \o << L(q, na(q)) >>
KnownWords == TLCEval([i \in DOMAIN Words |-> [has |-> TLCEval({Words[i][k] : k \in DOMAIN Words[i]} \ {\hBA8, \hBA9}), steps |-> Compile(WordSteps(Words[i]))]])
Compounds == TLCEval(Compile(        \* what holds after each of them
  LET list == {\hB2,\hB3,\h2074,\hB83} \cup (\hB85..\hBB9) \cup (\hBBE..\hBCD) \cup {\hBD7} IN
  << RAfter(Lits(<<\hBA8,\hBBE,\hBAE,\hBCD>>), <<\hBA9,\hBBE,\hBAE,\hBCD>>, <<list>>), RAfter(Lits(<<\hBA8,\hBB0,\hBCD>>), <<\hBA9,\hBB0,\hBCD>>, <<list>>),
     L(<<\hBA9,\hBCD,\hBA8>>, <<\hBA8,\hBCD,\hBA8>>), L(<<\hBA9,\hBBE,\hBAE,\hBCD,\hBA9>>, <<\hBA8,\hBBE,\hBAE,\hBCD,\hBA9>>) >>))
RECURSIVE KnownFrom(_, _, _)
KnownFrom(q, hs, i) ==
  IF i > Len(KnownWords) THEN ApplyAll(q, Compounds)
  ELSE LET k == KnownWords[i] IN
       IF k.has \subseteq hs THEN KnownFrom(ApplyAll(ApplyAll(q, k.steps), Compounds), hs, i + 1) ELSE KnownFrom(q, hs, i + 1)
KnownNa(q) == LET hs == {q[i] : i \in DOMAIN q} IN IF \hBA8 \in hs \/ \hBA9 \in hs THEN KnownFrom(ApplyAll(q, Compounds), hs, 1) ELSE q

\* Avestan: the letters of the manuscripts at certain places
AvestanConventions ==
  LET s == "Avestan" kk(i) == c(s, i) more == {\h10B33, \h10B32, \h10B1D, \h10B12, \h10B23}
      consonants == Firsts(Cons(s)) \cup more
      vowels == Firsts(Vows(s))
      na == kk(19) ta == kk(15)
      velarDental == {c1(s, i) : i \in (0..3) \cup (15..18)}
      i2 == v(s, 2) \o v(s, 2)
      u2 == v(s, 4) \o v(s, 4)
  IN << L(kk(4) \o v(s, 2), <<\h10B23>> \o v(s, 2)),
        RNotBefore(Lits(v(s, 0)) \o <<{c1(s, 19), c1(s, 24)}>>, <<\h10B06, -2>>, <<consonants \cup vowels \cup {\h10B04, \h10B05}>>),
        RBefore(Lits(na), kk(14), <<velarDental>>),
        RBefore(Lits(kk(1)), <<\h10B12>>, Lits(i2)), RBefore(Lits(kk(29)), <<\h10B33>>, Lits(i2)),
        R(<<{c1(s, 16), c1(s, 18)}>> \o Lits(u2), <<-1, \h10B21>>),
        RNotBefore(Lits(ta), <<\h10B1D>>, <<consonants \cup vowels>>), RBefore(Lits(ta), <<\h10B1D>>, <<{c1(s, 0), c1(s, 22)}>>) >>
\* Multani is written without vowels within words
MultaniAbjad ==
  LET cs == \h11284..\h112A8 vs == \h11280..\h11283 IN
  << R(<<cs, vs, cs>>, <<-1, -3>>), RAfter(<<vs>>, <<>>, <<cs, cs>>), R(<<vs, cs, vs>>, <<-1, -2>>) >>

Native(s) ==
  CASE s = "Avestan" -> AvestanConventions [] s = "Multani" -> MultaniAbjad [] s = "Telugu" -> NasalToAnusvara(s) \o MToAnusvara(s) \o << L(<<\h0C3C>>, <<>>), L(<<\h0952, \h200B>>, <<>>) >>
    [] s = "Tamil" -> NaBefore
    [] s = "Kannada" -> NasalToAnusvara(s) \o MToAnusvara(s)
    [] s = "Nandinagari" -> NasalToAnusvara(s)
    [] s = "Sinhala" -> << L(<<\h0D81>>, <<\h0D82>>) >>
    [] s = "Malayalam" -> MalayalamNasals \o MToAnusvara(s) \o << L(<<\h0D29>>, <<\h0D28>>), L(<<\h0D28, \h200D, \h0D4D>>, <<\h0D7B>>) >>
    [] s = "Bengali" -> AnusvaraToNasal(s, {\h09BC}) \o << Same(s, 28, 22) >> \o YaToYYa(s, {\h09F0}) \o << L(h(s) \o c(s, 44), h(s) \o c(s, 25)) >>
                        \o << L(<<\h09CD, ZWNJ, \h09AC>>, <<\h09CD, \h09AC>>), L(<<\h09CE, \h09AC>>, <<\h09A4, \h09CD, \h09AC>>), L(<<\h09CE, ZWNJ, \h09AC>>, <<\h09A4, \h09CD, \h09AC>>) >>
    [] s = "Assamese" -> YaToYYa(s, {\h09F0}) \o << L(h(s) \o c(s, 44), h(s) \o c(s, 25)) >> \o AnusvaraToNasal(s, {\h09BC})
    [] s = "Oriya" -> AnusvaraToNasal(s, {\h0B3C}) \o << RNotAfter(Lits(c(s, 28)), <<\h0B2C>>, <<{h1(s)}>>) >> \o YaToYYa(s, {\h09F0})
    [] s = "Chakma" -> YaToYYa(s, {\h09F0}) \o << L(c(s, 44) \o c(s, 25), c(s, 44) \o c(s, 44)), L(h(s) \o c(s, 44), <<\h11133>> \o c(s, 44)) >>
    [] s = "Gurmukhi" -> << L(<<\h0A01>>, <<\h0A02>>) >> \o GurmukhiTippi \o TippiGemination
    [] s = "Saurashtra" -> << R(<<{c1(s,19), c1(s,24), c1(s,26), c1(s,27)}>> \o Lits(h(s) \o c(s, 32)), <<-1, \hA8B4>>) >>
    [] s = "Ahom" -> AhomClosed
    [] s = "Tibetan" -> << L(h(s), <<>>), Same(s, 28, 22), L(<<\h0F6A, \h0FBA>>, <<\h0F62, \h0FA6>>), L(<<\h0F56, \h0FBA>>, <<\h0F56, \h0FA6>>), L(<<\h0FA6, \h0FBA>>, <<\h0FA6, \h0FA6>>) >>
    [] s = "WarangCiti" -> << RAfter(<<{ZWJ}, {\h118D9}>>, <<>>, <<{\h118D4,\h118D5,\h118CC,\h118CB,\h118CF,\h118CE,\h118D2,\h118D1,\h118D8,\h118D7,\h118DB}>>),
                              L(<<\h118DD>>, <<\h118DE>>), L(<<ZWJ>>, <<>>) >>
    [] OTHER -> OldLetters(s)
\* marks that keep letters apart which the script does not distinguish
Aids(s) == IF s = "Tamil" THEN {\h02C7, \h02C6, \h02D8, \hB7} ELSE {\h02BC, \h02C7, \h02C6, \h02D8, \hB7}

\* -- spellings asked for by name
Option(o) ==
  CASE o = "KhojkiQa" -> << L(<<\h11208,\h11236>>, <<\h1123F>>) >>
    [] o = "removePaliAhom" -> << L(<<\h11741>>, <<\h11704>>), L(<<\h11742>>, <<\h1170C>>), L(<<\h11743>>, <<\h11713>>), L(<<\h11744>>, <<\h11714>>), L(<<\h11745>>, <<\h11703>>), L(<<\h11746>>, <<\h1170E>>) >>
    [] o = "KannadaSpacingCandrabindu" -> << L(<<\h0C81>>, <<\h0C80>>) >>
    [] o = "KannadaNotRepha" -> << RBefore(Lits(<<\hCB0,\hCCD>>), <<\h0CB0, ZWJ, \h0CCD>>, <<CF("Kannada")>>) >>
    [] o = "KannadaNakaraPollu" -> << Rule(Lits(<<\hCA8,\hCCD>>), <<\h0CDD>>, <<>>, <<{\h0CCD}>>, <<>>, <<CF("Kannada")>>, <<>>) >>
    [] o = "TeluguNakaraPollu" -> << Rule(Lits(<<\hC28,\hC4D>>), <<\h0C5D>>, <<>>, <<{\h0C4D}>>, <<>>, <<CF("Telugu")>>, <<>>) >>
    [] o = "TeluguReph" -> << R(Lits(<<\hC30,\hC4D>>) \o <<CF("Telugu")>>, <<-1, -2, ZWJ, -3>>), L(<<\h0C4D, \h0C30, \h0C4D, ZWJ>>, <<\h0C4D, \h0C30, \h0C4D>>) >>
    [] o = "TeluguTamilRra" -> << L(<<\hC31,\hC4D,\hC31>>, <<\hC58,\hC4D,\hC58>>), L(<<\hC1F,\hC4D,\hC30>>, <<\hC58,\hC4D,\hC58>>), L(<<\hC02,\hC21,\hC4D,\hC30>>, <<\hC28,\hC4D,\hC31>>) >>
    [] o = "TeluguArasunnaChandrabindu" -> << L(<<\h0C00>>, <<\h0C01>>) >>
    [] o = "BengaliOldRA" -> << L(<<\h09B0>>, <<\h09F0>>) >>
    [] o = "BengaliSwitchYaYYa" -> << RNotAfter(<<{\h09AF}>>, <<\h09DF>>, <<{\h09CD}>>) \o L(<<\h09DF>>, <<\h09AF>>) >>
    [] o = "BengaliYYA" -> << L(c("Bengali", 25), c("Bengali", 44)) >>
    [] o = "OriyaYYA" -> << L(c("Oriya", 25), c("Oriya", 44)) >>
    [] o = "OriyaVaAlt" -> << L(<<\hB71>>, <<\hB35>>) >>
    [] o = "OriyaVa" -> << RNotAfter(Lits(c("Oriya", 28)), <<\h0B2C>>, <<{h1("Oriya")}>>) >>
    [] o = "BengaliIntervocalicDDA" ->
         LET s == "Bengali" E == Ends(s) \cup {Last(Gl(s, kS, 0)), \h09F0} IN
         << RAfter(<<{\h09A1}>>, <<\h09DC>>, <<E>>) \o RAfter(<<{\h09A1}>>, <<\h09DC>>, <<E, Svara>>),
            RAfter(<<{\h09A2}>>, <<\h09DD>>, <<E>>) \o RAfter(<<{\h09A2}>>, <<\h09DD>>, <<E, Svara>>) >>
    [] o = "BengaliConjunctVB" -> << L(<<\h09CD, ZWNJ, \h09AC>>, <<\h09CD, \h09AC>>), L(<<\h09CE, \h09AC>>, <<\h09A4, \h09CD, \h09AC>>), L(<<\h09CE, ZWNJ, \h09AC>>, <<\h09A4, \h09CD, \h09AC>>) >>
    [] o = "khandatabatova" -> << L(<<\h09CE, \h09AC>>, <<\h09A4, \h09CD, \h09AC>>), L(<<\h09CE, ZWNJ, \h09AC>>, <<\h09A4, \h09CD, \h09AC>>) >>
    [] o = "DevanagariAnusvara" -> NasalToAnusvara("Devanagari")
    [] o = "jainomDevangari" -> << L(<<\h950>>, <<\hA8FD>>) >>
    [] o = "DevanagariPrishtamatra" -> << L(<<\h947>>, <<\h94E>>), L(<<\h948>>, <<\h94E, \h947>>), L(<<\h94B>>, <<\h94E, \h93E>>), L(<<\h94C>>, <<\h94E, \h94B>>) >>
    [] o = "NandinagariPrishtamatra" -> << L(<<\h119DA>>, <<\h119E4>>), L(<<\h119DB>>, <<\h119E4, \h119DA>>), L(<<\h119DC>>, <<\h119E4, \h119D1>>), L(<<\h119DD>>, <<\h119E4, \h119DC>>) >>
    [] o = "DevanagariACandra" -> << L(<<\h90D>>, <<\h972>>) >>
    [] o = "DevanagariAVowels" -> [i \in 1..11 |-> LET k == IF i = 11 THEN 14 ELSE i + 1 IN L(v("Devanagari", k), v("Devanagari", 0) \o m("Devanagari", k))]
    [] o = "LimbuDevanagariConvention" -> << L(<<\h90E>>, <<\h90F, \h93C>>), L(<<\h912>>, <<\h913, \h93C>>), L(<<\h946>>, <<\h947, \h93C>>), L(<<\h94A>>, <<\h94B, \h93C>>), L(<<\hA789>>, <<\h903>>) >>
    [] o = "GurmukhiYakaash" -> << L(<<\h0A4D, \h0A2F>>, <<\h0A75>>) >>
    [] o = "GurmukhiCandrabindu" -> << L(<<\h0A01>>, <<\h0A02>>) >>
    [] o = "GurmukhiTippiBindu" -> GurmukhiTippi
    [] o = "GurmukhiTippiGemination" -> TippiGemination
    [] o = "SinhalaChandrbinduAnusvara" -> << L(<<\h0D81>>, <<\h0D82>>) >>
    [] o = "TamilStyleUUCore" -> << R(<<{\h0D16,\h0D17,\h0D18,\h0D1B,\h0D1D,\h0D20,\h0D21,\h0D22,\h0D25,\h0D26,\h0D27,\h0D2B,\h0D2C,\h0D2D}, {\h0D41,\h0D42}>>, <<-1, ZWJ, -2>>) >>
    [] o = "TamilStyleUUOther" -> << R(<<{\h0D1C,\h0D36,\h0D37,\h0D38,\h0D39}, {\h0D41,\h0D42}>>, <<-1, ZWJ, -2>>), R(Lits(<<\h0D36,\h0D4D,\h0D30>>) \o <<{\h0D41,\h0D42}>>, <<\h0D36,\h0D4D,\h0D30,ZWJ,-4>>), R(Lits(<<\h0D36,\h0D4D,ZWJ,\h0D30>>) \o <<{\h0D41,\h0D42}>>, <<\h0D36,\h0D4D,ZWJ,\h0D30,ZWJ,-5>>) >>
    [] o = "MalayalamAnusvaraNasal" -> MalayalamNasals
    [] o = "MalayalamremoveHistorical" -> << L(<<\h0D29>>, <<\h0D28>>), L(<<\h0D28, \h200D, \h0D4D>>, <<\h0D7B>>) >>
    [] o = "dotReph" -> LET Dot(x,nx) == Rule(x, <<\h0D4E>>, <<>>, <<{\h0D4D}>>, nx, <<>>, <<>>) r1 == <<{\h0D7C}>> r2 == Lits(<<\h0D30,\h0D4D>>)
         cons == <<CF("Malayalam") \ {\h0D02}>> implosive == <<{\h0D02}, {\h02C6}>> IN << Dot(r1,cons), Dot(r1,implosive), Dot(r2,cons), Dot(r2,implosive) >>
    [] o = "archaicAIAU" -> << L(<<\h0D57>>, <<\h0D4C>>), L(<<\h0D08>>, <<\h0D5F>>) >>
    [] o = "historicChillu" -> LET next == (Starts("Malayalam") \cup {\h0D3D}) \ {\h0D4D} IN
         [i \in 1..4 |-> Rule(Lits(<< <<\h0D2E>>, <<\h0D2F>>, <<\h0D34>>, <<\h0D15>> >>[i] \o <<\h0D4D>>), << <<\h0D54>>, <<\h0D55>>, <<\h0D56>>, <<\h0D7F>> >>[i], <<>>, <<{\h0D4D}>>, <<>>, <<next>>, <<>>)]
    [] o = "MalayalamLineVirama" -> << L(<<\h0D4D>>, <<\h0D3B>>) >>
    [] o = "MalayalamCircVirama" -> << L(<<\h0D4D>>, <<\h0D3C>>) >>
    [] o = "TamilOmDisable" -> << L(<<\h0BD0>>, <<\h0B93,\h0BAE,\h0BCD>>) >>
    [] o = "TamilSubScript" -> Each(<<\hB9,\hB2,\hB3,\h2074>>, <<\h2081,\h2082,\h2083,\h2084>>)
    [] o = "TamilRemoveApostrophe" -> << Drop({\h02BC, \h02EE}) >>
    [] o = "TamilRemoveNumbers" -> << Drop({\hB2,\hB3,\h2074,\h2082,\h2083,\h2084,\hB9,\h2081}) >>
    [] o = "TamilGranthaVisarga" -> << L(<<\hA789>>, <<\h11303>>) >>
    [] o = "GranthaOldau" -> << L(<<\h11357>>, <<\h1134C>>) >>
    [] o = "SaurashtraHaru" -> Native("Saurashtra")
    [] o = "AhomClosed" -> AhomClosed
    [] o = "TakriRemoveGemination" -> << RSame(<<ANY, {\h116B6}, ANY>>, <<-1>>, << <<1,3>> >>) >>
    [] o = "TakriArchaicKha" -> << L(<<\h116B8>>, <<\h1168B>>) >>
    [] o = "KhamiShanMyanmarNumerals" -> [i \in 1..10 |-> L(Gl("KhamtiShan", kD, i-1), Gl("Burmese", kD, i-1))]
    [] o = "KhamtiShanRa" -> << L(<<\h101B>>, <<\hAA73>>) >>
    [] o = "MarchenSanskritPalatals" -> Each(<<\h11C82,\h11C83,\h11C84>>, <<\h11C76,\h11C77,\h11C78>>)
    [] o = "SoyomboSanskritPalatals" -> Each(<<\h11A75,\h11A76,\h11A77>>, <<\h11A61,\h11A62,\h11A63>>)
    [] o = "TibetanSanskritPalatals" -> << L(<<\h0F59>>, <<\h0F45>>), L(<<\h0F5A>>, <<\h0F46>>), L(<<\h0F5B>>, <<\h0F47>>), L(<<\h0F5C>>, <<\h0F47, \h0FB7>>) >>
    [] o = "ZanabazarSanskritPalatals" -> Each(<<\h11A23,\h11A24,\h11A25>>, <<\h11A10,\h11A11,\h11A12>>)
    [] o = "ZanabazarSquareContextual" -> [i \in 1..4 |-> L(<<\h11A47>> \o c("ZanabazarSquare", 24 + i), <<\h11A3A + i>>)] \o << RNotAfter(Lits(c("ZanabazarSquare", 26)) \o <<{\h11A47}>>, <<\h11A3A>>, <<{\h11A47}>>) >>
    [] o = "ZanabazarSquareAiAu" -> << L(<<\h11A04,\h11A0A>>, <<\h11A07>>), L(<<\h11A06,\h11A0A>>, <<\h11A08>>) >>
    [] o = "ZanabazarSquareMongolianFinal" -> << L(h("ZanabazarSquare"), <<\h11A33>>) >>
    [] o = "ZanzabarSpaceTsheg" -> << L(<<32>>, <<\h11A41>>) >>
    [] o = "SoyomboSpaceTscheg" -> << L(<<32>>, <<\h11A9A>>) >>
    [] o = "SoyomboInitials" -> << L(<<\h11A7C,\h11A99>>, <<\h11A86>>), L(<<\h11A7D,\h11A99>>, <<\h11A87>>), L(<<\h11A81,\h11A99>>, <<\h11A89>>) >>
    [] o = "DivesAkuruHomoOrganNasal" ->
         << RBefore(Lits(<<\h11910,\h1193E>>), <<\h1193F>>, <<\h1190C..\h1190F>>), RBefore(Lits(<<\h11915,\h1193E>>), <<\h1193F>>, <<\h11911..\h11913>>),
            RBefore(Lits(<<\h1191A,\h1193E>>), <<\h1193F>>, <<{\h11916,\h11918,\h11919}>>), RBefore(Lits(<<\h1191F,\h1193E>>), <<\h1193F>>, <<\h1191B..\h1191E>>),
            RBefore(Lits(<<\h11924,\h1193E>>), <<\h1193F>>, <<\h11920..\h11923>>) >>
    [] o = "UseAlternateYA" -> << L(<<\h11925>>, <<\h11926>>) >>
    [] o = "KawiAltAiAU" -> << L(<<\h11F3F>>, <<\h11F3E,\h11F3E>>) >>
    [] o = "KawiDecomposedVowel" -> << L(<<\h11F05>>, <<\h11F04,\h11F34>>), L(<<\h11F07>>, <<\h11F06,\h11F34>>), L(<<\h11F09>>, <<\h11F08,\h11F34>>) >>
    [] o = "KawiArchaicJNA" -> << L(<<\h11F19,\h11F42,\h11F1B>>, <<\h11F33>>) >>
    [] o = "JavaneseArchaicJNA" -> << L(<<\hA997,\hA9C0,\hA99A>>, <<\hA998>>) >>
    [] o = "BalineseArchaicJNA" -> << L(<<\h1B1A,\h1B44,\h1B1C>>, <<\h1B4C>>) >>
    [] o = "UseAlternateVSU" -> << L(<<\h115B2>>, <<\h115DC>>) >>
    [] o = "UseAlternateVSUU" -> << L(<<\h115B3>>, <<\h115DD>>) >>
    [] o = "UseAlternateU" -> << L(<<\h11584>>, <<\h115DB>>) >>
    [] o = "UseAlternateI1" -> << L(<<\h11582>>, <<\h115D8>>) >>
    [] o = "UseAlternateI2" -> << L(<<\h11582>>, <<\h115D9>>) >>
    [] o = "UseAlternateII" -> << L(<<\h11583>>, <<\h115DA>>) >>
    [] o = "UseAlternateo1" -> << L(<<\h1A6E,\h1A63>>, <<\h1A70>>) >>
    [] o = "UseAlternateo2" -> << L(<<\h1A70>>, <<\h1A6E,\h1A63>>) >>
    [] o = "NewaMurmurConsonants" -> << L(<<\h11434,\h11442,\h11412>>, <<\h11413>>), L(<<\h11434,\h11442,\h11418>>, <<\h11419>>), L(<<\h11434,\h11442,\h11423>>, <<\h11424>>),
                                        L(<<\h11434,\h11442,\h11429>>, <<\h1142A>>), L(<<\h11434,\h11442,\h1142C>>, <<\h1142D>>), L(<<\h11434,\h11442,\h1142E>>, <<\h1142F>>) >>
    [] o = "NewaSpecialTa" -> << L(<<\h1141F,\h11442>>, <<\h1141F,\h11442,ZWJ>>) >>
    [] o = "NewaDisableRepha" -> << L(<<\h1142C,\h11442>>, <<\h1142C,\h11442,ZWJ>>) >>
    [] o = "KhojkiRetainSpace" -> << L(<<\h1123A>>, <<32>>) >>
    [] o = "BhaiksukiRetainSpace" -> << L(<<\h11C43>>, <<32>>) >>
    [] o = "KaithiRetainSpace" -> << L(<<\h2E31>>, <<32>>) >>
    [] o = "KhojkiRRI" -> OldLetters("Khojki") [] o = "ModiRemoveLong" -> OldLetters("Modi") [] o = "LimburemoveHistorical" -> OldLetters("Limbu")
    [] o = "MeeteiMayekremoveHistorical" -> OldLetters("MeeteiMayek") [] o = "SundaneseRemoveHistoric" -> OldLetters("Sundanese") [] o = "ThaanaRemoveHistorical" -> OldLetters("Thaana")
    [] o = "TeluguRemoveNukta" -> << L(<<\h0C3C>>, <<>>) >> [] o = "TeluguRemoveAeAo" -> << L(<<\h0952,\h200B>>, <<>>) >>
    [] o = "TibetanRemoveVirama" -> << L(h("Tibetan"), <<>>) >>
    [] o = "ChakmaVowelsIndependent" -> << L(<<\h11103,\h11128>>, <<\h11104>>), L(<<\h11103,\h1112A>>, <<\h11105>>), L(<<\h11103,\h1112C>>, <<\h11106>>) >>
    [] o = "mDotAboveToBelow" -> << L(<<\h1E43>>, <<\h1E41>>) >>
    [] o = "mDotBelowToAbove" -> << L(<<\h1E41>>, <<\h1E43>>) >>
    [] o = "noLongEO" -> << L(<<\h113>>, <<101>>), L(<<\h14D>>, <<111>>) >>
    [] o = "inherentAO" -> << L(<<97>>, <<\hF4>>) >>
    [] o = "IASTPali" -> << L(<<108, \h324>>, <<\h1E37>>) >>
    [] o = "swapEe" -> << R(<<{69}>>, <<101>>) \o R(<<{101}>>, <<69>>) \o R(<<{79}>>, <<111>>) \o R(<<{111}>>, <<79>>) >>
    [] o = "RomanReadableLongEO" -> << L(<<111>>, <<111,97>>), L(<<111,97,39>>, <<111>>), L(<<101>>, <<97,101>>), L(<<97,101,39>>, <<101>>), L(<<97,101,97,101>>, <<101,101>>), L(<<111,97,111,97>>, <<111,111>>) >>
    [] o = "readableItrans" -> << L(<<\h52,\h5E,\h69>>, <<\h52,\h52,\h69>>), L(<<\h52,\h5E,\h49>>, <<\h52,\h52,\h69,\h69>>), L(<<\h41>>, <<\h61,\h61>>), L(<<\h49>>, <<\h69,\h69>>), L(<<\h55>>, <<\h75,\h75>>), L(<<\h43,\h68>>, <<\h63,\h68,\h68>>), L(<<\h6B,\h53,\h68>>, <<\h78>>), L(<<\h4D>>, <<\h2E,\h6D>>) >>
    [] o = "RemoveDiacritics" -> << Drop({\h02BC, \h02C7, \h02C6, \h02D8, \hB7}) >>
    [] o = "Dot2Dandas" -> << L(<<46,46>>, <<\h965>>), L(<<46>>, <<\h964>>) >>
    [] o = "Dot2Pipes" -> << L(<<46,46>>, <<124,124>>), L(<<46>>, <<124>>) >>
    [] o = "TamilExtendedAnusvara" -> AnusvaraToNasal("TamilExtended", {Gl("TamilExtended", kN, 0)[1]}) \o << L(<<\h0D02>>, <<\h0D2E,\h0D4D,ZWNJ>>) >>
    [] OTHER -> Variant(o)
\* numerals and dandas of the script itself are exchanged after all spellings
Numerals(s, o) ==
  LET digits == {i \in 0..9 : Gl(s, kD, i) \notin {<<>>, Absent}} ok(i) == Gl(s, kD, i) \notin {<<>>, Absent} IN
  CASE o = "romanNumerals" -> [i \in 1..10 |-> IF ok(i-1) THEN L(Gl(s, kD, i-1), <<47 + i>>) ELSE L(<<-5>>, <<>>)]
    [] o = "indicNumerals" -> [i \in 1..10 |-> IF ok(i-1) THEN RNotAfter(<<{47 + i}>>, Gl(s, kD, i-1), <<{104}>>) ELSE L(<<-5>>, <<>>)]
    [] o = "romanFullStop" -> << L(Gl(s, kS, 1), <<46>>), L(Gl(s, kS, 2), <<46,46>>) >>
    [] OTHER -> <<>>
Late == <<"romanNumerals", "indicNumerals", "romanFullStop">>
OptionFor(s, o) == IF o = "RemoveDiacritics" /\ s = "Tamil" THEN << Drop(Aids(s)) >> ELSE Option(o)
Asks(x, o) == \E i \in DOMAIN x.options : x.options[i] = o
\* a style: a script, whether nativized, options in order
Customs(x) == IF x.native THEN Compile(Native(x.script)) ELSE <<>>
Wishes(x) == Compile((IF x.native /\ x.script # "Latn" THEN << Drop(Aids(x.script)) >> ELSE <<>>)
              \o Flatten([i \in DOMAIN x.options |-> OptionFor(x.script, x.options[i])])
              \o Flatten([i \in 1..3 |-> IF Asks(x, Late[i]) THEN Numerals(x.script, Late[i]) ELSE <<>>]))
InStyle(q, x, customs, wishes) ==
  LET custom == ApplyAll(q, customs) IN ApplyAll(IF x.native /\ x.script = "Tamil" THEN KnownNa(custom) ELSE custom, wishes)

=============================================================================
