------------------------------ MODULE Variants ------------------------------
(* Further spellings a client may ask for by name (see Style): alternative     *)
(* vowels, moved rephas, conjunct styles, Prakrit gemination, medieval Tamil,  *)
(* Tham variants, and the distinctions of the romanisation tables.             *)
EXTENDS Legible

Pure(q) == SelectSeq(q, LAMBDA x : x # Mark)
Series(xs, ys) == [i \in DOMAIN xs |-> L(xs[i], ys[i])]      \* one after the other
Space == {9, 10, 11, 12, 13, 32, 160}

\* vowel letters written as the letter a with a vowel sign
OnA(s, as) == << Flatten([i \in DOMAIN as |-> L(as[i][1], as[i][2])]) >>
BalineseA == OnA("Balinese", << <<  <<\h1B0C>>, <<\h1B05,\h1B3B>> >>, << <<\h1B07>>, <<\h1B05,\h1B36>> >>, << <<\h1B08>>, <<\h1B05,\h1B37>> >>,
   << <<\h1B09>>, <<\h1B05,\h1B38>> >>, << <<\h1B0A>>, <<\h1B05,\h1B39>> >>, << <<\h1B0B>>, <<\h1B05,\h1B3A>> >>,
   << <<\h1B0D>>, <<\h1B05,\h1B44,\h1B2E,\h1B42>> >>, << <<\h1B0E>>, <<\h1B05,\h1B44,\h1B2E,\h1B43>> >>,
   << <<\h1B0F>>, <<\h1B05,\h1B3E>> >>, << <<\h1B10>>, <<\h1B05,\h1B3F>> >>, << <<\h1B11>>, <<\h1B05,\h1B40>> >>, << <<\h1B12>>, <<\h1B05,\h1B41>> >> >>)
JavaneseA == OnA("Javanese", << << <<\hA988,\hA9B4>>, <<\hA984,\hA9B9>> >>, << <<\hA989,\hA9B4>>, <<\hA984,\hA9C0,\hA989,\hA9B4>> >>, << <<\hA98E,\hA9B4>>, <<\hA984,\hA9BB,\hA9B4>> >>,
   << <<\hA986>>, <<\hA984,\hA9B6>> >>, << <<\hA987>>, <<\hA984,\hA9B7>> >>, << <<\hA988>>, <<\hA984,\hA9B8>> >>, << <<\hA989>>, <<\hA984,\hA9BD>> >>,
   << <<\hA98A>>, <<\hA984,\hA9C0,\hA9AD,\hA9BC>> >>, << <<\hA98B>>, <<\hA984,\hA9C0,\hA9AD,\hA9BC,\hA9B4>> >>,
   << <<\hA98C>>, <<\hA984,\hA9BA>> >>, << <<\hA98D>>, <<\hA984,\hA9BB>> >>, << <<\hA98E>>, <<\hA984,\hA9BA,\hA9B4>> >> >>)

\* a repha standing before a cluster moves behind it (cluster: consonants joined by viramas, and its vowel sign)
Mover == \h100001
ReverseLen(Q) == LET long == SetSeq({q \in Q : Len(q) > 1}) one == SetSeq({q \in Q : Len(q) = 1}) IN long \o one
Hop(pat, from, to) == Flatten([i \in DOMAIN pat |-> R(<<{from}>> \o Lits(pat[i]), pat[i] \o <<to>>)])
Whole(Q) == {q \in Q : \A k \in DOMAIN q : q[k] # Mark}
Letterings(s) == ReverseLen(Whole(Cons(s)))
RephaBehind(s, repha) ==
  LET cs == Letterings(s) joined == [i \in DOMAIN cs |-> h(s) \o cs[i]] IN
  << Hop(cs, repha, Mover) >> \o [k \in 1..6 |-> Hop(joined, Mover, Mover)]
  \o << Hop(ReverseLen({Pure(q) : q \in Sgns(s)} \ {<<>>}), Mover, repha), L(<<Mover>>, <<repha>>),
        R(<<{repha}, {Gl(s,kA,0)[1], Gl(s,kA,1)[1]}>>, <<-2,-1>>) >>
\* a repha standing behind a cluster moves before it
HopBack(pat, from, to) == Flatten([i \in DOMAIN pat |-> R(Lits(pat[i]) \o <<{from}>>, <<to>> \o pat[i])])
RephaBefore(s, repha) ==
  LET cs == ReverseLen(Whole(Cons(s) \cup Vows(s)))
      signs == ReverseLen({Pure(q) : q \in Sgns(s)} \ {<<>>})
      ends == Lasts({cs[i] : i \in DOMAIN cs})
      joined == [i \in DOMAIN cs |-> cs[i] \o h(s)] IN
  << Flatten([i \in DOMAIN signs |-> RAfter(Lits(signs[i]) \o <<{repha}>>, <<Mover>> \o signs[i], <<ends>>)]) \o HopBack(cs, repha, repha),
     HopBack(cs, Mover, repha) >>

\* Chakma: doubled consonants
ChakmaDoubles ==
  LET con == CL("Chakma") \ {Mark} mv == MF("Chakma") \ {\h11133} vir == \h11134 dep == \h11133 IN
  << RSame(<<con,{vir,dep},con,mv>>, <<-1,vir,-4>>, << <<1,3>> >>),
     RSame(<<con,{vir},con,{dep},con>>, <<-1,vir,dep,-5>>, << <<1,3>> >>),
     RSame(<<con,{dep},con,{dep},con>>, <<-1,vir,dep,-5>>, << <<1,3>> >>),
     R(<<{dep},con,{vir},mv>>, <<vir,-2,vir,-4>>) >>
ChakmaPali ==
  LET con == CL("Chakma") \ {Mark} aa == \h11127 vir == \h11134 dep == \h11133 IN
  << RBefore(<<con,{vir}>>, <<-1,vir,-1>>, <<MF("Chakma") \ {\h11133}>>), RBefore(<<con,{vir}>>, <<-1,vir,-1>>, <<{dep}>>),
     L(<<\h11124>>, <<\h11147>>), L(<<\h11121>>, <<\h11120>>),
     L(<<aa>>, <<\h02BE>>), RNotBefore(<<con \cup {\h11103}>>, <<-1,aa>>, <<(MF("Chakma") \ {\h11133}) \cup {vir,dep,\h02BE}>>), L(<<\h02BE>>, <<>>),
     L(<<aa>>, <<\h11102>>), L(<<dep>>, <<vir>>) >>

SinhalaPairs == << <<0,28>>, <<2,18>>, <<9,5>>, <<10,11>>, <<15,16>>, <<15,28>>, <<17,18>>, <<17,28>>, <<19,16>>, <<19,17>>, <<19,18>>, <<19,28>> >>
SinhalaConjuncts ==
  LET s == "Sinhala" vir == \h0DCA idx == 0..33 cs == {c1(s,i) : i \in idx} list == SetSeq(cs) IN
  [i \in DOMAIN SinhalaPairs |-> L(c(s,SinhalaPairs[i][1]) \o <<vir>> \o c(s,SinhalaPairs[i][2]), c(s,SinhalaPairs[i][1]) \o <<vir,ZWJ>> \o c(s,SinhalaPairs[i][2]))]
  \o << RBefore(Lits(<<c1(s,26),vir>>), <<c1(s,26),vir,ZWJ>>, <<cs>>),
        RSame(<<cs,{vir},cs>>, <<-1,ZWJ,vir,-3>>, << <<1,3>> >>),
        Flatten([i \in DOMAIN list |-> RBefore(Lits(<<list[i],vir>>), <<list[i],ZWJ,vir>>, <<cs \ {list[i]}>>)]),
        L(<<\h0DBB,ZWJ,vir,ZWJ,\h0DBA>>, <<\h0DBB,vir,ZWJ,\h0DBA>>) >>

\* Prakrit orthography: the anusvara is written above, and its old place marks geminates
Ungemin(s, g, pre, npre) ==
  LET order == Unasp \o <<4,9,14,19,24,25,26,27,28,29,30,31,32>> \o <<33,34,35,36>> IN
  Rule(<<{g}, {c1(s,order[i]) : i \in DOMAIN order}>>, <<-2, h1(s), -2>>, pre, npre, <<>>, <<>>, <<>>)
  \o Flatten([i \in DOMAIN Unasp |-> Rule(<<{g}, {c1(s,Unasp[i]+1)}>>, <<c1(s,Unasp[i]), h1(s), -2>>, pre, npre, <<>>, <<>>, <<>>)])
GranthaPrakrit ==
  LET s == "Grantha" IN
  << L(<<\h11302>>, <<\h11300>>) >> \o Gemin(s, <<\h11302>>)
  \o << Ungemin(s, \h11302, <<>>, <<Not(Space)>>), Ungemin(s, \h11302, <<{\h1134D}>>, <<>>) >>

\* traditional Malayalam spelling: consonants after a repha are doubled (bha is not)
MalayalamDoubles ==
  LET s == "Malayalam" repha == {\h0D7C,\h0D4E} vir == \h0D4D
      plain == {c1(s,i) : i \in {0,2,5,7,10,12,15,17,20,22,4,9,14,19,24,25,28,29,31}} \cup {\h0D33} IN
  << RNotBefore(<<repha,plain>>, <<-1,-2,vir,-2>>, <<{vir}>>) >>
  \o [i \in 1..9 |-> RNotBefore(<<repha,{c1(s,Unasp[i]+1)}>>, <<-1,c1(s,Unasp[i]),vir,-2>>, <<{vir}>>)]

\* Tamil
AtEnd == <<Not({})>>                   \* nothing may follow
FinalNa ==
  << L(<<\hBA9>>, <<\hBA8>>), RBefore(Lits(<<\hBA8,\hBCD>>), <<\hBA9,\hBCD>>, <<{46,\h964,\h965,44,33,45}>>),
     RBefore(Lits(<<\hBA8,\hBCD>>), <<\hBA9,\hBCD>>, <<Space>>), RNotBefore(Lits(<<\hBA8,\hBCD>>), <<\hBA9,\hBCD>>, AtEnd) >>
Tha == {\hB2,\hB3,\h2074,\h2082,\h2083,\h2084}
FirstVarga ==
  << RNotBefore(<<{c1("Tamil",i) : i \in {0,5,10,15,20}}>>, <<-1,\hB9>>, <<Tha>>) >>
  \o HopDiacritic("Tamil") \o << RBefore(<<{\hB9}>>, <<>>, <<Tha>>) >>
EO == << <<\hB8E>>, <<\hBC6>>, <<\hB92>>, <<\hBCA>>, <<\hB8F>>, <<\hBC7>>, <<\hB93>>, <<\hBCB>> >>
OldEO == << <<\hB8E,\hBCD>>, <<\hBC6,\hBCD>>, <<\hB92,\hBCD>>, <<\hBC6,\hBCD,\hBBE>>, <<\hB8E>>, <<\hBC6>>, <<\hB92>>, <<\hBCA>> >>

\* la is lla in words where other scripts of the south write lla
TamilSigns == ReverseLen({Pure(x) : x \in Sgns("Tamil") \cup {h("Tamil")}} \ {<<>>})
LaAsLla ==
  << L(<<\hB86,\hBB5,\hBB2>>, <<\hB86,\hBB5,\hBB3>>) \o L(<<\hBBE,\hBB5,\hBB2>>, <<\hBBE,\hBB5,\hBB3>>),
     L(<<\hBCD,\hBB0,\hBB5,\hBBE,\hBB2>>, <<\hBCD,\hBB0,\hBB5,\hBBE,\hBB3>>) \o L(<<\hBCD,\hBB0,\hBB5,\hBB2>>, <<\hBCD,\hBB0,\hBB5,\hBB3>>) \o L(<<\hBB0,\hBB2>>, <<\hBB0,\hBB3>>) \o L(<<\hBAA,\hBB5,\hBB2>>, <<\hBAA,\hBB5,\hBB3>>) \o L(<<\hBB5,\hBBF,\hBB2>>, <<\hBB5,\hBBF,\hBB3>>) \o L(<<\hBB0,\hBBE,\hBB2>>, <<\hBB0,\hBBE,\hBB3>>) \o L(<<\hBB7,\hBCD,\hB95,\hBB2>>, <<\hBB7,\hBCD,\hB95,\hBB3>>) \o L(<<\hBA4,\h2074,\hBB5,\hBB2>>, <<\hBA4,\h2074,\hBB5,\hBB3>>),
     L(<<\hBAF,\hBBE,\hBB2>>, <<\hBAF,\hBBE,\hBB3>>) \o L(<<\hBAF,\hBBE,\hBAE,\hBB2>>, <<\hBAF,\hBBE,\hBAE,\hBB3>>) \o L(<<\hB95,\hBCB,\hBAE,\hBB2>>, <<\hB95,\hBCB,\hBAE,\hBB3>>),
     L(<<\hBAE,\hBCC,\hBB2>>, <<\hBAE,\hBCC,\hBB3>>),
     RNotAfter(Lits(<<\hBA8,\hBB2>>), <<\hBA8,\hBB3>>, <<Not(Space)>>),
     L(<<\hB95,\hBB2,\hBA4,\hBCD,\hBB0>>, <<\hB95,\hBB3,\hBA4,\hBCD,\hBB0>>),
     L(<<\hBB6,\hBC0,\hBA4,\hBB2>>, <<\hBB6,\hBC0,\hBA4,\hBB3>>),
     L(<<\hBB8,\hBC1,\hBA4,\hBB2>>, <<\hBB8,\hBC1,\hBA4,\hBB3>>),
     L(<<\hB95,\hBBE,\hBB2,\hBBF>>, <<\hB95,\hBBE,\hBB3,\hBBF>>),
     L(<<\hB95,\hBBE,\hBB2,\hBC0>>, <<\hB95,\hBBE,\hBB3,\hBC0>>),
     L(<<\hB95,\hBB2,\hBC7,\hBB5,\hBB0>>, <<\hB95,\hBB3,\hBC7,\hBB5,\hBB0>>),
     L(<<\hBAA,\hB3,\hBB9,\hBC1,\hBB2>>, <<\hBAA,\hB3,\hBB9,\hBC1,\hBB3>>),
     L(<<\hB95,\hBB6,\hBCD,\hBAE,\hBB2>>, <<\hB95,\hBB6,\hBCD,\hBAE,\hBB3>>),
     Flatten([j \in 1..(Len(TamilSigns) + 1) |-> LET k == j - 1 IN R(<<{\hB95,\hBA4}>> \o (IF k = 0 THEN <<>> ELSE Lits(TamilSigns[k])) \o <<{\hB3,\h2074}, {\hBB2}>>,
         <<-1>> \o (IF k = 0 THEN <<>> ELSE TamilSigns[k]) \o <<-(2 + (IF k = 0 THEN 0 ELSE Len(TamilSigns[k]))), \hBB3>>)]),
     L(<<\hB9C,\hBC1,\hBB2>>, <<\hB9C,\hBC1,\hBB3>>),
     L(<<\hBA4,\hBC1,\hBB2,\hB9A,\hBBF>>, <<\hBA4,\hBC1,\hBB3,\hB9A,\hBBF>>),
     L(<<\hBB0,\hBBF,\hBAE,\hBB2>>, <<\hBB0,\hBBF,\hBAE,\hBB3>>),
     L(<<\hBB3,\hBCD,\hBAF>>, <<\hBB2,\hBCD,\hBAF>>) >>

\* Tai Tham: which letters take the tall AA
TallAlso(tall) ==
  LET b == "TaiTham" sakot == \h1A60 e == \h1A6E aa == \h1A63 alt == \h1A64
      cs == Lasts(Ones(Cons(b))) nas == {\h1A74}
      low == {\h1A25,\h1A2B,\h1A2C,\h1A30,\h1A38,\h1A48,\h1A3F,\h1A47,\h1A39} IN
  << TallHere(tall, LAMBDA p, o : RNotAfter(p, o, <<{sakot}>>), e, aa, alt),
     TallAfter(tall, << <<{sakot},cs>> >>, e, aa, alt), TallAfter(tall, << <<{sakot},cs,{sakot},cs>> >>, e, aa, alt),
     TallAfter(tall, << <<{\h1A55,\h1A56}>> >>, e, aa, alt),
     R(<<{sakot},low,{e},{alt}>>, <<-1,-2,e,aa>>), R(<<{sakot},low,{alt}>>, <<-1,-2,aa>>) >>
ThamSigns == LET q == ReverseLen({Pure(x) : x \in Sgns("TaiTham") \cup {h("TaiTham")}} \ {<<>>}) IN q \o << <<\h1A64>> >>

\* romanisation tables
Class1(n) == << <<{107,103}, {99,106}, {\h1E6D,\h1E0D}, {116,100}, {112,98}>>, <<\h1E45, \hF1, \h1E47, 110, 109>> >>[n]
Assimilate(pat, out(_)) == [i \in 1..5 |-> RBefore(pat, out(i), <<Class1(1)[i]>>)]
NasalOfClass == Assimilate(<<{\h1E43,\h1E41}>>, LAMBDA i : <<Class1(2)[i]>>)
Tilde == \h303
IPANasals(long) == Flatten([i \in 1..4 |->
   LET stops == << << <<107>>, <<103>> >>, << <<99>>, <<106>> >>, << <<116,\h32A>>, <<100,\h32A>> >>, << <<\h256>>, <<\h288>> >> >>[i]
       n == << <<\h14B>>, <<\h272>>, <<110,\h32A>>, <<\h273>> >>[i] IN
   [k \in 1..2 |-> L(<<Tilde>> \o long \o stops[k], long \o n \o stops[k])]])

OwnNumerals == [RetainGurmukhiNumerals |-> "Gurmukhi", RetainKannadaNumerals |-> "Kannada", RetainMalayalamNumerals |-> "Malayalam", RetainTamilNumerals |-> "Tamil", RetainTeluguNumerals |-> "Telugu"]
OwnDandas == [RetainGujaratiDanda |-> "Gujarati", RetainKannadaDanda |-> "Kannada", RetainMalayalamDanda |-> "Malayalam", RetainTamilDanda |-> "Tamil", RetainTeluguDanda |-> "Telugu"]
Variant(o) ==
  CASE o = "BalineseAvowels" -> BalineseA [] o = "JavaneseAvowels" -> JavaneseA
    [] o = "BalineseMoveRepha" -> RephaBehind("Balinese", \h1B03) [] o = "JavaneseMoveRepha" -> RephaBehind("Javanese", \hA982)
    [] o = "KawiMoveRepha" -> RephaBefore("Kawi", \h11F02)
    [] o = "DivesAkuruAlternateIndVowels" -> << L(<<\h11925>>, <<\h11926>>),
         L(<<\h11906,\h11935>>, <<\h11925,\h11937>>) \o L(<<\h11900>>, <<\h11925>>) \o L(<<\h11901>>, <<\h11925,\h11930>>) \o L(<<\h11902>>, <<\h11925,\h11931>>)
         \o L(<<\h11903>>, <<\h11925,\h11932>>) \o L(<<\h11904>>, <<\h11925,\h11933>>) \o L(<<\h11905>>, <<\h11925,\h11934>>) \o L(<<\h11906>>, <<\h11925,\h11935>>) \o L(<<\h11909>>, <<\h11925,\h11938>>) >>
    [] o = "DograShaKha" -> << L(<<\h11828>>, <<\h1180B>>) >>
    [] o = "SundaneseHistoricConjuncts" -> << L(<<\h1BAA,\h1B99>>, <<\h1BAC>>), L(<<\h1BAA,\h1B9D>>, <<\h1BAD>>),
         RAfter(Lits(<<\h1B8A,\h1BAA>>), <<\h1BBE>>, <<(Lasts(Cons("Sundanese") \cup Vows("Sundanese") \cup Sgns("Sundanese")) \ {Mark})>>),
         RAfter(Lits(<<\h1B99,\h1BAA>>), <<\h1BBF>>, <<(Lasts(Cons("Sundanese") \cup Vows("Sundanese") \cup Sgns("Sundanese")) \ {Mark})>>) >>
    [] o = "LimbuSpellingSaI" ->
         LET fc == <<0,4,15,19,20,24,26,27>> fs == <<\h1930,\h1931,\h1933,\h1934,\h1935,\h1936,\h1937,\h1938>> IN
         Flatten([i \in 1..8 |-> << L(<<\h193A,fs[i]>>, c("Limbu",fc[i]) \o h("Limbu")), L(<<\h193A,\h1922,fs[i]>>, <<\h1922>> \o c("Limbu",fc[i]) \o h("Limbu")) >>])
    [] o = "ChakmaGemination" -> ChakmaDoubles
    [] o = "ChakmaEnableAllConjuncts" -> << RBefore(<<{\h11134}>>, <<\h11133>>, <<(CF("Chakma") \ {Mark}) \cup {\h11103}>>) >> \o ChakmaDoubles
    [] o = "ChakmaPali" -> ChakmaPali
    [] o = "SinhalaConjuncts" -> SinhalaConjuncts
    [] o = "SinhalaPali" -> << L(<<\h0D92>>, <<\h0D91>>), L(<<\h0D95>>, <<\h0D94>>), L(<<\h0DDA>>, <<\h0DD9>>), L(<<\h0DDD>>, <<\h0DDC>>) >>
    [] o = "MalayalamPrakrit" -> << L(<<\h0D02>>, <<\h0D00>>) >> \o Gemin("Malayalam", <<\h0D02>>)
    [] o = "GranthaPrakrit" -> GranthaPrakrit
    [] o = "RephaDoubleMalayalam" -> MalayalamDoubles
    [] o = "TamilSHADisable" -> << L(<<\hBB6>>, <<\hBB8,\hB2>>) >>
    [] o = "TamilDisableSHA" -> << L(<<\hBB6>>, <<\hBB7,\hB2>>) >> \o HopDiacritic("Tamil") \o << L(<<\hBB7,\hBCD,\hB2,\hBB0,\hBC0>>, <<\hBB6,\hBCD,\hBB0,\hBC0>>) >>
    [] o = "TamilAddFirstVarga" -> FirstVarga
    [] o = "MedievalTamilOrthography" -> Series(EO, OldEO)
    [] o = "FinalNNa" -> FinalNa [] o = "ContextualLLa" -> LaAsLla
    [] o \in DOMAIN OwnNumerals -> LET s == OwnNumerals[o] IN [i \in 1..10 |-> RNotAfter(<<{47 + i}>>, Gl(s, kD, i-1), <<{104}>>)]
    [] o \in DOMAIN OwnDandas -> LET s == OwnDandas[o] IN << L(<<46,46>>, Gl(s, kS, 2)), L(<<46>>, Gl(s, kS, 1)) >>
    [] o = "TibetanNada" -> << L(<<\h0F83>>, <<\h0F82>>) >> [] o = "TibetanTsheg" -> << L(<<\h0F0B>>, <<32>>) >>
    [] o = "ThamTallADisable" -> << L(<<\h1A64>>, <<\h1A63>>) >> [] o = "TaiThamO" -> << L(<<\h1A6E,\h1A63>>, <<\h1A70>>) >>
    [] o = "TaiThamHighNga" -> << L(<<\h1A58>>, <<\h1A59>>) >> [] o = "TaiThamMoveNnga" -> << R(<<ANY,{\h1A58}>>, <<-2,-1>>) >>
    [] o = "ThamTallAOthers" -> TallAlso({\h1A27,\h1A3B,\h1A41,\h1A3D})
    [] o = "ThamShiftMaiKangLai" -> << R(<<{\h1A58},ANY>>, <<-2,-1>>), R(<<{\h1A58},{\h1A55,\h1A56}>>, <<-2,-1>>), R(<<{\h1A58},{\h1A60},ANY>>, <<-2,-3,-1>>),
         Hop(ThamSigns, \h1A58, \h1A58), Hop(ThamSigns, \h1A58, \h1A58) >>
    [] o = "ThaiVisargaSaraA" -> << L(<<\h0E2B,\h0E4C>>, <<\h0E30>>) >>
    [] o = "AnusvaratoNasalASTISO" -> NasalOfClass
    [] o = "NasalTilde" -> NasalOfClass \o << L(<<109,\h310>>, <<Tilde>>) \o R(<<{\h1E43,\h1E41}>>, <<Tilde>>) >>
    [] o = "SinhalaSannakaNasalization" -> [i \in 1..5 |-> RBefore(Lits(<<IF i = 5 THEN 109 ELSE 110, \h306>>), <<Class1(2)[i]>>, <<Class1(1)[i]>>)]
    [] o = "RomanLoCVaWa" -> << L(<<118>>, <<119>>) >> [] o = "RomanLoCSasha" -> << L(<<\h1E63>>, <<115,104>>) >>
    [] o = "RomanLoCChandrabindu" -> Assimilate(Lits(<<109,\h310>>), LAMBDA i : <<110,\h310>>)
    [] o = "RomanLoCLaUnderscoreDoubleDot" -> << L(<<\h1E3B>>, <<108,\h324>>) >>
    [] o = "RomanLoCSLaDotLaUnderscore" -> << L(<<\h1E3B>>, <<108,\h333>>), L(<<108,\h324>>, <<\h1E3B>>) >>
    [] o = "HindiMarathiRomanLoCFix" -> << L(<<\h1E63>>, <<115,104>>), L(<<\h1E3B>>, <<\h1E37>>), L(<<108,\h333>>, <<108,\h324>>) >>
    [] o = "MalayalamNTA" -> << L(<<110,\h1E5F>>, <<110,\h1E6F>>) >>
    [] o = "MalayalamTTNTA" -> << L(<<\h1E5F,\h1E5F>>, <<\h1E6F,\h1E6F>>), L(<<110,\h1E5F>>, <<110,\h1E6F>>) >>
    [] o = "CyrillicPali" -> << L(<<\h43B,\h324>>, <<\h43B,\h323>>) >>
    [] o = "IPARemoveCross" -> << L(<<\hD7>>, <<>>) >>
    [] o = "AnusvaraToNasalIPA" -> IPANasals(<<>>) \o IPANasals(<<\h2D0>>)
    [] OTHER -> <<>>
=============================================================================
