---------------------------- MODULE ShapingMinor ----------------------------
(* How the historic and minority Brahmic scripts of South Asia and of the     *)
(* Malay archipelago join letters.                                            *)
EXTENDS Shaping

Aux == \h02BE   Aux2 == \h02BF                 \* chart-internal marks: pseudo virama, variant letter
Row33(s) == {c(s,i) : i \in 0..32} \ {Absent, <<>>}
LastOf(Q) == Lasts(Q \ {Absent, <<>>})
AllLetters(s) == Cons(s) \cup Vows(s) \cup Sgns(s)

Mahajani == << L(<<\h11170,\h11173,Aux,\h1116D,Aux2,\h11151>>, <<\h11176>>), Drop({Aux}), Drop({Aux2}) >>

Ahom ==
  << L(<<\h1172B,\h1170D>>, <<\h1171E>>), L(<<\h1172B,\h1170E>>, <<\h1171D>>),
     \* the anusvara is written before the vowel sign (but after a pre-posed e)
     Cat([i \in 1..18 |-> L(m("Ahom",i) \o Gl("Ahom",kA,1), Gl("Ahom",kA,1) \o m("Ahom",i))]),
     L(Gl("Ahom",kA,1) \o <<\h11726>>, <<\h11726>> \o Gl("Ahom",kA,1)) >>

Multani == << Drop({Aux}), Drop({Aux2}), L(<<\h02CD,\h1128C>>, <<\h1128D>>), L(<<\h02CD,\h11282>>, <<\h11293>>) >>

Khudawadi == << L(<<\h02CD,\h112BC>>, <<\h112BD>>), L(<<\h02CD,\h112C2>>, <<\h112C3>>),
                L(<<\h02CD,\h112C8>>, <<\h112C9>>), L(<<\h02CD,\h112D4>>, <<\h112D5>>) >>

ZanabazarSquare ==
  << R(<<{h1("ZanabazarSquare")}, CF("ZanabazarSquare")>>, <<\h11A47, -2>>),
     L(<<\h11A0B,\h11A47,\h11A2F>>, <<\h11A32>>) >>

Khojki ==
  << L(<<\h02CD,\h1120A>>, <<\h1120B>>), L(<<\h02CD,\h11210>>, <<\h11211>>),
     L(<<\h02CD,\h11216>>, <<\h1121C>>), L(<<\h02CD,\h11221>>, <<\h11222>>) >>
  \o Gemin("Khojki", <<\h11237>>)
  \o << R(<<{\h11237}, ANY>>, <<-2,-1>>), L(<<\h11237,\h11236>>, <<\h11236,\h11237>>),
        L(<<\h20>>, <<\h1123A>>) >>

Bhaiksuki == << L(<<\h20>>, <<\h11C43>>) >>
Kaithi    == << L(<<\h20>>, <<\h2E31>>) >>

Saurashtra == << L(<<\hA892,\hA8C4,\hA8B0>>, <<\hA892,\hA8C4,ZWJ,\hA8B0>>) >>

MeeteiMayek ==
  LET con == <<0,27,24,20,19,15,4,25>> IN
  [i \in 1..8 |-> L(c("MeeteiMayek",con[i]) \o h("MeeteiMayek"), <<\hABDA + i>>)]

BatakSima == << L(<<\h1BD9,\h1BEE>>, <<\h1BD9,\h1BEF>>) >>

Cham ==
  LET s == "Cham"   vir == h1(s)
      nf == <<1,3,6,7,8,9,16,17,18,21,22,23,31,29>>   fin == <<0,2,5,5,5,19,15,15,15,20,20,20,30,30>>
      con == <<0,2,4,5,15,19,20,25,26,27,30,24>>
      code == <<\hAA40,\hAA41,\hAA42,\hAA44,\hAA45,\hAA46,\hAA47,\hAA48,\hAA49,\hAA4A,\hAA4B,\hAA4C>>
  IN << Drop({Mark}) >>
     \o [i \in 1..4 |-> L(<<vir>> \o c(s,24+i), <<\hAA32 + i>>)]            \* medial ya ra la va
     \o [i \in 1..14 |-> L(SelectSeq(c(s,nf[i]), LAMBDA x : TRUE) \o <<vir>>, c(s,fin[i]) \o <<vir>>)]
     \o Cat([i \in 1..12 |-> << L(c(s,con[i]) \o <<vir>>, <<code[i]>>),
             After(AllLetters(s), <<{\hAA28}, {vir}>>, <<\hAA4D>>) >>])
     \o << L(c(s,28) \o <<vir>>, c(s,28)) >>

Lepcha ==
  LET s == "Lepcha"  vir == Aux  nuk == \h1C37
      conLa == << c(s,0), c(s,2), c(s,20), c(s,22), c(s,24), c(s,32), c(s,43) >>
      cla   == << \h1C01,\h1C04,\h1C0F,\h1C14,\h1C16,\h1C1E,\h1C12 >>
      nf  == <<1,2,3,4,5,6,7,8,9,10,11,12,13,14,16,17,18,21,22,23,29,30,31>>
      fin == <<0,0,0,-1,0,0,0,0,19,15,15,15,15,19,15,15,15,20,20,20,15,15,15>>  \* -1: the anusvara
      before == Row33(s) \cup {v(s,i) : i \in 0..13} \cup {m(s,i) : i \in 1..13}
      fc == <<0,15,19,20,24,26,27>>   fs == <<\h1C2D,\h1C33,\h1C30,\h1C31,\h1C2E,\h1C32,\h1C2F>>
      FinSet == {fs[i] : i \in 1..7}
      anu == Gl(s,kA,1)
  IN [i \in 1..7 |-> L(conLa[i] \o <<vir>> \o c(s,27), <<cla[i]>>)]
     \o << L(<<vir>> \o c(s,25), <<\h1C24>>), L(<<vir>> \o c(s,26), <<\h1C25>>),
           L(<<nuk,vir>>, <<vir>>), L(c(s,32) \o <<vir>>, <<>>) >>
     \o [i \in 1..23 |-> After(before, Lits(c(s,nf[i]) \o <<vir>>),
            (IF fin[i] < 0 THEN anu ELSE c(s,fin[i])) \o <<vir>>)]
     \o << After(before, Lits(c(s,25) \o <<vir>>), v(s,2) \o <<vir>>),
           After(before, Lits(c(s,28) \o <<vir>>), v(s,4) \o <<vir>>) >>
     \o [i \in 1..7 |-> After(AllLetters(s), Lits(c(s,fc[i]) \o <<vir>>), <<fs[i]>>)]
     \o << Drop({vir}),
           After(Sgns(s), Lits(anu), <<\h1C35>>), L(<<\h1C27,\h1C36,\h1C35>>, <<\h1C27,\h1C35,\h1C36>>),
           R(<<{\h1C36}, FinSet>>, <<-2,-1>>) >>

Sundanese ==
  LET s == "Sundanese" IN
  << Final(s, c(s,26), \h1B81) >> \o [i \in 1..3 |-> L(h(s) \o c(s,24+i), <<\h1BA0 + i>>)]

Rejang == << Final("Rejang", c("Rejang",26), \hA951), Final("Rejang", c("Rejang",19), \hA950) >>
Balinese == << Final("Balinese", c("Balinese",26), \h1B03) >>
Javanese == << Final("Javanese", c("Javanese",26), \hA982),
               L(h("Javanese") \o c("Javanese",26), <<\hA9BF>>), L(h("Javanese") \o c("Javanese",25), <<\hA9BE>>) >>

Tagbanwa == Gemin("Tagbanwa", <<>>)
Buhid    == Gemin("Buhid", <<>>)
Buginese ==
  << L(<<\h1A02,Aux,\h1A00>>, <<\h1A03>>), L(<<\h1A06,Aux,\h1A04>>, <<\h1A07>>),
     L(<<\h1A0A,Aux,\h1A11>>, <<\h1A0B>>), L(<<\h1A0E,Aux,\h1A0C>>, <<\h1A0F>>) >>
  \o Gemin("Buginese", <<>>) \o << Drop({Aux}) >>

Makasar ==
  LET s == "Makasar"  sg == {\h11EF3,\h11EF4,\h11EF5,\h11EF6}  anka == \h11EF2
      one(x) == R(<<{x[1]}>> \o Tail(Lits(x)) \o <<sg>> \o Lits(x), x \o <<-(Len(x)+1), anka>>) \o L(x \o x, x \o <<anka>>)
  IN Gemin(s, <<>>) \o << Drop({Aux}), Drop({Mark}),
     Cat([i \in 1..33 |-> LET x == SelectSeq(c(s,i-1), LAMBDA y : y # Mark) IN
            IF x # c(s,i-1) THEN <<>> ELSE one(x)]) >>

DivesAkuru ==
  LET s == "DivesAkuru" cs == CF(s) \cup {\h11926} IN
  << R(<<{h1(s)}, cs>>, <<\h1193E, -2>>), L(<<\h1193E>> \o c(s,26), <<\h11942>>),
     L(<<\h1193E>> \o c(s,25), <<\h11940>>),
     Rule(Lits(c(s,26) \o <<\h1193E>>) \o <<cs>>, <<\h11941,-3>>, <<>>, <<{\h1193E}>>, <<>>, <<>>, <<>>) >>

Kawi ==
  LET s == "Kawi" vir == \h11F41 sub == \h11F42 tall == {\h11F26,\h11F16,\h11F1C}
      e == {\h11F3E} aa == {\h11F34} alt == \h11F35 cs == Lasts(Ones(Cons(s))) mk == {Mark}
  IN << R(<<{vir}, CF(s)>>, <<sub,-2>>),
        Rule(<<{\h11F2C},{sub},CF(s)>>, <<\h11F02,-3>>, <<>>, <<{sub}>>, <<>>, <<>>, <<>>),
        RNotAfter(<<tall,e,aa>>, <<-1,-2,alt>>, <<{sub}>>) \o RNotAfter(<<tall,aa>>, <<-1,alt>>, <<{sub}>>),
        R(<<tall,{sub},cs,e,aa>>, <<-1,-2,-3,-4,alt>>) \o R(<<tall,{sub},cs,aa>>, <<-1,-2,-3,alt>>)
        \o R(<<tall,{sub},cs,mk,e,aa>>, <<-1,-2,-3,-4,-5,alt>>) \o R(<<tall,{sub},cs,mk,aa>>, <<-1,-2,-3,-4,alt>>),
        R(<<tall,{sub},cs,{sub},cs,e,aa>>, <<-1,-2,-3,-4,-5,-6,alt>>) \o R(<<tall,{sub},cs,{sub},cs,aa>>, <<-1,-2,-3,-4,-5,alt>>)
        \o R(<<tall,{sub},cs,mk,{sub},cs,e,aa>>, <<-1,-2,-3,-4,-5,-6,-7,alt>>) \o R(<<tall,{sub},cs,mk,{sub},cs,aa>>, <<-1,-2,-3,-4,-5,-6,alt>>)
        \o R(<<tall,{sub},cs,{sub},cs,mk,e,aa>>, <<-1,-2,-3,-4,-5,-6,-7,alt>>) \o R(<<tall,{sub},cs,{sub},cs,mk,aa>>, <<-1,-2,-3,-4,-5,-6,alt>>),
        R(<<{sub},{\h11F1A,\h11F26,\h11F27,\h11F2B,\h11F31},{alt}>>, <<-1,-2,\h11F34>>) >>

MasaramGondi ==
  LET s == "MasaramGondi" cs == CF(s) hal == \h11D45 IN
  << L(<<\h11D0C,hal,\h11D2A>>, <<\h11D2E>>), L(<<\h11D13,hal,\h11D15>>, <<\h11D2F>>), L(<<\h11D1B,hal,\h11D26>>, <<\h11D30>>),
     R(<<CL(s),{hal},{\h11D26}>>, <<-1,\h11D47>>),
     R(<<{\h11D26},{hal},cs>>, <<\h11D46,-3>>),
     RNotBefore(<<{hal}>>, <<\h11D44>>, <<cs>>) >>

GunjalaGondi == << Drop({Aux}), Drop({Aux2}), RNotBefore(<<{\h11D97}>>, <<>>, <<CF("GunjalaGondi")>>) >>

Soyombo ==
  LET s == "Soyombo" vir == \h11A99 cs == CF(s) IN
  << L(<<\h11A5C,vir,\h11A80>>, <<\h11A83>>),
     RBefore(<<{\h11A7F},{vir}>>, <<\h11A88>>, <<cs>>),
     Rule(<<ANY,{vir},ANY>>, <<-1,\h11A98>>, <<>>, <<{vir}>>, <<>>, <<>>, << <<1,3>> >>),
     RNotBefore(<<{vir}>>, <<>>, <<cs>>) >>

Marchen ==
  LET sub == (\h11C72..\h11C87) \cup (\h11C89..\h11C8E) IN
  << R(<<{Aux}, sub>>, <<Shift(2,32)>>), Drop({Aux}), Drop({Aux2}) >>

Chakma ==
  LET s == "Chakma"  aa == \h11127  vir == \h11134  dep == \h11133
      cs == (CL(s) \ {Mark}) \cup {\h11103}
      vs == (MF(s) \cup {vir, dep})
      yrlvn == {c1(s,19)} \cup {c1(s,i) : i \in 26..28}
      mv == (MF(s) \ {dep})
      con == CL(s) \ {Mark}
  IN << Drop({Mark}),
        \* the inherent vowel is aa: a bare consonant carries no sign, the others swap roles
        RNotBefore(<<cs>>, <<-1, Aux>>, <<vs>>), Drop({aa}), L(<<Aux>>, <<aa>>),
        L(<<\h11123,dep,\h11126>>, <<\h11144>>), L(<<\h11123,vir,\h11126>>, <<\h11144>>),
        R(<<cs,{\h11103},{\h11128}>>, <<-1,\h1112D>>),
        L(<<\h1112C,\h11103,\h11128,\h02BC>>, <<\h11146>>),
        RBefore(<<{vir}>>, <<dep>>, <<yrlvn>>),
        RSame(<<con,{vir,dep},con,mv>>, <<-1,vir,-4>>, << <<1,3>> >>),
        RSame(<<con,{vir},con,{dep},con>>, <<-1,vir,dep,-5>>, << <<1,3>> >>),
        RSame(<<con,{dep},con,{dep},con>>, <<-1,vir,dep,-5>>, << <<1,3>> >>),
        R(<<{dep},con,{vir},mv>>, <<vir,-2,vir,-4>>) >>

Limbu(s) ==
  LET fc == <<0,4,15,19,20,24,26,27>> fs == <<\h1930,\h1931,\h1933,\h1934,\h1935,\h1936,\h1937,\h1938>> IN
  << L(h(s) \o c(s,25), <<\h1929>>), L(h(s) \o c(s,26), <<\h192A>>), L(h(s) \o c(s,28), <<\h192B>>),
     L(<<\hA789>>, <<\h193A>>) >>
  \o [i \in 1..8 |-> After(AllLetters("Limbu"), <<{\h193A}>> \o Lits(c("Limbu",fc[i]) \o h(s)), <<\h193A, fs[i]>>)
                     \o After(AllLetters("Limbu"), Lits(c("Limbu",fc[i]) \o h(s)), <<fs[i]>>)]
  \o << L(<<\h0294>>, <<\h1939>>), L(<<\h21>>, <<\h1944>>), L(<<\h3F>>, <<\h1945>>) >>

MinorRules(s) ==
  CASE s = "Mahajani" -> Mahajani [] s = "Ahom" -> Ahom [] s = "Multani" -> Multani [] s = "Khudawadi" -> Khudawadi
    [] s = "ZanabazarSquare" -> ZanabazarSquare [] s = "Khojki" -> Khojki [] s = "Bhaiksuki" -> Bhaiksuki
    [] s = "Kaithi" -> Kaithi [] s = "Saurashtra" -> Saurashtra [] s = "MeeteiMayek" -> MeeteiMayek
    [] s = "BatakSima" -> BatakSima [] s = "Cham" -> Cham [] s = "Lepcha" -> Lepcha [] s = "Sundanese" -> Sundanese
    [] s = "Rejang" -> Rejang [] s = "Balinese" -> Balinese [] s = "Javanese" -> Javanese [] s = "Tagbanwa" -> Tagbanwa
    [] s = "Buhid" -> Buhid [] s = "Buginese" -> Buginese [] s = "Makasar" -> Makasar [] s = "DivesAkuru" -> DivesAkuru
    [] s = "Kawi" -> Kawi [] s = "MasaramGondi" -> MasaramGondi [] s = "GunjalaGondi" -> GunjalaGondi
    [] s = "Soyombo" -> Soyombo [] s = "Marchen" -> Marchen [] s = "Chakma" -> Chakma
    [] s \in {"Limbu","LimbuLoC"} -> Limbu(s)
    [] OTHER -> <<>>
=============================================================================
