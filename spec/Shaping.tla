------------------------------ MODULE Shaping ------------------------------
(* How the scripts of India (and a few close relatives) join letters: the    *)
(* orthography of a script is a sequence of rewriting steps applied to the   *)
(* concatenation of its glyphs.                                              *)
EXTENDS Rewrite, Charts

ZWNJ == \h200C   ZWJ == \h200D
Mark == \h02BD                               \* chart-internal mark, never written
Svara == {\h0951, \h0952, \h1CDA}            \* udatta, anudatta, double svarita
Sup == {\h00B7, \h00B9, \h00B2, \h00B3, \h2074, \h2081, \h2082, \h2083, \h2084} \* letter diacritics

Cat(f) == Flatten(f)
Idxs(s, k) == DOMAIN Chart[s][k + 1]

(* ---- orthographic devices shared by several scripts ---- *)
DotDandas(s) == << L(Gl(s,kS,1), <<\h2E>>), L(Gl(s,kS,2), <<\h2E,\h2E>>) >>
AsciiDigits(s) == [i \in 1..10 |-> L(Gl(s,kD,i-1), <<47+i>>)]

Unasp == <<0,2,5,7,10,12,15,17,20,22>>       \* unaspirated stops; the aspirate follows in the alphabet
Gemin(s, g) ==
  LET order == Unasp \o <<4,9,14,19,24,25,26,27,28,29,30,31,32>> \o <<33,34,35,36>> \o <<37,38,39,40,41,42,43,44>> IN
  << Cat([i \in DOMAIN order |-> L(c(s,order[i]) \o h(s) \o c(s,order[i]), g \o c(s,order[i]))]) >>
  \o [i \in DOMAIN Unasp |-> L(c(s,Unasp[i]) \o h(s) \o c(s,Unasp[i]+1), g \o c(s,Unasp[i]+1))]

\* pat, right after one of the letters Q (which stays), becomes tail
After(Q, pat, tail) ==
  LET q == SetSeq(Q \ {<<>>, Absent}) IN
  Cat([i \in 1..Len(q) |-> R(Lits(q[i]) \o pat, q[i] \o tail)])

\* syllable-final ra (after a letter) becomes the script's repha
Final(s, con, sign) ==
  LET Q == Cons(s) \cup Vows(s) \cup Sgns(s)
  IN After({q \in Q : Len(q) > 1}, Lits(con \o h(s)), <<sign>>)
     \o R(<<Firsts(Ones(Q))>> \o Lits(con \o h(s)), <<-1, sign>>)

\* the sign order of the charts (virama first), for diacritics moving over a sign
SignOrder(s) == <<h(s)>> \o [i \in 1..18 |-> m(s,i)]
HopDiacritic(s) ==
  << Cat([i \in DOMAIN SignOrder(s) |->
       IF SignOrder(s)[i] \in {<<>>, Absent} THEN <<>>
       ELSE R(<<Sup>> \o Lits(SignOrder(s)[i]), SignOrder(s)[i] \o <<-1>>)]) >>

(* ---- the eleven Indian scripts in everyday use ---- *)
KhandaTa(s) ==
  Rule(Lits(c(s,15) \o h(s)), <<\h09CE>>, <<>>, <<{h1(s)}>>, <<>>,
       <<{c1(s,i) : i \in {x \in {15,16,19,27,24,25,26,28} : Len(c(s,x)) = 1}} \cup {\h09AC, \h09F0, \h09DF}>>, <<>>)

Assamese == << KhandaTa("Assamese"), L(<<\h09CE,\h02CD>>, <<\h09CE>>), L(<<\h09B0>>, <<\h09F0>>) >>

Bengali == <<
  RNotAfter(Lits(<<\h09CD,\h09AC>>), <<\h09CD,ZWNJ,\h09AC>>, <<{\h09B0,\h09AC,\h09AE}>>),
  RNotAfter(Lits(<<\h09CD,\h09AD,\h09BC>>), <<\h09CD,\h09AC>>, <<{\h09B0,\h09AC,\h09AE,\h09AD,\h09BC}>>),
  KhandaTa("Bengali"), L(<<\h09CE,\h02CD>>, <<\h09CE>>) >>

Gurmukhi(s) ==
  << L(Gl(s,kS,0) \o Gl(s,kS,0), <<\h28,\h0A06,\h29>>) >> \o Gemin("Gurmukhi", <<\h0A71>>)
  \o AsciiDigits(s)
  \o << R(<<Svara,{\h0A71},ANY>>, <<-1,-3,\h0A4D,-3>>) >>

Kannada == DotDandas("Kannada")
  \o << R(<<{\h0CCD}, Not({\h0CAB,\h0C9C}), {\h0CBC}>>, <<-1,ZWNJ,-2,-3>>) >>

Malayalam ==
  LET s == "Malayalam"
      cs(ix) == {c1(s,i) : i \in ix}
      letters == CL(s) \cup VL(s) \cup ML(s) \cup {\h0D3D} \cup Lasts(Row(s,kA)) \cup {\h0D02}
      chillu == << <<14,\h0D7A>>, <<19,\h0D7B>>, <<26,\h0D7C>>, <<27,\h0D7D>>, <<33,\h0D7E>>, <<36,0>> >>
      \* a chillu is not used before the consonants it conjoins with ...
      joins == << cs({10,11,12,13,14,24,25,28}), cs({15,16,17,18,19,24,25,26,28}) \cup {\h0D31},
                  cs({25,26}), cs({20,24,25,27,28}), cs({33,25,26}),
                  cs({15,16,17,18,19,24,25,26,28}) \cup {\h0D31} >>
      sign(i) == IF i = 6 THEN <<\h0D29,ZWJ,\h0D4D>> ELSE <<chillu[i][2]>>
      one(i, lets) ==
        LET cv == c(s,chillu[i][1]) \o h(s) IN <<
          Rule(<<lets>> \o Lits(cv), <<-1>> \o sign(i), <<>>, <<>>, <<>>, <<joins[i]>>, <<>>)
          \o Rule(<<lets, Svara>> \o Lits(cv), <<-1, -2>> \o sign(i), <<>>, <<>>, <<>>, <<joins[i]>>, <<>>),
          \* ... unless that consonant is itself doubled
          Cat([x \in 1..45 |-> IF Len(c(s,x-1)) = 1 /\ c1(s,x-1) \in joins[i]
             THEN RBefore(<<lets>> \o Lits(cv), <<-1>> \o sign(i), Lits(c(s,x-1) \o h(s) \o c(s,x-1)))
               \o RBefore(<<lets, Svara>> \o Lits(cv), <<-1, -2>> \o sign(i), Lits(c(s,x-1) \o h(s) \o c(s,x-1)))
             ELSE <<>>]) >>
  IN Cat([i \in 1..6 |-> one(i, letters)])
     \o DotDandas(s) \o AsciiDigits(s)

Sinhala ==
  LET vir == \h0DCA  ya == \h0DBA  ra == \h0DBB IN
  << R(<<{vir},{ya,ra}>>, <<-1,ZWJ,-2>>),
     R(<<{ra},{vir},{ZWJ},{ya}>>, <<-1,-3,-2,-3,-4>>),
     L(c("Sinhala",7) \o <<vir>> \o c("Sinhala",9), <<\h0DA5>>),
     L(c("Sinhala",0) \o <<vir>> \o c("Sinhala",30), c("Sinhala",0) \o <<vir,ZWJ>> \o c("Sinhala",30)),
     L(<<ra,ZWJ,vir,ZWJ,ya>>, <<ra,vir,ya>>),
     L(<<ra,vir,ZWJ,ra>>, <<ra,vir,ra>>) >>
  \o AsciiDigits("Sinhala")
  \o << L(<<\h28,\h0D85,\h29,\h28,\h0D85,\h29>>, <<\h28,\h0D86,\h29>>) >>

Tamil ==
  << L(<<\h28,\h0B85,\h29,\h28,\h0B85,\h29>>, <<\h28,\h0B86,\h29>>) >>
  \o DotDandas("Tamil") \o AsciiDigits("Tamil")
  \o [i \in 1..9 |->
       LET d == <<\h02BC,\h02EE,\hA789>>[((i-1) \div 3) + 1]
           a == <<\h0951,\h0952,\h1CDA>>[((i-1) % 3) + 1]
       IN L(<<d,a>>, <<a,d>>)]

Telugu == DotDandas("Telugu") \o AsciiDigits("Telugu")
Gujarati == DotDandas("Gujarati")
  \o << L(<<\h0A9C,\h0ABC,\h0ABC>>, <<\h0AF9>>), L(<<\h0AB6,\h0ABC>>, <<\h0AF9>>) >>

Devanagari ==
  << L(<<\h0294>>, <<\h097D>>),
     L(<<\h02CD,\h0917>>, <<\h097B>>), L(<<\h02CD,\h091C>>, <<\h097C>>),
     L(<<\h02CD,\h0921>>, <<\h097E>>), L(<<\h02CD,\h092C>>, <<\h097F>>),
     L(<<\h095B,\h093C>>, <<\h0979>>), L(<<\h0936,\h093C>>, <<\h0979>>),
     L(<<\h0931,\h094D>>, <<\h0931,\h094D,ZWNJ>>),
     L(<<\h0931,\h094D,ZWNJ,\h092F>>, <<\h0931,\h094D,\h092F>>),
     L(<<\h0931,\h094D,ZWNJ,\h0939>>, <<\h0931,\h094D,\h0939>>),
     R(<<CL("Devanagari"),{\h02BC}>>, <<-1,\h093A>>), L(<<\h093E,\h02BC>>, <<\h093B>>) >>

(* ---- scripts for Sanskrit in Tamil lands, Kashmir ---- *)
TamilExtended ==
  << L(<<\h0D15,\h0D4D,ZWNJ,\h0D37>>, <<\h0D15,\h0D4D,\h0D37>>),
     L(<<\h0D36,\h0D4D,ZWNJ,\h0D30>>, <<\h0D36,\h0D4D,ZWJ,\h0D30>>),
     L(<<\h0D57>>, <<\h0D4C>>), R(<<{ZWNJ},Svara>>, <<-2,-1>>) >>

TamilGrantha ==
  LET s == "TamilGrantha"
      J == <<\h200B,ZWNJ,ZWJ,ZWNJ>>
      e == m(s,10) ai == m(s,11) o == m(s,12) au == m(s,13) e2 == m(s,14) o2 == m(s,15) aa == m(s,1)
      each(sg, f(_)) == Cat([i \in 1..50 |-> IF c(s,i-1) \in {Absent,<<>>} THEN <<>>
                                 ELSE L(c(s,i-1) \o sg, f(c(s,i-1)))])
      pre(sg) == each(sg, LAMBDA x : J \o sg \o x)
  IN << pre(e) \o pre(ai) \o pre(e2),
        each(o, LAMBDA x : J \o e \o x \o aa), each(o2, LAMBDA x : J \o e2 \o x \o aa),
        each(au, LAMBDA x : J \o e2 \o x \o c("Tamil",33)),
        \* a prenasalising nga na .. stays in front of the displaced vowel sign
        R(<<{J[1]},{J[2]},{J[3]},{J[4]},ANY,CL(s),{\h0BCD},{\h02C6}>>, <<-6,-7,-8,-1,-2,-3,-4,-5>>) >>

Grantha ==
  << L(<<\h0951>>, <<\h1CF4>>), L(<<\h1CDA>>, <<\h0951>>), L(<<\hA8F3>>, <<\h1135E>>), L(<<\hA8F4>>, <<\h1135F>>),
     L(<<\h1133C,\h1134D>>, <<\h1133C,\h1134D,ZWNJ>>) >>

Sharada ==
  << L(<<\h111CA,\h111C0>>, <<\h111CA,\h111C0,ZWNJ>>),
     R(<<{\h111C0}, CL("Sharada") , {\h111CA}>>, <<-1,ZWNJ,-2,-3>>) >>

(* ---- common tail of every Indic orthography ---- *)
VedicScripts == {"Assamese","Bengali","Devanagari","Gujarati","Kannada","Malayalam","Oriya","Gurmukhi",
                 "Tamil","Telugu","TamilExtended","Grantha","Sharada"}
TailSteps(s)   == IF s \in VedicScripts THEN <<>>
  ELSE << L(<<\h0952>>, <<\h2193>>), L(<<\h1CDA>>, <<\h2191,\h2191>>), L(<<\h0951>>, <<\h2191>>) >>
=============================================================================
