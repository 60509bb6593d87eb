----------------------------- MODULE ShapingRare -----------------------------
(* Alphabets that write every vowel, yet not in the Latin manner.             *)
EXTENDS Roman

Alphabets == {"WarangCiti","HanifiRohingya","Mongolian","Avestan"}

\* Warang Citi: a joiner between the letters of a cluster; no sign for the inherent vowel
WarangCiti ==
  LET s == "WarangCiti"  aa == <<\h118C1,\h118D9,\h02BE>>  nasal == \h118C0 IN
  << RBefore(<<CL(s)>>, <<-1,ZWJ>>, <<CF(s) \ {nasal}>>),
     R(<<CL(s)>> \o Lits(aa), <<-1,\hBD>>),
     R(<<CL(s),{\h118C1}>>, <<-1>>),
     R(<<Lasts(Vows(s)) \cup {ZWJ}, {nasal}>>, <<-1,ZWJ,-2>>),
     Drop({\h02BE}),
     L(<<\hBD>>, <<\h118C1>>) >>

\* Avestan: ya and va inside a word are doubled vowels; nasal a's are letters
Avestan ==
  LET s == "Avestan"
      inner == CL(s) \cup VL(s) \cup {\h10B33,\h10B32,\h10B1D,\h10B12,\h10B23}
      ya == c1(s,25)  va == c1(s,28) IN
  << L(<<\h10B00,\h10B29>>, <<\h10B04>>), L(<<\h10B01,\h10B29>>, <<\h10B05>>),
     R(<<inner,{ya}>>, <<-1>> \o v(s,2) \o v(s,2)),
     R(<<inner \cup VL(s),{va}>>, <<-1>> \o v(s,4) \o v(s,4)),
     L(<<\h10B01,Bar,\h10B0B>>, <<\h10B03>>) >>

\* Hanifi Rohingya: a carrier for vowels that follow no consonant, a sign for doubled letters
Rohingya ==
  LET s == "HanifiRohingya"  letters == Firsts(Ones({SelectSeq(q, LAMBDA x : x # Mark) : q \in Cons(s)}))
      carrier == \h10D00  vf == VF(s) \ CF(s)  long == \h10D24
      notA == {q \in Vows(s) : Mark \notin Chars(q)} \ {v(s,0)} IN
  << RNotAfter(<<vf>>, <<carrier,-1>>, <<CL(s) \ {Mark}>>),
     RSame(<<letters \cup {\h10D17,\h10D19}, letters \cup {\h10D17,\h10D19}>>, <<-1,\h10D27>>, <<<<1,2>>>>),
     SetAlts(notA, LAMBDA q : L(q \o <<carrier,\h10D1F>>, q \o <<\h10D17>>)),
     SetAlts(notA, LAMBDA q : L(q \o <<carrier,\h10D1E>>, q \o <<\h10D19>>)),
     L(<<Bar>>, <<\h10D22>>),
     L(<<44>>, <<\h060C>>) \o L(<<63>>, <<\h061F>>) \o L(<<59>>, <<\h061B>>) >>

\* Mongolian Ali Gali: the anusvara stands before its syllable
Mongolian ==
  LET s == "Mongolian"  fvs == \h180B  nasal == \h1880
      own(Q) == {q \in Q : Mark \notin Chars(q)}
      units == own(Cons(s))  vowels == own(Vows(s))
      c1s == Firsts({q \in units : Len(q) = 1})
      c2s == {q \in units : Len(q) > 1 /\ q[1] # nasal}
      two == <<Firsts(c2s), {\h183E}>>
      shapes(n) == IF n = 0 THEN {<<>>} ELSE [1..n -> {1,2}]
      pat(f) == Flatten([i \in DOMAIN f |-> IF f[i] = 1 THEN <<c1s>> ELSE two])
      move(f) == SetAlts(vowels, LAMBDA q : LET p == pat(f) \o Lits(q) IN R(p \o <<{nasal}>>, <<-(Len(p) + 1)>> \o [i \in DOMAIN p |-> -i]))
      moves(n) == LET fs == SetSeq(shapes(n)) IN Cat([i \in DOMAIN fs |-> move(fs[i])]) IN
  << RBefore(<<{fvs}>>, <<>>, <<c1s>>), SetAlts(vowels, LAMBDA q : L(<<fvs>> \o q, q)),
     moves(3) \o moves(2) \o moves(1) \o moves(0),
     L(<<\h02BC>>, <<\h200B>>) >>

AlphabetHabits(s) ==
  CASE s = "WarangCiti" -> WarangCiti
    [] s = "Avestan" -> Avestan
    [] s = "HanifiRohingya" -> Rohingya
    [] s = "Mongolian" -> Mongolian
    [] OTHER -> <<>>
\* Old Persian: consonant signs of i- and u-syllables; words are divided by a sign
OldPersian ==
  LET i == \h103A1  u == \h103A2
      syll(x, sg, y) == L(<<x,sg>>, <<y,sg>>) IN
  << L(<<32>>, <<\h103D0>>), Drop({95,60}),
     syll(\h103AD, i, \h103AE) \o syll(\h103B6, i, \h103B7) \o syll(\h103A9, i, \h103AA) \o syll(\h103BA, i, \h103BB)
     \o syll(\h103AD, u, \h103AF) \o syll(\h103B6, u, \h103B8) \o syll(\h103A3, u, \h103A4) \o syll(\h103A5, u, \h103A6)
     \o syll(\h103AB, u, \h103AC) \o syll(\h103B4, u, \h103B5) \o syll(\h103BC, u, \h103BD) >>

\* Thaana: doubled letters, the Arabic comma and its kin, no short a before a vowel sign
Thaana ==
  LET s == "Thaana"  a == \h07A6  g == <<\h0787,\h07B0>> IN
  Gemin(s, g)
  \o << SetAlts(Sgns(s) \cup {h(s)}, LAMBDA q : RBefore(<<{a}>>, <<>>, Lits(q))),
        L(<<44>>, <<\h060C>>) \o L(<<63>>, <<\h061F>>) \o L(<<59>>, <<\h061B>>) >>

AlphabetOrthography(s) == Alphabetic(s) \o <<Drop({Mark})>> \o Accents(s) \o AlphabetHabits(s)
==============================================================================
