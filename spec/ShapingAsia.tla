---------------------------- MODULE ShapingAsia ----------------------------
(* How the scripts of mainland Southeast Asia and Tibet join letters.         *)
EXTENDS ShapingMinor

(* ---- Khmer ---- *)
Khmer(s) ==
  LET ones == Lasts(Ones(Cons(s))) \cup (IF s = "KhmerLoC" THEN {\h17A2} ELSE {})  coeng == \h17D2 IN
  << R(<<{\h17D1}, IF s = "KhmerLoC" THEN CF(s) \cup {\h17A2} ELSE CF(s)>>, <<coeng,-2>>),
     \* a syllable-initial ra above a consonant is the robat, written after it
     Rule(<<{\h179A},{coeng},ones>>, <<-3,\h17CC>>, <<>>, <<{coeng}>>, <<>>, <<>>, <<>>)
       \o Rule(<<{\h179A},{coeng},{\h17C6},ones,{Mark}>>, <<-3,-4,-5,\h17CC>>, <<>>, <<{coeng}>>, <<>>, <<>>, <<>>),
     L(<<\h17B7,\h17C6>>, <<\h17B9>>) >>

(* ---- the tall AA of Burmese, Tham (and Kawi): used after narrow letters ---- *)
\* one / two subjoined letters may stand between the narrow letter and the sign
Sub1(sub, cs, nas) == << <<{sub},cs>>, <<{sub},cs,{Mark}>>, <<{sub},nas,cs,{Mark}>> >>
Sub2(sub, cs, nas) == Cat([i \in 1..3 |-> [j \in 1..3 |-> Sub1(sub,cs,nas)[i] \o Sub1(sub,cs,nas)[j]]])
Keep(n) == [k \in 1..n |-> -k]
TallAfter(tall, mids, e, aa, alt) ==
  Cat([i \in DOMAIN mids |->
      R(<<tall>> \o mids[i] \o <<{e},{aa}>>, Keep(Len(mids[i]) + 2) \o <<alt>>)
      \o R(<<tall>> \o mids[i] \o <<{aa}>>, Keep(Len(mids[i]) + 1) \o <<alt>>)])
TallHere(tall, ctx(_,_), e, aa, alt) == ctx(<<tall,{e},{aa}>>, <<-1,-2,alt>>) \o ctx(<<tall,{aa}>>, <<-1,alt>>)

(* ---- Burmese, Mon ---- *)
BurmeseSteps ==
  LET s == "Burmese" asat == \h103A stack == \h1039 aa == \h102C tallaa == \h102B e == \h1031
      cs == Lasts(Ones(Cons(s))) nas == {\h1036}
      tall == {c1(s,i) : i \in {1,2,4,17,20,28}} IN
  << RNotAfter(<<{asat}, CF(s)>>, <<stack,-2>>, <<{aa}>>),
     L(<<c1(s,4),stack>>, <<c1(s,4),asat,stack>>), L(<<\h101B,stack>>, <<\h101B,asat,stack>>),
     TallHere(tall, LAMBDA p, o : RNotAfter(p, o, <<{stack}>>), e, aa, tallaa),
     TallAfter(tall, Sub1(stack,cs,nas), e, aa, tallaa),
     TallAfter(tall, Sub2(stack,cs,nas), e, aa, tallaa),
     TallHere(tall, LAMBDA p, o : RAfter(p, o, <<{asat},{stack}>>), e, aa, tallaa),
     \* medial ya ra va ha
     RNotAfter(<<{stack},{c1(s,25)}>>, <<\h103B>>, <<{asat}>>), RNotAfter(<<{stack},{c1(s,26)}>>, <<\h103C>>, <<{asat}>>),
     RNotAfter(<<{stack},{c1(s,28)}>>, <<\h103D>>, <<{asat}>>), RNotAfter(<<{stack},{c1(s,32)}>>, <<\h103E>>, <<{asat}>>),
     L(<<\h103B,tallaa>>, <<\h103B,aa>>), RNotAfter(Lits(<<\h103C,tallaa>>), <<\h103C,aa>>, <<{\h1002}>>),
     L(<<\h103B,e,tallaa>>, <<\h103B,e,aa>>), RNotAfter(Lits(<<\h103C,e,tallaa>>), <<\h103C,e,aa>>, <<{\h1002}>>),
     L(<<\h101E,stack,\h101E>>, <<\h103F>>), L(<<\h1009,stack,\h1009>>, <<\h100A>>),
     L(<<\h02F3>>, <<\h1037>>), L(<<asat,\h1037>>, <<\h1037,asat>>),
     L(<<aa,stack>>, <<aa,asat>>),
     RBefore(Lits(<<\h101B,asat,stack,\h1004,asat,stack>>), <<\h101B,asat,stack,\h1004,stack>>, <<CF(s)>>),
     L(<<tallaa,stack>>, <<tallaa,asat>>),
     L(<<asat,stack,\h101A>>, <<\h103B>>), L(<<\h103C,asat,stack,\h101D>>, <<\h103C,\h103D>>),
     R(<<{\h103E},{\h103B,\h103C,\h103D}>>, <<-2,-1>>),
     L(<<\h103C,\h103B>>, <<\h103B,\h103C>>), L(<<\h103D,\h103B>>, <<\h103B,\h103D>>), L(<<\h103D,\h103C>>, <<\h103C,\h103D>>),
     L(<<\h101B,\h103B>>, <<\h101B,asat,stack,\h101A>>), L(<<\h1004,\h103B>>, <<\h1004,asat,stack,\h101A>>) >>

Mon ==
  LET med == <<\h105E,\h105F,\h1060>>
      full == << <<\h1039,\h1014>>, <<\h1039,\h1019>>, <<\h1039,\h101C>> >> IN
  << L(<<\h105A>>, <<\h1004>>), L(<<\h100A>>, <<\h1009>>), L(<<\h105B>>, <<\h1008>>) >>
  \o BurmeseSteps
  \o << L(<<\h100A>>, <<\hE001>>),
        L(<<\h1004>>, <<\h105A>>), L(<<\h1009>>, <<\h100A>>), L(<<\h1008>>, <<\h105B>>),
        L(<<\hE001>>, <<\h100A,\h1039,\h100A>>) >>
  \o [i \in 1..3 |-> L(full[i], <<med[i]>>)]
  \o << L(<<\h1060,\h103C>>, <<\h103C,\h1060>>) >>
  \o Cat([i \in 1..3 |-> [j \in 1..3 |-> L(<<med[i],med[j]>>, full[i] \o full[j])]])
  \o Cat([i \in 1..3 |-> << L(<<med[i],\h103B>>, full[i] \o <<\h103B>>),
                            L(<<\h101B,\h103A,med[i]>>, <<\h101B,\h103A>> \o full[i]),
                            L(<<\h105A,\h103A,med[i]>>, <<\h105A,\h103A>> \o full[i]) >>])

(* ---- Shan, Khamti Shan, Tai Laing ---- *)
KhamtiShan ==
  << L(<<\h103A,\h101B>>, <<\h103C>>), L(<<\h103A,\h101A>>, <<\h103B>>), L(<<\h103A,\h101D>>, <<\h103D>>),
     L(<<\h103C,\h103B>>, <<\h103B,\h103C>>), L(<<\h103D,\h103B>>, <<\h103B,\h103D>>), L(<<\h1082,\h103C>>, <<\h103C,\h103D>>) >>
TaiLaing ==
  << L(<<\h103A,\hAA7A>>, <<\h103C>>), L(<<\h103A,\h101A>>, <<\h103B>>), L(<<\h103A,\h101D>>, <<\h1082>>),
     L(<<\h103C,\h103B>>, <<\h103B,\h103C>>), L(<<\h103D,\h103B>>, <<\h103B,\h103D>>), L(<<\h1082,\h103C>>, <<\h103C,\h1082>>),
     L(<<\h1082,\h103B>>, <<\h103A,\h1040,\h103B>>) >>
Shan ==
  << L(<<\h103A,\h101B>>, <<\h103C>>), L(<<\h103A,\h101A>>, <<\h103B>>), L(<<\h103A,\h101D>>, <<\h1082>>),
     R(<<{\h103E},{\h103B,\h103C,\h103D}>>, <<-2,-1>>),
     L(<<\h103C,\h103B>>, <<\h103B,\h103C>>), L(<<\h103D,\h103B>>, <<\h103B,\h103D>>), L(<<\h103D,\h103C>>, <<\h103C,\h103D>>),
     L(<<\h101E,\h103B,Mark,\h103B>>, <<\h101E,\h103B,\h103A,\h101A>>) \o L(<<\h101E,\h103B,\h103B>>, <<\h101E,\h103B,\h103A,\h101A>>) >>

(* ---- Tai Tham ---- *)
Tham(s) ==
  LET b == "TaiTham" vir == \h1A7A sakot == \h1A60 e == \h1A6E aa == \h1A63 alt == \h1A64
      cs == Lasts(Ones(Cons(b))) nas == {\h1A74}
      tall == {\h1A45,\h1A34,\h1A35,\h1A23}
      tallLoC == tall \cup {\h1A37}
      low == {\h1A25,\h1A2B,\h1A2C,\h1A30,\h1A38,\h1A48,\h1A3F,\h1A47,\h1A39}
      again(t) == << TallAfter(t, Sub1(sakot,cs,nas), e, aa, alt), TallAfter(t, Sub2(sakot,cs,nas), e, aa, alt) >>
  IN << L(<<vir>> \o c(b,26), <<\h1A55>>), L(<<vir>> \o c(b,27), <<\h1A56>>),
        R(Lits(c(b,4) \o <<vir>>) \o <<CF(b)>>, <<\h1A58,-3>>),
        R(<<{vir}, CF(b)>>, <<sakot,-2>>), L(<<\h1A48,sakot,\h1A48>>, <<\h1A54>>),
        TallHere(tall, LAMBDA p, o : RNotAfter(p, o, <<{sakot}>>), e, aa, alt) >>
     \o again(tall)
     \o << TallAfter(tall, << <<{\h1A55,\h1A56}>> >>, e, aa, alt),
           R(<<{sakot},low,{e},{alt}>>, <<-1,-2,e,aa>>), R(<<{sakot},low,{alt}>>, <<-1,-2,aa>>),
           L(<<\h1A55,sakot,\h1A3F>>, <<sakot,\h1A3F,\h1A55>>), L(<<sakot,\h1A47>>, <<vir,\h1A47>>) >>
     \o (IF s = "ThamLoC" THEN again(tallLoC) ELSE IF s \in {"LueTham","KhuenTham"} THEN again(tall) ELSE <<>>)
     \o (IF s = "KhuenTham" THEN << L(<<vir>>, <<\h1A7C>>) >> ELSE <<>>)

(* ---- Thai, Khom Thai, Lao (Pali): pre-posed vowel signs ---- *)
PreposedSigns(s) == <<m(s,17), m(s,14), m(s,15), m(s,16), m(s,10), m(s,11), m(s,12), m(s,18)>>
SwapSigns(s, cons, signs) ==
  LET q == SetSeq(cons \ {Absent, <<>>}) IN
  Cat([i \in 1..Len(q) |-> Cat([j \in 1..Len(signs) |-> L(q[i] \o signs[j], signs[j] \o q[i])])])
ReverseSigns(s) ==
  SwapSigns(s, Cons(s) \cup {v(s,0)}, PreposedSigns(s) \o (IF s = "Thai" THEN << <<\h0E43>> >> ELSE <<>>))
ThaiSigns == << ReverseSigns("Thai"), L(<<\h0E32,\h0E4D>>, <<\h0E33>>), L(<<\h0E34,\h0E4D>>, <<\h0E36>>) >>

\* a vowel pre-posed to the last consonant moves in front of the cluster
Lead(s, first, last) ==
  LET q == SetSeq(first) IN
  Cat([i \in 1..Len(q) |->
    LET n == Len(q[i]) IN
    R(Lits(q[i] \o h(s)) \o <<{\h0E40,\h0E44,\h0E42}, last>>, <<-(n+2)>> \o Keep(n) \o <<-(n+1), -(n+3)>>)])
Thai ==
  LET s == "Thai"
      ws == {\h20, 10, 9, 13, \hA0}
      cx == Cons(s)
      q == SetSeq(cx)
  IN ThaiSigns \o <<
     Cat([i \in 1..Len(q) |-> LET n == Len(q[i]) IN
        \* at the beginning of a word
        RNotAfter(Lits(q[i] \o h(s)) \o <<{\h0E40,\h0E44,\h0E42}, CF(s)>>, <<-(n+2)>> \o Keep(n) \o <<-(n+1), -(n+3)>>, <<Not(ws)>>)]),
     Lead(s, cx, {c1(s,i) : i \in {25,26,27,28,32}}),
     Lead(s, {c(s,31), c(s,32)}, CF(s)) >>

KhomThai ==
  LET dot == {\h0E3A}
      run(n) == Cat([k \in 1..n |-> <<ANY, dot>>]) IN
  << L(<<\h0E42>>, <<\h0E40,\h0E32>>) >> \o ThaiSigns \o
  << R(<<ANY,dot,ANY,dot,{\h0E43}>>, <<-5,-1,-2,-3,-4>>), R(<<ANY,dot,{\h0E43}>>, <<-3,-1,-2>>),
     Cat([k \in 1..6 |-> R(run(7-k) \o <<{\h0E40}>>, <<-(2*(7-k)+1)>> \o Keep(2*(7-k)))]),
     R(<<ANY,dot,ANY,dot,{\h0E23}>>, <<-4,-5,-1,-2,-3>>) \o R(<<ANY,dot,{\h0E23}>>, <<-2,-3,-1>>),
     L(<<\h0E40,\h0E2D,\h0E32>>, <<\h0E42,\h0E2D>>), L(<<\h0E40,\h0E2D,\h0E33>>, <<\h0E40,\h0E32,\h0E2D,\h0E4D>>),
     L(<<\h0E40,\h0E32,\h0E2D,\h0E4D>>, <<\h0E42,\h0E2D,\h0E4D>>) >>

LaoPali == << ReverseSigns("LaoPali"), L(<<\h0EB2,\h0ECD>>, <<\h0EB3>>) >>

(* ---- Tibetan: stacks ---- *)
Tibetan ==
  LET halanta == \h0F84 IN
  << R(<<{\h0F88,\h0F89}>>, <<-1,halanta>>),
     R(<<{halanta}, \h0F40..\h0F67>>, <<Shift(2,80)>>),
     \* wa ya ra keep their full shape in these stacks
     L(<<\h0F5D,\h0FAD>>, <<\h0F5D,\h0FBA>>), L(<<\h0F61,\h0FB1>>, <<\h0F61,\h0FBB>>),
     L(<<\h0F62,\h0FB1>>, <<\h0F6A,\h0FBB>>), L(<<\h0F62,\h0FAD>>, <<\h0F6A,\h0FBA>>), L(<<\h0FBA,\h0FAD>>, <<\h0FBA,\h0FBA>>),
     L(<<\h20>>, <<\h0F0B>>), L(<<\h0F5C,\h0F39>>, <<\h0F5E>>),
     L(<<\h28>>, <<\h0F3A>>), L(<<\h29>>, <<\h0F3B>>), L(<<\h7B>>, <<\h0F3C>>), L(<<\h7D>>, <<\h0F3D>>) >>

AsiaRules(s) ==
  CASE s \in {"Khmer","KhmerLoC"} -> Khmer(s)
    [] s = "Burmese" -> BurmeseSteps [] s = "Mon" -> Mon
    [] s = "KhamtiShan" -> KhamtiShan [] s = "TaiLaing" -> TaiLaing [] s = "Shan" -> Shan
    [] s \in {"TaiTham","LaoTham","ThamLoC","LueTham","KhuenTham"} -> Tham(s)
    [] s = "Thai" -> Thai [] s = "KhomThai" -> KhomThai [] s = "LaoPali" -> LaoPali
    [] s \in {"Tibetan","TibetanLoC"} -> Tibetan
    [] OTHER -> MinorRules(s)
=============================================================================
