------------------------------- MODULE Charts -------------------------------
(* The letter charts: how each script writes each abstract letter when the    *)
(* letter stands alone.  The charts are data (data/charts.json), one row per  *)
(* kind of letter; <<0>> marks a letter the script does not have.             *)
EXTENDS Alphabet, Json, IOUtils, TLC

ChartFile == IF "CHARTS" \in DOMAIN IOEnv THEN IOEnv.CHARTS ELSE "../build/charts.json"
Chart == JsonDeserialize(ChartFile)
Scripts == DOMAIN Chart

Absent == <<0>>
Gl(s, k, i) == Chart[s][k + 1][i + 1]
Glyph(s, t) == IF IsTok(t) THEN Gl(s, Kind(t), Idx(t)) ELSE <<t>>

First(q) == q[1]
Last(q)  == q[Len(q)]
Row(s, k) == {Chart[s][k + 1][i] : i \in DOMAIN Chart[s][k + 1]} \ {Absent, <<>>}
Firsts(Q) == {q[1] : q \in Q}
Lasts(Q)  == {q[Len(q)] : q \in Q}
Ones(Q)   == {q \in Q : Len(q) = 1}

c(s, i) == Gl(s, kC, i)       \* consonant glyph (a sequence)
c1(s, i) == Gl(s, kC, i)[1]   \* its first code point
m(s, i) == Gl(s, kM, i)
m1(s, i) == Gl(s, kM, i)[1]
v(s, i) == Gl(s, kV, i)
h(s) == Gl(s, kH, 0)
h1(s) == Gl(s, kH, 0)[1]

Cons(s)  == Row(s, kC)        Vows(s) == Row(s, kV)      Sgns(s) == Row(s, kM)
CF(s) == Firsts(Cons(s))      CL(s) == Lasts(Cons(s))
VF(s) == Firsts(Vows(s))      VL(s) == Lasts(Vows(s))
MF(s) == Firsts(Sgns(s))      ML(s) == Lasts(Sgns(s))
=============================================================================
