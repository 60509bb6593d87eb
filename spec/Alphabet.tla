------------------------------ MODULE Alphabet ------------------------------
(* The abstract alphabet: the letters every Indic script writes, independent *)
(* of how.  A text is a sequence of integers: a token (>= 2000000) stands    *)
(* for an abstract letter, anything below is a Unicode code point (a         *)
(* foreign character, or, after spelling, a character of the script).        *)
EXTENDS Integers, Sequences, FiniteSets

TokBase == 2000000
Tok(k, i) == TokBase + k * 1000 + i
IsTok(t)  == t >= TokBase
Kind(t)   == (t - TokBase) \div 1000
Idx(t)    == t % 1000

kV == 0   \* independent vowels  a aa i ii u uu r rr l ll e ai o au | short e, o | candra e, o | ae
kM == 1   \* dependent vowel signs; sign i goes with vowel i (there is no sign 0)
kC == 2   \* consonants: 0..32 basic | 33 lla 34 zha 35 rra 36 nnna | 37..44 nukta | 45..49 prenasalised
kA == 3   \* candrabindu anusvara visarga
kH == 4   \* virama
kN == 5   \* nukta
kS == 6   \* avagraha danda double-danda
kD == 7   \* digits
kO == 8   \* om

V(i) == Tok(kV, i)   M(i) == Tok(kM, i)   C(i) == Tok(kC, i)   A(i) == Tok(kA, i)
H == Tok(kH, 0)      N == Tok(kN, 0)      S(i) == Tok(kS, i)   D(i) == Tok(kD, i)
O == Tok(kO, 0)

Is(t, k) == IsTok(t) /\ Kind(t) = k

Accent == {2385, 2386, 7386}             \* udatta, anudatta, double svarita: one per syllable

(* Orthographic well-formedness: which letter may follow which.  The writer   *)
(* machine only produces well-formed texts.                                   *)
MayFollow(p, t) ==
  CASE t \in Accent   -> p \notin Accent
    [] ~IsTok(t)     -> TRUE
    [] Kind(t) = kM  -> Is(p, kC)
    [] Kind(t) = kH  -> Is(p, kC)
    [] Kind(t) = kN  -> FALSE
    [] Kind(t) = kA  -> Is(p, kC) \/ Is(p, kM) \/ Is(p, kV)
    [] Kind(t) = kC  -> p # H \/ Idx(t) < 45   \* a prenasalised letter does not end a conjunct
    [] Kind(t) = kS  -> p # t              \* two dandas are a double danda: one letter
    [] OTHER         -> TRUE
MayStart(t) == ~IsTok(t) \/ Kind(t) \in {kV, kC, kS, kD, kO}
=============================================================================
