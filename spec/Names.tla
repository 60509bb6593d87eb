------------------------------- MODULE Names --------------------------------
(* Naming scripts.  A client names the script of its text and the one it wants   *)
(* by the script's name, its ISO 15924 code, a language code (on its own or with  *)
(* a script code), or the name of a language.  Resolve is what is meant.  All     *)
(* letter case is equal.  A code of several scripts means the one of its most     *)
(* populous language; a language of several scripts, the one used by most         *)
(* languages; Sanskrit and Pali, written in all of them, Devanagari; Latin, ISO.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Job == JsonDeserialize(IOEnv.JOB)   \* [scripts: [name, code, langs, people, used]..., names, codes, languages: <<name, code>>..., schemes, strange]
OutFile == IOEnv.OUT

\* names are sequences of code points
LowerC(x) == IF x \in 65..90 THEN x + 32 ELSE x
UpperC(x) == IF x \in 97..122 THEN x - 32 ELSE x
Lower(q) == [i \in DOMAIN q |-> LowerC(q[i])]
Upper(q) == [i \in DOMAIN q |-> UpperC(q[i])]
Same(p, q) == Lower(p) = Lower(q)
RECURSIVE Before(_, _)
Before(p, q) == IF p = <<>> THEN q # <<>> ELSE IF q = <<>> THEN FALSE
                ELSE IF p[1] # q[1] THEN p[1] < q[1] ELSE Before(Tail(p), Tail(q))

R == Job.scripts
Rows == DOMAIN R
Error == <<>>
Hyphen == 45
\* "hi-Deva" in two; a name without hyphen is not split
At(q) == IF \E i \in DOMAIN q : q[i] = Hyphen THEN CHOOSE i \in DOMAIN q : q[i] = Hyphen /\ \A j \in 1..i - 1 : q[j] # Hyphen ELSE 0
Front(q) == SubSeq(q, 1, At(q) - 1)
Back(q)  == SubSeq(q, At(q) + 1, Len(q))
Split(q) == At(q) > 0
Speaks(r, l) == \E i \in DOMAIN R[r].langs : Same(R[r].langs[i], l)

Latin == {<<108,97,116,110>>, <<101,110>>, <<101,110,103>>}     \* latn en eng
LatinL == {<<108,97>>, <<101,110>>, <<101,110,103>>}            \* la en eng
Anywhere == {<<115,97>>, <<115,97,110>>, <<112,105>>, <<112,108,105>>}   \* sa san pi pli
Devanagari == <<68,101,118,97,110,97,103,97,114,105>>
ISO == <<73,83,79>>
Syrc == <<83,121,114,99>>   Syre == <<83,121,114,101>>

\* of several scripts: the one with the greatest weight, among equals the last in alphabetical order
Choose(Q, weight) == IF Q = {} THEN Error
                     ELSE R[CHOOSE r \in Q : \A s \in Q : weight[s] < weight[r] \/ (weight[s] = weight[r] /\ (s = r \/ Before(R[s].name, R[r].name)))].name
People == [r \in Rows |-> R[r].people]
Used   == [r \in Rows |-> R[r].used]
Equal  == [r \in Rows |-> 0]

\* a script's own name, in any letter case; anything else is taken as it is
Named(q) == IF \E i \in DOMAIN Job.names : Same(Job.names[i], q)
            THEN Job.names[CHOOSE i \in DOMAIN Job.names : Same(Job.names[i], q) /\ \A j \in 1..i - 1 : ~Same(Job.names[j], q)]
            ELSE q
ByCode(t) ==
  LET q == IF t = Syrc THEN Syre ELSE t
      found == IF Split(q) THEN Choose({r \in Rows : Same(R[r].code, Back(q)) /\ Speaks(r, Front(q))}, Equal)
               ELSE Choose({r \in Rows : Same(R[r].code, q)}, People)
  IN IF Lower(q) \in Latin THEN ISO
     ELSE IF Split(q) /\ Lower(Front(q)) \in Latin THEN Named(Back(q))
     ELSE IF found # Error THEN found
     ELSE IF \E i \in DOMAIN Job.codes : Job.codes[i] = q THEN q ELSE Error
ByLanguage(q) ==
  LET whole == Choose({r \in Rows : Speaks(r, q)}, Used)
      pair  == IF Split(q) THEN Choose({r \in Rows : Same(R[r].code, Back(q)) /\ Speaks(r, Front(q))}, Equal) ELSE Error
      \* any script will do for Sanskrit: of several with the code, the last registered
      any   == {r \in Rows : Split(q) /\ Same(R[r].code, Back(q))}
  IN IF Lower(q) \in LatinL THEN ISO
     ELSE IF Split(q) /\ Lower(Front(q)) \in LatinL THEN Named(Back(q))
     ELSE IF Lower(q) \in Anywhere THEN Devanagari
     ELSE IF Split(q) /\ Lower(Front(q)) \in Anywhere /\ any # {} THEN R[CHOOSE r \in any : \A s \in any : s <= r].name
     ELSE IF Split(q) THEN pair ELSE whole
ByLanguageName(q) == IF \E i \in DOMAIN Job.languages : Same(Job.languages[i][1], q)
                     THEN ByLanguage(Job.languages[CHOOSE i \in DOMAIN Job.languages : Same(Job.languages[i][1], q)][2]) ELSE Error
Ways == {"default", "script_code", "lang_code", "lang_name"}
Resolve(way, q) == CASE way = "default" -> Named(q) [] way = "script_code" -> ByCode(q)
                     [] way = "lang_code" -> ByLanguage(q) [] OTHER -> ByLanguageName(q)

\* what clients say
Join(p, q) == p \o <<Hyphen>> \o q
Listed(x) == {x[i] : i \in DOMAIN x}
Codes == {R[r].code : r \in Rows} \cup Listed(Job.codes)
Langs == UNION {Listed(R[r].langs) : r \in Rows}
Simple == {r \in Rows : ~Split(R[r].code)}       \* (Hebr-Ar does not go into pairs)
Pairs == UNION {{Join(l, R[r].code) : l \in Listed(R[r].langs)} : r \in Simple}
Sanskrit == {Join(l, c) : l \in {<<115,97>>, <<112,108,105>>}, c \in {R[r].code : r \in Simple}}
Strange == Listed(Job.strange)
Says(way) == CASE way = "default" -> Listed(Job.names)
               [] way = "script_code" -> Codes \cup Pairs \cup Latin \cup {Syrc} \cup {Join(l, s) : l \in Latin, s \in Listed(Job.schemes)} \cup Strange
               [] way = "lang_code" -> Langs \cup Pairs \cup Sanskrit \cup Anywhere \cup LatinL \cup {Join(l, s) : l \in LatinL, s \in Listed(Job.schemes)} \cup Strange
               [] OTHER -> {Job.languages[i][1] : i \in DOMAIN Job.languages}
\* codes of scripts outside of the registry are exact
AnyCase(way, q) == way # "script_code" \/ (q # Syrc /\ ~\E i \in DOMAIN Job.codes : Same(Job.codes[i], q))

VARIABLES way, said, meant
vars == <<way, said, meant>>
Init == way \in Ways /\ said = <<>> /\ meant = <<>>
Ask(q) == said = <<>> /\ said' = q /\ meant' = Resolve(way, q) /\ UNCHANGED way
\* the same again, written differently
Retype == /\ said # <<>> /\ AnyCase(way, said)
          /\ said' \in {Lower(said), Upper(said)} /\ meant' = Resolve(way, said') /\ UNCHANGED way
Next == (\E q \in (IF said = <<>> THEN Says(way) ELSE {}) : Ask(q)) \/ Retype
Spec == Init /\ [][Next]_vars

CaseBlind == [][said # <<>> => meant' = meant]_vars
Belongs == said # <<>> /\ meant # Error =>
             CASE way = "script_code" /\ ~Split(said) /\ Lower(said) \notin Latin /\ meant # said /\ said # Syrc -> \E r \in Rows : R[r].name = meant /\ Same(R[r].code, said)
               [] way = "lang_code" /\ ~Split(said) /\ Lower(said) \notin Anywhere \cup LatinL -> \E r \in Rows : R[r].name = meant /\ Speaks(r, said)
               [] OTHER -> TRUE
\* every script with a language can be asked for
Popular == \A r \in Rows : R[r].langs # <<>> =>
             \E i \in DOMAIN R[r].langs : LET a == ByLanguage(Join(R[r].langs[i], R[r].code)) IN
                \/ a = R[r].name \/ \E s \in Rows : s # r /\ R[s].name = a /\ Same(R[s].code, R[r].code)
Emit == said # <<>> => CSVWrite("%1$s", <<ToJson(<<way, said, meant>>)>>, OutFile)
=============================================================================
