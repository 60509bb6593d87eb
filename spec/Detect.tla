------------------------------- MODULE Detect -------------------------------
(* Recognising the script of a text.  Every character counts for the block its   *)
(* name begins with; the block with most characters wins (among equals, the one   *)
(* whose name comes last, which is not relied on).  Blocks shared by several      *)
(* scripts are told apart by letters only some of them use.                       *)
EXTENDS Charts, CSV

Job == JsonDeserialize(IOEnv.JOB)   \* [first, second: scripts with a block of their own; length]  or [family, length]
OutFile == IOEnv.OUT

\* -- two scripts, spaces, digits and commas mixed
\* letters of one character (others are written with marks of other blocks)
Single(s) == SelectSeq(Chart[s][kC + 1], LAMBDA q : Len(q) = 1 /\ q # Absent)
Letter(s, n) == Single(s)[1 + ((7 * n) % Len(Single(s)))]
Others == {<<32>>, <<44>>, <<49>>, <<10>>}            \* space, comma, digit; a line break has no name
Block(q) == CASE q = <<32>> -> "space" [] q = <<44>> -> "comma" [] q = <<49>> -> "digit" [] q = <<10>> -> "none" [] OTHER -> "letter"

\* -- families: blocks written by several scripts: <<letter, what it tells>>
Plain == "plain"
Family(f) ==
  CASE f = "Bengali"  -> [base |-> "Bengali", letters |-> {<<\h995, Plain>>, <<\h9AE, Plain>>, <<\h9F0, "Assamese">>, <<\h9F1, "Assamese">>}]
    [] f = "Lao"      -> [base |-> "Lao", letters |-> {<<\hE81, Plain>>, <<\hEB0, "LaoTranscription">>, <<\hE86, "LaoPali">>, <<\hEBA, "LaoPali">>, <<\hEAC, "LaoPali">>, <<\hECC, "Sajhaya">>}]
    [] f = "Myanmar"  -> [base |-> "Burmese", letters |-> {<<\h1000, Plain>>, <<\h1019, Plain>>, <<\h105A, "Mon">>, <<\h105B, "Mon">>, <<\h1083, Plain>>, <<\h1075, "Shan">>, <<\h1076, "Shan">>, <<\hA9E0, "Shan">>,
                                                            <<\hA9E9, "TaiLaing">>, <<\hA9EA, "TaiLaing">>, <<\hAA60, "KhamtiShan">>, <<\hAA61, "KhamtiShan">>}]
    [] f = "Thai"     -> [base |-> "Thai", letters |-> {<<\hE01, Plain>>, <<\hE21, Plain>>, <<\hE30, "a">>, <<\hE31, "short">>, <<\hE4C, "killer">>, <<\hE47, "phonetic">>, <<\h325, "phonetic">>}]
    [] f = "Syriac"   -> [base |-> "Syre", letters |-> {<<\h710, Plain>>, <<\h712, Plain>>, <<\h732, "Syrn">>, <<\h735, "Syrn">>, <<\h730, "Syrj">>, <<\h736, "Syrj">>}]
    [] f = "Arabic"   -> [base |-> "Arab", letters |-> {<<\h628, Plain>>, <<\h62A, Plain>>, <<\h686, "Arab-Fa">>, <<\h67E, "Arab-Fa">>, <<\h688, "Urdu">>, <<\h6BE, "Urdu">>, <<\h768, "Shahmukhi">>}]
    [] OTHER          -> [base |-> "HK", letters |-> {<<97, Plain>>, <<107, Plain>>, <<77, Plain>>, <<\h101, "IAST">>, <<\h1E6D, "IAST">>, <<\h113, "long e">>, <<\h2B0, "Titus">>, <<\h161, "Latn">>, <<\h2BE, "Latn">>, <<\hB4, "tone">>}]
Tells(w) == {w[i][2] : i \in DOMAIN w}
Times(w, x) == Cardinality({i \in DOMAIN w : w[i][2] = x})
Refine(f, w) ==
  LET t == Tells(w) base == Family(f).base IN
  CASE f = "Bengali" -> IF "Assamese" \in t THEN "Assamese" ELSE base
    [] f = "Lao" -> IF "LaoPali" \in t THEN "LaoPali" ELSE base
    \* the most frequent of the three; among equals the later one
    [] f = "Myanmar" -> LET n == [x \in {"Shan", "TaiLaing", "KhamtiShan"} |-> Times(w, x)]
                            top == CHOOSE x \in DOMAIN n : (\A y \in DOMAIN n : n[y] <= n[x])
                                     /\ (x = "Shan" => n["TaiLaing"] < n[x] /\ n["KhamtiShan"] < n[x]) /\ (x = "TaiLaing" => n["KhamtiShan"] < n[x])
                        IN IF n[top] > 0 THEN top ELSE IF "Mon" \in t THEN "Mon" ELSE base
    [] f = "Syriac" -> IF "Syrj" \in t THEN "Syrj" ELSE IF "Syrn" \in t THEN "Syrn" ELSE base
    [] f = "Arabic" -> IF "Shahmukhi" \in t THEN "Shahmukhi" ELSE IF "Urdu" \in t THEN "Urdu" ELSE IF "Arab-Fa" \in t THEN "Arab-Fa" ELSE base
    [] f = "Thai" -> "Thai"
    [] OTHER -> IF "Titus" \in t THEN "Titus" ELSE IF "Latn" \in t THEN "Latn" ELSE IF "tone" \in t THEN "BurmeseRomanLoC"
                ELSE IF "IAST" \in t THEN (IF "long e" \in t THEN "ISO" ELSE "IAST") ELSE "HK"
\* the option that goes with the way the text is written
\* (the silent h, \hE2B \hE4C, is not written here)
Option(f, w) ==
  LET t == Tells(w) IN
  CASE f = "Thai" -> IF "phonetic" \in t THEN "ThaiPhonetic" ELSE IF "killer" \in t THEN (IF "a" \in t THEN "ThaiSajjhayawithA" ELSE "ThaiSajjhayaOrthography")
                     ELSE IF "a" \in t \/ "short" \in t THEN "ThaiOrthography" ELSE ""
    [] f = "Lao" -> IF "Sajhaya" \in t THEN (IF "LaoTranscription" \in t THEN "LaoSajhayaOrthographywithA" ELSE "LaoSajhayaOrthography")
                    ELSE IF "LaoTranscription" \in t THEN "LaoTranscription" ELSE ""
    [] f = "Arabic" -> IF Refine(f, w) = "Urdu" THEN "UrduShortNotShown" ELSE ""
    [] OTHER -> ""

\* marks that do not belong to the block of the family: it has to keep the majority
Foreign(f) == IF f = "Latin" THEN {<<\h2B0>>, <<\h2BE>>, <<\hB4>>} ELSE IF f = "Thai" THEN {<<\h325>>} ELSE {}
Majority(f, w) == LET n == Cardinality({i \in DOMAIN w : w[i][1] \in Foreign(f)}) IN 2 * n < Len(w)

VARIABLES text, seen, option
vars == <<text, seen, option>>
Mixing == Job.family = ""
Count(w, x) == Cardinality({i \in DOMAIN w : w[i][2] = x})
Names == {"first", "second", "space", "comma", "digit"}
Winner(w) == LET n == [x \in Names |-> Count(w, x)] IN
             IF n["first"] > 0 /\ \A y \in Names \ {"first"} : n[y] < n["first"] THEN Job.first
             ELSE IF n["second"] > 0 /\ \A y \in Names \ {"second"} : n[y] < n["second"] THEN Job.second ELSE ""
\* what can come next: <<characters, what they count for>>
More(n) == IF Mixing THEN {<<Letter(Job.first, n), "first">>, <<Letter(Job.second, n + 3), "second">>} \cup {<<q, Block(q)>> : q \in Others}
           ELSE {<< <<x[1]>>, x[2] >> : x \in Family(Job.family).letters} \cup (IF Job.family \in {"Thai", "Latin"} THEN {} ELSE {<< <<10>>, "none" >>})
Init == text = <<>> /\ seen = "" /\ option = ""
Type == /\ Len(text) < Job.length
        /\ \E x \in More(Len(text)) : text' = Append(text, x)
        /\ seen' = IF Mixing THEN Winner(text') ELSE IF (\A i \in DOMAIN text' : text'[i][2] = "none") \/ ~Majority(Job.family, text') THEN "" ELSE Refine(Job.family, text')
        /\ option' = IF Mixing THEN "" ELSE Option(Job.family, text')
Next == Type
Spec == Init /\ [][Next]_vars

\* once a letter proper to one script is there, the script is one of those it tells
Stays == ~Mixing /\ seen # "" => seen = Family(Job.family).base \/ seen \in Tells(text) \/ seen \in {"ISO", "BurmeseRomanLoC"}
Emit == seen # "" => CSVWrite("%1$s", <<ToJson(<<[i \in DOMAIN text |-> text[i][1]], seen, option>>)>>, OutFile)
=============================================================================
