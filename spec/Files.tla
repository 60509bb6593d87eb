------------------------------- MODULE Files --------------------------------
(* Converting files.  A directory holds documents: plain text, web pages and    *)
(* word-processor documents, each a sequence of items.  Some items are text,    *)
(* the others (markup, comments, scripts, pictures, settings, line ends) are     *)
(* not.  A request converts the text of one file, item by item, into one new    *)
(* file of the same kind beside it.  Nothing else in the directory changes, and *)
(* a request that cannot be carried out (no such file, a kind of file that is   *)
(* not supported, a script that does not exist) changes nothing at all.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

Job == JsonDeserialize(IOEnv.JOB)   \* [kind, items, least, requests, asks]
OutFile == IOEnv.OUT

Textual == [txt  |-> {"text", "words", "blank"},
            html |-> {"text", "bold", "entity", "attribute", "ruby", "title", "pre"},
            docx |-> {"run", "spaced", "deep", "header", "note"}]
Other   == [txt  |-> {"lf", "crlf"},
            html |-> {"comment", "script", "style", "break", "picture"},
            docx |-> {"empty", "tab", "picture", "settings", "instruction"}]
Is(kind) == Textual[kind] \cup Other[kind]

\* an item: what it is, and what happened to it: the requests that converted it
Item(i) == [is |-> i, was |-> <<>>]
Documents(kind) == UNION {[1..n -> {Item(i) : i \in Is(kind)}] : n \in Job.least..Job.items}

\* a request: what to convert it with; one of them asks for a script that does not exist
Asks == 1..Job.asks
Unknown == 0
\* names: the original file, and the requests that led from it to this one
Original == <<"original">>
Beside   == <<"beside">>            \* a file next to it
Strange  == <<"strange">>           \* of a kind that is not supported
Missing  == <<"missing">>

VARIABLES kind,   \* the kind of documents
          dir,    \* name -> document
          hist    \* requests so far: <<name, ask>>
vars == <<kind, dir, hist>>

Becomes(k, doc, ask) == [i \in DOMAIN doc |-> IF doc[i].is \in Textual[k] THEN [doc[i] EXCEPT !.was = Append(@, ask)] ELSE doc[i]]

Init == /\ kind = Job.kind
        /\ \E d \in Documents(kind) : dir = (Original :> d) @@ (Beside :> << Item(CHOOSE i \in Textual[kind] : TRUE) >>) @@ (Strange :> <<>>)
        /\ hist = <<>>

Convert(f, a) == /\ f \in DOMAIN dir \ {Strange}
                 /\ dir' = (Append(f, a) :> Becomes(kind, dir[f], a)) @@ dir
Refuse(f, a)  == /\ a = Unknown \/ f \in {Strange, Missing}
                 /\ UNCHANGED dir
Next == /\ Len(hist) < Job.requests
        /\ \E f \in DOMAIN dir \cup {Missing}, a \in Asks \cup {Unknown} :
              /\ IF a = Unknown \/ f \in {Strange, Missing} THEN Refuse(f, a) ELSE Convert(f, a)
              /\ hist' = Append(hist, <<f, a>>)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

\* the guarantees
Kept      == [][\A f \in DOMAIN dir : f \in DOMAIN dir' /\ (Len(f) = 1 => dir'[f] = dir[f])]_vars
OneNew    == [][Cardinality(DOMAIN dir' \ DOMAIN dir) <= 1]_vars
SameShape == \A f \in DOMAIN dir : f[1] = "original" =>
                /\ Len(dir[f]) = Len(dir[Original])
                /\ \A i \in DOMAIN dir[f] : dir[f][i].is = dir[Original][i].is
\* text is converted once per request, and nothing but text is
Converted == \A f \in DOMAIN dir : \A i \in DOMAIN dir[f] :
                dir[f][i].was = IF dir[f][i].is \in Textual[kind] THEN SubSeq(f, 2, Len(f)) ELSE <<>>

Emit == Len(hist) = Job.requests => CSVWrite("%1$s", <<ToJson(<<[i \in DOMAIN dir[Original] |-> dir[Original][i].is], hist, kind>>)>>, OutFile)
=============================================================================
