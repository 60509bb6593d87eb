------------------------------ MODULE Rewrite ------------------------------
(* A small, total rewriting calculus over sequences of integers.             *)
(* Letters are Unicode code points; abstract letters ("tokens") are integers *)
(* above 2000000 (see Alphabet).                                             *)
(* A RULE replaces an occurrence of a pattern (a sequence of SETS of         *)
(* letters), in a context, by an output template.  A STEP is a sequence of   *)
(* alternative rules: it scans the text once, left to right, and at every    *)
(* position applies the first alternative that matches, going on after the   *)
(* letters it consumed (no overlap, no rescan).  An ORTHOGRAPHY is a         *)
(* sequence of steps.  It is the calculus in which the spelling rules of     *)
(* every script are stated (Shaping, Roman, Native, Reading).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

\* context: pre / post are sequences of sets that must match just before / just
\* after the pattern; npre / npost must NOT match there;  <<>> = no condition.
\* same: pairs of pattern positions that must carry the same letter.
Rule(pat, out, pre, npre, post, npost, same) ==
  <<[pat |-> pat, out |-> out, pre |-> pre, npre |-> npre,
     post |-> post, npost |-> npost, same |-> same]>>

R(pat, out)               == Rule(pat, out, <<>>, <<>>, <<>>, <<>>, <<>>)
RNotBefore(pat, out, ns)  == Rule(pat, out, <<>>, <<>>, <<>>, ns, <<>>)
RBefore(pat, out, ps)     == Rule(pat, out, <<>>, <<>>, ps, <<>>, <<>>)
RNotAfter(pat, out, ns)   == Rule(pat, out, <<>>, ns, <<>>, <<>>, <<>>)
RAfter(pat, out, ps)      == Rule(pat, out, ps, <<>>, <<>>, <<>>, <<>>)
RSame(pat, out, prs)      == Rule(pat, out, <<>>, <<>>, <<>>, <<>>, prs)

Lits(s)   == [i \in DOMAIN s |-> {s[i]}]
L(s, out) == R(Lits(s), out)           \* literal replacement
ANY       == {-1}                      \* any letter but a line break
Not(S)    == {-2} \cup S               \* any letter outside S

In(x, S) == IF -2 \in S THEN x \notin S ELSE x \in S \/ (-1 \in S /\ x # 10)

MatchSeq(s, i, p) ==                   \* p matches s from position i on
  /\ i >= 1
  /\ i + Len(p) - 1 <= Len(s)
  /\ \A k \in 1..Len(p) : In(s[i + k - 1], p[k])

Match(s, i, r) ==
  /\ MatchSeq(s, i, r.pat)
  /\ \A p \in 1..Len(r.same) : s[i + r.same[p][1] - 1] = s[i + r.same[p][2] - 1]
  /\ r.pre = <<>>   \/ MatchSeq(s, i - Len(r.pre), r.pre)
  /\ r.npre = <<>>  \/ ~MatchSeq(s, i - Len(r.npre), r.npre)
  /\ r.post = <<>>  \/ MatchSeq(s, i + Len(r.pat), r.post)
  /\ r.npost = <<>> \/ ~MatchSeq(s, i + Len(r.pat), r.npost)

\* output templates: o >= 0 is a letter; -k (1 <= k < 1000) is the letter matched
\* by pattern position k;  Shift(k, d) is that letter moved by d code points.
Shift(k, d) == -(1000 * d + k)
OutLetter(s, i, o) == IF o >= 0 THEN o ELSE s[i + ((-o) % 1000) - 1] + ((-o) \div 1000)
Out(s, i, r) == [k \in 1..Len(r.out) |-> OutLetter(s, i, r.out[k])]

(* Compilation: a step indexed by the letter its alternatives start with (an   *)
(* index only: it changes no meaning), every part fully evaluated.             *)
CSeq(q)  == TLCEval([k \in 1..Len(q) |-> TLCEval(q[k])])
CRule(r) == TLCEval([pat |-> CSeq(r.pat), out |-> CSeq(r.out), pre |-> CSeq(r.pre), npre |-> CSeq(r.npre),
                     post |-> CSeq(r.post), npost |-> CSeq(r.npost), same |-> CSeq(r.same)])
CStep(g) ==
  LET rules == TLCEval([k \in 1..Len(g) |-> CRule(g[k])])
      heads == TLCEval(UNION {rules[k].pat[1] : k \in 1..Len(g)})
      wild  == -1 \in heads \/ -2 \in heads
  IN TLCEval([wild |-> wild, rules |-> rules, heads |-> heads,
       from |-> IF wild THEN <<>> ELSE TLCEval([x \in heads |->
          TLCEval(SelectSeq([k \in 1..Len(g) |-> k], LAMBDA k : x \in rules[k].pat[1]))])])
Compile(steps) == TLCEval([k \in 1..Len(steps) |-> CStep(steps[k])])

\* the first alternative that matches at i (0: none)
RECURSIVE PickIn(_, _, _, _, _)
PickIn(s, i, rules, cand, k) ==
  IF k > Len(cand) THEN 0
  ELSE IF Match(s, i, rules[cand[k]]) THEN cand[k] ELSE PickIn(s, i, rules, cand, k + 1)
Pick(s, i, g) == IF g.wild THEN PickIn(s, i, g.rules, [k \in DOMAIN g.rules |-> k], 1)
                 ELSE IF s[i] \in g.heads THEN PickIn(s, i, g.rules, g.from[s[i]], 1)
                 ELSE 0

RECURSIVE Scan(_, _, _)
Scan(s, i, g) ==
  IF i > Len(s) THEN <<>>
  ELSE LET k == Pick(s, i, g) IN
       IF k = 0 THEN <<s[i]>> \o Scan(s, i + 1, g)
       ELSE Out(s, i, g.rules[k]) \o Scan(s, i + Len(g.rules[k].pat), g)

Apply(s, g) == IF \E i \in 1..Len(s) : Pick(s, i, g) # 0 THEN Scan(s, 1, g) ELSE s

RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(s, gs, k) == IF k > Len(gs) THEN s ELSE ApplyFrom(Apply(s, gs[k]), gs, k + 1)
ApplyAll(s, gs) == ApplyFrom(s, gs, 1)

Flatten(ss) == FlattenSeq(ss)
SetSeq(Q) == SetToSeq(Q)

Drop(S)     == R(<<S>>, <<>>)
\* a character-by-character substitution, as one step
RECURSIVE Subst(_, _)
Subst(xs, ys) == IF xs = <<>> THEN <<>> ELSE R(<<{Head(xs)}>>, <<Head(ys)>>) \o Subst(Tail(xs), Tail(ys))
=============================================================================
