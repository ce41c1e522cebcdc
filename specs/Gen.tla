--------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Generates test texts from the specification: the token sequences the    *)
(* parsing machine accepts over a given alphabet of token kinds, and the   *)
(* shortest continuations it refuses, and the unfinished ones.  Checked exhaustively up to a length *)
(* (breadth first) or by random walks (-simulate).                         *)
(*                                                                         *)
(* A configuration: entry (file, eval, func, single), start (a sequence of *)
(* token kinds taken first), alphabet, max (tokens after start), rej       *)
(* (prefixes with at most that many tokens are also continued wrongly),    *)
(* close (token kinds that end a complete text, tried in order).           *)
(* Printed: <<"G", configuration, kinds>> for an accepted text,            *)
(* <<"X", configuration, kinds>> for a refused one.                        *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils, FiniteSets, Randomization

Confs == ndJsonDeserialize(IOEnv.GENCONF)

VARIABLES c, ps, toks, depth
vars == <<c, ps, toks, depth>>

Conf == Confs[c]
Alphabet == {Conf.alphabet[k] : k \in 1..Len(Conf.alphabet)}
Used == Len(toks) - Len(Conf.start)

RECURSIVE FeedAll(_, _, _)
FeedAll(q, kinds, at) ==
  IF kinds = <<>> \/ q.err THEN q
  ELSE Only({FeedAll(r, Tail(kinds), at + 1) : r \in {Feed(q, Head(kinds), at, at + 1)}})

Init ==
  /\ c \in 1..Len(Confs)
  /\ toks = Conf.start
  /\ ps = FeedAll(ParseInit(Conf.entry), Conf.start, 0)
  /\ depth = Cardinality({k \in 1..Len(Conf.start) : Conf.start[k] = "Indent"})
             - Cardinality({k \in 1..Len(Conf.start) : Conf.start[k] = "Dedent"})

Shift(kind) == depth + (IF kind = "Indent" THEN 1 ELSE IF kind = "Dedent" THEN -1 ELSE 0)

\* The text is complete when the kinds of `close` end it: the line, its blocks, the file.
Dedents == [k \in 1..depth |-> "Dedent"]
Closing(line) == line \o Dedents \o Conf.close
Ends(line) ==
  /\ \E q \in {FeedAll(ps, Closing(line), Len(toks))} : ~q.err /\ Complete(q)
  /\ PrintT(ToString(<<"G", c, toks \o Closing(line)>>))
Emit ==
  IF ps.err THEN TRUE
  ELSE \/ Ends(<<>>)
       \/ Conf.line = "1" /\ Ends(<<"Newline">>)
       \/ Used < Conf.rej /\ PrintT(ToString(<<"X", c, toks>>))
       \/ TRUE

\* A line end at the start of a line is no token.
Writable ==
  IF toks = <<>> \/ LastOf(toks) \in {"Newline", "Indent", "Dedent"} THEN Alphabet \ {"Newline"} ELSE Alphabet

Take ==
  /\ ~ps.err /\ ~Complete(ps) /\ Used < Conf.max
  /\ \E kind \in (IF Conf.walk = "1" /\ Cardinality(Writable) > 9 THEN RandomSubset(9, Writable) ELSE Writable) :
       \E q \in {Feed(ps, kind, Len(toks), Len(toks) + 1)} :
         /\ \/ ~q.err
            \/ q.err /\ Used < Conf.rej /\ PrintT(ToString(<<"X", c, Append(toks, kind)>>))
         /\ ~q.err
         /\ ps' = q /\ toks' = Append(toks, kind) /\ depth' = Shift(kind)
  /\ c' = c

Next == Take
Spec == Init /\ [][Next]_vars

\* Evaluated once for every prefix; a walk shows every third.
Emitted == (Conf.walk = "1" /\ Used % 3 # 2) \/ Emit
InvTries == TriesOK(ps)
InvParts == ps.err \/ (PartsSorted(ps) /\ PartsNested(ps))
InvBalance == ps.err \/ (Pending(ps.stack) = Len(ps.parts) - 1 /\ OpenTries(ps.stack) = Len(ps.tries))
=============================================================================
