------------------------------- MODULE Outcome ------------------------------
(***************************************************************************)
(* What the implementation answers to a text, compared with the specified  *)
(* machines: every call ends with a tree (all tokens, for the scanner) or  *)
(* an error; what the machines refuse must be answered by an error (C24);  *)
(* and so must every text with a lexical error anywhere, whatever else the *)
(* parser would make of it (C25, aspect "lexical").                        *)
(* Traces as in TreeConform; mode "lex" is the scanner alone.              *)
(***************************************************************************)
EXTENDS Lexer, Parser, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Aspects == LET a == ndJsonDeserialize(IOEnv.CONF)[1].aspects IN {a[k] : k \in 1..Len(a)}

VARIABLES tid, lx, ps, n, st
vars == <<tid, lx, ps, n, st>>

Inp == Traces[tid].inp
Ev == Traces[tid].ev
Mode == Traces[tid].mode
LastEv == Ev[Len(Ev)]
Refused == LastEv = <<"E">>
Answered == Len(Ev) > 0 /\ (Refused \/ LastEv[1] = "N" \/ (Mode = "lex" /\ LastEv[1] = "T" /\ LastEv[2] = "EOF"))

\* Only the scanner decides.
ScanOnly == Mode = "lex" \/ "lexical" \in Aspects

Init ==
  /\ tid \in 1..Len(Traces)
  /\ \E d \in 1..Len(Traces[tid].dv) :
       lx = LexInit({Traces[tid].dv[d][k] : k \in 1..Len(Traces[tid].dv[d])})
  /\ ps = ParseInit(IF Mode = "lex" THEN "file" ELSE Mode)
  /\ n = 0 /\ st = "run"

Verdict(v) == st' = v /\ PrintT(<<"V", tid, v, lx.dev, n>>) /\ UNCHANGED <<tid, lx, ps, n>>
Refusal == Verdict(IF Refused THEN "ok" ELSE "bad")

\* No answer: a panic, an abort, a call that does not return.
NoAnswer == st = "run" /\ ~Answered /\ Verdict("bad")

\* The scanner's next token, or its failure.
Scan ==
  /\ st = "run" /\ Answered
  /\ \E l2 \in {NextToken(Inp, lx)} :
       \/ ~HasToken(l2) /\ Refusal
       \/ HasToken(l2) /\ ScanOnly /\ l2.tok[1] = "EOF" /\ Verdict("ok")
       \/ /\ HasToken(l2) /\ ScanOnly /\ l2.tok[1] # "EOF"
          /\ lx' = l2 /\ n' = n + 1 /\ UNCHANGED <<tid, ps, st>>
       \/ /\ HasToken(l2) /\ ~ScanOnly
          /\ \E p2 \in {Feed(ps, l2.tok[1], l2.tok[2], l2.tok[3])} :
               \/ p2.err /\ Refusal
               \/ ~p2.err /\ Complete(p2) /\ Verdict("ok")
               \/ ~p2.err /\ ~Complete(p2) /\ lx' = l2 /\ ps' = p2 /\ n' = n + 1 /\ UNCHANGED <<tid, st>>

Next == Scan \/ NoAnswer
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvIndent == IndentStackOK(lx)
InvBrackets == BracketStackOK(lx)
InvFrozen == FrozenInBrackets(lx)
InvTries == TriesOK(ps)
InvBalance == st = "run" /\ ~ps.err => Pending(ps.stack) = Len(ps.parts) - 1 /\ OpenTries(ps.stack) = Len(ps.tries)
\* The machines always answer: a token is never before the last one, and at most three tokens
\* (NEWLINE, INDENT or DEDENT, ...) begin at the same place as many as there are blocks (C24).
InvProgress == n <= 2 * Len(Inp) + 3
=============================================================================
