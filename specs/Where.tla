-------------------------------- MODULE Where -------------------------------
(***************************************************************************)
(* Where an error is (C27): the offset named by the error for a text lies  *)
(* at the token with which the text stops being the beginning of a program *)
(* or at the beginning of a part that was open there or had just ended.    *)
(* Scanner and parser machine run over the text side by side until the     *)
(* parser machine refuses a token; ps.parts then holds the beginnings of   *)
(* all open parts, ps.out those of the parts this token has ended.         *)
(*                                                                         *)
(* The recorded events are <<"E", offset>> (-1 if the error names none),   *)
(* <<"O">> for a tree, <<"P">>, <<"H">>, <<"A">> for no answer.            *)
(***************************************************************************)
EXTENDS Lexer, Parser, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* from, to: where the last token begins and ends.
VARIABLES tid, lx, ps, from, to, st
vars == <<tid, lx, ps, from, to, st>>

Inp == Traces[tid].inp
Ev == Traces[tid].ev[1]

Init ==
  /\ tid \in 1..Len(Traces)
  /\ \E d \in 1..Len(Traces[tid].dv) :
       lx = LexInit({Traces[tid].dv[d][k] : k \in 1..Len(Traces[tid].dv[d])})
  /\ ps = ParseInit(Traces[tid].mode)
  /\ from = 0 /\ to = 0 /\ st = "run"

TokenOf(l) == IF HasToken(l) THEN l.tok ELSE <<"ERROR", l.pos, l.pos, <<>>, <<>>, <<>>>>

\* The beginnings of the parts that are open in a machine that has refused a token, and of those that
\* ended just before it; the last token is the shortest of them.
Beginnings(q) == {q.parts[k].st : k \in 2..Len(q.parts)} \cup {q.out[k][2] : k \in 1..Len(q.out)} \cup {from}

\* The token itself; INDENT and DEDENT have no characters of their own, and where no token could be
\* read the error may be anywhere in what lies between the last token and there.
AtOffender(tok, offset) ==
  \/ offset = tok[2]
  \/ tok[1] \in {"Indent", "Dedent", "ERROR"} /\ offset >= to /\ offset <= tok[3]

Located(q, tok, offset) == offset \in Beginnings(q) \/ AtOffender(tok, offset)

Verdict(v) == st' = v /\ PrintT(<<"V", tid, v, lx.dev, to>>) /\ UNCHANGED <<tid, lx, ps, from, to>>

Step ==
  /\ st = "run"
  /\ \E l2 \in {NextToken(Inp, lx)} : \E tok \in {TokenOf(l2)} : \E p2 \in {Feed(ps, tok[1], tok[2], tok[3])} :
       IF Ev[1] # "E" THEN Verdict(IF Ev[1] = "O" THEN "ok" ELSE "bad")
       ELSE IF p2.err THEN Verdict(IF Located(p2, tok, Ev[2]) THEN "ok" ELSE "bad")
       \* What is no error for the machines is none of this module's business.
       ELSE IF Complete(p2) THEN Verdict("ok")
       ELSE lx' = l2 /\ ps' = p2 /\ from' = tok[2] /\ to' = tok[3] /\ UNCHANGED <<tid, st>>

Spec == Init /\ [][Step]_vars

-----------------------------------------------------------------------------
InvIndent == IndentStackOK(lx)
InvBrackets == BracketStackOK(lx)
InvTries == TriesOK(ps)
InvParts == PartsSorted(ps) /\ PartsNested(ps)
=============================================================================
