----------------------------- MODULE LexConform -----------------------------
(***************************************************************************)
(* Binds Lexer.tla to the implementation: every recorded trace of the real *)
(* scanner must be a behaviour of the specified machine.  All traces of a  *)
(* run are checked in one state space: a behaviour starts by picking a     *)
(* trace and one of the deviations listed with it, takes the actions of    *)
(* the machine, and is matched with the next recorded event whenever the   *)
(* machine hands over a token or fails.                                    *)
(*                                                                         *)
(* A trace record: id, inp (character codes), dv (deviations to try),      *)
(* ev (events): <<"T", kind, start, end, text, prefix, trivia>> per token, *)
(* <<"E">> for an error, <<"P">>, <<"H">>, <<"A">> for a panic, a call     *)
(* that does not return, an abort.                                         *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils, FiniteSets, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Aspects ==
  LET a == ndJsonDeserialize(IOEnv.CONF)[1].aspects IN {a[i] : i \in 1..Len(a)}

VARIABLES tid,   \* the trace
          lx,    \* the machine
          i,     \* events matched so far
          cov,   \* every character before this offset is accounted for
          st     \* "run", "ok" or "bad"
vars == <<tid, lx, i, cov, st>>

Inp == Traces[tid].inp
Ev == Traces[tid].ev

Init ==
  /\ tid \in 1..Len(Traces)
  /\ \E d \in 1..Len(Traces[tid].dv) :
       lx = LexInit({Traces[tid].dv[d][k] : k \in 1..Len(Traces[tid].dv[d])})
  /\ i = 0 /\ cov = 0 /\ st = "run"

Machine(can, next) == st = "run" /\ can /\ lx' = next /\ UNCHANGED <<tid, i, cov, st>>

DoLineStart == Machine(CanLineStart(lx), LineStart(Inp, lx))
DoIndent == Machine(CanIndent(lx), EmitIndent(Inp, lx))
DoDedent == Machine(CanDedent(lx), EmitDedent(Inp, lx))
DoBegin == Machine(CanBegin(lx), Begin(Inp, lx))
DoBlanks == Machine(CanBlanks(Inp, lx), SkipBlanks(Inp, lx))
DoComment == Machine(CanComment(Inp, lx), ScanComment(Inp, lx))
DoEndOfFile == Machine(CanEndOfFile(Inp, lx), EndOfFile(Inp, lx))
DoLineEnd == Machine(CanLineEnd(Inp, lx), ScanLineEnd(Inp, lx))
DoBackslash == Machine(CanBackslash(Inp, lx), ScanBackslash(Inp, lx))
DoName == Machine(CanName(Inp, lx), ScanName(Inp, lx))
DoNumber == Machine(CanNumber(Inp, lx), ScanNumber(Inp, lx))
DoString == Machine(CanString(Inp, lx), ScanString(Inp, lx))
DoOpen == Machine(CanOpen(Inp, lx), OpenBracket(Inp, lx))
DoClose == Machine(CanClose(Inp, lx), CloseBracket(Inp, lx))
DoOperator == Machine(CanOperator(Inp, lx), ScanOperator(Inp, lx))
DoIllegal == Machine(CanIllegal(Inp, lx), Illegal(Inp, lx))

\* The recorded event e shows the token tok, in the aspects that are compared.
SameTrivia(rec, triv) == rec = Rev(triv)
Shows(e, tok) ==
  /\ e[1] = "T"
  /\ e[2] = tok[1]
  /\ "span" \in Aspects => (tok[1] \in {"Indent", "Dedent"} \/ (e[3] = tok[2] /\ e[4] = tok[3]))
  /\ "text" \in Aspects => (e[5] = tok[4] /\ e[6] = tok[5])
  /\ "trivia" \in Aspects => SameTrivia(e[7], tok[6])

Verdict(v) == st' = v /\ PrintT(<<"V", tid, v, lx.dev, i + 1>>)

\* A token is handed over and the trace shows it.
MatchToken ==
  /\ st = "run" /\ HasToken(lx)
  /\ i < Len(Ev) /\ Shows(Ev[i + 1], lx.tok)
  /\ i' = i + 1
  /\ cov' = lx.tok[3]
  /\ IF lx.tok[1] = "EOF" THEN Verdict("ok") /\ lx' = lx
     ELSE st' = "run" /\ lx' = Resume(lx)
  /\ tid' = tid

\* The text is rejected and the trace shows that.
MatchError ==
  /\ st = "run" /\ Failed(lx)
  /\ i < Len(Ev) /\ Ev[i + 1] = <<"E">>
  /\ Verdict("ok") /\ UNCHANGED <<tid, lx, i, cov>>

\* The trace shows something else: it is no behaviour of the machine.
Differs ==
  /\ st = "run"
  /\ \/ HasToken(lx) /\ ~(i < Len(Ev) /\ Shows(Ev[i + 1], lx.tok))
     \/ Failed(lx) /\ ~(i < Len(Ev) /\ Ev[i + 1] = <<"E">>)
  /\ Verdict("bad") /\ UNCHANGED <<tid, lx, i, cov>>

Next ==
  \/ DoLineStart \/ DoIndent \/ DoDedent \/ DoBegin \/ DoBlanks \/ DoComment \/ DoEndOfFile
  \/ DoLineEnd \/ DoBackslash \/ DoName \/ DoNumber \/ DoString \/ DoOpen \/ DoClose
  \/ DoOperator \/ DoIllegal \/ MatchToken \/ MatchError \/ Differs

Spec == Init /\ [][Next]_vars

\* The same with all the actions of one call of the scanner taken together: one state per token.
Call ==
  /\ st = "run" /\ tid' = tid
  /\ \E l2 \in {NextToken(Inp, lx)} :
       \/ /\ HasToken(l2) /\ i < Len(Ev) /\ Shows(Ev[i + 1], l2.tok)
          /\ lx' = l2 /\ i' = i + 1
          /\ cov' = (IF lx.tok = <<>> THEN 0 ELSE lx.tok[3])
          /\ IF l2.tok[1] = "EOF" THEN Verdict("ok") ELSE st' = "run"
       \/ /\ HasToken(l2) /\ ~(i < Len(Ev) /\ Shows(Ev[i + 1], l2.tok))
          /\ Verdict("bad") /\ UNCHANGED <<lx, i, cov>>
       \/ /\ ~HasToken(l2)
          /\ Verdict(IF i < Len(Ev) /\ Ev[i + 1] = <<"E">> THEN "ok" ELSE "bad") /\ UNCHANGED <<lx, i, cov>>
Calls == Init /\ [][Call]_vars

-----------------------------------------------------------------------------
\* Properties of the specified machine, in every state of every behaviour.
TypeOK == LexTypeOK(Inp, lx)
InvIndent == IndentStackOK(lx)
InvBrackets == BracketStackOK(lx)
InvFrozen == FrozenInBrackets(lx)
Regular == "crlf3" \notin lx.dev
InvTiles == st = "run" /\ Regular /\ HasToken(lx) => TokenTiles(Inp, cov, lx.tok)
InvText == Regular /\ HasToken(lx) => TokenText(Inp, lx.tok)
\* The blocks open are the INDENT tokens handed over and not yet closed (C06).
Count(kind) == Cardinality({k \in 1..i : Ev[k][1] = "T" /\ Ev[k][2] = kind})
InvBalanced ==
  st = "run" /\ ~HasToken(lx) => Count("Indent") - Count("Dedent") = Len(lx.inds) - 1 - lx.pend
\* The machine never stops without an answer (C24).
Progress == st = "run" => ENABLED Next
=============================================================================
