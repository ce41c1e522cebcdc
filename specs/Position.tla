------------------------------ MODULE Position ------------------------------
(***************************************************************************)
(* The position a scanner reports between its calls (C30).  The machine of *)
(* Lexer.tla runs over the text; the position is asked for before the      *)
(* first call, after every call, and after calls beyond the end.           *)
(*                                                                         *)
(* It is where the token handed over last begins.  INDENT and DEDENT have  *)
(* no characters of their own: for them it lies between the end of the     *)
(* token before and the first character of the line they belong to.  After *)
(* an error it lies between the end of the last token and the end of the   *)
(* text.  It never goes back.                                              *)
(*                                                                         *)
(* A record: inp (the text), ev (events: <<"O", position>> before the      *)
(* first call, <<"T", kind, start, end, position, again>> per token, where *)
(* again is the answer to asking once more, <<"E", position, again>> for   *)
(* an error), dv.                                                          *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, lx, i, pos, past, st
vars == <<tid, lx, i, pos, past, st>>

Inp == Traces[tid].inp
Ev == Traces[tid].ev

Init ==
  /\ tid \in 1..Len(Traces)
  /\ \E d \in 1..Len(Traces[tid].dv) :
       lx = LexInit({Traces[tid].dv[d][k] : k \in 1..Len(Traces[tid].dv[d])})
  /\ i = 0 /\ pos = 0 /\ past = 0 /\ st = "run"

Verdict(v) == st' = v /\ PrintT(<<"V", tid, v, lx.dev, i + 1>>)
Wrong == Verdict("bad") /\ UNCHANGED <<tid, lx, i, pos, past>>

Before ==
  /\ st = "run" /\ i = 0
  /\ IF Len(Ev) > 0 /\ Ev[1] = <<"O", 0>> THEN i' = 1 /\ UNCHANGED <<tid, lx, pos, past, st>> ELSE Wrong

\* Where the position may be once the machine has gone from l to m.
Places(l, m) ==
  LET last == IF l.tok = <<>> THEN 0 ELSE l.tok[3] IN
  CASE m.phase = "error" -> last..Len(Inp)
    [] m.tok[1] \in {"Indent", "Dedent"} -> last..m.tok[3]
    [] OTHER -> {m.tok[2]}

Shows(e, l, m) ==
  IF m.phase = "error" THEN e[1] = "E" /\ e[2] \in Places(l, m) /\ e[3] = e[2]
  ELSE e[1] = "T" /\ e[2] = m.tok[1] /\ e[5] \in Places(l, m) /\ e[6] = e[5]

Again(l) == IF l.phase = "end" THEN EndOfFile(Inp, Resume(l)) ELSE NextToken(Inp, l)

Call ==
  /\ st = "run" /\ i > 0
  /\ \E m \in {Again(lx)} :
       IF i < Len(Ev) /\ Shows(Ev[i + 1], lx, m)
       THEN /\ lx' = m /\ i' = i + 1 /\ tid' = tid
            /\ pos' = Ev[i + 1][IF m.phase = "error" THEN 2 ELSE 5]
            /\ past' = (IF m.phase = "end" THEN past + 1 ELSE past)
            /\ IF m.phase = "error" \/ past' = 3 THEN Verdict(IF Len(Ev) = i + 1 THEN "ok" ELSE "bad") ELSE st' = "run"
       ELSE Wrong

Next == Before \/ Call
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvIndent == IndentStackOK(lx)
\* The position never goes back (but for a CR LF counted as three at the very end of the text, a listed finding).
Forward == [][pos' >= pos]_pos
Inside == st = "run" /\ "crlf3" \notin lx.dev => pos <= Len(Inp)
=============================================================================
