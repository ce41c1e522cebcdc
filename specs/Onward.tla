------------------------------- MODULE Onward -------------------------------
(***************************************************************************)
(* Scanners as they are called (C10): two machines of Lexer.tla, each over *)
(* a text of its own, called in any order and beyond their ends.           *)
(*                                                                         *)
(* A call of a machine that has handed over EOF hands it over again, at    *)
(* the same place and with nothing before it.  A call of a machine that    *)
(* has rejected its text is answered, with anything.  No call of one       *)
(* machine changes the other.                                              *)
(*                                                                         *)
(* A record: inp (the two texts), sc (the schedule: whose call each is, 0  *)
(* for a parser that reads the whole second text in between), ev (one      *)
(* event per call), dv.                                                    *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, lx, i, st
vars == <<tid, lx, i, st>>

Inp(w) == Traces[tid].inp[w]
Ev == Traces[tid].ev
Who == Traces[tid].sc

Init ==
  /\ tid \in 1..Len(Traces)
  /\ \E d \in 1..Len(Traces[tid].dv) :
       LET dev == {Traces[tid].dv[d][k] : k \in 1..Len(Traces[tid].dv[d])}
       IN lx = <<LexInit(dev), LexInit(dev)>>
  /\ i = 0 /\ st = "run"

\* One call of the machine over inp.
Again(inp, l) ==
  CASE l.phase = "error" -> l
    [] l.phase = "end" -> EndOfFile(inp, Resume(l))
    [] OTHER -> NextToken(inp, l)

Answered(e) == e[1] \in {"T", "E", "O"}
Shows(e, tok) ==
  /\ e[1] = "T" /\ e[2] = tok[1]
  /\ tok[1] \in {"Indent", "Dedent"} \/ (e[3] = tok[2] /\ e[4] = tok[3])
  /\ e[5] = tok[4] /\ e[6] = tok[5] /\ e[7] = Rev(tok[6])

\* Whether event e answers a call that took machine l to m.
Answers(e, l, m) ==
  CASE l.phase = "error" -> Answered(e)
    [] m.phase = "error" -> e[1] = "E"
    [] OTHER -> Shows(e, m.tok)

Verdict(v) == st' = v /\ PrintT(<<"V", tid, v, lx[1].dev, i + 1>>)

CallOf(w) ==
  /\ st = "run" /\ i < Len(Ev) /\ Who[i + 1] = w
  /\ \E m \in {Again(Inp(w), lx[w])} :
       IF Answers(Ev[i + 1], lx[w], m)
       THEN /\ lx' = [lx EXCEPT ![w] = m] /\ i' = i + 1
            /\ IF i + 1 = Len(Who) THEN Verdict("ok") ELSE st' = "run"
       ELSE Verdict("bad") /\ UNCHANGED <<lx, i>>
  /\ tid' = tid

OtherParser ==
  /\ st = "run" /\ i < Len(Ev) /\ Who[i + 1] = 0
  /\ IF Answered(Ev[i + 1]) THEN i' = i + 1 /\ IF i + 1 = Len(Who) THEN Verdict("ok") ELSE st' = "run"
     ELSE Verdict("bad") /\ i' = i
  /\ UNCHANGED <<tid, lx>>

\* The trace breaks off before the schedule ends.
Short == st = "run" /\ i >= Len(Ev) /\ Verdict("bad") /\ UNCHANGED <<tid, lx, i>>

Next == CallOf(1) \/ CallOf(2) \/ OtherParser \/ Short
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvIndent == IndentStackOK(lx[1]) /\ IndentStackOK(lx[2])
InvBrackets == BracketStackOK(lx[1]) /\ BracketStackOK(lx[2])
\* A call of one machine leaves the other as it was, and the end is final.
Apart == [][lx'[1] = lx[1] \/ lx'[2] = lx[2]]_vars
Final == [][\A w \in 1..2 : lx[w].phase = "end" /\ lx'[w] # lx[w] => lx'[w].tok[1] = "EOF" /\ lx'[w].tok[2] = lx[w].tok[2] /\ lx'[w].tok[6] = <<>>]_vars
=============================================================================
