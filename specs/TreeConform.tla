----------------------------- MODULE TreeConform ----------------------------
(***************************************************************************)
(* Binds Lexer.tla and Parser.tla together to the implementation: every    *)
(* recorded tree of the real parser must be the one the specified machines *)
(* build for the text, and every text the real parser rejects must be      *)
(* rejected by them.  The recorded events are the tokens and nodes of the  *)
(* tree in postorder: <<"T", ...>> as in LexConform,                       *)
(* <<"N", kind, start, end, <<slot, index>>...>>; or one event <<"E">>     *)
(* (rejected), <<"P">> (panic), <<"H">> (does not return), <<"A">> (abort).*)
(***************************************************************************)
EXTENDS Lexer, Parser, Json, IOUtils


Traces == ndJsonDeserialize(IOEnv.TRACES)
Aspects == LET a == ndJsonDeserialize(IOEnv.CONF)[1].aspects IN {a[k] : k \in 1..Len(a)}

VARIABLES tid, lx, ps, i, st
vars == <<tid, lx, ps, i, st>>

Inp == Traces[tid].inp
Ev == Traces[tid].ev
Rejected == Len(Ev) = 1 /\ Ev[1] = <<"E">>
HasTree == Len(Ev) > 0 /\ Ev[Len(Ev)][1] = "N"
Answered == Rejected \/ HasTree

Init ==
  /\ tid \in 1..Len(Traces)
  /\ \E d \in 1..Len(Traces[tid].dv) :
       lx = LexInit({Traces[tid].dv[d][k] : k \in 1..Len(Traces[tid].dv[d])})
  /\ ps = ParseInit(Traces[tid].mode)
  /\ i = 0 /\ st = "run"

\* The scanner after the next token; the token, or an error token no rule takes.
Ahead == NextToken(Inp, lx)
TokenOf(l) == IF HasToken(l) THEN l.tok ELSE <<"ERROR", l.pos, l.pos, <<>>, <<>>, <<>>>>

ShowsToken(e, tok) ==
  /\ e[1] = "T"
  /\ e[2] = tok[1]
  /\ "span" \in Aspects => (tok[1] \in {"Indent", "Dedent"} \/ (e[3] = tok[2] /\ e[4] = tok[3]))
  /\ "text" \in Aspects => (e[5] = tok[4] /\ e[6] = tok[5])
  /\ "trivia" \in Aspects => e[7] = Rev(tok[6])

\* A node ends somewhere between its last token and the next token of the text, which starts at hi.
ShowsNode(e, n, hi) ==
  /\ e[1] = "N"
  /\ "tree" \in Aspects => e[2] = n[1]
  /\ "places" \in Aspects => e[5] = n[4]
  /\ "range" \in Aspects => e[3] = n[2] /\ e[4] >= n[3] /\ e[4] <= hi

ShowsAll(at, out, hi) ==
  /\ at + Len(out) <= Len(Ev)
  /\ \A k \in 1..Len(out) : ShowsNode(Ev[at + k], out[k], hi)

\* The first of the events that shows another node than expected.
FirstWrong(at, out, hi) ==
  LET wrong == {k \in 1..Len(out) : at + k > Len(Ev) \/ ~ShowsNode(Ev[at + k], out[k], hi)}
  IN at + (IF wrong = {} THEN Len(out) + 1 ELSE CHOOSE k \in wrong : \A m \in wrong : k <= m)

\* What one token says about the trace: first the nodes that end before it, then the token itself;
\* p3 is the machine after the last one.  "run": the events that belong to it show it and there is
\* more to come; "ok": the trace is a behaviour of the machines; "bad": it is none, and event .[2]
\* is the first that differs; at: the events shown so far.
Ruling(l2, tok, p2, at) ==
  LET n == Len(p2.out)
      done == Complete(p2)
      p3 == Finish(p2)
      hi == IF tok[1] = "EOF" THEN tok[3] ELSE TokenOf(NextToken(Inp, l2))[2]
      nodes == ShowsAll(at, p2.out, tok[2])
      token == at + n < Len(Ev) /\ ShowsToken(Ev[at + n + 1], tok)
      rest == /\ at + n + 1 + Len(p3.out) = Len(Ev)
              /\ \A k \in 1..Len(p3.out) : ShowsNode(Ev[at + n + 1 + k], p3.out[k], hi)
  IN IF p2.err THEN (IF Rejected THEN <<"ok", 1>> ELSE <<"bad", at + 1>>)
     ELSE IF ~done THEN (IF Rejected \/ (nodes /\ token) THEN <<"run", at + n + 1>> ELSE <<"bad", FirstWrong(at, p2.out, tok[2])>>)
     ELSE IF HasTree /\ nodes /\ token /\ rest THEN <<"ok", Len(Ev)>>
     ELSE <<"bad", IF Rejected THEN 1 ELSE FirstWrong(at, p2.out, tok[2])>>

Step ==
  /\ st = "run" /\ Answered
  /\ \E l2 \in {Ahead} : \E tok \in {TokenOf(l2)} : \E p2 \in {Feed(ps, tok[1], tok[2], tok[3])} :
     \E r \in {Ruling(l2, tok, p2, i)} :
       /\ st' = r[1] /\ tid' = tid
       /\ IF r[1] = "run" THEN lx' = l2 /\ ps' = p2 /\ i' = r[2]
          ELSE UNCHANGED <<lx, ps, i>> /\ PrintT(<<"V", tid, r[1], lx.dev, r[2]>>)

\* A panic, an abort or a call that does not return is no answer at all (C24).
NoAnswer == st = "run" /\ ~Answered /\ st' = "bad" /\ PrintT(<<"V", tid, "bad", lx.dev, 1>>) /\ UNCHANGED <<tid, lx, ps, i>>

Next == Step \/ NoAnswer
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvIndent == IndentStackOK(lx)
InvBrackets == BracketStackOK(lx)
InvTries == TriesOK(ps)
InvParts == PartsSorted(ps) /\ PartsNested(ps)
\* Every open part is going to be finished by exactly one item, every try statement closed.
InvBalance == st = "run" /\ ~ps.err =>
  /\ Pending(ps.stack) = Len(ps.parts) - 1
  /\ OpenTries(ps.stack) = Len(ps.tries)
=============================================================================
