------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Layout without meaning (C26): two texts that differ only in layout have *)
(* the same trace up to positions and trivia.  Each record holds the texts *)
(* a and b and the recorded events ea and eb.  The specified scanner must  *)
(* agree that the two texts have the same tokens; it walks through both in *)
(* step, and the recorded traces are compared event by event.              *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils

Pairs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, la, lb, i, st
vars == <<tid, la, lb, i, st>>

R == Pairs[tid]

Init ==
  /\ tid \in 1..Len(Pairs)
  /\ la = LexInit({}) /\ lb = LexInit({}) /\ i = 0 /\ st = "run"

\* A token without its place and its trivia; what ends a line is layout.
Bare(tok) == <<tok[1], IF tok[1] = "Newline" THEN <<>> ELSE tok[4], tok[5]>>
\* A recorded event without places.
BareEvent(e) ==
  IF e[1] = "T" THEN <<"T", e[2], IF e[2] = "Newline" THEN <<>> ELSE e[5], e[6]>>
  ELSE IF e[1] = "N" THEN <<"N", e[2], e[5]>>
  ELSE e

Verdict(v, at) == st' = v /\ PrintT(<<"V", tid, v, {}, at>>) /\ UNCHANGED <<tid, la, lb, i>>

\* The specified machine: the same tokens in both texts ("layout" is a fact about the language).
SameMeaning ==
  /\ st = "run"
  /\ \E a2 \in {NextToken(R.a, la)} : \E b2 \in {NextToken(R.b, lb)} :
       \/ ~HasToken(a2) /\ ~HasToken(b2) /\ st' = "events" /\ UNCHANGED <<tid, la, lb, i>>
       \/ HasToken(a2) # HasToken(b2) /\ st' = "other" /\ PrintT(<<"V", tid, "other", {}, 0>>) /\ UNCHANGED <<tid, la, lb, i>>
       \/ /\ HasToken(a2) /\ HasToken(b2)
          /\ IF Bare(a2.tok) # Bare(b2.tok) THEN st' = "other" /\ PrintT(<<"V", tid, "other", {}, 0>>) /\ UNCHANGED <<la, lb>>
             ELSE /\ st' = IF a2.tok[1] = "EOF" THEN "events" ELSE "run"
                  /\ la' = a2 /\ lb' = b2
          /\ UNCHANGED <<tid, i>>

\* The implementation: the same events.
SameEvents ==
  /\ st = "events"
  /\ LET diff == {k \in 1..Len(R.ea) : k > Len(R.eb) \/ BareEvent(R.ea[k]) # BareEvent(R.eb[k])}
     IN IF diff = {} /\ Len(R.ea) = Len(R.eb) THEN Verdict("ok", Len(R.ea))
        ELSE Verdict("bad", IF diff = {} THEN Len(R.ea) + 1 ELSE CHOOSE k \in diff : \A m \in diff : k <= m)

Next == SameMeaning \/ SameEvents
Spec == Init /\ [][Next]_vars
InvIndent == IndentStackOK(la) /\ IndentStackOK(lb)
=============================================================================
