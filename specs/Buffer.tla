------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* The source buffer is a cursor over the characters of a text (C29), and  *)
(* several buffers do not touch each other.  The state is the cursor of    *)
(* each buffer; the calls are advance ("a"), get_char ("g"),               *)
(* peek_three_chars ("p"), get_position ("n") and count ("c"), made on the *)
(* buffers in any order.                                                   *)
(*                                                                         *)
(* A trace holds the texts, the calls <<buffer, call>> and what each of    *)
(* them returned: a sequence of numbers (characters by code point).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* at: how often each buffer was advanced.
VARIABLES tid, at, n, st
vars == <<tid, at, n, st>>

Text(b) == Traces[tid].inp[b]
Calls == Traces[tid].sc
Ev == Traces[tid].ev

Init == tid \in 1..Len(Traces) /\ at = [b \in 1..Len(Traces[tid].inp) |-> 0] /\ n = 0 /\ st = "run"

\* The character at an offset; zero from the end of the text on.
CharAt(b, o) == IF o < Len(Text(b)) THEN Text(b)[o + 1] ELSE 0

\* What a call returns. Behind the end of the text the position is only known not to be inside it.
Returns(b, call, ret) ==
  CASE call = "a" -> ret = <<>>
    [] call = "g" -> ret = <<CharAt(b, at[b])>>
    [] call = "p" -> ret = <<CharAt(b, at[b]), CharAt(b, at[b] + 1), CharAt(b, at[b] + 2)>>
    [] call = "n" -> Len(ret) = 1 /\ (IF at[b] <= Len(Text(b)) THEN ret[1] = at[b] ELSE ret[1] >= Len(Text(b)))
    [] call = "c" -> ret = <<Len(Text(b))>>

Verdict(v) == st' = v /\ PrintT(<<"V", tid, v, {}, n + 1>>) /\ UNCHANGED <<tid, at, n>>

Call ==
  /\ st = "run" /\ n < Len(Calls)
  /\ LET b == Calls[n + 1][1]
         call == Calls[n + 1][2]
     IN IF n < Len(Ev) /\ Returns(b, call, Ev[n + 1])
        THEN n' = n + 1 /\ at' = (IF call = "a" THEN [at EXCEPT ![b] = @ + 1] ELSE at) /\ UNCHANGED <<tid, st>>
        ELSE Verdict("bad")

Done == st = "run" /\ n = Len(Calls) /\ Verdict(IF Len(Ev) = n THEN "ok" ELSE "bad")

Next == Call \/ Done
Spec == Init /\ [][Next]_vars

\* No call on one buffer moves another.
InvCursor == \A b \in DOMAIN at : at[b] >= 0 /\ at[b] <= n
MoveOne == [][\A b, d \in DOMAIN at : at'[b] # at[b] /\ at'[d] # at[d] => b = d]_vars
=============================================================================
