-------------------------------- MODULE Joint --------------------------------
(***************************************************************************)
(* Several parsers in one program (C31).  Each is called a number of times *)
(* (an entry point, or productions one after the other), and what it       *)
(* answers is what it answers when it is alone: alone[p] is the sequence   *)
(* of answers of parser p, which TreeConform.tla and Part.tla decide.      *)
(* Calls of different parsers come in any order, or at the same time; then *)
(* ev lists them parser by parser, which is one of the orders.             *)
(*                                                                         *)
(* A record: alone, ev (whose call it is, and the answer).                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* at[p]: the calls of parser p that have been answered.
VARIABLES tid, at, i, st
vars == <<tid, at, i, st>>

Alone == Traces[tid].alone
Ev == Traces[tid].ev
Parsers == 1..Len(Alone)

Init ==
  /\ tid \in 1..Len(Traces)
  /\ at = [p \in Parsers |-> 0]
  /\ i = 0 /\ st = "run"

Verdict(v) == st' = v /\ PrintT(<<"V", tid, v, {}, i + 1>>)

\* Parser p answers as if it were alone, and no other parser moves.
Answer(p) ==
  /\ at[p] < Len(Alone[p])
  /\ Ev[i + 1][2] = Alone[p][at[p] + 1]

Call(p) ==
  /\ st = "run" /\ i < Len(Ev) /\ Ev[i + 1][1] = p
  /\ IF Answer(p) THEN at' = [at EXCEPT ![p] = @ + 1] /\ i' = i + 1 /\ UNCHANGED st
     ELSE Verdict("bad") /\ UNCHANGED <<at, i>>
  /\ tid' = tid

\* No call of any parser is recorded here.
Nobody == st = "run" /\ i < Len(Ev) /\ Ev[i + 1][1] \notin Parsers /\ Verdict("bad") /\ UNCHANGED <<tid, at, i>>

AllSaid == \A p \in Parsers : at[p] = Len(Alone[p])
Done ==
  /\ st = "run" /\ i = Len(Ev)
  /\ IF AllSaid THEN Verdict("ok") ELSE Verdict("bad")
  /\ UNCHANGED <<tid, at, i>>

Next == (\E p \in Parsers : Call(p)) \/ Nobody \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == \A p \in Parsers : at[p] \in 0..Len(Alone[p])
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
InvCalls == Sum(at, Len(Alone)) = i
\* A call of one parser leaves the others where they were.
Apart == [][Cardinality({p \in Parsers : at'[p] # at[p]}) <= 1]_vars
=============================================================================
