------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser of the language as a pushdown machine over Grammar.tla.      *)
(*                                                                         *)
(* The state of the machine is the record ps: the items still to be done   *)
(* (top first), the open parts (innermost last), the handler modes of the  *)
(* try statements being parsed (innermost last), the lookahead, the end of *)
(* the last token, and the nodes finished since the last token was taken.  *)
(* An open part is [into, st, kids]: the slot it will take in its parent,  *)
(* the offset of its first token, and its children <<slot, start, kind>>.  *)
(***************************************************************************)
EXTENDS Grammar

NONE == "none"
\* The element of a set with one element; a bound value is computed once by TLC.
Only(S) == CHOOSE x \in S : TRUE
LastOf(s) == s[Len(s)]
FrontOf(s) == SubSeq(s, 1, Len(s) - 1)

ParseInit(entry) ==
  [stack |-> <<N(entry, 0)>>, parts |-> <<[into |-> 0, st |-> 0, kids |-> <<>>]>>, tries |-> <<>>,
   la |-> NONE, las |-> 0, last |-> 0, out |-> <<>>, err |-> FALSE]

Refuse(ps) == [ps EXCEPT !.err = TRUE]
Pop(ps) == [ps EXCEPT !.stack = Tail(@)]
Put(ps, items) == [ps EXCEPT !.stack = items \o Tail(@)]
Cur(ps) == LastOf(ps.parts)

\* The alternative of tag for the lookahead.
RECURSIVE Choose(_, _, _)
Choose(alts, k, la) ==
  IF alts[k][1] = {} \/ la \in alts[k][1] THEN alts[k][2] ELSE Choose(alts, k + 1, la)
Alternative(tag, la) == Choose(G[tag], 1, la)

Open(ps, into, st) == [ps EXCEPT !.parts = Append(@, [into |-> into, st |-> st, kids |-> <<>>])]
AddKid(ps, kid) == [ps EXCEPT !.parts[Len(ps.parts)].kids = Append(@, kid)]

\* The place of each child: its slot and, within a list, its index as stored.
Places(kind, kids) ==
  LET total(s) == Len(SelectSeq(kids, LAMBDA k : k[1] = s))
      nth(j) == Len(SelectSeq(SubSeq(kids, 1, j), LAMBDA k : k[1] = kids[j][1])) - 1
  IN [j \in 1..Len(kids) |->
       <<kids[j][1], IF kind \in Reversed THEN total(kids[j][1]) - 1 - nth(j) ELSE nth(j)>>]

\* Finishes the innermost part as a node.
Reduce(ps, kind) ==
  LET f == Cur(ps)
      below == [ps EXCEPT !.parts = FrontOf(@), !.stack = Tail(@)]
      done == AddKid(below, <<f.into, f.st, kind>>)
  IN [done EXCEPT !.out = Append(@, <<kind, f.st, ps.last, Places(kind, f.kids)>>)]

\* Gives the only child of the innermost part to its parent.
PassOn(ps) ==
  LET f == Cur(ps)
      below == [ps EXCEPT !.parts = FrontOf(@), !.stack = Tail(@)]
  IN AddKid(below, <<f.into, f.kids[1][2], f.kids[1][3]>>)

\* Makes the last child of the innermost part the first child of a new part in its place.
Wrap(ps) ==
  LET f == Cur(ps)
      kid == LastOf(f.kids)
      n == Len(ps.parts)
  IN [ps EXCEPT !.parts = Append([@ EXCEPT ![n].kids = FrontOf(@)],
                                 [into |-> kid[1], st |-> kid[2], kids |-> << <<0, kid[2], kid[3]>> >>])]

ExpandN(ps) ==
  LET it == Head(ps.stack) IN Open(Put(ps, Alternative(it[2], ps.la)), it[3], ps.las)
ExpandC(ps) == Put(ps, Alternative(Head(ps.stack)[2], ps.la))

\* An operand of an expression of precedence p, then its operators.
Operand(ps) ==
  LET p == Head(ps.stack)[2]
      slot == Head(ps.stack)[3]
  IN CASE ps.la = "PyNot" /\ p <= NotPrec ->
            Open(Put(ps, <<T({"PyNot"}, 0), E(NotPrec, 1), R("NotTest"), L(p)>>), slot, ps.las)
       [] ps.la \in UnaryOps ->
            Open(Put(ps, <<T(UnaryOps, 0), E(UnaryPrec, 1), R(UnaryNode[ps.la]), L(p)>>), slot, ps.las)
       [] OTHER -> Put(ps, <<N("primary", slot), <<"P">>, L(p)>>)

\* A power binds tighter than what stands left of its base.
PowerTail(ps) ==
  IF ps.la = "PyPower"
  THEN Wrap(Put(ps, <<T(Power, 1), E(UnaryPrec, 2), R("PowerExpr")>>))
  ELSE Pop(ps)

Operators(ps) ==
  LET p == Head(ps.stack)[2] IN
  IF ps.la \notin BinOps \/ BinOp[ps.la][1] < p THEN Pop(ps)
  ELSE LET op == BinOp[ps.la] IN
    CASE ps.la = "PyNot" -> Wrap(Put(ps, <<T({"PyNot"}, 1), T({"PyIn"}, 2), E(op[2], 3), R(op[3]), L(p)>>))
      [] ps.la = "PyIs" -> Wrap(Put(ps, <<T({"PyIs"}, 1), <<"I">>, L(p)>>))
      [] OTHER -> Wrap(Put(ps, <<T({ps.la}, 1), E(op[2], 2), R(op[3]), L(p)>>))
IsTail(ps) ==
  IF ps.la = "PyNot" THEN Put(ps, <<T({"PyNot"}, 2), E(ExprPrec, 3), R("IsNotComparison")>>)
  ELSE Put(ps, <<E(ExprPrec, 2), R("IsComparison")>>)

\* One try statement uses either kind of handler.
Mark(ps) ==
  LET m == Head(ps.stack)[2]
      n == Len(ps.tries)
  IN CASE m = "begin" -> [Pop(ps) EXCEPT !.tries = Append(@, NONE)]
       [] m = "end" -> [Pop(ps) EXCEPT !.tries = FrontOf(@)]
       [] ps.tries[n] \in {NONE, m} -> [Pop(ps) EXCEPT !.tries[n] = m]
       [] OTHER -> Refuse(ps)

KindIn(ps, slot) == LET k == SelectSeq(Cur(ps).kids, LAMBDA x : x[1] = slot) IN k[1][3]

\* One action without taking a token.
Act(ps) ==
  LET op == Head(ps.stack)[1] IN
  CASE op = "C" -> ExpandC(ps)
    [] op = "N" -> ExpandN(ps)
    [] op = "E" -> Operand(ps)
    [] op = "L" -> Operators(ps)
    [] op = "P" -> PowerTail(ps)
    [] op = "I" -> IsTail(ps)
    [] op = "W" -> Wrap(Pop(ps))
    [] op = "R" -> Reduce(ps, Head(ps.stack)[2])
    [] op = "Z" -> IF Len(Cur(ps).kids) = 1 THEN PassOn(ps) ELSE Reduce(ps, Head(ps.stack)[2])
    [] op = "RA" -> Reduce(ps, AugNode[KindIn(ps, 1)])
    [] op = "RD" -> Reduce(ps, IF KindIn(ps, 1) = "SetContainer" THEN "AtomSet" ELSE "AtomDictionary")
    [] op = "X" -> Mark(ps)

Accepted(ps) == ps.stack = <<>> /\ ~ps.err
Waiting(ps) == ps.stack # <<>> /\ Head(ps.stack)[1] = "T"

RECURSIVE RunParser(_)
RunParser(ps) ==
  IF ps.err \/ ps.stack = <<>> \/ Waiting(ps) THEN ps
  ELSE Only({RunParser(q) : q \in {Act(ps)}})

\* Nothing but finishing nodes is left to do.
Complete(ps) == ~ps.err /\ \A k \in 1..Len(ps.stack) : ps.stack[k][1] = "R"
Finish(ps) == RunParser([ps EXCEPT !.la = NONE, !.out = <<>>])

\* Takes one token: first everything its kind decides, then the token itself.
Feed(ps, kind, s, e) ==
  LET p1 == RunParser([ps EXCEPT !.la = kind, !.las = s, !.out = <<>>])
  IN IF p1.err \/ ~Waiting(p1) \/ kind \notin Head(p1.stack)[2] THEN Refuse(p1)
     ELSE [AddKid(Pop(p1), <<Head(p1.stack)[3], s, kind>>) EXCEPT !.la = NONE, !.last = IF e > s THEN e ELSE @]

-----------------------------------------------------------------------------
\* What must hold whenever a token has been taken.

\* Every open part is going to be finished exactly once.
\* "C" items stand for the rest of the part that is open: its alternatives all end in a
\* finisher, so a tail C is one; so is the tail I of a comparison; L and P finish only what they open.
Finishers == {"R", "Z", "RA", "RD", "C", "I"}
Pending(stack) == Len(SelectSeq(stack, LAMBDA it : it[1] \in Finishers))
OpenTries(stack) == Len(SelectSeq(stack, LAMBDA it :
  \/ it[1] = "X" /\ it[2] = "end"
  \/ it[1] = "C" /\ it[2] \in {"tryTail", "tryExcepts", "tryFinally"}))

\* The handlers of the try statements being parsed: one mode each (C19).
TriesOK(ps) == \A k \in 1..Len(ps.tries) : ps.tries[k] \in {NONE, "plain", "star"}

\* Children start in source order, not before their part (C22, C23).
Sorted(f) ==
  /\ f.kids # <<>> => f.st <= f.kids[1][2]
  /\ \A k \in 1..(Len(f.kids) - 1) : f.kids[k][2] <= f.kids[k + 1][2]
PartsSorted(ps) == \A k \in 2..Len(ps.parts) : Sorted(ps.parts[k])
PartsNested(ps) == \A k \in 2..(Len(ps.parts) - 1) : ps.parts[k].st <= ps.parts[k + 1].st

\* A part continued as a left operand keeps its place: slots of a part never decrease
\* except in the lists, where elements and separators alternate (C11).
NodesNested(ps) == \A k \in 1..Len(ps.out) : ps.out[k][2] <= ps.out[k][3] \/ ps.out[k][2] = ps.out[k][3]
=============================================================================
