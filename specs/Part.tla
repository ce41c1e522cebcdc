-------------------------------- MODULE Part --------------------------------
(***************************************************************************)
(* Every production of the grammar is a parser of its own (C28).  The      *)
(* tokens of a text are read up to some token, and there productions are   *)
(* called, one after the other: each takes the longest phrase of its kind  *)
(* from where the one before it stopped, builds the node for it, and       *)
(* leaves the parser at the token after it.                                *)
(*                                                                         *)
(* A production is the machine of Parser.tla started on it instead of a    *)
(* whole program; it ends when nothing is left to do, and the token that   *)
(* decided so is the first one of what comes next.                         *)
(*                                                                         *)
(* The recorded events are those of the trees built, one after the other   *)
(* (see TreeConform.tla), and then <<"E">> where a production refused, or  *)
(* <<"O">> and the token after the one at which the parser stands          *)
(* (<<"E">> for none).                                                     *)
(***************************************************************************)
EXTENDS Lexer, Parser, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Aspects == LET a == ndJsonDeserialize(IOEnv.CONF)[1].aspects IN {a[k] : k \in 1..Len(a)}

\* Parameters of functions with types; no whole program contains one yet.
Typed ==
  [ tfpdef |-> << Else(<<T(Name, 0), C("tfpdefTail")>>) >>,
    tfpdefTail |-> << On(Colon, <<T(Colon, 1), N("test", 2), R("TFPDef")>>), Else(<<R("TFPDef")>>) >>,
    tfp |-> << Else(<<N("tfpdef", 0), C("tfpTail")>>) >>,
    tfpTail |-> << On(Assign, <<T(Assign, 1), N("test", 2), R("TFPAssign")>>), Else(<<Z("?")>>) >> ]
PartG == Statements @@ Compounds @@ Expressions @@ Lists @@ Typed

\* first: the tokens it may begin with ({}: see the items); items: what there is to do.
Prod(tag) == [first |-> {}, open |-> FALSE, items |-> <<N(tag, 0)>>]
From(first, tag) == [first |-> first, open |-> FALSE, items |-> <<N(tag, 0)>>]
Level(p) == [first |-> {}, open |-> FALSE, items |-> <<E(p, 0)>>]

CompoundStart == {"PyIf", "PyWhile", "PyFor", "PyTry", "PyWith", "PyDef", "PyClass", "PyAsync", "PyMatrice"}
FlowStart == {"PyBreak", "PyContinue", "PyReturn", "PyRaise", "PyYield"}

Productions ==
  [ expressions_atom |-> Prod("atom"),
    expressions_atom_expr |-> Prod("primary"),
    expressions_power |-> [first |-> {}, open |-> FALSE, items |-> <<N("primary", 0), <<"P">> >>],
    expressions_factor |-> Level(11), expressions_term |-> Level(10), expressions_arith |-> Level(9),
    expressions_shift |-> Level(8), expressions_and_expr |-> Level(7), expressions_xor_expr |-> Level(6),
    expressions_expr |-> Level(5), expressions_comparison |-> Level(4), expressions_not_test |-> Level(3),
    expressions_and_test |-> Level(2), expressions_or_test |-> Level(1),
    expressions_star_expr |-> Prod("star"),
    expressions_lambda_def_true |-> Prod("lambda"),
    expressions_lambda_def_false |-> From({"PyLambda"}, "nocond"),
    expressions_no_cond_test |-> Prod("nocond"), expressions_test |-> Prod("test"),
    expressions_named_expression |-> Prod("named"), expressions_testlist_comp |-> Prod("comp"),
    expressions_trailer |-> From({"PyLeftParen", "PyLeftBracket", "PyDot"}, "trailer"),
    expressions_subscript_list |-> Prod("subscriptlist"), expressions_subscript |-> Prod("subscript"),
    expressions_exprlist |-> Prod("exprlist"), expressions_testlist |-> Prod("testlist"),
    expressions_dictorset_maker |-> Prod("dictorset"),
    expressions_arglist |-> Prod("arglist"), expressions_argument |-> Prod("argument"),
    expressions_comp_iter |-> Prod("compiter"), expressions_sync_comp_for |-> Prod("syncfor"),
    expressions_comp_for |-> Prod("compfor"), expressions_comp_if |-> From({"PyIf"}, "compiter"),
    expressions_yield_expr |-> Prod("yield"), expressions_testlist_star_expr |-> Prod("tlse"),
    expressions_var_args_list |-> Prod("varargs"), expressions_var_args_assignments |-> Prod("vfp"),
    expressions_vfp_def |-> Prod("vdef"),
    statements_stmt |-> Prod("stmt"), statements_simple_stmt |-> Prod("simple"),
    statements_small_stmt |-> Prod("small"),
    statements_expr_stmt |-> [first |-> {}, open |-> TRUE, items |-> <<N("tlse", 0), C("exprstmt")>>],
    statements_del_stmt |-> From({"PyDel"}, "small"), statements_pass_stmt |-> From({"PyPass"}, "small"),
    statements_flow_stmt |-> From(FlowStart, "small"), statements_break_stmt |-> From({"PyBreak"}, "small"),
    statements_continue_stmt |-> From({"PyContinue"}, "small"), statements_return_stmt |-> From({"PyReturn"}, "small"),
    statements_yield_stmt |-> From({"PyYield"}, "small"), statements_raise_stmt |-> From({"PyRaise"}, "small"),
    statements_import_stmt |-> From({"PyImport", "PyFrom"}, "small"), statements_import_name |-> From({"PyImport"}, "small"),
    statements_import_from |-> From({"PyFrom"}, "small"), statements_import_as_name |-> Prod("importasname"),
    statements_dotted_as_name |-> Prod("dottedasname"), statements_import_as_names |-> Prod("importasnames"),
    statements_dotted_as_names |-> Prod("dottedasnames"), statements_dotted_name |-> Prod("dottedname"),
    statements_global_stmt |-> From({"PyGlobal"}, "small"), statements_nonlocal_stmt |-> From({"PyNonLocal"}, "small"),
    statements_assert_stmt |-> From({"PyAssert"}, "small"),
    statements_compound_stmt |-> From(CompoundStart, "stmt"), statements_async_stmt |-> From({"PyAsync"}, "stmt"),
    statements_if_stmt |-> From({"PyIf"}, "stmt"), statements_elif_stmt |-> Prod("elif"),
    statements_else_stmt |-> Prod("else"), statements_while_stmt |-> From({"PyWhile"}, "stmt"),
    statements_for_stmt |-> From({"PyFor"}, "stmt"), statements_try_stmt |-> From({"PyTry"}, "stmt"),
    statements_finally_stmt |-> Prod("finally"), statements_with_stmt |-> From({"PyWith"}, "stmt"),
    statements_with_item |-> Prod("withitem"),
    statements_except_stmt |-> [first |-> {}, open |-> FALSE, items |-> <<X("begin"), N("except", 0), X("end")>>],
    statements_except_clause |-> [first |-> {}, open |-> FALSE, items |-> <<X("begin"), N("clause", 0), X("end")>>],
    statements_suite |-> Prod("suite"),
    blocks_decorator |-> Prod("decorator"), blocks_decorators |-> Prod("decorators"),
    blocks_decorated |-> Prod("decorated"), blocks_async_func_def |-> Prod("asyncdef"),
    blocks_func_def |-> Prod("def"), blocks_parameters |-> Prod("parameters"),
    blocks_tfp_def |-> Prod("tfpdef"), blocks_tfp_def_assign |-> Prod("tfp"),
    blocks_func_body_suite |-> Prod("funcbody"), blocks_class_def |-> Prod("class"),
    functions_func_type |-> Prod("functype"), functions_type_list |-> Prod("typelist") ]

\* k: tokens read before the first call; c: the call being made; base: the events of the calls before it.
VARIABLES tid, lx, ps, k, c, base, i, st
vars == <<tid, lx, ps, k, c, base, i, st>>

Inp == Traces[tid].inp
Ev == Traces[tid].ev
Calls == Traces[tid].calls
Skip == Traces[tid].skip
Answered == Len(Ev) > 0 /\ Ev[Len(Ev)][1] \notin {"P", "H", "A"}

Idle == [ParseInit("atom") EXCEPT !.stack = <<>>]

Init ==
  /\ tid \in 1..Len(Traces)
  /\ \E d \in 1..Len(Traces[tid].dv) :
       lx = LexInit({Traces[tid].dv[d][j] : j \in 1..Len(Traces[tid].dv[d])})
  /\ ps = Idle /\ k = 0 /\ c = 0 /\ base = 0 /\ i = 0 /\ st = "run"

TokenOf(l) == IF HasToken(l) THEN l.tok ELSE <<"ERROR", l.pos, l.pos, <<>>, <<>>, <<>>>>

\* The machine at the beginning of a call, with tok to come.
Start(name, tok, last) ==
  LET p == Productions[name]
      q == [Idle EXCEPT !.stack = p.items, !.last = last]
      o == IF p.open THEN Open(q, 0, tok[2]) ELSE q
  IN IF p.first # {} /\ tok[1] \notin p.first THEN Refuse(o) ELSE o

\* Everything decided by tok without taking it: the calls that end before it, one after the other, and the
\* beginning of the one that goes on.  done: all calls have ended; out: the nodes of the last call looked at;
\* nodes: those of the calls that ended before it.
RECURSIVE Ahead(_, _, _, _)
Ahead(q, n, tok, nodes) ==
  LET p1 == RunParser([q EXCEPT !.la = tok[1], !.las = tok[2], !.out = <<>>])
  IN IF p1.err \/ p1.stack # <<>> THEN [ps |-> q, n |-> n, nodes |-> nodes, done |-> FALSE]
     ELSE IF n = Len(Calls) THEN [ps |-> p1, n |-> n, nodes |-> nodes \o p1.out, done |-> TRUE]
     ELSE Ahead(Start(Calls[n + 1], tok, p1.last), n + 1, tok, nodes \o p1.out)

ShowsToken(e, tok) ==
  /\ e[1] = "T"
  /\ e[2] = tok[1]
  /\ "span" \in Aspects => (tok[1] \in {"Indent", "Dedent"} \/ (e[3] = tok[2] /\ e[4] = tok[3]))
  /\ "text" \in Aspects => (e[5] = tok[4] /\ e[6] = tok[5])

ShowsNode(e, n, hi) ==
  /\ e[1] = "N"
  /\ "tree" \in Aspects => e[2] = n[1]
  /\ "places" \in Aspects => e[5] = n[4]
  /\ "range" \in Aspects => e[3] = n[2] /\ e[4] >= n[3] /\ e[4] <= hi

ShowsAll(at, out, hi) ==
  /\ at + Len(out) <= Len(Ev)
  /\ \A j \in 1..Len(out) : ShowsNode(Ev[at + j], out[j], hi)

\* The call that begins after `from` events was refused by the code.
RefusedAt(from) == Len(Ev) = from + 1 /\ Ev[from + 1] = <<"E">>

\* The parser stands at tok, the scanner is l2; after the end and after an error nothing is said about what follows.
StandsAt(at, l2, tok) ==
  /\ Len(Ev) = at + 2 /\ Ev[at + 1] = <<"O">>
  /\ IF tok[1] \in {"EOF", "ERROR"} THEN TRUE
     ELSE \E l3 \in {NextToken(Inp, l2)} :
            IF HasToken(l3) THEN ShowsToken(Ev[at + 2], l3.tok) ELSE Ev[at + 2] = <<"E">>

Verdict(v, at) == st' = v /\ PrintT(<<"V", tid, v, lx.dev, at>>) /\ UNCHANGED <<tid, lx, ps, k, c, base, i>>

Read(l2, tok) ==
  \E a \in {Ahead(ps, c, tok, <<>>)} :
    LET ended == a.n > c \/ a.done
        at == i + Len(a.nodes)
        shown == ShowsAll(i, a.nodes, tok[2])
    IN \* Where a call ends and no token follows, the code may say so at once.
       IF ended /\ tok[1] = "ERROR" /\ Ev[Len(Ev)] = <<"E">> THEN Verdict("ok", at)
       ELSE IF ended /\ c > 0 /\ (RefusedAt(base) \/ ~shown) THEN Verdict("bad", i + 1)
       ELSE IF a.done THEN Verdict(IF StandsAt(at, l2, tok) THEN "ok" ELSE "bad", at + 1)
       ELSE LET from == IF ended THEN at ELSE base
                refused == RefusedAt(from)
            IN \E p2 \in {Feed(a.ps, tok[1], tok[2], tok[3])} :
                 LET n == Len(p2.out) IN
                 IF p2.err THEN Verdict(IF refused THEN "ok" ELSE "bad", at + 1)
                 ELSE IF refused \/ (ShowsAll(at, p2.out, tok[2]) /\ at + n < Len(Ev) /\ ShowsToken(Ev[at + n + 1], tok))
                      THEN /\ lx' = l2 /\ ps' = p2 /\ c' = a.n /\ base' = from
                           /\ i' = IF refused THEN at ELSE at + n + 1
                           /\ UNCHANGED <<tid, k, st>>
                      ELSE Verdict("bad", at + 1)

Step ==
  /\ st = "run" /\ Answered
  /\ \E l2 \in {NextToken(Inp, lx)} : \E tok \in {TokenOf(l2)} :
       IF k < Skip THEN lx' = l2 /\ k' = k + 1 /\ UNCHANGED <<tid, ps, c, base, i, st>>
       ELSE Read(l2, tok)

NoAnswer == st = "run" /\ ~Answered /\ Verdict("bad", 1)

Next == Step \/ NoAnswer
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvIndent == IndentStackOK(lx)
InvBrackets == BracketStackOK(lx)
InvTries == TriesOK(ps)
InvParts == PartsSorted(ps) /\ PartsNested(ps)
InvBalance == st = "run" /\ ~ps.err =>
  /\ Pending(ps.stack) = Len(ps.parts) - 1
  /\ OpenTries(ps.stack) = Len(ps.tries)
=============================================================================
