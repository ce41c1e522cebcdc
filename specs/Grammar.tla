------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* The grammar of the language as data for the machine of Parser.tla.      *)
(*                                                                         *)
(* G[tag] is a sequence of alternatives <<lookahead, items>>: the first    *)
(* one whose lookahead set holds the kind of the next token is taken, an   *)
(* empty set matches everything.  Items:                                   *)
(*   T(kinds, slot)  consume a token of one of the kinds                   *)
(*   N(tag, slot)    parse tag as a part of its own                        *)
(*   C(tag)          continue with tag in the same part                    *)
(*   E(p, slot)      parse an operator expression of precedence >= p       *)
(*   L(p)            continue one with its operators of precedence >= p    *)
(*   W               make the part just finished the first child of a new  *)
(*                   part, which is continued (left operands)              *)
(*   R(kind)         finish the part as a node of this kind                *)
(*   Z(kind)         the same, but a part with one child is that child     *)
(*   RA, RD          finish an augmented assignment, a display in braces   *)
(*   X(mark)         bookkeeping of try statements                         *)
(* A slot is the place of the child in its node: the fields of the node,   *)
(* tuples taken apart, counted from 0.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

T(kinds, slot) == <<"T", kinds, slot>>
N(tag, slot) == <<"N", tag, slot>>
C(tag) == <<"C", tag>>
E(p, slot) == <<"E", p, slot>>
L(p) == <<"L", p>>
W == <<"W">>
R(kind) == <<"R", kind>>
Z(kind) == <<"Z", kind>>
RA == <<"RA">>
RD == <<"RD">>
X(mark) == <<"X", mark>>

On(kinds, items) == <<kinds, items>>
Else(items) == <<{}, items>>

Comma == {"PyComa"}
Colon == {"PyColon"}
Name == {"AtomName"}
Star == {"PyMul"}
Power == {"PyPower"}
LPar == {"PyLeftParen"}
RPar == {"PyRightParen"}
LBrk == {"PyLeftBracket"}
RBrk == {"PyRightBracket"}
LCur == {"PyLeftCurly"}
RCur == {"PyRightCurly"}
Assign == {"PyAssign"}
NL == {"Newline"}
Semi == {"PySemiColon"}
TC == {"TypeComment"}
Eof == {"EOF"}
StmtEnd == {"Newline", "PySemiColon", "EOF"}
Dots == {"PyDot", "PyElipsis"}

AugNode == [PyPlusAssign |-> "PlusAssignStmt", PyMinusAssign |-> "MinusAssignStmt",
  PyMulAssign |-> "MulAssignStmt", PyDivAssign |-> "DivAssignStmt",
  PyFloorDivAssign |-> "FloorDivAssignStmt", PyModuloAssign |-> "ModuloAssignStmt",
  PyMatriceAssign |-> "MatriceAssignStmt", PyPowerAssign |-> "PowerAssignStmt",
  PyShiftLeftAssign |-> "ShiftLeftAssignStmt", PyShiftRightAssign |-> "ShiftRightAssignStmt",
  PyBitOrAssign |-> "BitOrAssignStmt", PyBitXorAssign |-> "BitXorAssignStmt",
  PyBitAndAssign |-> "BitAndAssignStmt"]
AugOps == DOMAIN AugNode

\* Binary operators: <<precedence, precedence of the right operand, node>>.
BinOp == [PyOr |-> <<1, 2, "OrTest">>, PyAnd |-> <<2, 3, "AndTest">>,
  PyLess |-> <<4, 5, "LessComparison">>, PyGreater |-> <<4, 5, "GreaterComparison">>,
  PyLessEqual |-> <<4, 5, "LessEqualComparison">>, PyGreaterEqual |-> <<4, 5, "GreaterEqualComparison">>,
  PyEqual |-> <<4, 5, "EqualComparison">>, PyNotEqual |-> <<4, 5, "NotEqualComparison">>,
  PyIn |-> <<4, 5, "InComparison">>, PyIs |-> <<4, 5, "IsComparison">>, PyNot |-> <<4, 5, "NotInComparison">>,
  PyBitOr |-> <<5, 6, "Expr">>, PyBitXor |-> <<6, 7, "XorExpr">>, PyBitAnd |-> <<7, 8, "AndExpr">>,
  PyShiftLeft |-> <<8, 9, "ShiftLeftExpr">>, PyShiftRight |-> <<8, 9, "ShiftRightExpr">>,
  PyPlus |-> <<9, 10, "PlusArithExpr">>, PyMinus |-> <<9, 10, "MinusArithExpr">>,
  PyMul |-> <<10, 11, "MulTerm">>, PyDiv |-> <<10, 11, "DivTerm">>, PyFloorDiv |-> <<10, 11, "FloorDivTerm">>,
  PyModulo |-> <<10, 11, "ModuloTerm">>, PyMatrice |-> <<10, 11, "MatriceTerm">>]
BinOps == DOMAIN BinOp
UnaryNode == [PyPlus |-> "UnaryPlus", PyMinus |-> "UnaryMinus", PyBitInvert |-> "UnaryInvert"]
UnaryOps == DOMAIN UnaryNode
NotPrec == 3
ExprPrec == 5
UnaryPrec == 11

\* A list of parts in slot 0 with commas in slot 1 that may end with a comma before `ends`.
List(elem, loop, after, ends, fin) ==
  (loop :> << On(Comma, <<T(Comma, 1), C(after)>>), Else(<<fin>>) >>) @@
  (after :> << On(ends, <<fin>>), Else(<<elem, C(loop)>>) >>)

Statements ==
  [ file |-> << Else(<<C("fileLoop")>>) >>,
    fileLoop |-> << On(NL, <<T(NL, 1), C("fileLoop")>>), On(Eof, <<T(Eof, 2), R("FileInput")>>),
                    Else(<<N("stmt", 0), C("fileLoop")>>) >>,
    eval |-> << Else(<<N("testlist", 0), C("evalEnd")>>) >>,
    evalEnd |-> << On(NL, <<T(NL, 1), C("evalEnd")>>), Else(<<T(Eof, 2), R("EvalInput")>>) >>,
    func |-> << Else(<<N("functype", 0), C("funcEnd")>>) >>,
    funcEnd |-> << On(NL, <<T(NL, 1), C("funcEnd")>>), Else(<<T(Eof, 2), R("FuncTypeInput")>>) >>,
    single |-> << On(NL, <<T(NL, 1), R("SingleInput")>>),
                  On({"PyIf", "PyWhile", "PyFor", "PyTry", "PyWith", "PyDef", "PyClass", "PyAsync", "PyMatrice"},
                     <<N("stmt", 0), T(NL, 1), R("SingleInput")>>),
                  Else(<<N("simple", 0), R("SingleInput")>>) >>,

    stmt |-> << On({"PyIf"}, <<C("if")>>), On({"PyWhile"}, <<C("while")>>), On({"PyFor"}, <<C("for")>>),
                On({"PyTry"}, <<C("try")>>), On({"PyWith"}, <<C("with")>>), On({"PyDef"}, <<C("def")>>),
                On({"PyClass"}, <<C("class")>>), On({"PyAsync"}, <<C("async")>>),
                On({"PyMatrice"}, <<C("decorated")>>), Else(<<C("simple")>>) >>,
    simple |-> << Else(<<N("small", 0), C("simpleLoop")>>) >>,
    simpleLoop |-> << On(Semi, <<T(Semi, 1), C("simpleAfter")>>), Else(<<C("simpleEnd")>>) >>,
    simpleAfter |-> << On(NL, <<C("simpleEnd")>>), Else(<<N("small", 0), C("simpleLoop")>>) >>,
    simpleEnd |-> << Else(<<T(NL, 2), R("SimpleStmtList")>>) >>,
    small |-> << On({"PyDel"}, <<C("del")>>),
                 On({"PyPass"}, <<T({"PyPass"}, 0), R("PassStmt")>>),
                 On({"PyBreak"}, <<T({"PyBreak"}, 0), R("BreakStmt")>>),
                 On({"PyContinue"}, <<T({"PyContinue"}, 0), R("ContinueStmt")>>),
                 On({"PyReturn"}, <<T({"PyReturn"}, 0), C("return")>>),
                 On({"PyRaise"}, <<T({"PyRaise"}, 0), C("raise")>>),
                 On({"PyYield"}, <<C("yield")>>),
                 On({"PyImport"}, <<T({"PyImport"}, 0), N("dottedasnames", 1), R("ImportNameStmt")>>),
                 On({"PyFrom"}, <<T({"PyFrom"}, 0), C("from")>>),
                 On({"PyGlobal"}, <<T({"PyGlobal"}, 0), T(Name, 1), C("global")>>),
                 On({"PyNonLocal"}, <<T({"PyNonLocal"}, 0), T(Name, 1), C("nonlocal")>>),
                 On({"PyAssert"}, <<T({"PyAssert"}, 0), N("test", 1), C("assert")>>),
                 Else(<<N("tlse", 0), C("exprstmt")>>) >>,
    del |-> << Else(<<T({"PyDel"}, 0), N("exprlist", 1), R("DelStmt")>>) >>,
    return |-> << On(StmtEnd, <<R("ReturnStmt")>>), Else(<<N("tlse", 1), R("ReturnStmt")>>) >>,
    raise |-> << On(StmtEnd, <<R("RaiseStmt")>>), Else(<<N("test", 1), C("raiseFrom")>>) >>,
    raiseFrom |-> << On({"PyFrom"}, <<T({"PyFrom"}, 2), N("test", 3), R("RaiseStmt")>>), Else(<<R("RaiseStmt")>>) >>,
    yield |-> << Else(<<T({"PyYield"}, 0), C("yieldArg")>>) >>,
    yieldArg |-> << On({"PyFrom"}, <<T({"PyFrom"}, 1), N("test", 2), R("YieldFromExpr")>>),
                    Else(<<N("tlse", 1), R("YieldExpr")>>) >>,
    global |-> << On(Comma, <<T(Comma, 2), T(Name, 1), C("global")>>), Else(<<R("GlobalStmt")>>) >>,
    nonlocal |-> << On(Comma, <<T(Comma, 2), T(Name, 1), C("nonlocal")>>), Else(<<R("NonLocalStmt")>>) >>,
    assert |-> << On(Comma, <<T(Comma, 2), N("test", 3), R("AssertStmt")>>), Else(<<R("AssertStmt")>>) >>,

    dottedasnames |-> << Else(<<N("dottedasname", 0), C("dottedasnamesLoop")>>) >>,
    dottedasnamesLoop |-> << On(Comma, <<T(Comma, 1), N("dottedasname", 0), C("dottedasnamesLoop")>>),
                             Else(<<R("DottedAsNamesStmt")>>) >>,
    dottedasname |-> << Else(<<N("dottedname", 0), C("dottedas")>>) >>,
    dottedas |-> << On({"PyAs"}, <<T({"PyAs"}, 1), T(Name, 2), R("DottedAsNameStmt")>>), Else(<<R("DottedAsNameStmt")>>) >>,
    dottedname |-> << Else(<<T(Name, 0), C("dottednameLoop")>>) >>,
    dottednameLoop |-> << On({"PyDot"}, <<T({"PyDot"}, 1), T(Name, 0), C("dottednameLoop")>>),
                          Else(<<R("DottedNameStmt")>>) >>,
    from |-> << On(Dots, <<T(Dots, 1), C("fromDots")>>), Else(<<N("dottedname", 2), C("fromImport")>>) >>,
    fromDots |-> << On(Dots, <<T(Dots, 1), C("fromDots")>>), On({"PyImport"}, <<C("fromImport")>>),
                    Else(<<N("dottedname", 2), C("fromImport")>>) >>,
    fromImport |-> << Else(<<T({"PyImport"}, 3), C("fromNames")>>) >>,
    fromNames |-> << On(Star, <<T(Star, 4), R("ImportFromStmt")>>),
                     On(LPar, <<T(LPar, 4), N("importasnames", 5), T(RPar, 6), R("ImportFromStmt")>>),
                     Else(<<N("importasnames", 5), R("ImportFromStmt")>>) >>,
    importasnames |-> << Else(<<N("importasname", 0), C("importasnamesLoop")>>) >>,
    importasname |-> << Else(<<T(Name, 0), C("importas")>>) >>,
    importas |-> << On({"PyAs"}, <<T({"PyAs"}, 1), T(Name, 2), R("ImportAsName")>>), Else(<<R("ImportAsName")>>) >>,

    exprstmt |-> << On(AugOps, <<T(AugOps, 1), C("augValue")>>),
                    On(Colon, <<T(Colon, 1), N("test", 2), C("annValue")>>),
                    On(Assign, <<C("assign")>>), Else(<<Z("?")>>) >>,
    augValue |-> << On({"PyYield"}, <<N("yield", 2), RA>>), Else(<<N("testlist", 2), RA>>) >>,
    annValue |-> << On(Assign, <<T(Assign, 3), C("annValue2")>>), Else(<<R("AnnAssignStmt")>>) >>,
    annValue2 |-> << On({"PyYield"}, <<N("yield", 4), R("AnnAssignStmt")>>), Else(<<N("testlist", 4), R("AnnAssignStmt")>>) >>,
    assign |-> << On(Assign, <<T(Assign, 1), C("assignValue")>>), On(TC, <<T(TC, 3), R("AssignmentStmt")>>),
                  Else(<<R("AssignmentStmt")>>) >>,
    assignValue |-> << On({"PyYield"}, <<N("yield", 2), C("assign")>>), Else(<<N("testlist", 2), C("assign")>>) >>
  ]

Compounds ==
  [ if |-> << Else(<<T({"PyIf"}, 0), N("named", 1), T(Colon, 2), N("suite", 3), C("ifTail")>>) >>,
    ifTail |-> << On({"PyElif"}, <<N("elif", 4), C("ifTail")>>), On({"PyElse"}, <<N("else", 5), R("IfStmt")>>),
                  Else(<<R("IfStmt")>>) >>,
    elif |-> << Else(<<T({"PyElif"}, 0), N("named", 1), T(Colon, 2), N("suite", 3), R("ElifStmt")>>) >>,
    else |-> << Else(<<T({"PyElse"}, 0), T(Colon, 1), N("suite", 2), R("ElseStmt")>>) >>,
    while |-> << Else(<<T({"PyWhile"}, 0), N("named", 1), T(Colon, 2), N("suite", 3), C("whileTail")>>) >>,
    whileTail |-> << On({"PyElse"}, <<N("else", 4), R("WhileStmt")>>), Else(<<R("WhileStmt")>>) >>,
    for |-> << Else(<<T({"PyFor"}, 0), N("exprlist", 1), T({"PyIn"}, 2), N("testlist", 3), T(Colon, 4), C("forTC")>>) >>,
    forTC |-> << On(TC, <<T(TC, 5), N("suite", 6), C("forTail")>>), Else(<<N("suite", 6), C("forTail")>>) >>,
    forTail |-> << On({"PyElse"}, <<N("else", 7), R("ForStmt")>>), Else(<<R("ForStmt")>>) >>,
    try |-> << Else(<<X("begin"), T({"PyTry"}, 0), T(Colon, 1), N("suite", 2), C("tryTail")>>) >>,
    tryTail |-> << On({"PyFinally"}, <<C("tryFinally")>>), Else(<<N("except", 3), C("tryExcepts")>>) >>,
    tryExcepts |-> << On({"PyExcept"}, <<N("except", 3), C("tryExcepts")>>),
                      On({"PyElse"}, <<N("else", 4), C("tryFinally")>>), Else(<<C("tryFinally")>>) >>,
    tryFinally |-> << On({"PyFinally"}, <<N("finally", 5), X("end"), R("TryStmt")>>), Else(<<X("end"), R("TryStmt")>>) >>,
    finally |-> << Else(<<T({"PyFinally"}, 0), T(Colon, 1), N("suite", 2), R("FinallyStmt")>>) >>,
    except |-> << Else(<<N("clause", 0), T(Colon, 1), N("suite", 2), R("ExceptStmt")>>) >>,
    clause |-> << Else(<<T({"PyExcept"}, 0), C("clauseType")>>) >>,
    clauseType |-> << On(Star, <<X("star"), T(Star, 1), N("test", 2), C("clauseAs")>>),
                      On(Colon, <<X("plain"), R("ExceptClauseStmt")>>),
                      Else(<<X("plain"), N("test", 2), C("clauseAs")>>) >>,
    clauseAs |-> << On({"PyAs"}, <<T({"PyAs"}, 3), T(Name, 4), R("ExceptClauseStmt")>>), Else(<<R("ExceptClauseStmt")>>) >>,
    with |-> << Else(<<T({"PyWith"}, 0), C("withItems")>>) >>,
    withItems |-> << On(LPar, <<T(LPar, 1), N("withitem", 2), C("withParLoop")>>), Else(<<N("withitem", 2), C("withLoop")>>) >>,
    withParLoop |-> << On(Comma, <<T(Comma, 3), C("withParAfter")>>), Else(<<T(RPar, 4), C("withBody")>>) >>,
    withParAfter |-> << On(RPar, <<T(RPar, 4), C("withBody")>>), Else(<<N("withitem", 2), C("withParLoop")>>) >>,
    withLoop |-> << On(Comma, <<T(Comma, 3), N("withitem", 2), C("withLoop")>>), Else(<<C("withBody")>>) >>,
    withBody |-> << Else(<<T(Colon, 5), N("suite", 6), R("WithStmt")>>) >>,
    withitem |-> << Else(<<N("test", 0), C("withAs")>>) >>,
    withAs |-> << On({"PyAs"}, <<T({"PyAs"}, 1), E(ExprPrec, 2), R("WithItem")>>), Else(<<R("WithItem")>>) >>,
    suite |-> << On(NL, <<T(NL, 0), T({"Indent"}, 1), N("stmt", 2), C("suiteLoop")>>), Else(<<C("simple")>>) >>,
    suiteLoop |-> << On({"Dedent"}, <<T({"Dedent"}, 3), R("SuiteStmt")>>), Else(<<N("stmt", 2), C("suiteLoop")>>) >>,
    funcbody |-> << On(NL, <<T(NL, 0), C("funcbodyTC")>>), Else(<<C("simple")>>) >>,
    funcbodyTC |-> << On(TC, <<T(TC, 1), T(NL, 2), C("funcbodyIn")>>), Else(<<C("funcbodyIn")>>) >>,
    funcbodyIn |-> << Else(<<T({"Indent"}, 3), N("stmt", 4), C("funcbodyLoop")>>) >>,
    funcbodyLoop |-> << On({"Dedent"}, <<T({"Dedent"}, 5), R("FuncBodySuite")>>), Else(<<N("stmt", 4), C("funcbodyLoop")>>) >>,
    def |-> << Else(<<T({"PyDef"}, 0), T(Name, 1), N("parameters", 2), C("defResult")>>) >>,
    parameters |-> << Else(<<T(LPar, 0), T(RPar, 2), R("Parameter")>>) >>,
    defResult |-> << On({"PyArrow"}, <<T({"PyArrow"}, 3), N("test", 4), T(Colon, 5), C("defTC")>>), Else(<<T(Colon, 5), C("defTC")>>) >>,
    defTC |-> << On(TC, <<T(TC, 6), N("funcbody", 7), R("FuncDef")>>), Else(<<N("funcbody", 7), R("FuncDef")>>) >>,
    class |-> << Else(<<T({"PyClass"}, 0), T(Name, 1), C("classArgs")>>) >>,
    classArgs |-> << On(LPar, <<T(LPar, 2), C("classBases")>>), Else(<<C("classBody")>>) >>,
    classBases |-> << On(RPar, <<T(RPar, 4), C("classBody")>>), Else(<<N("arglist", 3), T(RPar, 4), C("classBody")>>) >>,
    classBody |-> << Else(<<T(Colon, 5), N("suite", 6), R("ClassDef")>>) >>,
    async |-> << Else(<<T({"PyAsync"}, 0), C("asyncStmt")>>) >>,
    asyncStmt |-> << On({"PyDef"}, <<N("def", 1), R("AsyncStmt")>>), On({"PyWith"}, <<N("with", 1), R("AsyncStmt")>>),
                     Else(<<N("for", 1), R("AsyncStmt")>>) >>,
    asyncdef |-> << Else(<<T({"PyAsync"}, 0), N("def", 1), R("AsyncStmt")>>) >>,
    decorated |-> << Else(<<N("decorators", 0), C("decoratedDef")>>) >>,
    decoratedDef |-> << On({"PyClass"}, <<N("class", 1), R("Decorated")>>), On({"PyDef"}, <<N("def", 1), R("Decorated")>>),
                        Else(<<N("asyncdef", 1), R("Decorated")>>) >>,
    decorators |-> << Else(<<N("decorator", 0), C("decoratorsLoop")>>) >>,
    decoratorsLoop |-> << On({"PyMatrice"}, <<N("decorator", 0), C("decoratorsLoop")>>), Else(<<R("Decorators")>>) >>,
    decorator |-> << Else(<<T({"PyMatrice"}, 0), N("dottedname", 1), C("decoratorArgs")>>) >>,
    decoratorArgs |-> << On(LPar, <<T(LPar, 2), C("decoratorCall")>>), Else(<<C("decoratorEnd")>>) >>,
    decoratorCall |-> << On(RPar, <<T(RPar, 4), C("decoratorEnd")>>), Else(<<N("arglist", 3), T(RPar, 4), C("decoratorEnd")>>) >>,
    decoratorEnd |-> << Else(<<T(NL, 5), R("Decorator")>>) >>
  ]

Expressions ==
  [ test |-> << On({"PyLambda"}, <<C("lambda")>>), Else(<<E(1, 0), C("testTail")>>) >>,
    testTail |-> << On({"PyIf"}, <<T({"PyIf"}, 1), E(1, 2), T({"PyElse"}, 3), N("test", 4), R("Test")>>), Else(<<Z("?")>>) >>,
    named |-> << Else(<<N("test", 0), C("namedTail")>>) >>,
    namedTail |-> << On({"PyColonAssign"}, <<T({"PyColonAssign"}, 1), N("test", 2), R("NamedExpr")>>), Else(<<Z("?")>>) >>,
    namedValue |-> << Else(<<T({"PyColonAssign"}, 1), N("test", 2), R("NamedExpr")>>) >>,
    nocond |-> << On({"PyLambda"}, <<T({"PyLambda"}, 0), C("lambdaArgs0")>>), Else(<<E(1, 0), Z("?")>>) >>,
    lambdaArgs0 |-> << On(Colon, <<T(Colon, 2), E(1, 3), R("Lambda")>>), Else(<<N("varargs", 1), T(Colon, 2), E(1, 3), R("Lambda")>>) >>,
    lambda |-> << Else(<<T({"PyLambda"}, 0), C("lambdaArgs")>>) >>,
    lambdaArgs |-> << On(Colon, <<C("lambdaBody")>>), Else(<<N("varargs", 1), C("lambdaBody")>>) >>,
    lambdaBody |-> << Else(<<T(Colon, 2), N("test", 3), R("Lambda")>>) >>,
    varargs |-> << On(Star, <<C("vaStar")>>), On(Power, <<C("vaPow")>>), Else(<<N("vfp", 0), C("vaLoop")>>) >>,
    vaLoop |-> << On(Comma, <<T(Comma, 1), C("vaAfter")>>), Else(<<R("VarArgsList")>>) >>,
    vaAfter |-> << On({"PyDiv"}, <<T({"PyDiv"}, 6), C("vaDivLoop")>>), On(Star, <<C("vaStar")>>), On(Power, <<C("vaPow")>>),
                   On(Colon, <<R("VarArgsList")>>), Else(<<N("vfp", 0), C("vaLoop")>>) >>,
    vaDivLoop |-> << On(Comma, <<T(Comma, 1), C("vaDivAfter")>>), Else(<<R("VarArgsList")>>) >>,
    vaDivAfter |-> << On(Star, <<C("vaStar")>>), On(Power, <<C("vaPow")>>), On(Colon, <<R("VarArgsList")>>),
                      Else(<<N("vfp", 0), C("vaDivLoop")>>) >>,
    vaStar |-> << Else(<<T(Star, 2), C("vaStarName")>>) >>,
    vaStarName |-> << On(Comma, <<T(Comma, 1), N("vfp", 0), C("vaKwLoop")>>), Else(<<N("vdef", 3), C("vaKwLoop")>>) >>,
    vaKwLoop |-> << On(Comma, <<T(Comma, 1), C("vaKwAfter")>>), Else(<<R("VarArgsList")>>) >>,
    vaKwAfter |-> << On(Power, <<C("vaPow")>>), On(Colon, <<R("VarArgsList")>>), Else(<<N("vfp", 0), C("vaKwLoop")>>) >>,
    vaPow |-> << Else(<<T(Power, 4), N("vdef", 5), C("vaPowEnd")>>) >>,
    vaPowEnd |-> << On(Comma, <<T(Comma, 1), R("VarArgsList")>>), Else(<<R("VarArgsList")>>) >>,
    vfp |-> << Else(<<N("vdef", 0), C("vfpTail")>>) >>,
    vfpTail |-> << On(Assign, <<T(Assign, 1), N("test", 2), R("VFPAssign")>>), Else(<<Z("?")>>) >>,
    vdef |-> << Else(<<T(Name, 0), R("VFPDef")>>) >>,

    star |-> << Else(<<T(Star, 0), E(ExprPrec, 1), R("StarExpr")>>) >>,
    exprelem |-> << On(Star, <<C("star")>>), Else(<<E(ExprPrec, 0), Z("?")>>) >>,
    testelem |-> << On(Star, <<C("star")>>), Else(<<C("test")>>) >>,
    compelem |-> << On(Star, <<C("star")>>), Else(<<C("named")>>) >>,
    exprlist |-> << Else(<<N("exprelem", 0), C("exprlistLoop")>>) >>,
    testlist |-> << Else(<<N("test", 0), C("testlistLoop")>>) >>,
    tlse |-> << Else(<<N("testelem", 0), C("tlseLoop")>>) >>,

    primary |-> << On({"PyAwait"}, <<T({"PyAwait"}, 0), N("atom", 1), C("trailers")>>), Else(<<N("atom", 1), C("trailers")>>) >>,
    trailers |-> << On(LPar \cup LBrk \cup {"PyDot"}, <<N("trailer", 2), C("trailers")>>), Else(<<Z("AtomExpr")>>) >>,
    trailer |-> << On(LPar, <<T(LPar, 0), C("callArgs")>>),
                   On(LBrk, <<T(LBrk, 0), N("subscriptlist", 1), T(RBrk, 2), R("IndexTrailer")>>),
                   Else(<<T({"PyDot"}, 0), T(Name, 1), R("DotNameTrailer")>>) >>,
    callArgs |-> << On(RPar, <<T(RPar, 2), R("CallTrailer")>>), Else(<<N("arglist", 1), T(RPar, 2), R("CallTrailer")>>) >>,
    subscriptlist |-> << Else(<<N("subscript", 0), C("subscriptLoop")>>) >>,
    subscript |-> << On(Colon, <<C("slice1")>>), Else(<<N("test", 0), C("sliceTail")>>) >>,
    sliceTail |-> << On(Colon, <<C("slice1")>>), On({"PyColonAssign"}, <<W, C("namedValue"), R("Subscript")>>), Else(<<R("Subscript")>>) >>,
    slice1 |-> << Else(<<T(Colon, 1), C("slice2")>>) >>,
    slice2 |-> << On(RBrk \cup Comma, <<R("Subscript")>>), On(Colon, <<C("slice3")>>), Else(<<N("test", 2), C("slice2Tail")>>) >>,
    slice2Tail |-> << On(Colon, <<C("slice3")>>), Else(<<R("Subscript")>>) >>,
    slice3 |-> << Else(<<T(Colon, 3), C("slice4")>>) >>,
    slice4 |-> << On(RBrk \cup Comma, <<R("Subscript")>>), Else(<<N("test", 4), R("Subscript")>>) >>,
    arglist |-> << Else(<<N("argument", 0), C("argLoop")>>) >>,
    argument |-> << On(Star \cup Power, <<T(Star \cup Power, 1), N("test", 2), R("Argument")>>), Else(<<N("test", 0), C("argTail")>>) >>,
    argTail |-> << On({"PyFor", "PyAsync"}, <<N("compfor", 2), R("Argument")>>),
                   On({"PyAssign", "PyColonAssign"}, <<T({"PyAssign", "PyColonAssign"}, 1), N("test", 2), R("Argument")>>),
                   Else(<<R("Argument")>>) >>,

    atom |-> << On(LPar, <<T(LPar, 0), C("tuple")>>), On(LBrk, <<T(LBrk, 0), C("list")>>), On(LCur, <<T(LCur, 0), C("braces")>>),
                On(Name, <<T(Name, 0), R("AtomName")>>), On({"AtomNumber"}, <<T({"AtomNumber"}, 0), R("AtomNumber")>>),
                On({"AtomString"}, <<T({"AtomString"}, 0), C("strings")>>),
                On({"PyElipsis"}, <<T({"PyElipsis"}, 0), R("AtomElipsis")>>), On({"PyNone"}, <<T({"PyNone"}, 0), R("AtomNone")>>),
                On({"PyTrue"}, <<T({"PyTrue"}, 0), R("AtomTrue")>>), Else(<<T({"PyFalse"}, 0), R("AtomFalse")>>) >>,
    strings |-> << On({"AtomString"}, <<T({"AtomString"}, 0), C("strings")>>), Else(<<R("AtomString")>>) >>,
    tuple |-> << On(RPar, <<T(RPar, 2), R("AtomTuple")>>), On({"PyYield"}, <<N("yield", 1), T(RPar, 2), R("AtomTuple")>>),
                 Else(<<N("comp", 1), T(RPar, 2), R("AtomTuple")>>) >>,
    list |-> << On(RBrk, <<T(RBrk, 2), R("AtomList")>>), Else(<<N("comp", 1), T(RBrk, 2), R("AtomList")>>) >>,
    comp |-> << Else(<<N("compelem", 0), C("compTail")>>) >>,
    compTail |-> << On({"PyFor", "PyAsync"}, <<N("compfor", 0), R("TestListComp")>>), Else(<<C("compLoop")>>) >>,
    compfor |-> << On({"PyAsync"}, <<T({"PyAsync"}, 0), N("syncfor", 1), R("CompForComprehension")>>), Else(<<C("syncfor")>>) >>,
    syncfor |-> << Else(<<T({"PyFor"}, 0), N("exprlist", 1), T({"PyIn"}, 2), E(1, 3), C("syncforTail")>>) >>,
    syncforTail |-> << On({"PyFor", "PyAsync", "PyIf"}, <<N("compiter", 4), R("SyncCompForComprehension")>>),
                       Else(<<R("SyncCompForComprehension")>>) >>,
    compiter |-> << On({"PyIf"}, <<T({"PyIf"}, 0), N("nocond", 1), C("compifTail")>>), Else(<<C("compfor")>>) >>,
    compifTail |-> << On({"PyFor", "PyAsync", "PyIf"}, <<N("compiter", 2), R("CompIfComprehension")>>),
                      Else(<<R("CompIfComprehension")>>) >>,
    braces |-> << On(RCur, <<T(RCur, 2), R("AtomDictionary")>>), Else(<<N("dictorset", 1), T(RCur, 2), RD>>) >>,
    dictorset |-> << On(Power, <<N("dictpow", 0), C("dictLoop")>>), On(Star, <<N("setmul", 0), C("setLoop")>>),
                     Else(<<N("test", 0), C("dictorset2")>>) >>,
    dictorset2 |-> << On(Colon, <<W, C("dictvalue"), C("dictLoop")>>), On({"PyColonAssign"}, <<W, C("namedValue"), C("setLoop")>>),
                      Else(<<C("setLoop")>>) >>,
    dictpow |-> << Else(<<T(Power, 0), E(ExprPrec, 1), R("PowerDictionary")>>) >>,
    setmul |-> << Else(<<T(Star, 0), E(ExprPrec, 1), R("MulSet")>>) >>,
    dictentry |-> << On(Power, <<C("dictpow")>>), Else(<<N("test", 0), C("dictvalue")>>) >>,
    dictvalue |-> << Else(<<T(Colon, 1), N("test", 2), R("DictionaryEntry")>>) >>,
    setentry |-> << On(Star, <<C("setmul")>>), Else(<<C("named")>>) >>,

    functype |-> << Else(<<T(LPar, 0), C("functypeArgs")>>) >>,
    functypeArgs |-> << On(RPar, <<C("functypeRes")>>), Else(<<N("typelist", 1), C("functypeRes")>>) >>,
    functypeRes |-> << Else(<<T(RPar, 2), T({"PyArrow"}, 3), N("test", 4), R("FuncType")>>) >>,
    typelist |-> << On(Star, <<C("tyStar")>>), On(Power, <<C("tyPow")>>), Else(<<N("test", 0), C("tyLoop")>>) >>,
    tyLoop |-> << On(Comma, <<T(Comma, 1), C("tyAfter")>>), Else(<<R("TypeList")>>) >>,
    tyAfter |-> << On(Star, <<C("tyStar")>>), On(Power, <<C("tyPow")>>), Else(<<N("test", 0), C("tyLoop")>>) >>,
    tyStar |-> << Else(<<T(Star, 2), N("test", 3), C("tyLoop2")>>) >>,
    tyLoop2 |-> << On(Comma, <<T(Comma, 1), C("tyAfter2")>>), Else(<<R("TypeList")>>) >>,
    tyAfter2 |-> << On(Power, <<C("tyPow")>>), Else(<<N("test", 0), C("tyLoop2")>>) >>,
    tyPow |-> << Else(<<T(Power, 4), N("test", 5), R("TypeList")>>) >>
  ]

Lists ==
  List(N("exprelem", 0), "exprlistLoop", "exprlistAfter", {"PyIn", "PySemiColon", "Newline", "EOF"}, Z("ExprList")) @@
  List(N("test", 0), "testlistLoop", "testlistAfter", {"Newline", "PySemiColon", "PyColon", "PyAssign", "TypeComment", "EOF"}, Z("TestList")) @@
  List(N("testelem", 0), "tlseLoop", "tlseAfter",
       AugOps \cup {"PyAssign", "PySemiColon", "Newline", "EOF", "PyRightParen", "TypeComment", "PyColon"}, Z("TestListStarExpr")) @@
  List(N("subscript", 0), "subscriptLoop", "subscriptAfter", RBrk, R("SubscriptList")) @@
  List(N("argument", 0), "argLoop", "argAfter", RPar, R("ArgList")) @@
  List(N("compelem", 0), "compLoop", "compAfter", RPar \cup RBrk, R("TestListComp")) @@
  List(N("dictentry", 0), "dictLoop", "dictAfter", RCur, R("DictionaryContainer")) @@
  List(N("setentry", 0), "setLoop", "setAfter", RCur, R("SetContainer")) @@
  List(N("importasname", 0), "importasnamesLoop", "importasnamesAfter", RPar, R("ImportAsNamesStmt"))

G == Statements @@ Compounds @@ Expressions @@ Lists

\* The nodes whose lists are stored last element first.
Reversed == {"TestListComp", "SubscriptList", "DictionaryContainer", "SetContainer", "ArgList", "TestListStarExpr",
  "VarArgsList", "SimpleStmtList", "ImportFromStmt", "ImportAsNamesStmt", "DottedAsNamesStmt", "DottedNameStmt",
  "GlobalStmt", "NonLocalStmt", "SuiteStmt", "FuncBodySuite", "FileInput", "EvalInput", "FuncTypeInput",
  "Decorators", "IfStmt", "TryStmt", "WithStmt", "TypeList"}
=============================================================================
