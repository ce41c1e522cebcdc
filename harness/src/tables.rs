// Generated by tools/mkdriver.py from the Token and ASTNode enums.
use crate::parser::nodes::ASTNode;
use crate::parser::tokens::Token;
use crate::driver::*;

#[allow(unreachable_patterns)]
pub fn token_view(t: &Token) -> TokView<'_> {
    match t {
        Token::PyFalse(s, e, t) => TokView::new("PyFalse", Some((*s, *e)), t, None, None),
        Token::PyNone(s, e, t) => TokView::new("PyNone", Some((*s, *e)), t, None, None),
        Token::PyTrue(s, e, t) => TokView::new("PyTrue", Some((*s, *e)), t, None, None),
        Token::PyAnd(s, e, t) => TokView::new("PyAnd", Some((*s, *e)), t, None, None),
        Token::PyAs(s, e, t) => TokView::new("PyAs", Some((*s, *e)), t, None, None),
        Token::PyAssert(s, e, t) => TokView::new("PyAssert", Some((*s, *e)), t, None, None),
        Token::PyAsync(s, e, t) => TokView::new("PyAsync", Some((*s, *e)), t, None, None),
        Token::PyAwait(s, e, t) => TokView::new("PyAwait", Some((*s, *e)), t, None, None),
        Token::PyBreak(s, e, t) => TokView::new("PyBreak", Some((*s, *e)), t, None, None),
        Token::PyClass(s, e, t) => TokView::new("PyClass", Some((*s, *e)), t, None, None),
        Token::PyContinue(s, e, t) => TokView::new("PyContinue", Some((*s, *e)), t, None, None),
        Token::PyDef(s, e, t) => TokView::new("PyDef", Some((*s, *e)), t, None, None),
        Token::PyDel(s, e, t) => TokView::new("PyDel", Some((*s, *e)), t, None, None),
        Token::PyElif(s, e, t) => TokView::new("PyElif", Some((*s, *e)), t, None, None),
        Token::PyElse(s, e, t) => TokView::new("PyElse", Some((*s, *e)), t, None, None),
        Token::PyExcept(s, e, t) => TokView::new("PyExcept", Some((*s, *e)), t, None, None),
        Token::PyFinally(s, e, t) => TokView::new("PyFinally", Some((*s, *e)), t, None, None),
        Token::PyFor(s, e, t) => TokView::new("PyFor", Some((*s, *e)), t, None, None),
        Token::PyFrom(s, e, t) => TokView::new("PyFrom", Some((*s, *e)), t, None, None),
        Token::PyGlobal(s, e, t) => TokView::new("PyGlobal", Some((*s, *e)), t, None, None),
        Token::PyIf(s, e, t) => TokView::new("PyIf", Some((*s, *e)), t, None, None),
        Token::PyImport(s, e, t) => TokView::new("PyImport", Some((*s, *e)), t, None, None),
        Token::PyIn(s, e, t) => TokView::new("PyIn", Some((*s, *e)), t, None, None),
        Token::PyIs(s, e, t) => TokView::new("PyIs", Some((*s, *e)), t, None, None),
        Token::PyLambda(s, e, t) => TokView::new("PyLambda", Some((*s, *e)), t, None, None),
        Token::PyNonLocal(s, e, t) => TokView::new("PyNonLocal", Some((*s, *e)), t, None, None),
        Token::PyNot(s, e, t) => TokView::new("PyNot", Some((*s, *e)), t, None, None),
        Token::PyOr(s, e, t) => TokView::new("PyOr", Some((*s, *e)), t, None, None),
        Token::PyPass(s, e, t) => TokView::new("PyPass", Some((*s, *e)), t, None, None),
        Token::PyRaise(s, e, t) => TokView::new("PyRaise", Some((*s, *e)), t, None, None),
        Token::PyReturn(s, e, t) => TokView::new("PyReturn", Some((*s, *e)), t, None, None),
        Token::PyTry(s, e, t) => TokView::new("PyTry", Some((*s, *e)), t, None, None),
        Token::PyWhile(s, e, t) => TokView::new("PyWhile", Some((*s, *e)), t, None, None),
        Token::PyWith(s, e, t) => TokView::new("PyWith", Some((*s, *e)), t, None, None),
        Token::PyYield(s, e, t) => TokView::new("PyYield", Some((*s, *e)), t, None, None),
        Token::PyPlus(s, e, t) => TokView::new("PyPlus", Some((*s, *e)), t, None, None),
        Token::PyMinus(s, e, t) => TokView::new("PyMinus", Some((*s, *e)), t, None, None),
        Token::PyMul(s, e, t) => TokView::new("PyMul", Some((*s, *e)), t, None, None),
        Token::PyPower(s, e, t) => TokView::new("PyPower", Some((*s, *e)), t, None, None),
        Token::PyDiv(s, e, t) => TokView::new("PyDiv", Some((*s, *e)), t, None, None),
        Token::PyFloorDiv(s, e, t) => TokView::new("PyFloorDiv", Some((*s, *e)), t, None, None),
        Token::PyModulo(s, e, t) => TokView::new("PyModulo", Some((*s, *e)), t, None, None),
        Token::PyMatrice(s, e, t) => TokView::new("PyMatrice", Some((*s, *e)), t, None, None),
        Token::PyShiftLeft(s, e, t) => TokView::new("PyShiftLeft", Some((*s, *e)), t, None, None),
        Token::PyShiftRight(s, e, t) => TokView::new("PyShiftRight", Some((*s, *e)), t, None, None),
        Token::PyBitAnd(s, e, t) => TokView::new("PyBitAnd", Some((*s, *e)), t, None, None),
        Token::PyBitOr(s, e, t) => TokView::new("PyBitOr", Some((*s, *e)), t, None, None),
        Token::PyBitXor(s, e, t) => TokView::new("PyBitXor", Some((*s, *e)), t, None, None),
        Token::PyBitInvert(s, e, t) => TokView::new("PyBitInvert", Some((*s, *e)), t, None, None),
        Token::PyColonAssign(s, e, t) => TokView::new("PyColonAssign", Some((*s, *e)), t, None, None),
        Token::PyLess(s, e, t) => TokView::new("PyLess", Some((*s, *e)), t, None, None),
        Token::PyGreater(s, e, t) => TokView::new("PyGreater", Some((*s, *e)), t, None, None),
        Token::PyLessEqual(s, e, t) => TokView::new("PyLessEqual", Some((*s, *e)), t, None, None),
        Token::PyGreaterEqual(s, e, t) => TokView::new("PyGreaterEqual", Some((*s, *e)), t, None, None),
        Token::PyEqual(s, e, t) => TokView::new("PyEqual", Some((*s, *e)), t, None, None),
        Token::PyNotEqual(s, e, t) => TokView::new("PyNotEqual", Some((*s, *e)), t, None, None),
        Token::PyLeftParen(s, e, t) => TokView::new("PyLeftParen", Some((*s, *e)), t, None, None),
        Token::PyLeftBracket(s, e, t) => TokView::new("PyLeftBracket", Some((*s, *e)), t, None, None),
        Token::PyLeftCurly(s, e, t) => TokView::new("PyLeftCurly", Some((*s, *e)), t, None, None),
        Token::PyRightParen(s, e, t) => TokView::new("PyRightParen", Some((*s, *e)), t, None, None),
        Token::PyRightBracket(s, e, t) => TokView::new("PyRightBracket", Some((*s, *e)), t, None, None),
        Token::PyRightCurly(s, e, t) => TokView::new("PyRightCurly", Some((*s, *e)), t, None, None),
        Token::PyComa(s, e, t) => TokView::new("PyComa", Some((*s, *e)), t, None, None),
        Token::PyColon(s, e, t) => TokView::new("PyColon", Some((*s, *e)), t, None, None),
        Token::PyDot(s, e, t) => TokView::new("PyDot", Some((*s, *e)), t, None, None),
        Token::PySemiColon(s, e, t) => TokView::new("PySemiColon", Some((*s, *e)), t, None, None),
        Token::PyAssign(s, e, t) => TokView::new("PyAssign", Some((*s, *e)), t, None, None),
        Token::PyArrow(s, e, t) => TokView::new("PyArrow", Some((*s, *e)), t, None, None),
        Token::PyPlusAssign(s, e, t) => TokView::new("PyPlusAssign", Some((*s, *e)), t, None, None),
        Token::PyMinusAssign(s, e, t) => TokView::new("PyMinusAssign", Some((*s, *e)), t, None, None),
        Token::PyMulAssign(s, e, t) => TokView::new("PyMulAssign", Some((*s, *e)), t, None, None),
        Token::PyDivAssign(s, e, t) => TokView::new("PyDivAssign", Some((*s, *e)), t, None, None),
        Token::PyFloorDivAssign(s, e, t) => TokView::new("PyFloorDivAssign", Some((*s, *e)), t, None, None),
        Token::PyModuloAssign(s, e, t) => TokView::new("PyModuloAssign", Some((*s, *e)), t, None, None),
        Token::PyMatriceAssign(s, e, t) => TokView::new("PyMatriceAssign", Some((*s, *e)), t, None, None),
        Token::PyBitAndAssign(s, e, t) => TokView::new("PyBitAndAssign", Some((*s, *e)), t, None, None),
        Token::PyBitOrAssign(s, e, t) => TokView::new("PyBitOrAssign", Some((*s, *e)), t, None, None),
        Token::PyBitXorAssign(s, e, t) => TokView::new("PyBitXorAssign", Some((*s, *e)), t, None, None),
        Token::PyShiftLeftAssign(s, e, t) => TokView::new("PyShiftLeftAssign", Some((*s, *e)), t, None, None),
        Token::PyShiftRightAssign(s, e, t) => TokView::new("PyShiftRightAssign", Some((*s, *e)), t, None, None),
        Token::PyPowerAssign(s, e, t) => TokView::new("PyPowerAssign", Some((*s, *e)), t, None, None),
        Token::PyElipsis(s, e, t) => TokView::new("PyElipsis", Some((*s, *e)), t, None, None),
        Token::AtomName(s, e, t, x) => TokView::new("AtomName", Some((*s, *e)), t, Some(&**x), None),
        Token::AtomNumber(s, e, t, x) => TokView::new("AtomNumber", Some((*s, *e)), t, Some(&**x), None),
        Token::AtomString(s, e, t, x, p) => TokView::new("AtomString", Some((*s, *e)), t, Some(&**x), p.as_deref()),
        Token::Newline(s, e, t, a, b) => TokView::newline("Newline", (*s, *e), t, *a, *b),
        Token::Indent(t) => TokView::new("Indent", None, t, None, None),
        Token::Dedent(t) => TokView::new("Dedent", None, t, None, None),
        Token::TypeComment(s, e, t, x) => TokView::new("TypeComment", Some((*s, *e)), t, Some(&**x), None),
        Token::EOF(s, t) => TokView::new("EOF", Some((*s, *s)), t, None, None),
        _ => TokView::unknown(),
    }
}

#[allow(unreachable_patterns)]
pub fn node_view(n: &ASTNode) -> NodeView<'_> {
    match n {
        ASTNode::NamedExpr(s, e, f0, f1, f2) => NodeView::new("NamedExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::Test(s, e, f0, f1, f2, f3, f4) => NodeView::new("Test", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4),
        ASTNode::Lambda(s, e, f0, f1, f2, f3) => NodeView::new("Lambda", *s, *e).field(f0).field(f1).field(f2).field(f3),
        ASTNode::OrTest(s, e, f0, f1, f2) => NodeView::new("OrTest", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AndTest(s, e, f0, f1, f2) => NodeView::new("AndTest", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::NotTest(s, e, f0, f1) => NodeView::new("NotTest", *s, *e).field(f0).field(f1),
        ASTNode::LessComparison(s, e, f0, f1, f2) => NodeView::new("LessComparison", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::LessEqualComparison(s, e, f0, f1, f2) => NodeView::new("LessEqualComparison", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::EqualComparison(s, e, f0, f1, f2) => NodeView::new("EqualComparison", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::GreaterComparison(s, e, f0, f1, f2) => NodeView::new("GreaterComparison", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::GreaterEqualComparison(s, e, f0, f1, f2) => NodeView::new("GreaterEqualComparison", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::NotEqualComparison(s, e, f0, f1, f2) => NodeView::new("NotEqualComparison", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::InComparison(s, e, f0, f1, f2) => NodeView::new("InComparison", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::IsComparison(s, e, f0, f1, f2) => NodeView::new("IsComparison", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::NotInComparison(s, e, f0, f1, f2, f3) => NodeView::new("NotInComparison", *s, *e).field(f0).field(f1).field(f2).field(f3),
        ASTNode::IsNotComparison(s, e, f0, f1, f2, f3) => NodeView::new("IsNotComparison", *s, *e).field(f0).field(f1).field(f2).field(f3),
        ASTNode::StarExpr(s, e, f0, f1) => NodeView::new("StarExpr", *s, *e).field(f0).field(f1),
        ASTNode::Expr(s, e, f0, f1, f2) => NodeView::new("Expr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::XorExpr(s, e, f0, f1, f2) => NodeView::new("XorExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AndExpr(s, e, f0, f1, f2) => NodeView::new("AndExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::ShiftLeftExpr(s, e, f0, f1, f2) => NodeView::new("ShiftLeftExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::ShiftRightExpr(s, e, f0, f1, f2) => NodeView::new("ShiftRightExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::PlusArithExpr(s, e, f0, f1, f2) => NodeView::new("PlusArithExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::MinusArithExpr(s, e, f0, f1, f2) => NodeView::new("MinusArithExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::MulTerm(s, e, f0, f1, f2) => NodeView::new("MulTerm", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::DivTerm(s, e, f0, f1, f2) => NodeView::new("DivTerm", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::FloorDivTerm(s, e, f0, f1, f2) => NodeView::new("FloorDivTerm", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::ModuloTerm(s, e, f0, f1, f2) => NodeView::new("ModuloTerm", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::MatriceTerm(s, e, f0, f1, f2) => NodeView::new("MatriceTerm", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::UnaryPlus(s, e, f0, f1) => NodeView::new("UnaryPlus", *s, *e).field(f0).field(f1),
        ASTNode::UnaryMinus(s, e, f0, f1) => NodeView::new("UnaryMinus", *s, *e).field(f0).field(f1),
        ASTNode::UnaryInvert(s, e, f0, f1) => NodeView::new("UnaryInvert", *s, *e).field(f0).field(f1),
        ASTNode::PowerExpr(s, e, f0, f1, f2) => NodeView::new("PowerExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AtomExpr(s, e, f0, f1, f2) => NodeView::new("AtomExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AtomName(s, e, f0) => NodeView::new("AtomName", *s, *e).field(f0),
        ASTNode::AtomNumber(s, e, f0) => NodeView::new("AtomNumber", *s, *e).field(f0),
        ASTNode::AtomString(s, e, f0) => NodeView::new("AtomString", *s, *e).field(f0),
        ASTNode::AtomElipsis(s, e, f0) => NodeView::new("AtomElipsis", *s, *e).field(f0),
        ASTNode::AtomNone(s, e, f0) => NodeView::new("AtomNone", *s, *e).field(f0),
        ASTNode::AtomTrue(s, e, f0) => NodeView::new("AtomTrue", *s, *e).field(f0),
        ASTNode::AtomFalse(s, e, f0) => NodeView::new("AtomFalse", *s, *e).field(f0),
        ASTNode::AtomTuple(s, e, f0, f1, f2) => NodeView::new("AtomTuple", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AtomList(s, e, f0, f1, f2) => NodeView::new("AtomList", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AtomDictionary(s, e, f0, f1, f2) => NodeView::new("AtomDictionary", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AtomSet(s, e, f0, f1, f2) => NodeView::new("AtomSet", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::TestListComp(s, e, f0, f1) => NodeView::new("TestListComp", *s, *e).field(f0).field(f1),
        ASTNode::CallTrailer(s, e, f0, f1, f2) => NodeView::new("CallTrailer", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::IndexTrailer(s, e, f0, f1, f2) => NodeView::new("IndexTrailer", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::DotNameTrailer(s, e, f0, f1) => NodeView::new("DotNameTrailer", *s, *e).field(f0).field(f1),
        ASTNode::SubscriptList(s, e, f0, f1) => NodeView::new("SubscriptList", *s, *e).field(f0).field(f1),
        ASTNode::Subscript(s, e, f0, f1, f2, f3, f4) => NodeView::new("Subscript", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4),
        ASTNode::ExprList(s, e, f0, f1) => NodeView::new("ExprList", *s, *e).field(f0).field(f1),
        ASTNode::TestList(s, e, f0, f1) => NodeView::new("TestList", *s, *e).field(f0).field(f1),
        ASTNode::DictionaryContainer(s, e, f0, f1) => NodeView::new("DictionaryContainer", *s, *e).field(f0).field(f1),
        ASTNode::DictionaryEntry(s, e, f0, f1, f2) => NodeView::new("DictionaryEntry", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::SetContainer(s, e, f0, f1) => NodeView::new("SetContainer", *s, *e).field(f0).field(f1),
        ASTNode::MulSet(s, e, f0, f1) => NodeView::new("MulSet", *s, *e).field(f0).field(f1),
        ASTNode::PowerDictionary(s, e, f0, f1) => NodeView::new("PowerDictionary", *s, *e).field(f0).field(f1),
        ASTNode::ClassDef(s, e, f0, f1, f2, f3, f4, f5, f6) => NodeView::new("ClassDef", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5).field(f6),
        ASTNode::ArgList(s, e, f0, f1) => NodeView::new("ArgList", *s, *e).field(f0).field(f1),
        ASTNode::Argument(s, e, f0, f1, f2) => NodeView::new("Argument", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::SyncCompForComprehension(s, e, f0, f1, f2, f3, f4) => NodeView::new("SyncCompForComprehension", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4),
        ASTNode::CompForComprehension(s, e, f0, f1) => NodeView::new("CompForComprehension", *s, *e).field(f0).field(f1),
        ASTNode::CompIfComprehension(s, e, f0, f1, f2) => NodeView::new("CompIfComprehension", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::YieldExpr(s, e, f0, f1) => NodeView::new("YieldExpr", *s, *e).field(f0).field(f1),
        ASTNode::YieldFromExpr(s, e, f0, f1, f2) => NodeView::new("YieldFromExpr", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::FuncBodySuite(s, e, f0, f1, f2, f3, f4, f5) => NodeView::new("FuncBodySuite", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5),
        ASTNode::FuncTypeInput(s, e, f0, f1, f2) => NodeView::new("FuncTypeInput", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::FuncType(s, e, f0, f1, f2, f3, f4) => NodeView::new("FuncType", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4),
        ASTNode::TypeList(s, e, f0, f1, f2, f3, f4, f5) => NodeView::new("TypeList", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5),
        ASTNode::TestListStarExpr(s, e, f0, f1) => NodeView::new("TestListStarExpr", *s, *e).field(f0).field(f1),
        ASTNode::SimpleStmtList(s, e, f0, f1, f2) => NodeView::new("SimpleStmtList", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::PlusAssignStmt(s, e, f0, f1, f2) => NodeView::new("PlusAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::MinusAssignStmt(s, e, f0, f1, f2) => NodeView::new("MinusAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::MulAssignStmt(s, e, f0, f1, f2) => NodeView::new("MulAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::DivAssignStmt(s, e, f0, f1, f2) => NodeView::new("DivAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::FloorDivAssignStmt(s, e, f0, f1, f2) => NodeView::new("FloorDivAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::ModuloAssignStmt(s, e, f0, f1, f2) => NodeView::new("ModuloAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::MatriceAssignStmt(s, e, f0, f1, f2) => NodeView::new("MatriceAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::PowerAssignStmt(s, e, f0, f1, f2) => NodeView::new("PowerAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::ShiftLeftAssignStmt(s, e, f0, f1, f2) => NodeView::new("ShiftLeftAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::ShiftRightAssignStmt(s, e, f0, f1, f2) => NodeView::new("ShiftRightAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::BitOrAssignStmt(s, e, f0, f1, f2) => NodeView::new("BitOrAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::BitXorAssignStmt(s, e, f0, f1, f2) => NodeView::new("BitXorAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::BitAndAssignStmt(s, e, f0, f1, f2) => NodeView::new("BitAndAssignStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AnnAssignStmt(s, e, f0, f1, f2, f3) => NodeView::new("AnnAssignStmt", *s, *e).field(f0).field(f1).field(f2).field(f3),
        ASTNode::AssignmentStmt(s, e, f0, f1, f2) => NodeView::new("AssignmentStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::DelStmt(s, e, f0, f1) => NodeView::new("DelStmt", *s, *e).field(f0).field(f1),
        ASTNode::PassStmt(s, e, f0) => NodeView::new("PassStmt", *s, *e).field(f0),
        ASTNode::BreakStmt(s, e, f0) => NodeView::new("BreakStmt", *s, *e).field(f0),
        ASTNode::ContinueStmt(s, e, f0) => NodeView::new("ContinueStmt", *s, *e).field(f0),
        ASTNode::ReturnStmt(s, e, f0, f1) => NodeView::new("ReturnStmt", *s, *e).field(f0).field(f1),
        ASTNode::RaiseStmt(s, e, f0, f1) => NodeView::new("RaiseStmt", *s, *e).field(f0).field(f1),
        ASTNode::ImportNameStmt(s, e, f0, f1) => NodeView::new("ImportNameStmt", *s, *e).field(f0).field(f1),
        ASTNode::ImportFromStmt(s, e, f0, f1, f2, f3, f4, f5, f6) => NodeView::new("ImportFromStmt", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5).field(f6),
        ASTNode::ImportAsName(s, e, f0, f1) => NodeView::new("ImportAsName", *s, *e).field(f0).field(f1),
        ASTNode::DottedAsNameStmt(s, e, f0, f1) => NodeView::new("DottedAsNameStmt", *s, *e).field(f0).field(f1),
        ASTNode::ImportAsNamesStmt(s, e, f0, f1) => NodeView::new("ImportAsNamesStmt", *s, *e).field(f0).field(f1),
        ASTNode::DottedAsNamesStmt(s, e, f0, f1) => NodeView::new("DottedAsNamesStmt", *s, *e).field(f0).field(f1),
        ASTNode::DottedNameStmt(s, e, f0, f1) => NodeView::new("DottedNameStmt", *s, *e).field(f0).field(f1),
        ASTNode::GlobalStmt(s, e, f0, f1, f2) => NodeView::new("GlobalStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::NonLocalStmt(s, e, f0, f1, f2) => NodeView::new("NonLocalStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AssertStmt(s, e, f0, f1, f2) => NodeView::new("AssertStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::AsyncStmt(s, e, f0, f1) => NodeView::new("AsyncStmt", *s, *e).field(f0).field(f1),
        ASTNode::IfStmt(s, e, f0, f1, f2, f3, f4, f5) => NodeView::new("IfStmt", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5),
        ASTNode::ElifStmt(s, e, f0, f1, f2, f3) => NodeView::new("ElifStmt", *s, *e).field(f0).field(f1).field(f2).field(f3),
        ASTNode::ElseStmt(s, e, f0, f1, f2) => NodeView::new("ElseStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::WhileStmt(s, e, f0, f1, f2, f3, f4) => NodeView::new("WhileStmt", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4),
        ASTNode::ForStmt(s, e, f0, f1, f2, f3, f4, f5, f6, f7) => NodeView::new("ForStmt", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5).field(f6).field(f7),
        ASTNode::TryStmt(s, e, f0, f1, f2, f3, f4, f5) => NodeView::new("TryStmt", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5),
        ASTNode::FinallyStmt(s, e, f0, f1, f2) => NodeView::new("FinallyStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::WithStmt(s, e, f0, f1, f2, f3, f4, f5, f6) => NodeView::new("WithStmt", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5).field(f6),
        ASTNode::WithItem(s, e, f0, f1) => NodeView::new("WithItem", *s, *e).field(f0).field(f1),
        ASTNode::ExceptClauseStmt(s, e, f0, f1, f2) => NodeView::new("ExceptClauseStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::ExceptStmt(s, e, f0, f1, f2) => NodeView::new("ExceptStmt", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::SuiteStmt(s, e, f0, f1, f2, f3) => NodeView::new("SuiteStmt", *s, *e).field(f0).field(f1).field(f2).field(f3),
        ASTNode::Decorator(s, e, f0, f1, f2, f3, f4, f5) => NodeView::new("Decorator", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5),
        ASTNode::Decorators(s, e, f0) => NodeView::new("Decorators", *s, *e).field(f0),
        ASTNode::Decorated(s, e, f0, f1) => NodeView::new("Decorated", *s, *e).field(f0).field(f1),
        ASTNode::FuncDef(s, e, f0, f1, f2, f3, f4, f5, f6) => NodeView::new("FuncDef", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5).field(f6),
        ASTNode::Parameter(s, e, f0, f1, f2) => NodeView::new("Parameter", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::TypedArgsList(s, e, f0, f1, f2, f3, f4) => NodeView::new("TypedArgsList", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4),
        ASTNode::TFPAssign(s, e, f0, f1, f2) => NodeView::new("TFPAssign", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::TFPDef(s, e, f0, f1) => NodeView::new("TFPDef", *s, *e).field(f0).field(f1),
        ASTNode::VarArgsList(s, e, f0, f1, f2, f3, f4, f5, f6) => NodeView::new("VarArgsList", *s, *e).field(f0).field(f1).field(f2).field(f3).field(f4).field(f5).field(f6),
        ASTNode::VFPAssign(s, e, f0, f1, f2) => NodeView::new("VFPAssign", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::VFPDef(s, e, f0) => NodeView::new("VFPDef", *s, *e).field(f0),
        ASTNode::SingleInput(s, e, f0, f1) => NodeView::new("SingleInput", *s, *e).field(f0).field(f1),
        ASTNode::FileInput(s, e, f0, f1, f2) => NodeView::new("FileInput", *s, *e).field(f0).field(f1).field(f2),
        ASTNode::EvalInput(s, e, f0, f1, f2) => NodeView::new("EvalInput", *s, *e).field(f0).field(f1).field(f2),
        _ => NodeView::new("?", 0, 0),
    }
}
