------------------------------- MODULE Tables -------------------------------
\* Generated by tools/mktables.py from the list of operators and keywords of the language.
EXTENDS TLC

\* Operators and delimiters by spelling.
OpTable ==
  (<<43>> :> "PyPlus") @@
  (<<45>> :> "PyMinus") @@
  (<<42>> :> "PyMul") @@
  (<<42,42>> :> "PyPower") @@
  (<<47>> :> "PyDiv") @@
  (<<47,47>> :> "PyFloorDiv") @@
  (<<37>> :> "PyModulo") @@
  (<<64>> :> "PyMatrice") @@
  (<<60,60>> :> "PyShiftLeft") @@
  (<<62,62>> :> "PyShiftRight") @@
  (<<38>> :> "PyBitAnd") @@
  (<<124>> :> "PyBitOr") @@
  (<<94>> :> "PyBitXor") @@
  (<<126>> :> "PyBitInvert") @@
  (<<58,61>> :> "PyColonAssign") @@
  (<<60>> :> "PyLess") @@
  (<<62>> :> "PyGreater") @@
  (<<60,61>> :> "PyLessEqual") @@
  (<<62,61>> :> "PyGreaterEqual") @@
  (<<61,61>> :> "PyEqual") @@
  (<<33,61>> :> "PyNotEqual") @@
  (<<60,62>> :> "PyNotEqual") @@
  (<<40>> :> "PyLeftParen") @@
  (<<91>> :> "PyLeftBracket") @@
  (<<123>> :> "PyLeftCurly") @@
  (<<41>> :> "PyRightParen") @@
  (<<93>> :> "PyRightBracket") @@
  (<<125>> :> "PyRightCurly") @@
  (<<44>> :> "PyComa") @@
  (<<58>> :> "PyColon") @@
  (<<46>> :> "PyDot") @@
  (<<59>> :> "PySemiColon") @@
  (<<61>> :> "PyAssign") @@
  (<<45,62>> :> "PyArrow") @@
  (<<43,61>> :> "PyPlusAssign") @@
  (<<45,61>> :> "PyMinusAssign") @@
  (<<42,61>> :> "PyMulAssign") @@
  (<<47,61>> :> "PyDivAssign") @@
  (<<47,47,61>> :> "PyFloorDivAssign") @@
  (<<37,61>> :> "PyModuloAssign") @@
  (<<64,61>> :> "PyMatriceAssign") @@
  (<<38,61>> :> "PyBitAndAssign") @@
  (<<124,61>> :> "PyBitOrAssign") @@
  (<<94,61>> :> "PyBitXorAssign") @@
  (<<60,60,61>> :> "PyShiftLeftAssign") @@
  (<<62,62,61>> :> "PyShiftRightAssign") @@
  (<<42,42,61>> :> "PyPowerAssign") @@
  (<<46,46,46>> :> "PyElipsis")

OpSpellings == DOMAIN OpTable

\* Keywords by spelling.
KwTable ==
  (<<70,97,108,115,101>> :> "PyFalse") @@
  (<<78,111,110,101>> :> "PyNone") @@
  (<<84,114,117,101>> :> "PyTrue") @@
  (<<97,110,100>> :> "PyAnd") @@
  (<<97,115>> :> "PyAs") @@
  (<<97,115,115,101,114,116>> :> "PyAssert") @@
  (<<97,115,121,110,99>> :> "PyAsync") @@
  (<<97,119,97,105,116>> :> "PyAwait") @@
  (<<98,114,101,97,107>> :> "PyBreak") @@
  (<<99,108,97,115,115>> :> "PyClass") @@
  (<<99,111,110,116,105,110,117,101>> :> "PyContinue") @@
  (<<100,101,102>> :> "PyDef") @@
  (<<100,101,108>> :> "PyDel") @@
  (<<101,108,105,102>> :> "PyElif") @@
  (<<101,108,115,101>> :> "PyElse") @@
  (<<101,120,99,101,112,116>> :> "PyExcept") @@
  (<<102,105,110,97,108,108,121>> :> "PyFinally") @@
  (<<102,111,114>> :> "PyFor") @@
  (<<102,114,111,109>> :> "PyFrom") @@
  (<<103,108,111,98,97,108>> :> "PyGlobal") @@
  (<<105,102>> :> "PyIf") @@
  (<<105,109,112,111,114,116>> :> "PyImport") @@
  (<<105,110>> :> "PyIn") @@
  (<<105,115>> :> "PyIs") @@
  (<<108,97,109,98,100,97>> :> "PyLambda") @@
  (<<110,111,110,108,111,99,97,108>> :> "PyNonLocal") @@
  (<<110,111,116>> :> "PyNot") @@
  (<<111,114>> :> "PyOr") @@
  (<<112,97,115,115>> :> "PyPass") @@
  (<<114,97,105,115,101>> :> "PyRaise") @@
  (<<114,101,116,117,114,110>> :> "PyReturn") @@
  (<<116,114,121>> :> "PyTry") @@
  (<<119,104,105,108,101>> :> "PyWhile") @@
  (<<119,105,116,104>> :> "PyWith") @@
  (<<121,105,101,108,100>> :> "PyYield")

KwSpellings == DOMAIN KwTable

\* Prefixes of string literals, in lower case.
StringPrefixes == {<<114>>, <<117>>, <<102>>, <<98>>, <<102,114>>, <<114,102>>, <<98,114>>, <<114,98>>}

\* Letters and digits beyond ASCII; every other character beyond ASCII is illegal outside strings and comments.
WideLetters == {170, 181, 192, 223, 233, 955, 1046, 21517, 28450, 120120, 120143, 393, 425, 494, 584, 1128, 1364, 7778, 7962, 8455, 42902, 65335, 66945, 119814, 120557, 513, 585, 601, 640, 651, 685, 1013, 1087, 1379, 8082, 8099, 11331, 93803, 119954, 120009, 120099, 8072, 8093, 8111, 7291, 7478, 7600, 42783, 67497, 67514, 13347, 13555, 15826, 16194, 21349, 21817, 23002, 29721, 30092, 33201, 33910, 37527, 39204, 40018, 42039, 45350, 46400, 47221, 47490, 47938, 48619, 48879, 51071, 52375, 55094, 55199, 66819, 78418, 94817, 110851}
WideDigits == {1633, 1783, 2406, 3667, 65297, 120793, 120822, 73123}

=============================================================================
