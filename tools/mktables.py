#!/usr/bin/env python3
"""Writes specs/Tables.tla: the operators and keywords of the language as sequences of character codes."""
import os
OPS = {
 '+':'PyPlus','-':'PyMinus','*':'PyMul','**':'PyPower','/':'PyDiv','//':'PyFloorDiv','%':'PyModulo','@':'PyMatrice',
 '<<':'PyShiftLeft','>>':'PyShiftRight','&':'PyBitAnd','|':'PyBitOr','^':'PyBitXor','~':'PyBitInvert',':=':'PyColonAssign',
 '<':'PyLess','>':'PyGreater','<=':'PyLessEqual','>=':'PyGreaterEqual','==':'PyEqual','!=':'PyNotEqual','<>':'PyNotEqual',
 '(':'PyLeftParen','[':'PyLeftBracket','{':'PyLeftCurly',')':'PyRightParen',']':'PyRightBracket','}':'PyRightCurly',
 ',':'PyComa',':':'PyColon','.':'PyDot',';':'PySemiColon','=':'PyAssign','->':'PyArrow','+=':'PyPlusAssign','-=':'PyMinusAssign',
 '*=':'PyMulAssign','/=':'PyDivAssign','//=':'PyFloorDivAssign','%=':'PyModuloAssign','@=':'PyMatriceAssign','&=':'PyBitAndAssign',
 '|=':'PyBitOrAssign','^=':'PyBitXorAssign','<<=':'PyShiftLeftAssign','>>=':'PyShiftRightAssign','**=':'PyPowerAssign','...':'PyElipsis'}
KW = {k: 'Py' + {'nonlocal': 'NonLocal'}.get(k, k.capitalize()) for k in
      'False None True and as assert async await break class continue def del elif else except finally for from global if import in is lambda nonlocal not or pass raise return try while with yield'.split()}
# Characters beyond ASCII the specification knows: letters and digits of many scripts, and characters that
# are neither. Characters on which Unicode's identifier rules and its letter and digit classes disagree are
# left out (see DESIGN.md).
LETTERS = [170, 181, 192, 223, 233, 955, 1046, 21517, 28450, 120120, 120143,
  393, 425, 494, 584, 1128, 1364, 7778, 7962, 8455, 42902, 65335, 66945, 119814, 120557, 513, 585, 601, 640, 651, 685, 1013,
  1087, 1379, 8082, 8099, 11331, 93803, 119954, 120009, 120099, 8072, 8093, 8111, 7291, 7478, 7600, 42783, 67497, 67514, 13347,
  13555, 15826, 16194, 21349, 21817, 23002, 29721, 30092, 33201, 33910, 37527, 39204, 40018, 42039, 45350, 46400, 47221, 47490,
  47938, 48619, 48879, 51071, 52375, 55094, 55199, 66819, 78418, 94817, 110851]
DIGITS = [0x661, 0x6F7, 0x966, 0xE53, 0xFF11, 0x1D7D9, 0x1D7F6, 0x11DA3]
OTHERS = [0x80, 0x85, 0xA0, 0xA3, 0xA7, 0xAC, 0xB1, 0xBF, 0xD7, 0xF7, 0x2003, 0x2014, 0x2028, 0x2030, 0x20AC, 0x2192, 0x2212, 0x221E, 0x2264,
  0x2500, 0x3000, 0x3001, 0x300C, 0xE000, 0xFF08, 0xFF0B, 0xFF1A, 0xFFFD, 0x10102, 0x1F40D, 0x1F600, 0x10FFFF, 0x200B, 0x2060]
def seq(s): return '<<' + ','.join(str(ord(c)) for c in s) + '>>'
def fn(name, d):
    return name + ' ==\n  ' + ' @@\n  '.join('(%s :> "%s")' % (seq(k), v) for k, v in d.items()) + '\n'
def main():
    o = ['------------------------------- MODULE Tables -------------------------------',
         '\\* Generated by tools/mktables.py from the list of operators and keywords of the language.',
         'EXTENDS TLC', '', '\\* Operators and delimiters by spelling.', fn('OpTable', OPS), 'OpSpellings == DOMAIN OpTable', '',
         '\\* Keywords by spelling.', fn('KwTable', KW), 'KwSpellings == DOMAIN KwTable', '',
         '\\* Prefixes of string literals, in lower case.',
         'StringPrefixes == {' + ', '.join(seq(p) for p in 'r u f b fr rf br rb'.split()) + '}', '',
         '\\* Letters and digits beyond ASCII; every other character beyond ASCII is illegal outside strings and comments.',
         'WideLetters == {' + ', '.join(map(str, LETTERS)) + '}', 'WideDigits == {' + ', '.join(map(str, DIGITS)) + '}', '',
         '=============================================================================', '']
    open(os.path.join(os.path.dirname(__file__), '..', 'specs', 'Tables.tla'), 'w').write('\n'.join(o))
if __name__ == '__main__': main()
