"""What each parser property explores: configurations for specs/Gen.tla and hand-written texts."""
from render import kinds

ATOM = ["AtomName"]
BINARY = "or and < > <= >= == != in is | ^ & << >> + - * / // % @ **"
UNARY = "+ - ~ not"
AUG = "+= -= *= /= //= %= @= &= |= ^= <<= >>= **="


def g(entry, start, alphabet, quick, thorough, rej=(3, 4), line=None):
    """A generator configuration: quick and thorough token bounds and bounds for wrong continuations."""
    return dict(entry=entry, start=start, alphabet=alphabet, max=(quick, thorough), rej=rej,
                line=("1" if entry in ("file", "single") else "0") if line is None else line)


# Every token kind that can occur in a program, for random walks.
ALL_EXPR = "a 1 s None True False ... ( ) [ ] { } , : := . lambda if else for in async await not " + \
           "or and < > <= >= == != is | ^ & << >> + - * / // % @ ** ~ ="
ALL = ALL_EXPR + " " + AUG + " ; -> NL IND DED TC del pass break continue return raise from yield import as global nonlocal " + \
      "assert elif while try except finally with def class"
SIMPLE = "a NL ; ( ) , = . pass return if else : IND DED"

GEN = {
    "C11": [
        g("eval", "", "a " + BINARY + " not", 5, 5, (3, 3)),
        g("eval", "", "a " + UNARY + " ** await and < *", 6, 7),
        g("eval", "", "a or and not in is |", 7, 9),
        g("eval", "", "a + - * ** ( )", 7, 9),
        g("eval", "", "a | ^ & << + *", 7, 9, (2, 3)),
        g("eval", "a < a", "a == in not is <", 6, 8),
        g("file", "a =", "a not - ** // @ ( )", 6, 8),
    ],
    "C12": [
        g("eval", "", "a ( ) , *", 7, 9),
        g("eval", "", "a [ ] , *", 7, 9),
        g("eval", "", "{ } a , : * **", 8, 10),
        g("eval", "{", "a , : ** }", 8, 11, (4, 5)),
        g("eval", "{", "a , * } :", 8, 11, (4, 5)),
        g("eval", "( a", "a , ) for in if async", 9, 11, (4, 5)),
        g("eval", "[", "a , ] for in async if *", 8, 10),
        g("eval", "[ a for a in a", "] for in if async a not lambda :", 9, 11, (3, 4)),
        g("eval", "( a for a", "a , in * ) if or", 8, 10),
        g("eval", "", "( ) [ ] { } a", 7, 9, (2, 3)),
        g("file", "", "( ) yield from a , :=", 7, 9),
        g("eval", "", "s a ( ) ,", 6, 8),
    ],
    "C13": [
        g("eval", "a", "( ) [ ] . a", 7, 9),
        g("eval", "", "await a . ( ) ** -", 7, 8),
        g("eval", "a (", "a , * ** = )", 7, 9, (4, 5)),
        g("eval", "a (", "a , := = ) for in", 8, 9, (3, 4)),
        g("eval", "a ( a for a in a", ", ) if a for in async", 7, 9),
        g("eval", "a [", "a : , ]", 8, 11, (4, 5)),
        g("eval", "a [ a", ": , ] a . (", 7, 9, (3, 4)),
        g("eval", "{", "a [ ] : , }", 8, 10),
        g("file", "class a (", "a = , * ** ) : pass NL", 8, 9),
    ],
    "C14": [
        g("eval", "", "a if else or not", 8, 10),
        g("eval", "", "lambda a : , =", 8, 9),
        g("eval", "lambda", "a , / * : =", 8, 9, (4, 5)),
        g("eval", "lambda", "a , * ** :", 8, 10, (4, 5)),
        g("eval", "lambda a", ", a / * ** = :", 7, 9, (4, 4)),
        g("eval", "", "lambda : a if else", 8, 10),
        g("eval", "( ", "a := , ) if else", 8, 10, (4, 5)),
        g("file", "if a", ":= a : pass NL if else", 8, 9),
        g("file", "", "a := NL ( )", 6, 8),
        g("eval", "[", "a := lambda : ] ,", 7, 9),
        g("eval", "a (", "lambda : a , ) = := ", 7, 9, (3, 4)),
        g("eval", "[ a for a in a if", "lambda : a ] if else , *", 7, 9),
    ],
    "C15": [
        g("file", "", "a pass break continue ; NL", 7, 8),
        g("file", "", "del a , ( ) ; NL", 7, 8),
        g("file", "", "return a , * ; NL", 7, 8),
        g("file", "", "raise a from , ; NL", 7, 8),
        g("file", "", "yield from a , * NL ;", 7, 8),
        g("file", "", "global nonlocal a , ; NL", 7, 8),
        g("file", "", "assert a , ; NL =", 7, 8),
        g("file", "", "del pass return raise yield global nonlocal assert a ; NL", 5, 6),
        g("file", "a =", "yield a from , NL ;", 7, 8),
    ],
    "C16": [
        g("file", "", "a = , NL", 9, 11),
        g("file", "", "a = * , yield NL", 7, 8),
        g("file", "", "a = yield from TC NL", 8, 9),
        g("file", "", "a , NL " + AUG, 5, 6),
        g("file", "", "a += yield = , NL ;", 7, 8),
        g("file", "", "a : = , yield ; NL", 7, 8),
        g("file", "a = a", "TC NL = , a ; +", 6, 8),
        g("file", "", "a . [ ] = : NL", 7, 9),
    ],
    "C17": [
        g("file", "import", "a . , as NL ;", 8, 10, (4, 5)),
        g("file", "from", ". ... a import NL *", 7, 9, (4, 5)),
        g("file", "from a", ". a import as , NL *", 7, 9, (4, 5)),
        g("file", "from . import", "a as , ( ) NL *", 8, 10, (4, 5)),
        g("file", "from a import", "a as , ( ) NL ;", 8, 10, (4, 5)),
        g("file", "from", ". ... a import ( )  , as", 8, 9, (3, 4)),
    ],
    "C18": [
        g("file", "if a : pass NL", "elif else a : pass NL if", 9, 10),
        g("file", "if a : NL IND", "if a : NL IND DED else pass", 10, 12),
        g("file", "", "while else a : NL IND DED", 9, 11),
        g("file", "", "for a in : else NL IND DED", 10, 12),
        g("file", "for a", ", a in : TC NL IND * pass", 7, 9),
        g("file", "try : pass NL", "except finally else : a NL pass", 9, 10, (4, 5)),
        g("file", "try : NL IND a NL DED", "except finally else as : a NL ", 9, 10, (4, 5)),
        g("file", "with", "a as , : NL pass ( )", 8, 9),
        g("file", "with (", "a as , ) : NL IND DED", 9, 10, (3, 4)),
        g("file", "if a :", "pass ; NL IND DED a", 8, 10, (3, 4)),
        g("file", "if a : NL IND if a : NL IND pass NL", "DED else elif : a NL", 11, 12),
        g("file", "while a : NL IND for a in a : NL IND break NL", "DED else : a NL", 11, 13),
    ],
    "C19": [
        g("file", "try : pass NL", "except * a : NL pass finally", 11, 13, (4, 5)),
        g("file", "try : pass NL", "except * a as : NL pass ,", 10, 11, (4, 5)),
        g("file", "try : NL IND try : pass NL except * a : pass NL DED", "except * a : NL pass", 10, 13),
        g("file", "try : NL IND try : pass NL except a : pass NL DED", "except * a : NL pass", 10, 13),
        g("file", "try : pass NL except * a : NL IND try : pass NL", "except * : a NL DED", 13, 16),
        g("file", "try : pass NL except a : NL IND try : pass NL", "except * : a NL DED", 13, 16),
        g("file", "try : pass NL except * a : pass NL try : pass NL", "except * a : NL pass else", 10, 12),
        g("file", "try : pass NL except * a : pass NL else : NL IND try : pass NL", "except * a : NL DED finally", 10, 13),
        g("file", "try : pass NL except a : pass NL finally : NL IND try : pass NL", "except * a : NL DED", 10, 13),
    ],
    "C20": [
        g("file", "", "def a ( ) : -> NL pass", 9, 10),
        g("file", "def a ( ) :", "TC NL IND DED pass a ;", 8, 10),
        g("file", "def a ( ) ->", "a : TC NL IND DED", 8, 10),
        g("file", "class a", "( ) a , = : NL", 8, 10, (4, 5)),
        g("file", "class a :", "NL IND DED pass class a :", 9, 12),
        g("file", "", "@ a . NL class : ", 9, 11),
        g("file", "@ a", "( ) NL class : a @ ", 9, 11),
        g("file", "@ a NL", "@ a NL async def class ( ) : pass", 10, 11),
        g("file", "", "async def a ( ) : pass NL with for", 9, 10),
        g("file", "async", "for a in : NL pass with else", 9, 11),
        g("file", "class a : NL IND", "@ a NL def ( ) : DED async", 11, 12, (3, 3)),
    ],
    "C21": [
        g("eval", "", "a , NL + = ( ) ;", 6, 7, (5, 6)),
        g("eval", "a", "NL a pass ; : IND yield", 5, 6, (4, 5)),
        g("func", "", "( ) -> a , NL", 8, 9, (6, 6)),
        g("func", "(", "a , * ** ) -> ", 9, 10, (5, 6)),
        g("func", "( ) -> a", "NL a , = ; ( ) : pass", 5, 6, (4, 5)),
        g("func", "( * a", ", ** * a ) -> [ ]", 8, 9, (4, 4)),
        g("single", "", "a pass ; NL = ,", 6, 7, (5, 6)),
        g("file", "", "a NL ; pass )", 6, 7, (5, 6)),
    ],
}
# Random walks over large alphabets: (entry, start, alphabet)
WALK = {
    "C11": [("eval", "", "a a a ( ) " + BINARY + " not ~ - await .")],
    "C12": [("eval", "", "a a ( ) [ ] { } , , * ** : for in if async s ... +")],
    "C13": [("eval", "a", "a a ( ) [ ] . , , : * ** = await for in - 1")],
    "C14": [("eval", "", "a a lambda : , = * ** / if else ( ) := or not [ ]")],
    "C15": [("file", "", "a a ; NL , ( ) del pass break continue return raise from yield global nonlocal assert = * lambda :")],
    "C16": [("file", "", "a a = = , * : TC NL ; yield from ( ) [ ] . " + AUG)],
    "C17": [("file", "", "a a a import from . . ... as , ( ) * NL ;")],
    "C18": [("file", "", "a a if elif else while for in try except finally with as : : NL IND DED DED pass , ( ) * break TC"),
            ("file", "if a : NL IND", "a a if elif else while : : NL IND DED DED pass"),
            ("file", "try : NL IND", "a a try except finally else : : NL IND DED DED pass as")],
    "C19": [("file", "try : NL IND", "a try except except * finally else : : NL IND DED DED pass as if")],
    "C20": [("file", "", "a a def class async @ ( ) ( ) : : -> NL IND DED DED . , = with for in pass TC return"),
            ("file", "class a : NL IND", "a def class async @ ( ) : : -> NL IND DED DED . , pass")],
    "C21": [("func", "( ", "a a , * ** ) -> [ ] . ( lambda :")],
    "*": [("file", "", ALL), ("eval", "", ALL_EXPR), ("file", "", SIMPLE), ("func", "(", "a , * ** ) -> [ ] . NL"),
          ("file", "if a : NL IND", ALL)],
}
