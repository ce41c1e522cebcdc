#!/usr/bin/env python3
"""Writes properties.jsonl (one source for the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEX = "src/parser/tokenizer.rs"; BUF = "src/parser/source_buffer.rs"; EXP = "src/parser/expressions.rs"
ST = "src/parser/statements.rs"; BL = "src/parser/blocks.rs"; FN = "src/parser/functions.rs"
ND = "src/parser/nodes.rs"; TK = "src/parser/tokens.rs"; TR = "src/parser/trivias.rs"; PR = "src/parser/parser.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))
TOK = ["the sequence of tokens returned for a source text (kind, start, end, text, prefix, trivia)"]
TREE = ["the syntax tree returned by the entry points (node kinds, fields, list order, tokens), or the error"]

prop("C01", "Tokens tile the source and carry exactly the text they span",
 "For every source text the tokens and the trivia attached to them appear in source order, never overlap, and account for every character except the indentation at the start of a line. The text of a name, number, string (with its prefix), comment or type comment is exactly the characters between its start and end offset, and offsets count characters, not bytes.",
 ["inputs"], "every source text, including non-ASCII text, every line ending, empty text and text ending in the middle of a token",
 "the unit tests look at single tokens at fixed offsets of short ASCII literals; nothing relates neighbouring tokens or offsets over arbitrary text",
 [LEX, BUF, TK, TR], [("token start and end taken from the buffer position", LEX+": get_symbol"), ("character buffer and lookahead", BUF+": peek_three_chars, advance")], TOK,
 [dict(name="token_start_position", meaning="offset at which the current token starts", where=LEX)])
prop("C02", "Operators and delimiters are taken by maximal munch",
 "At every place where an operator or delimiter begins, the longest operator of the language that matches the characters there is returned, as the token kind of that operator. The characters after it are read as if they stood alone, so a run of operator characters is split into the same tokens wherever it occurs.",
 ["inputs"], "every sequence of operator characters, in every context and followed by every character or the end of the text",
 "each operator is tested once, alone, at offset zero, followed by the end of the text",
 [LEX, TK], [("three character lookahead table", LEX+": get_symbol, peek_three_chars match")], TOK)
prop("C03", "A word is a keyword exactly when it is spelled as one, else a name",
 "A maximal run of identifier characters starting with a letter or underscore is one token: the keyword token when the whole run is a keyword with exact spelling and case, and otherwise a name carrying the whole run. No prefix, suffix or case variation of a keyword is ever taken for the keyword, and soft keywords stay names.",
 ["inputs"], "every identifier, including those one edit away from a keyword, with digits, underscores or non-ASCII letters, followed by any character",
 "each keyword is tested once by itself; no test uses a word that only contains or almost equals a keyword",
 [LEX, TK], [("identifier scan and keyword table", LEX+": get_symbol, is_alphabetic branch")], TOK)
prop("C04", "Number literals are scanned to their exact extent or rejected",
 "A numeric literal of any form (binary, octal, hexadecimal, decimal, float, exponent, imaginary, with digit separators) becomes one number token holding all of its characters and not one more. A text that starts like a number but is malformed (misplaced separator, missing digits after a base prefix, non-zero decimal integer with a leading zero) is reported as an error and never silently split or truncated.",
 ["inputs"], "every string of digits, separators, points, exponent and base letters, followed by any character",
 "a few dozen literals are tested, each alone; the combinations of separators, points, exponents and following characters are not",
 [LEX], [("number state machine", LEX+": get_symbol, '0', '.', '1'..='9' branches")], TOK)
prop("C05", "String literals end at their own closing quote and nowhere else",
 "A string token extends from its (optional) prefix and opening quote to the first matching closing quote that is not escaped by a backslash: one quote for a short string, three for a long one. Every legal prefix in every case combination belongs to the string token; a short string broken by a line end and any string that is never closed are errors, while long strings keep their line ends in the text.",
 ["inputs"], "every sequence of quotes, backslashes, line ends, prefix letters and other characters",
 "tests have one literal per quote style without escapes, adjacent quotes or embedded quotes",
 [LEX], [("string scanner", LEX+": handle_string"), ("prefix table", LEX+": get_symbol, prefix arm")], TOK)
prop("C06", "Indentation yields balanced INDENT/DEDENT tokens that follow the columns",
 "At each logical line that is not blank the column of its first token is compared with the stack of open block columns: a larger column opens exactly one block, an equal one none, and a smaller one closes exactly the blocks with larger columns. A column that matches no open block is an error, tabs advance to the next tab stop, and lines that are blank, hold only a comment, or lie inside brackets change nothing.",
 ["inputs", "histories"], "every sequence of lines with arbitrary indentation of blanks and tabs, with blank, comment and continuation lines interleaved",
 "the tests cover one block with one indent and one dedent; multi-level dedents, blank lines between and inconsistent columns need sequences of lines",
 [LEX], [("indent stack and pending counter", LEX+": get_symbol, beginning of line")], TOK,
 [dict(name="indent_stack", meaning="columns of the open blocks, strictly increasing from 0", where=LEX), dict(name="pending", meaning="INDENT (+) or DEDENT (-) tokens still to be returned", where=LEX)])
prop("C07", "Brackets match, and lines join inside them",
 "An opening bracket must be closed by the bracket of the same kind, innermost first; any other closing bracket is reported as an error. While at least one bracket is open no NEWLINE, INDENT or DEDENT token is produced, whatever lines and columns occur, and afterwards line structure resumes as before.",
 ["inputs", "histories"], "every nesting of the three bracket kinds with line ends, comments and indentation between them",
 "tests open and close one bracket pair; nesting, interleaving and line ends inside nested brackets are never combined",
 [LEX], [("stack of expected closing brackets", LEX+": get_symbol, bracket arms")], TOK,
 [dict(name="parenthesis", meaning="closing brackets still expected, innermost last", where=LEX)])
prop("C08", "Each logical line ends in exactly one NEWLINE token",
 "Every logical line is ended by exactly one NEWLINE token spanning its line-end characters, whichever of the three line-end conventions is used; blank lines and comment lines produce none. A backslash directly before a line end joins the two lines without any token, and a backslash anywhere else outside a string or comment is an error.",
 ["inputs", "histories"], "every arrangement of line ends (LF, CR, CRLF), blank lines, comment lines, continuations and statements",
 "tests hold at most one line end each; mixtures of line ends, blank lines and continuations are not exercised",
 [LEX], [("newline and line continuation handling", LEX+": get_symbol, 'inner loop")], TOK)
prop("C09", "Comments, blanks and type comments are preserved exactly, in order",
 "Every blank run, tab, comment, skipped line end and line continuation between two tokens is attached to the following token as trivia with its exact span, characters and order, and none is lost, duplicated or attached to another token. A comment starting with '# type:' is a token with its full text; all other comments are trivia.",
 ["inputs"], "every arrangement of blanks, tabs, comments, blank lines and continuations between tokens, also before INDENT, DEDENT, NEWLINE and the end of the file",
 "trivia are compared in tests only for single blanks or comments before one token",
 [LEX, TR, TK], [("trivia collector, reversed into the token", LEX+": get_symbol")], TOK)
prop("C10", "Scanners are independent of one another, and the end of a text is final",
 "What a scanner returns depends on nothing but its own text and how often it has been called: scanners over different texts may be created, called in any order and abandoned at any point, with parses in between, without influencing one another. Once a scanner has returned the end-of-file token every further call returns it again, at the same place and with no trivia; once it has reported an error every further call still answers.",
 ["inputs", "histories", "schedules"], "every pair of texts and every sequence of calls on their scanners, including calls beyond the end and after an error",
 "each test makes one scanner, takes a token or two, and never calls it again after the end of the text",
 [LEX, BUF, PR], [("all scanning state is held in the tokenizer", LEX+": PythonCoreTokenizer"), ("end of text sentinel", BUF+": get_char, peek_three_chars")], ["the answers of all calls of two scanners under a given schedule"],
 [dict(name="indent_stack, parenthesis, pending, is_at_beginning_of_line", meaning="scanning state kept between calls", where=LEX)])
prop("C11", "Operator precedence and associativity shape every expression tree",
 "Every expression is grouped by the precedence of the language: or, and, not, comparisons, |, ^, &, shifts, additive, multiplicative, unary, power. Binary operators of equal precedence group to the left, power groups to the right and binds tighter than a unary operator on its left but not on its right, and every operator is represented by its own node kind with the operands in source order.",
 ["inputs", "programs"], "every expression over all operators, at any length, with any parenthesization",
 "each operator is tested with two plain operands, and chains only with the same operator; the tests' assertions look at the outermost node",
 [EXP, ND], [("one method per precedence level, looping for left association", EXP+": parse_expressions_or_test .. parse_expressions_power")], TREE)
prop("C12", "Displays and comprehensions keep every element, in order, with its role",
 "Tuple, list, set and dictionary displays of any length, with starred and double-starred entries and an optional trailing comma, are accepted and the tree holds every element, separator and bracket in order, a display being a dictionary exactly when its entries are. Tuple and list comprehensions with any chain of 'for', 'async for' and 'if' clauses keep all clauses in order; malformed displays are rejected.",
 ["inputs", "programs"], "every display and comprehension of any length and nesting",
 "tests use displays of at most three elements and single-clause comprehensions",
 [EXP, ND], [("atom, testlist_comp, dictorset_maker, comp_for, comp_if", EXP)], TREE)
prop("C13", "Trailers apply left to right and keep all arguments and slices",
 "A primary followed by any sequence of calls, subscripts and attribute accesses yields all trailers in source order, after an optional await. Every call argument keeps its form (positional, keyword, starred, double-starred, generator, assignment expression) and every subscript keeps which of its up to three slice parts and colons are present.",
 ["inputs", "programs"], "every sequence of trailers with every argument and slice form and any number of arguments",
 "tests have one trailer with at most two plain arguments and never omit slice parts in combination",
 [EXP, ND], [("atom_expr, trailer, arglist, argument, subscript_list, subscript", EXP)], TREE)
prop("C14", "Lambda, conditional and assignment expressions nest correctly",
 "A conditional expression takes an or-test before 'if' and as condition and extends as far to the right as possible after 'else'; a lambda takes everything up to the end of its body as one test; an assignment expression binds weaker than both and is accepted exactly where the language allows it unparenthesized. All parameter forms of a lambda (defaults, positional-only marker, starred, double-starred) are kept in their own roles, and malformed ones are rejected.",
 ["inputs", "programs"], "every nesting of lambda, conditional and assignment expressions and every lambda parameter list",
 "the tests hold one lambda per parameter form with one or two names and no nested conditional or assignment expression",
 [EXP, ND], [("test, named_expression, lambda_def, var_args_list", EXP)], TREE)
prop("C15", "Simple statements are recognized with all their parts",
 "del, pass, break, continue, return, raise (with cause), yield, yield from, global, nonlocal, assert (with message) and expression statements are represented by their own node with every optional part present exactly when written. Any number of simple statements may be joined on one line by semicolons with an optional final one, keeping their order, and incomplete statements are rejected.",
 ["inputs", "programs"], "every simple statement form with every combination of optional parts, alone or joined by semicolons",
 "one test per statement; combinations of optional parts and several statements on a line are not covered",
 [ST, ND], [("simple_stmt, small_stmt and the statement methods", ST)], TREE)
prop("C16", "Assignments keep targets, operator, annotation and values apart",
 "Chained assignments of any length keep every target and value in order, each augmented assignment operator has its own node kind, and an annotated assignment keeps target, annotation and optional value. Tuples without parentheses, trailing commas, starred targets, yield values and a trailing type comment are kept in their place, and an assignment without a value is rejected.",
 ["inputs", "programs"], "every assignment form over every target and value form",
 "one test per operator with single names; chains, annotation with value and mixed lists are sampled once or not at all",
 [ST, EXP, ND], [("expr_stmt, ann_assign, testlist_star_expr, testlist", ST+", "+EXP)], TREE)
prop("C17", "Imports keep modules, relative dots, names and aliases",
 "Import statements of every form keep each dotted module name, every leading dot (also when dots are joined to an ellipsis), each imported name with its alias if any, the star, and the parentheses, all in source order. Malformed imports (no name, trailing comma without parentheses, 'from' without module or dots) are rejected, and no import makes the parser loop.",
 ["inputs", "programs"], "every import statement with any number of dots, names, aliases and commas",
 "tests hold a handful of fixed import lines and none for several plain imports in a file",
 [ST, ND], [("import_stmt, import_from, import_as_names, dotted_as_names, dotted_name", ST)], TREE)
prop("C18", "Compound statements attach clauses and suites to the right owner",
 "if/elif/else, while/else, for/else, try/except/else/finally and with statements own exactly the clauses and statements that the indentation and keywords give them: an else belongs to the innermost statement at its column that can take it, elif and except clauses keep their order, and a suite contains exactly the statements of its block. This holds for suites on the same line or indented, at any nesting depth, and misplaced or missing clauses are rejected.",
 ["inputs", "programs"], "every nesting of compound statements with every combination of optional clauses and both suite forms",
 "tests parse single statements with one-line suites; nesting and clause ownership over several blocks are not covered",
 [ST, ND], [("compound_stmt, if/while/for/try/with, suite", ST)], TREE)
prop("C19", "One try statement uses either 'except' or 'except*', never both",
 "Within one try statement all handlers are plain or all are starred; a mixture is rejected, and a starred handler must name an exception type. The rule applies to each try statement by itself: nesting try statements in any part of one another, or placing them one after the other, never makes one affect the handlers accepted by another.",
 ["inputs", "programs", "histories"], "every sequence and nesting of try statements with every handler combination",
 "tests try one statement at a time; the state that carries the rule is only disturbed by nested or following try statements",
 [ST, PR], [("handler mode carried in the parser", ST+": parse_statements_try_stmt, parse_statements_except_clause")], TREE,
 [dict(name="except_status", meaning="handler form of the current try statement", where=PR)])
prop("C20", "Functions, classes, decorators and async forms are recognized whole",
 "Function and class definitions keep name, parentheses, base and keyword arguments, return annotation, type comments and body, and may be decorated by any number of decorators, kept in order. 'async' is accepted exactly before def, with and for, wraps that statement unchanged, and works under decorators as well.",
 ["inputs", "programs"], "every definition form (parameterless functions, any class argument list) with any number of decorators, nested to any depth",
 "tests for these rules are almost absent; none combines decorators, async and bodies",
 [BL, ST, ND], [("func_def, class_def, decorated, func_body_suite, async_stmt", BL+", "+ST)], TREE)
prop("C21", "File, expression and function-type inputs are accepted whole or not at all",
 "The file, expression and function-type entry points return a tree only if the entire text up to the end of the file belongs to it; trailing tokens of any kind lead to an error. The interactive entry point takes exactly one line of simple statements, and function types keep argument types, starred types and the result type.",
 ["inputs", "programs"], "every text given to every entry point, in particular valid texts followed by extra tokens",
 "the tests never call the entry points with text that continues after a complete construct",
 [BL, FN, ND], [("entry points and the end of file check", BL), ("func_type, type_list", FN)], TREE)
prop("C22", "The leaves of the tree are exactly the tokens of the source",
 "For every accepted text the tokens stored in the syntax tree, read in source order, are exactly the tokens of the text: none is missing, duplicated, altered or invented, so the source can be rebuilt from the tree. Within every list of elements, separators or statements the stored order is the documented one for that node kind.",
 ["inputs", "programs"], "every accepted text of every entry point",
 "tests match only the outermost node and wildcard the rest, so lost separators or wrong tokens deeper in the tree go unnoticed",
 [EXP, ST, BL, FN, ND], [("every parse method stores the symbols it consumes", EXP+", "+ST+", "+BL+", "+FN)], TREE)
prop("C23", "Node positions are exact and nest",
 "Every node starts at the offset of its first token and ends at or after the end of its last token and not after the start of the next token of the text. Consequently the range of a child always lies within the range of its parent, and siblings do not overlap.",
 ["inputs", "programs"], "every node of every tree of every accepted text",
 "tests check start and end of the outermost node of one-line inputs; nested and later elements are wildcards",
 [EXP, ST, BL, FN, ND], [("start position taken on entry, end position after the last symbol", "all parse methods")], ["start and end of every node of the returned tree"])
prop("C24", "Scanning and parsing always end with a tree or an error",
 "For every text, valid or not, scanning and parsing through every entry point end after finitely many steps with a result or an error; they never panic, overflow, hang or loop. An invalid text is answered by an error, not by a tree.",
 ["inputs"], "every sequence of characters, including truncated programs, random token sequences and unusual characters, through every entry point",
 "only well-formed inputs and a few malformed ones are tested; robustness is a statement about all inputs",
 [LEX, EXP, ST, BL, FN], [("error returned at every unexpected symbol", "all parse methods"), ("end of text sentinel", BUF+": get_char")], ["outcome of each call: result, error, panic, abort or no end"])
prop("C25", "A lexical error is never swallowed by the parser",
 "If scanning the text reports an error anywhere in it, parsing that text as a file, expression or function type reports an error as well, whatever construct surrounds the place. No tree is ever returned for a text that contains an illegal character, a malformed literal, an unterminated string, unmatched brackets or inconsistent indentation.",
 ["inputs", "programs"], "every valid program with a lexical error placed at every possible position",
 "the parsers' many optional parts test for a following symbol; whether an error there surfaces depends on the place and is not tested",
 [EXP, ST, BL, FN, LEX], [("symbol is a result that every method must check", "all parse methods")], TREE)
prop("C26", "Layout that carries no meaning does not change the tree",
 "Adding or removing blanks and tabs between tokens, comments, blank lines, line continuations, line breaks inside brackets, a different indentation width, a different line-end convention or redundant earlier parses changes only positions and trivia, never the tokens' kinds and texts or the tree. Parsing the same text twice gives the same result, independent of what was parsed before.",
 ["inputs", "programs", "histories"], "every accepted program and every combination of meaning-preserving layout changes applied to it",
 "a relation between pairs of inputs; no test compares two inputs",
 [LEX, EXP, ST, BL, FN], [("trivia kept apart from tokens", LEX), ("indentation compared by column only", LEX)], TREE)
prop("C27", "An error names the place where the text goes wrong",
 "Every error that the file, expression, interactive or function-type entry point returns for a text names a character offset. It is the offset at which the first token that cannot continue a program begins (where no token can be read there, a place between the last good token and the unreadable one), or the offset at which a construct begins that contains that token or ends right before it. It never lies behind the offending token.",
 ["inputs", "programs"], "every refused text of every entry point: programs broken off or altered after every token, with the error inside any construct",
 "tests of rejected texts only look at whether there is an error, not at the place it names",
 [EXP, ST, BL, FN, LEX], [("message formatted with the start position of the construct or of the symbol", "all parse methods"), ("start of the current symbol", LEX+": get_position")],
 ["the offset in the message of the returned error"])
prop("C28", "Every production is a parser of its own and stops where its phrase ends",
 "Each production method of the parser (atoms, trailers, every operator level, tests, lambdas, comprehensions, subscripts, arguments, displays, parameters with types and defaults, every small and compound statement, its clauses and suites, decorators, the parts of import statements and function types) can be called by itself at any token of a text where its phrase may begin. It takes the longest phrase of its kind that starts there, returns exactly the node a whole parse builds for that phrase, and leaves the parser at the first token after it; where no such phrase starts it returns an error. Productions called one after the other on one parser continue each where the one before stopped, and no call changes what a later one recognizes.",
 ["inputs", "programs", "histories"], "every production at every token of every text, and every sequence of productions on one parser",
 "tests call some productions once, at the start of a text made for them, and look at the outermost node only; where the parser stands afterwards is never observed",
 [EXP, ST, BL, FN, PR], [("production methods of the traits Expressions, Statements, Blocks and Functions", EXP+", "+ST+", "+BL+", "+FN), ("current symbol: one token of lookahead", PR+": symbol, advance")],
 ["node returned by each call", "token at which the parser stands after it"])
prop("C29", "The source buffer is a cursor over the characters of the text",
 "After k calls of advance, get_char and peek_three_chars return the characters k, k+1 and k+2 of the text (counted in characters, not bytes) and the null character from the end of the text on, get_position returns k as long as that is within the text, and count the number of characters. No other call moves the cursor, buffers do not affect each other, and going on behind the end never fails.",
 ["histories", "inputs"], "every text and every sequence of calls on any number of buffers",
 "tests make a few calls on short ASCII texts; none goes behind the end, mixes calls or uses characters of several bytes",
 [BUF], [("index into the vector of characters", BUF+": get_char, peek_three_chars, advance, get_position, count")], ["returned characters, positions and counts"])
prop("C30", "The scanner's position is where its last token begins",
 "Between calls get_position of a scanner gives the offset, counted in characters, at which the token it returned last begins: its start for a token with characters, the end of the text for the end-of-file token however often it is returned, 0 before the first call. For INDENT and DEDENT it lies between the end of the token before and the first character of their line, after an error between the end of the last token and the end of the text. It never goes back, and asking for it changes nothing.",
 ["inputs", "histories"], "every text and every number of calls of its scanner",
 "tests look at the spans inside tokens; the position between calls, which every node and every error message is built from, is not observed",
 [LEX, BUF], [("start of the current token, set anew after every piece of trivia", LEX+": token_start_position, get_position")], ["get_position before the first and after every call"])
prop("C31", "Parsers are independent of one another and of what was parsed before",
 "What a parser answers depends on its own text and on the calls made on it, and on nothing else. Any number of parsers may be created in one program, called in turns (entry points, or productions one after the other), and used at the same time in several threads: each returns for every call the tree, with its tokens and positions, or the error that it returns when it is alone. This holds however many texts were parsed before, accepted or refused at any place, and whatever they contained.",
 ["histories", "schedules", "programs"], "every set of texts and calls, every order of the calls of different parsers, every simultaneous run in threads, and every history of earlier parses",
 "tests use one parser each, for one text, and the test runner gives every test a thread of its own, so state left behind on a thread is never seen by another test",
 [PR, EXP, ST, BL, FN, LEX, BUF], [("all state lies in the fields of the parser, its scanner and its buffer", PR+": PythonCoreParser"), ("state of the try statement being parsed", PR+": except_status")],
 ["answers of every call of several parsers, in turns and in threads"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
