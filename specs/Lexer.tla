------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The scanner of the language as a state machine over a source text.      *)
(*                                                                         *)
(* A text is a sequence of character codes.  The state of the scanner is   *)
(* the record Lx: the offset of the next character, the phase of the       *)
(* current call, the stack of open block columns, the stack of open        *)
(* brackets, the INDENT (>0) or DEDENT (<0) tokens still owed, whether the *)
(* current line is blank so far, the trivia collected for the next token,  *)
(* and the token just produced.  Each operator named like an action gives  *)
(* the state after that action; CanX is its guard.  The guards exclude one *)
(* another, so the machine is deterministic for a given choice of `dev`.   *)
(*                                                                         *)
(* `dev` names deviations of the implementation that are known and listed  *)
(* in known_findings.json; the empty set is the language.                  *)
(*   crlf3   a CR LF line end consumes three characters                    *)
(*   bsl     a line starting with a backslash never opens or closes blocks *)
(*   numend  (no finding) a letter directly after a number is an error;    *)
(*           the language leaves this to the implementation                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Tables

NUL == 0
TAB == 9
LF == 10
FF == 12
CR == 13
SP == 32
DQ == 34
HASH == 35
SQ == 39
DOT == 46
ZERO == 48
BSL == 92
USC == 95

Digits == 48..57
NonZero == 49..57
OctDigits == 48..55
BinDigits == 48..49
HexDigits == Digits \cup (65..70) \cup (97..102)
AsciiLetters == (65..90) \cup (97..122)
NameStartChars == AsciiLetters \cup {USC} \cup WideLetters
NameChars == NameStartChars \cup Digits \cup WideDigits
Quotes == {SQ, DQ}
Blanks == {SP, TAB, FF}
Openers == {40, 91, 123}
Closers == {41, 93, 125}
CloserOf(c) == CASE c = 40 -> 41 [] c = 91 -> 93 [] c = 123 -> 125

TabSize == 4

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

-----------------------------------------------------------------------------
\* Reading the text.  Offsets start at 0; reading past the end gives NUL.

AtEnd(inp, p) == p >= Len(inp)
At(inp, p) == IF p < Len(inp) THEN inp[p + 1] ELSE NUL
Cut(inp, s, e) == SubSeq(inp, s + 1, e)

\* Offset after the longest run of characters of S that starts at p.
RECURSIVE RunEnd(_, _, _)
RunEnd(inp, p, S) == IF ~AtEnd(inp, p) /\ inp[p + 1] \in S THEN RunEnd(inp, p + 1, S) ELSE p

\* Offset of the first line end, NUL or end of the text at or after p.
RECURSIVE LineRest(_, _)
LineRest(inp, p) == IF At(inp, p) \in {CR, LF, NUL} THEN p ELSE LineRest(inp, p + 1)

\* Width of the line end at p, 0 if there is none.
LineEndWidth(inp, p) ==
  IF At(inp, p) = CR THEN (IF At(inp, p + 1) = LF THEN 2 ELSE 1)
  ELSE IF At(inp, p) = LF THEN 1 ELSE 0

-----------------------------------------------------------------------------
\* Numbers.  NumberEnd gives the offset after the literal, or Bad.

Bad == -1

\* A run of digits of S with single separators, each followed by a digit.
RECURSIVE DigitsEnd(_, _, _)
DigitsEnd(inp, p, S) ==
  IF At(inp, p) \in S THEN DigitsEnd(inp, p + 1, S)
  ELSE IF At(inp, p) = USC THEN (IF At(inp, p + 1) \in S THEN DigitsEnd(inp, p + 1, S) ELSE Bad)
  ELSE p

BasedEnd(inp, p, S) ==
  IF At(inp, p) \notin S \cup {USC} THEN Bad
  ELSE LET e == DigitsEnd(inp, p, S)
       IN IF e # Bad /\ At(inp, e) \in Digits THEN Bad ELSE e

FractionEnd(inp, p) ==      \* p is after the point
  IF At(inp, p) = USC THEN Bad ELSE DigitsEnd(inp, p, Digits)

HasExponent(inp, p) ==
  /\ At(inp, p) \in {69, 101}
  /\ \/ At(inp, p + 1) \in Digits
     \/ At(inp, p + 1) \in {43, 45} /\ At(inp, p + 2) \in Digits

ExponentEnd(inp, p) ==
  IF HasExponent(inp, p)
  THEN DigitsEnd(inp, IF At(inp, p + 1) \in Digits THEN p + 1 ELSE p + 2, Digits)
  ELSE p

DecimalEnd(inp, p) ==
  LET e1 == IF At(inp, p) = DOT THEN p ELSE DigitsEnd(inp, p, Digits)
      point == e1 # Bad /\ At(inp, e1) = DOT
      e2 == IF point THEN FractionEnd(inp, e1 + 1) ELSE e1
      e3 == IF e2 = Bad THEN Bad ELSE ExponentEnd(inp, e2)
      imag == e3 # Bad /\ At(inp, e3) \in {74, 106}
      e4 == IF imag THEN e3 + 1 ELSE e3
      integer == ~point /\ e3 = e1 /\ ~imag
  IN IF e1 = Bad \/ e2 = Bad \/ e3 = Bad THEN Bad
     ELSE IF integer /\ At(inp, p) = ZERO /\ \E i \in p..(e1 - 1) : At(inp, i) \in NonZero THEN Bad
     ELSE e4

NumberEnd(inp, p) ==
  IF At(inp, p) = ZERO THEN
    CASE At(inp, p + 1) \in {88, 120} -> BasedEnd(inp, p + 2, HexDigits)
      [] At(inp, p + 1) \in {79, 111} -> BasedEnd(inp, p + 2, OctDigits)
      [] At(inp, p + 1) \in {66, 98} -> BasedEnd(inp, p + 2, BinDigits)
      [] OTHER -> DecimalEnd(inp, p)
  ELSE DecimalEnd(inp, p)

-----------------------------------------------------------------------------
\* Strings.  StringEnd gives the offset after the closing quote, or Bad; p is the opening quote.
\* A NUL, which is also what lies beyond the end of the text, is part of no string.

RECURSIVE ShortEnd(_, _, _)
ShortEnd(inp, p, q) ==
  LET c == At(inp, p) IN
  CASE c \in {NUL, CR, LF} -> Bad
    [] c = BSL /\ At(inp, p + 1) = NUL -> Bad
    [] c = BSL -> ShortEnd(inp, IF LineEndWidth(inp, p + 1) = 2 THEN p + 3 ELSE p + 2, q)
    [] c = q -> p + 1
    [] OTHER -> ShortEnd(inp, p + 1, q)

RECURSIVE LongEnd(_, _, _)
LongEnd(inp, p, q) ==
  LET c == At(inp, p) IN
  CASE c = NUL -> Bad
    [] c = BSL /\ At(inp, p + 1) = NUL -> Bad
    [] c = BSL -> LongEnd(inp, p + 2, q)
    [] c = q /\ At(inp, p + 1) = q /\ At(inp, p + 2) = q -> p + 3
    [] OTHER -> LongEnd(inp, p + 1, q)

StringEnd(inp, p) ==
  LET q == At(inp, p) IN
  IF At(inp, p + 1) = q /\ At(inp, p + 2) = q THEN LongEnd(inp, p + 3, q)
  ELSE IF At(inp, p + 1) = q THEN p + 2
  ELSE ShortEnd(inp, p + 1, q)

Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]

-----------------------------------------------------------------------------
\* The machine.

Phases == {"line", "pend", "scan", "end", "error"}

LexInit(dev) ==
  [pos |-> 0, phase |-> "line", inds |-> <<0>>, par |-> <<>>, pend |-> 0,
   blank |-> FALSE, triv |-> <<>>, tok |-> <<>>, dev |-> dev]

\* Starts the next call: the last token is handed over and its trivia forgotten.
Resume(lx) == [lx EXCEPT !.tok = <<>>, !.triv = <<>>, !.blank = FALSE]

HasToken(lx) == lx.tok # <<>>
Failed(lx) == lx.phase = "error"
Running(lx) == lx.tok = <<>> /\ lx.phase \notin {"end", "error"}

Fail(lx) == [lx EXCEPT !.phase = "error"]

\* Every token is <<kind, start, end, text, prefix, trivia>>, trivia <<kind, start, end, chars>>.
Emit(lx, kind, s, e, text, prefix, phase) ==
  [lx EXCEPT !.tok = <<kind, s, e, text, prefix, lx.triv>>, !.pos = e, !.phase = phase]
AddTrivia(lx, kind, e, chars, phase) ==
  [lx EXCEPT !.triv = Append(@, <<kind, lx.pos, e, chars>>), !.pos = e, !.phase = phase]

\* Column after the blanks, tabs and form feeds from p on; a form feed starts the line anew.
RECURSIVE ColumnAt(_, _, _)
ColumnAt(inp, p, col) ==
  CASE At(inp, p) = SP -> ColumnAt(inp, p + 1, col + 1)
    [] At(inp, p) = TAB -> ColumnAt(inp, p + 1, (col \div TabSize + 1) * TabSize)
    [] At(inp, p) = FF -> ColumnAt(inp, p + 1, 0)
    [] OTHER -> col

\* Whether nothing but blanks, joined lines and a comment follows at p on this line.
RECURSIVE BlankFrom(_, _)
BlankFrom(inp, p) ==
  LET q == RunEnd(inp, p, Blanks) IN
  CASE At(inp, q) \in {HASH, CR, LF} -> TRUE
    [] At(inp, q) = BSL /\ LineEndWidth(inp, q + 1) > 0 -> BlankFrom(inp, q + 1 + LineEndWidth(inp, q + 1))
    [] OTHER -> FALSE

\* --- at the start of a line: measure the column, open or close blocks
CanLineStart(lx) == Running(lx) /\ lx.phase = "line"
LineStart(inp, lx) ==
  LET p == RunEnd(inp, lx.pos, Blanks)
      blank == \/ At(inp, p) \in {HASH, CR, LF}
               \/ At(inp, p) = BSL /\ ("bsl" \in lx.dev \/ BlankFrom(inp, p))
      col == IF AtEnd(inp, p) THEN 0 ELSE ColumnAt(inp, lx.pos, 0)
      top == Last(lx.inds)
      keep == SelectSeq(lx.inds, LAMBDA c : c <= col)
      at == [lx EXCEPT !.pos = p, !.blank = blank, !.phase = "pend"]
  IN IF blank \/ lx.par # <<>> \/ col = top THEN at
     ELSE IF col > top THEN [at EXCEPT !.inds = Append(@, col), !.pend = 1]
     ELSE IF Last(keep) # col THEN Fail(lx)
     ELSE [at EXCEPT !.inds = keep, !.pend = Len(keep) - Len(lx.inds)]

\* --- tokens owed for the blocks opened or closed
CanIndent(lx) == Running(lx) /\ lx.phase = "pend" /\ lx.pend > 0
EmitIndent(inp, lx) == [Emit(lx, "Indent", lx.pos, lx.pos, <<>>, <<>>, "pend") EXCEPT !.pend = @ - 1]

CanDedent(lx) == Running(lx) /\ lx.phase = "pend" /\ lx.pend < 0
EmitDedent(inp, lx) == [Emit(lx, "Dedent", lx.pos, lx.pos, <<>>, <<>>, "pend") EXCEPT !.pend = @ + 1]

CanBegin(lx) == Running(lx) /\ lx.phase = "pend" /\ lx.pend = 0
Begin(inp, lx) == [lx EXCEPT !.phase = "scan"]

Scanning(lx) == Running(lx) /\ lx.phase = "scan"

\* --- blanks
CanBlanks(inp, lx) == Scanning(lx) /\ At(inp, lx.pos) \in Blanks
SkipBlanks(inp, lx) ==
  IF At(inp, lx.pos) = SP THEN AddTrivia(lx, "W", RunEnd(inp, lx.pos, {SP}), <<SP>>, "scan")
  ELSE AddTrivia(lx, "W", lx.pos + 1, <<At(inp, lx.pos)>>, "scan")

\* --- comments and type comments
TypeMark == <<35, 32, 116, 121, 112, 101, 58>>
CanComment(inp, lx) == Scanning(lx) /\ At(inp, lx.pos) = HASH
ScanComment(inp, lx) ==
  LET e == LineRest(inp, lx.pos)
      text == Cut(inp, lx.pos, e)
  IN IF Len(text) >= Len(TypeMark) /\ SubSeq(text, 1, Len(TypeMark)) = TypeMark
     THEN Emit(lx, "TypeComment", lx.pos, e, text, <<>>, "pend")
     ELSE AddTrivia(lx, "C", e, text, "scan")

\* --- the end of the file
CanEndOfFile(inp, lx) == Scanning(lx) /\ AtEnd(inp, lx.pos)
EndOfFile(inp, lx) == Emit(lx, "EOF", lx.pos, lx.pos, <<>>, <<>>, "end")

\* --- line ends
CanLineEnd(inp, lx) == Scanning(lx) /\ LineEndWidth(inp, lx.pos) > 0
ScanLineEnd(inp, lx) ==
  LET w == LineEndWidth(inp, lx.pos)
      e == lx.pos + (IF w = 2 /\ "crlf3" \in lx.dev THEN 3 ELSE w)
      chars == IF w = 2 THEN <<CR, LF>> ELSE <<At(inp, lx.pos), SP>>
  IN IF lx.blank \/ lx.par # <<>> THEN AddTrivia(lx, "NL", e, chars, "line")
     ELSE Emit(lx, "Newline", lx.pos, e, chars, <<>>, "line")

\* --- line continuations
CanBackslash(inp, lx) == Scanning(lx) /\ At(inp, lx.pos) = BSL
ScanBackslash(inp, lx) ==
  LET w == LineEndWidth(inp, lx.pos + 1)
  IN IF w = 0 THEN Fail(lx)
     ELSE AddTrivia(lx, "LC", lx.pos + 1 + w,
                    <<BSL>> \o (IF w = 2 THEN <<CR, LF>> ELSE <<At(inp, lx.pos + 1), SP>>), "scan")

\* --- everything else is a token
AtToken(inp, lx) ==
  /\ Scanning(lx) /\ ~AtEnd(inp, lx.pos)
  /\ At(inp, lx.pos) \notin Blanks \cup {HASH, CR, LF, BSL}

CanName(inp, lx) == AtToken(inp, lx) /\ At(inp, lx.pos) \in NameStartChars
ScanName(inp, lx) ==
  LET e == RunEnd(inp, lx.pos, NameChars)
      word == Cut(inp, lx.pos, e)
  IN IF At(inp, e) \in Quotes /\ Lower(word) \in StringPrefixes THEN
       LET f == StringEnd(inp, e)
       IN IF f = Bad THEN Fail(lx) ELSE Emit(lx, "AtomString", lx.pos, f, Cut(inp, e, f), word, "pend")
     ELSE IF word \in KwSpellings THEN Emit(lx, KwTable[word], lx.pos, e, <<>>, <<>>, "pend")
     ELSE Emit(lx, "AtomName", lx.pos, e, word, <<>>, "pend")

CanNumber(inp, lx) ==
  /\ AtToken(inp, lx)
  /\ \/ At(inp, lx.pos) \in Digits
     \/ At(inp, lx.pos) = DOT /\ At(inp, lx.pos + 1) \in Digits
ScanNumber(inp, lx) ==
  LET e == NumberEnd(inp, lx.pos)
  IN IF e = Bad THEN Fail(lx)
     ELSE IF "numend" \in lx.dev /\ At(inp, e) \in NameStartChars THEN Fail(lx)
     ELSE Emit(lx, "AtomNumber", lx.pos, e, Cut(inp, lx.pos, e), <<>>, "pend")

CanString(inp, lx) == AtToken(inp, lx) /\ At(inp, lx.pos) \in Quotes
ScanString(inp, lx) ==
  LET f == StringEnd(inp, lx.pos)
  IN IF f = Bad THEN Fail(lx) ELSE Emit(lx, "AtomString", lx.pos, f, Cut(inp, lx.pos, f), <<>>, "pend")

\* Width of the longest operator spelled at p, 0 if there is none.
Spelled(inp, p, n) == p + n <= Len(inp) /\ Cut(inp, p, p + n) \in OpSpellings
OpWidth(inp, p) ==
  CASE Spelled(inp, p, 3) -> 3
    [] Spelled(inp, p, 2) -> 2
    [] Spelled(inp, p, 1) -> 1
    [] OTHER -> 0

AtOperator(inp, lx) ==
  /\ AtToken(inp, lx) /\ ~CanName(inp, lx) /\ ~CanNumber(inp, lx) /\ ~CanString(inp, lx)
  /\ OpWidth(inp, lx.pos) > 0
OpToken(inp, lx) ==
  LET e == lx.pos + OpWidth(inp, lx.pos)
  IN Emit(lx, OpTable[Cut(inp, lx.pos, e)], lx.pos, e, <<>>, <<>>, "pend")

CanOpen(inp, lx) == AtOperator(inp, lx) /\ At(inp, lx.pos) \in Openers
OpenBracket(inp, lx) == [OpToken(inp, lx) EXCEPT !.par = Append(@, At(inp, lx.pos))]

CanClose(inp, lx) == AtOperator(inp, lx) /\ At(inp, lx.pos) \in Closers
CloseBracket(inp, lx) ==
  IF lx.par # <<>> /\ CloserOf(Last(lx.par)) = At(inp, lx.pos)
  THEN [OpToken(inp, lx) EXCEPT !.par = Front(@)] ELSE Fail(lx)

CanOperator(inp, lx) == AtOperator(inp, lx) /\ At(inp, lx.pos) \notin Openers \cup Closers
ScanOperator(inp, lx) == OpToken(inp, lx)

CanIllegal(inp, lx) ==
  /\ AtToken(inp, lx) /\ ~CanName(inp, lx) /\ ~CanNumber(inp, lx) /\ ~CanString(inp, lx)
  /\ OpWidth(inp, lx.pos) = 0
Illegal(inp, lx) == Fail(lx)

\* One action of the machine.
LexStep(inp, lx) ==
  CASE CanLineStart(lx) -> LineStart(inp, lx)
    [] CanIndent(lx) -> EmitIndent(inp, lx)
    [] CanDedent(lx) -> EmitDedent(inp, lx)
    [] CanBegin(lx) -> Begin(inp, lx)
    [] CanBlanks(inp, lx) -> SkipBlanks(inp, lx)
    [] CanComment(inp, lx) -> ScanComment(inp, lx)
    [] CanEndOfFile(inp, lx) -> EndOfFile(inp, lx)
    [] CanLineEnd(inp, lx) -> ScanLineEnd(inp, lx)
    [] CanBackslash(inp, lx) -> ScanBackslash(inp, lx)
    [] CanName(inp, lx) -> ScanName(inp, lx)
    [] CanNumber(inp, lx) -> ScanNumber(inp, lx)
    [] CanString(inp, lx) -> ScanString(inp, lx)
    [] CanOpen(inp, lx) -> OpenBracket(inp, lx)
    [] CanClose(inp, lx) -> CloseBracket(inp, lx)
    [] CanOperator(inp, lx) -> ScanOperator(inp, lx)
    [] CanIllegal(inp, lx) -> Illegal(inp, lx)

\* One call of the scanner: actions until a token is produced or the text is rejected.
RECURSIVE RunLexer(_, _)
RunLexer(inp, lx) ==
  IF Running(lx) THEN CHOOSE r \in {RunLexer(inp, m) : m \in {LexStep(inp, lx)}} : TRUE ELSE lx
NextToken(inp, lx) == RunLexer(inp, Resume(lx))

-----------------------------------------------------------------------------
\* What must hold in every state.

LexTypeOK(inp, lx) ==
  /\ lx.phase \in Phases /\ lx.pos >= 0
  /\ lx.pend \in Int /\ lx.blank \in BOOLEAN

\* The block columns increase strictly from 0 (C06).
IndentStackOK(lx) ==
  /\ lx.inds # <<>> /\ lx.inds[1] = 0
  /\ \A i \in 1..(Len(lx.inds) - 1) : lx.inds[i] < lx.inds[i + 1]

\* Only the innermost bracket may be closed; the stack holds open brackets only (C07).
BracketStackOK(lx) == \A i \in 1..Len(lx.par) : lx.par[i] \in Openers

\* Line structure is frozen inside brackets (C07).
FrozenInBrackets(lx) ==
  lx.par # <<>> /\ HasToken(lx) => lx.tok[1] \notin {"Newline", "Indent", "Dedent"}

\* The spans of the trivia and of the token follow one another from `from` on; what lies between
\* them is indentation at the start of a line (C01, C09).
LineHead(inp, p) == p = 0 \/ At(inp, p - 1) \in {CR, LF}
RECURSIVE Tiles(_, _, _, _)
Tiles(inp, from, spans, to) ==
  IF spans = <<>> THEN from = to
  ELSE LET s == Head(spans) IN
       /\ s[1] >= from
       /\ s[1] > from => LineHead(inp, from) /\ RunEnd(inp, from, Blanks) = s[1]
       /\ s[2] >= s[1]
       /\ Tiles(inp, s[2], Tail(spans), to)
TokenTiles(inp, from, tok) ==
  Tiles(inp, from, [i \in 1..Len(tok[6]) |-> <<tok[6][i][2], tok[6][i][3]>>] \o << <<tok[2], tok[3]>> >>, tok[3])

\* A token carries exactly the characters it spans (C01, C02, C03, C05).
TokenText(inp, tok) ==
  LET body == Cut(inp, tok[2], tok[3]) IN
  CASE tok[1] \in {"AtomName", "AtomNumber", "TypeComment"} -> tok[4] = body
    [] tok[1] = "AtomString" -> tok[5] \o tok[4] = body
    [] tok[1] \in {"Indent", "Dedent", "EOF"} -> body = <<>>
    [] tok[1] = "Newline" -> body \in {<<CR>>, <<LF>>, <<CR, LF>>}
    [] OTHER -> \/ body \in KwSpellings /\ KwTable[body] = tok[1]
                \/ body \in OpSpellings /\ OpTable[body] = tok[1]
=============================================================================
