From 43519bcc7a8a0aaee52ff80a94e336140133af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 01/42] fix: keep the character after a leading zero out of the
 number token

A decimal literal starting with 0 unconditionally took the character after the
0 into its text, so '0 ', '0)' or '0\n' lost the following character.
---
 src/parser/tokenizer.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b90aaa..cfcfa41 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -741,8 +741,6 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {
                         let mut non_zero = false;
-                        buffer.push( self.source_buffer.get_char() );
-                        let _ = self.source_buffer.advance();
                         while   match self.source_buffer.get_char() {
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
-- 
2.43.0


From 1a5636525077150cd0eed510f3e60db1b680e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 02/42] fix: accept '_' between the digits of a literal
 starting with zero

0_0 and 00_1.5 were split into a number and a name.
---
 src/parser/tokenizer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index cfcfa41..b1886f6 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -742,6 +742,14 @@ impl Tokenizer for PythonCoreTokenizer {
                     _ => {
                         let mut non_zero = false;
                         while   match self.source_buffer.get_char() {
+                            '_' => {
+                                buffer.push( self.source_buffer.get_char() );
+                                let _ = self.source_buffer.advance();
+                                match self.source_buffer.get_char() {
+                                    '0'..='9' => true,
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit after '_'!", &self.get_position()) )
+                                }
+                            },
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
-- 
2.43.0


From 5d4ccf351d471b6d4ce10290fa2ecc2a8ff1a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 03/42] fix: take an exponent into a number only when digits
 follow it

'1e', '1e+' and '1e_5' were accepted as number literals, and '1else' or
'1elif' lost the 'e' of the keyword.
---
 src/parser/tokenizer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index b1886f6..9ec67e7 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -791,8 +791,8 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
-                        match self.source_buffer.get_char() {
-                            'e' | 'E' => {
+                        match self.source_buffer.peek_three_chars() {
+                            ( 'e' | 'E', '0' ..= '9', _ ) | ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                                 non_zero = false;
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
@@ -861,8 +861,8 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => false
                 } {};
-                match self.source_buffer.get_char() {
-                    'e' | 'E' => {
+                match self.source_buffer.peek_three_chars() {
+                    ( 'e' | 'E', '0' ..= '9', _ ) | ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                         buffer.push( self.source_buffer.get_char() );
                         let _ = self.source_buffer.advance();
                         match self.source_buffer.get_char() {
@@ -946,8 +946,8 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {}
                 }
-                match &self.source_buffer.get_char() {
-                    'e' | 'E' => {
+                match self.source_buffer.peek_three_chars() {
+                    ( 'e' | 'E', '0' ..= '9', _ ) | ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                         buffer.push( self.source_buffer.get_char() );
                         let _ = self.source_buffer.advance();
                         match self.source_buffer.get_char() {
-- 
2.43.0


From c1ebcf578477bb435331b1ad95e8b81c77a9f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 04/42] fix: analyse the indentation of a line that follows
 blank or comment lines

The blank-line flag of a skipped line stayed set for the next line, so its
INDENT and DEDENT tokens were never produced.
---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 9ec67e7..d87907d 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -50,6 +50,7 @@ impl Tokenizer for PythonCoreTokenizer {
             match &self.is_at_beginning_of_line {
                 true => {
                     self.is_at_beginning_of_line = false;
+                    is_blank_line = false;
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
-- 
2.43.0


From ce5de4285c4b94b9e91b5c80f4897cb8447ef3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 05/42] fix: keep comments and blank lines in front of an
 INDENT or DEDENT

The trivia collected before an indentation token was thrown away.
---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index d87907d..47dd15a 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -111,11 +111,11 @@ impl Tokenizer for PythonCoreTokenizer {
             match self.pending {
                 _ if self.pending < 0 => {
                     self.pending += 1;
-                    return Ok( Box::new( Token::Dedent(None) ) )
+                    return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ if self.pending > 0 => {
                     self.pending -= 1;
-                    return Ok( Box::new( Token::Indent(None) ) )
+                    return Ok( Box::new( Token::Indent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ => { }
             }
-- 
2.43.0


From 86e80f35010e05731902387fb8bf80acbb034f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 06/42] fix: record the newline characters a skipped line
 really ends with

A bare CR or LF kept as trivia was recorded as CR LF, unlike the Newline token.
---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 47dd15a..252c849 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -203,7 +203,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', ' ') ) );
                             continue 'outer;
                         }
                         else {
@@ -220,7 +220,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\n', ' ') ) );
                             continue 'outer;
                         }
                         else {
-- 
2.43.0


From e9ecc85166275bd217c11e342a67e2033b701e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 07/42] fix: let a backslash escape the next character of a
 string literal

A string ended at an escaped quote, and a backslash-newline inside it was
reported as an unterminated string.
---
 src/parser/tokenizer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 252c849..af00b39 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1017,6 +1017,10 @@ impl Tokenizer for PythonCoreTokenizer {
                     ( '\0', _ , _  ) => {
                         return Err("MORE DATA!".to_string())
                     },
+                    ( '\\', _ , _  ) => {
+                        for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     ( '\r', '\n', _  ) => {
                         for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         true
@@ -1045,6 +1049,14 @@ impl Tokenizer for PythonCoreTokenizer {
                 let _ = self.source_buffer.advance();
                 while match self.source_buffer.get_char() {
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
+                    '\\' => {
+                        match self.source_buffer.peek_three_chars() {
+                            ( _ , '\r', '\n' ) => { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); },
+                            _ => {}
+                        }
+                        for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     _ => {
                         if self.source_buffer.get_char() == quote {
                             buffer.push(self.source_buffer.get_char());
-- 
2.43.0


From 79688ab5ac31323d22be72a8ff9ebeeb5fca9c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 08/42] fix: recognize the bytes prefixes of string literals

b'..', rb'..' and the like were split into a name and a string.
---
 src/parser/tokenizer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index af00b39..fc4ee23 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -627,7 +627,17 @@ impl Tokenizer for PythonCoreTokenizer {
                     "rf" |
                     "rF" |
                     "Rf" |
-                    "RF" if self.source_buffer.get_char() == '\'' || self.source_buffer.get_char() == '"' => {
+                    "RF" |
+                    "b" |
+                    "B" |
+                    "br" |
+                    "Br" |
+                    "bR" |
+                    "BR" |
+                    "rb" |
+                    "rB" |
+                    "Rb" |
+                    "RB" if self.source_buffer.get_char() == '\'' || self.source_buffer.get_char() == '"' => {
                         match self.source_buffer.peek_three_chars() {
                             ( '\'', '\'', '\'' ) |
                             ( '"', '"', '"' ) => {
-- 
2.43.0


From 57391d8ca2483e86da3b6f7219bd916e4fcfdfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 09/42] fix: do not take a NUL character in the source for the
 end of file

Everything after a NUL was silently dropped.
---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index fc4ee23..970317c 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -172,7 +172,7 @@ impl Tokenizer for PythonCoreTokenizer {
 
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
-                    '\0' => {
+                    '\0' if self.source_buffer.get_position() >= self.source_buffer.count() => {
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
-- 
2.43.0


From 915ac1831e09c69021fb2b281bf408f375b9db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 10/42] fix: parse every entry of a dictionary display

The loop over the entries stopped after the second one, so a dictionary with
more than two entries, or two entries and a trailing comma, was rejected.
---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 894b7f4..6e3b5b2 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1176,7 +1176,7 @@ impl Expressions for PythonCoreParser {
                                         },
                                         _ => return Err(format!("SyntaxError at {}: Expecting symbol in argument list expression!", self.lexer.get_position()))
                                     };
-                                    false
+                                    true
                                 },
                                 _ => false
                             }
-- 
2.43.0


From d915d9eb2d809c9c8dbb90a6a46a924b873a1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 11/42] fix: accept the empty dictionary display

'{}' was reported as a syntax error.
---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6e3b5b2..a1074e5 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -185,7 +185,7 @@ impl Expressions for PythonCoreParser {
                                                     _ => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                                 }
                                             },
-                                            None => Err(format!("SyntaxError at {}: Expecting dictionary/set in atom expression!", start_pos))
+                                            None => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                         }
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end marker in dictionary/set atom expression!", start_pos))
-- 
2.43.0


From 61c734340c8732100e1dc4ff322be7a646874bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 12/42] fix: parse the arguments of a call as an argument list

A call was parsed with the rule for subscripts: f(a=1), f(*a), f(**k) and
f(x for x in y) were rejected and f(a:b) was accepted.
---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a1074e5..682ddd3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -841,7 +841,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s2) => {
                                 match &(**s2) {
                                     Token::PyRightParen(..) => { },
-                                    _ => right = Some(self.parse_expressions_subscript_list()?)
+                                    _ => right = Some(self.parse_expressions_arglist()?)
                                 }
                             },
                             _ => return Err(format!("Syntax Error at {} - Expecting symbol in trailer expression!", self.lexer.get_position()))
-- 
2.43.0


From 37b07bcba92d5d4ca5614a5841ef8ff09a90cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 13/42] fix: take the second ':' of a subscript only when it is
 there

---
 src/parser/expressions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 682ddd3..282501e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -952,6 +952,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s3) => {
                                 match &**s3 {
                                     Token::PyRightBracket(..) |
+                                    Token::PyComa(..) |
                                     Token::PyColon(..) => { },
                                     _ => second_node = Some(self.parse_expressions_test()?)
                                 }
@@ -960,7 +961,7 @@ impl Expressions for PythonCoreParser {
                         };
                         match &self.symbol {
                             Ok(s3) => {
-                                match &**s2{
+                                match &**s3 {
                                     Token::PyColon(..) => {
                                         symbol2 = Some(Box::new((**s3).clone()));
                                         let _ = self.advance();
@@ -968,7 +969,7 @@ impl Expressions for PythonCoreParser {
                                             Ok(s4) => {
                                                 match &**s4 {
                                                     Token::PyRightBracket(..) |
-                                                    Token::PyColon(..) => { },
+                                                    Token::PyComa(..) => { },
                                                     _ => third_node = Some(self.parse_expressions_test()?)
                                                 }
                                             },
-- 
2.43.0


From 5d416229de897215ac574239bde16bde6bcb44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 14/42] fix: accept a trailing ',' in a tuple or list display

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 282501e..8a48e49 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -802,6 +802,8 @@ impl Expressions for PythonCoreParser {
                                         match &self.symbol {
                                             Ok(s4) => {
                                                 match &(**s4) {
+                                                    Token::PyRightParen(..) |
+                                                    Token::PyRightBracket(..) => { },
                                                     Token::PyMul(..) => {
                                                         nodes_list.push(self.parse_expressions_star_expr()?)
                                                     },
-- 
2.43.0


From 0622c513f1d295b2db7bbe0f09ea470b365a7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 15/42] fix: accept a trailing ',' in a subscript list

---
 src/parser/expressions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8a48e49..80e3f91 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -915,7 +915,15 @@ impl Expressions for PythonCoreParser {
                             let symbol1 = (**s).clone();
                             separators_list.push( Box::new(symbol1) );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_expressions_subscript()? );
+                            match &self.symbol {
+                                Ok(s2) => {
+                                    match &**s2 {
+                                        Token::PyRightBracket(..) => { },
+                                        _ => nodes_list.push( self.parse_expressions_subscript()? )
+                                    }
+                                },
+                                _ => return Err(format!("Syntax Error at {} - Expecting symbol in subscript list expression!", self.lexer.get_position()))
+                            }
                             true
                         },
                         _ => false
-- 
2.43.0


From 3495c7f2b868f9fc141283aacff41ee5c8451a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 16/42] fix: read the targets of 'for' and 'del' as expressions
 below the comparison level

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 80e3f91..553115a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1010,7 +1010,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         nodes_list.push(self.parse_expressions_star_expr()?)
                     },
-                    _ => nodes_list.push(self.parse_expressions_named_expression()?)
+                    _ => nodes_list.push(self.parse_expressions_expr()?)
                 }
             },
             _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
@@ -1033,7 +1033,7 @@ impl Expressions for PythonCoreParser {
                                             true
                                         },
                                         _ => {
-                                            nodes_list.push(self.parse_expressions_named_expression()?);
+                                            nodes_list.push(self.parse_expressions_expr()?);
                                             true
                                         }
                                     }
-- 
2.43.0


From 29876d2b21bf1adab8af4d277787e4eab686d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 17/42] fix: accept a trailing ',' in the targets of 'del'

---
 src/parser/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 553115a..df60217 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1026,7 +1026,10 @@ impl Expressions for PythonCoreParser {
                             match &self.symbol {
                                 Ok(s2) => {
                                     match &(**s2) {
-                                        Token::PyIn(..) => false,
+                                        Token::PyIn(..) |
+                                        Token::PySemiColon(..) |
+                                        Token::Newline(..) |
+                                        Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
                                             nodes_list.push(self.parse_expressions_star_expr()?);
-- 
2.43.0


From 2e96b06a80c6db71768cd35fb0b09b25a04f5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 18/42] fix: accept a trailing ',' in a test list before ':',
 '=' or a type comment

---
 src/parser/expressions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index df60217..85b2feb 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1076,6 +1076,9 @@ impl Expressions for PythonCoreParser {
                                     match &(**s2) {
                                         Token::Newline(..) |
                                         Token::PySemiColon(..) |
+                                        Token::PyColon(..) |
+                                        Token::PyAssign(..) |
+                                        Token::TypeComment(..) |
                                         Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         _ => {
-- 
2.43.0


From 414b4ebb27dcc8e26e3e225397e66101736c9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 19/42] fix: start a later dictionary or set entry at its own
 position

---
 src/parser/expressions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 85b2feb..86f55a4 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1165,13 +1165,15 @@ impl Expressions for PythonCoreParser {
                                                 Token::PyRightCurly(..) => false,
                                                 Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in set list expression!", self.lexer.get_position())),
                                                 Token::PyPower(..) => {
+                                                    let entry_pos = self.lexer.get_position();
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
+                                                    let entry_pos = self.lexer.get_position();
                                                     let left_node = self.parse_expressions_test()?;
                                                     match &self.symbol {
                                                         Ok(s3) => {
@@ -1180,7 +1182,7 @@ impl Expressions for PythonCoreParser {
                                                                     let symbol3 = (**s3).clone();
                                                                     let _ = self.advance();
                                                                     let right_node = self.parse_expressions_test()?;
-                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(start_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
+                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(entry_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
                                                                     true
                                                                 },
                                                                 _ => return Err(format!("SyntaxError at {}: Expecting ':' in dictionary entry expression!", self.lexer.get_position()))
@@ -1216,10 +1218,11 @@ impl Expressions for PythonCoreParser {
                                                 Token::PyRightCurly(..) => false,
                                                 Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in set list expression!", self.lexer.get_position())),
                                                 Token::PyMul(..) => {
+                                                    let entry_pos = self.lexer.get_position();
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::MulSet(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::MulSet(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
-- 
2.43.0


From fdcea1f0a8a910781663ec95aafee6f9b55889fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 20/42] fix: accept a trailing ',' in a star expression list
 before ')' or a type comment

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 86f55a4..5a7d7bf 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1528,6 +1528,8 @@ impl Expressions for PythonCoreParser {
                                         Token::PySemiColon( .. ) |
                                         Token::Newline( .. ) |
                                         Token::EOF( .. ) |
+                                        Token::PyRightParen( .. ) |
+                                        Token::TypeComment( .. ) |
                                         Token::PyColon( .. ) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
-- 
2.43.0


From 9146c09f043dd7999921b0eeb571c0d0d593c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 21/42] fix: do not accept a default value after '*args' or
 '**kwargs'

---
 src/parser/expressions.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5a7d7bf..6066867 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1577,7 +1577,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                        mul_node = Some( self.parse_expressions_vfp_def()?  );
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1591,7 +1591,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s3.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s4) => {
                                                                     match &**s4 {
@@ -1624,7 +1624,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyPower(..) => {
                         power_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        power_node = Some( self.parse_expressions_var_args_assignments()? );
+                        power_node = Some( self.parse_expressions_vfp_def()? );
                         match &self.symbol {
                             Ok(s2) => {
                                 match &**s2 {
@@ -1689,7 +1689,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                                            mul_node = Some( self.parse_expressions_vfp_def()?  );
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1703,7 +1703,7 @@ impl Expressions for PythonCoreParser {
                                                                                                             Token::PyPower(..) => {
                                                                                                                 power_symbol = Some( s31.clone() );
                                                                                                                 let _ = self.advance();
-                                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                                 match &self.symbol {
                                                                                                                     Ok(s32) => {
                                                                                                                         match &**s32 {
@@ -1737,7 +1737,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyPower(..)) => {
                                                                             power_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                                             match &self.symbol {
                                                                                 Ok(s21) => {
                                                                                     match &**s21 {
@@ -1763,7 +1763,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                            mul_node = Some( self.parse_expressions_vfp_def()?  );
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
@@ -1777,7 +1777,7 @@ impl Expressions for PythonCoreParser {
                                                                                             Token::PyPower(..) => {
                                                                                                 power_symbol = Some( s9.clone() );
                                                                                                 let _ = self.advance();
-                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                 match &self.symbol {
                                                                                                     Ok(s10) => {
                                                                                                         match &**s10 {
@@ -1811,7 +1811,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s7) => {
                                                                     match &**s7 {
-- 
2.43.0


From e8756a8bf0c8aa4e975cd885f6dd1e8199c9c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 22/42] fix: accept a named expression as the condition of if,
 elif and while

---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc937b5..2b3b2cf 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1260,7 +1260,7 @@ impl Statements for PythonCoreParser {
                     Token::PyIf(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1319,7 +1319,7 @@ impl Statements for PythonCoreParser {
                     Token::PyElif(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1381,7 +1381,7 @@ impl Statements for PythonCoreParser {
                     Token::PyWhile(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-- 
2.43.0


From 614ab902b01b34a0fe32a702caa51aebd326f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 23/42] fix: parse an import statement instead of recursing
 without end

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 2b3b2cf..8936989 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -716,7 +716,7 @@ impl Statements for PythonCoreParser {
             Ok(s) => {
                 match &*s {
                     Token::PyImport(..) => {
-                        self.parse_statements_import_stmt()
+                        self.parse_statements_import_name()
                     },
                     Token::PyFrom(..) => {
                         self.parse_statements_import_from()
-- 
2.43.0


From 469c55e7278b05009fe63f6c29a82a3a676de2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 24/42] fix: accept a trailing ',' in a parenthesized list of
 imported names

---
 src/parser/statements.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 8936989..d0e2d02 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -941,8 +941,18 @@ impl Statements for PythonCoreParser {
                         Token::PyComa(..) => {
                             separators_list.push( s );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_statements_import_as_name()? );
-                            true
+                            match self.symbol.clone() {
+                                Ok(s2) => {
+                                    match &*s2 {
+                                        Token::PyRightParen(..) => false,
+                                        _ => {
+                                            nodes_list.push( self.parse_statements_import_as_name()? );
+                                            true
+                                        }
+                                    }
+                                },
+                                _ => return Err(format!("SyntaxError at {}: Expecting symbol in import as names statement!", start_pos))
+                            }
                         },
                         _ => false
                     }
-- 
2.43.0


From 52f100eb0737fab015ac471b42f10548a37eebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 25/42] fix: separate the message of an assert statement with
 ','

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index d0e2d02..5aaea93 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1166,7 +1166,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyFrom(..) => {
+                                    Token::PyComa(..) => {
                                         let symbol2 = s2;
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_test()?;
-- 
2.43.0


From f809bda821fbecdaef28ea6cbd272db0fc4d4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 26/42] fix: build a with item for 'with ... as ...'

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5aaea93..de7d7b5 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1725,7 +1725,7 @@ impl Statements for PythonCoreParser {
                         let symbol = s;
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
+                        Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, Some( (symbol, right_node) )) ))
                     },
                     _ => {
                         Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, None) ))
-- 
2.43.0


From d6a955ae31e2379f66a77c3f02fb314bb33d8951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 27/42] fix: keep 'except' and 'except*' of nested try
 statements apart

---
 src/parser/statements.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index de7d7b5..cbd3186 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1505,7 +1505,7 @@ impl Statements for PythonCoreParser {
                     Token::PyTry(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        self.except_status = ET::ExceptNone;
+                        let outer_status = std::mem::replace(&mut self.except_status, ET::ExceptNone);
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1518,6 +1518,7 @@ impl Statements for PythonCoreParser {
                                                 match &*s3 {
                                                     Token::PyFinally(..) => {
                                                         let right_node = Some( self.parse_statements_finally_stmt()? );
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, None, None, right_node) ))
                                                     },
                                                     _ => {
@@ -1561,6 +1562,7 @@ impl Statements for PythonCoreParser {
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in try statement!", start_pos))
                                                         }
                                                         nodes_list.reverse();
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, Some( nodes_list ), else_node, right_node) ))
                                                     }
                                                 }
-- 
2.43.0


From 606dcfb986d199f45c4c9e18c067c4b6f2ea9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 28/42] fix: require an exception type after 'except*'

---
 src/parser/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index cbd3186..7c83541 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1798,6 +1798,9 @@ impl Statements for PythonCoreParser {
                             Ok(s2) => {
                                 match &*s2 {
                                     Token::PyColon(..) => {
+                                        if symbol_mul.is_some() {
+                                            return Err(format!("SyntaxError at {}: Expecting exception type after 'except*' in except statement!", start_pos))
+                                        }
                                         Ok(Box::new( ASTNode::ExceptClauseStmt(start_pos, self.lexer.get_position(), symbol1, symbol_mul, None) ))
                                     },
                                     _ => {
-- 
2.43.0


From e1c9123fba2027090f75c2be5d5816efcea7e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 29/42] fix: parse a function after 'async def'

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 7c83541..11ac8d0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1238,7 +1238,7 @@ impl Statements for PythonCoreParser {
                             Ok(s) => {
                                 match &*s {
                                     Token::PyDef(..) => {
-                                        let right_node = self.parse_blocks_class_def()?;
+                                        let right_node = self.parse_blocks_func_def()?;
                                         Ok(Box::new( ASTNode::AsyncStmt(start_pos, self.lexer.get_position(), symbol, right_node) ))
                                     },
                                     Token::PyWith(..) => {
-- 
2.43.0


From bb7c26d85b57bac012fb942507fbd8b6d49d2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 30/42] fix: continue after the end of a decorator line

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 135df0a..9720da1 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -250,6 +250,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s5 {
                                     Token::Newline(..) => {
                                         let symbol4 = s5;
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::Decorator(start_pos, self.lexer.get_position(), symbol1, left_node,  symbol2, right_node, symbol3, symbol4) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end of file in function input!", start_pos))
-- 
2.43.0


From 5060f076e7bc6a006e582ed7bf1008555fdd0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 31/42] fix: require the parameters of a function definition

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 9720da1..ee1e2a0 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -360,7 +360,7 @@ impl Blocks for PythonCoreParser {
                                                     Token::PyLeftParen(..) => {
                                                         Some(self.parse_blocks_parameters()?)
                                                     },
-                                                    _ => None
+                                                    _ => return Err(format!("SyntaxError at {}: Expecting '(' in function statement!", start_pos))
                                                 }
                                             },
                                             _ => return Err(format!("SyntaxError at {}: Expecting 'def' in function statement!", start_pos))
-- 
2.43.0


From 3bbb2f1fa07ee5d36315591f001f5bc31946aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 32/42] fix: parse the bases of a class as an argument list

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ee1e2a0..ef6ce31 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -630,7 +630,7 @@ impl Blocks for PythonCoreParser {
                                                             Ok(s5) => {
                                                                 match &*s5 {
                                                                     Token::PyRightParen(..) => None,
-                                                                    _ => Some(self.parse_expressions_var_args_list()?)
+                                                                    _ => Some(self.parse_expressions_arglist()?)
                                                                 }
                                                             },
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in class statement!", start_pos))
-- 
2.43.0


From 12e34fc7ff288c8fbbc161897f4a3d134421db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 33/42] fix: close all blocks at the end of the file after a
 last line of blanks only

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 970317c..c057fb2 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -84,6 +84,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 is_blank_line = true
                             }
                         },
+                        '\0' if self.source_buffer.get_position() >= self.source_buffer.count() => col = 0u32,
                         _ => { }
                     }
 
-- 
2.43.0


From fcf14cfed81ea635b1b2e19915d118a22a686244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 34/42] fix: reject a decimal digit inside an octal or binary
 number

---
 src/parser/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index c057fb2..b674da4 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -718,6 +718,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 let _ = self.source_buffer.advance();
                                 true
                             },
+                            '8' | '9' => return Err( format!("Syntax Error at {} - Invalid digit in octal number!", self.get_position()) ),
                             _ => false
                         } {};
                     },
@@ -748,6 +749,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 let _ = self.source_buffer.advance();
                                 true
                             },
+                            '2' ..= '9' => return Err( format!("Syntax Error at {} - Invalid digit in binary number!", self.get_position()) ),
                             _ => false
                         } {};
                     },
-- 
2.43.0


From f4fa729cf5c5d806817d19eaea17379ba6c8702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 35/42] fix: accept a trailing comma in the parameters of a
 lambda

---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6066867..10df547 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1606,6 +1606,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
@@ -1668,6 +1669,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 coma_found = true;
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1718,6 +1720,7 @@ impl Expressions for PythonCoreParser {
                                                                                                                 }
                                                                                                                 false
                                                                                                             },
+                                                                                                            Token::PyColon(..) => false,
                                                                                                             _ => {
                                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                                 true
@@ -1792,6 +1795,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 }
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1826,6 +1830,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
-- 
2.43.0


From bc2107dadb03f3c37c1e2063221b8fefba62128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 36/42] fix: accept a bare '*' before keyword only parameters
 of a lambda

---
 src/parser/expressions.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 10df547..16b6230 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1577,7 +1577,14 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_vfp_def()?  );
+                        match &self.symbol {
+                            Ok(comma) if matches!(**comma, Token::PyComa(..)) => { /* Keyword only parameters follow a bare '*' */
+                                separators_list.push( comma.clone() );
+                                let _ = self.advance();
+                                nodes_list.push( self.parse_expressions_var_args_assignments()? );
+                            },
+                            _ => mul_node = Some( self.parse_expressions_vfp_def()? )
+                        }
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1691,7 +1698,14 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_vfp_def()?  );
+                                                                            match &self.symbol {
+                                                                                Ok(comma) if matches!(**comma, Token::PyComa(..)) => { /* Keyword only parameters follow a bare '*' */
+                                                                                    separators_list.push( comma.clone() );
+                                                                                    let _ = self.advance();
+                                                                                    nodes_list.push( self.parse_expressions_var_args_assignments()? );
+                                                                                },
+                                                                                _ => mul_node = Some( self.parse_expressions_vfp_def()? )
+                                                                            }
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1766,7 +1780,14 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_vfp_def()?  );
+                                                            match &self.symbol {
+                                                                Ok(comma) if matches!(**comma, Token::PyComa(..)) => { /* Keyword only parameters follow a bare '*' */
+                                                                    separators_list.push( comma.clone() );
+                                                                    let _ = self.advance();
+                                                                    nodes_list.push( self.parse_expressions_var_args_assignments()? );
+                                                                },
+                                                                _ => mul_node = Some( self.parse_expressions_vfp_def()? )
+                                                            }
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
-- 
2.43.0


From cbb91d29bb887faabc77cfbd1af0295ba3b1cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 37/42] fix: report an error for a match statement instead of
 panicking

---
 src/parser/patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 3e7eecd..5f2c7c2 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -9,7 +9,7 @@ pub trait Patterns {
 
 impl Patterns for PythonCoreParser {
     fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        todo!()
+        Err("SyntaxError: The match statement is not supported!".to_string())
     }
 }
 
-- 
2.43.0


From d99e5b2f691cb5a08d29a3429495111a9be8e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 38/42] fix: report a dedent to a column that matches no open
 block

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index b674da4..7a5d0ba 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -99,7 +99,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 self.indent_stack.pop();
                                 self.pending -= 1;
                             }
-                            if self.indent_stack.is_empty() || col < match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
+                            if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
                                 return Err("Inconsistent indentation level in block control!".to_string())
                             }
                         }
-- 
2.43.0


From 1f8c75b7911f207d7e19d2f1e0dfcf09e95cdefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 39/42] fix: accept an unparenthesized named expression in a
 set display or subscript

---
 src/parser/expressions.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 16b6230..fa55190 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -947,15 +947,19 @@ impl Expressions for PythonCoreParser {
             Ok(s) => {
                 match &**s {
                     Token::PyColon(..) => { },
-                    _ => first_node = Some(self.parse_expressions_test()?)
+                    _ => first_node = Some(self.parse_expressions_named_expression()?)
                 }
             },
             _ => return Err(format!("Syntax Error at {} - Expecting symbol in subscript expression!", self.lexer.get_position()))
         };
+        let is_named = match &first_node {
+            Some(node) => matches!(**node, ASTNode::NamedExpr(..)),
+            _ => false
+        };
         match &self.symbol.clone() {
             Ok(s2) => {
                 match &**s2{
-                    Token::PyColon(..) => {
+                    Token::PyColon(..) if is_named == false => {
                         symbol1 = Some(Box::new((**s2).clone()));
                         let _ = self.advance();
                         match &self.symbol {
@@ -1126,11 +1130,11 @@ impl Expressions for PythonCoreParser {
                         nodes_list.push( Box::new( ASTNode::PowerDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), right_node) ) )
                     },
                     _ => {
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match &self.symbol {
                             Ok(s2) => {
                                 match &**s2 {
-                                    Token::PyColon(..) => {
+                                    Token::PyColon(..) if matches!(*left_node, ASTNode::NamedExpr(..)) == false => {
                                         let symbol2 = (**s2).clone();
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_test()?;
@@ -1226,7 +1230,7 @@ impl Expressions for PythonCoreParser {
                                                     true
                                                 },
                                                 _ => {
-                                                    nodes_list.push( self.parse_expressions_test()? );
+                                                    nodes_list.push( self.parse_expressions_named_expression()? );
                                                     true
                                                 }
                                             }
-- 
2.43.0


From 063b07f1bb24cd54ebb8cb6482e963824edb51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 40/42] fix: a NUL character after a backslash in a string is
 an error like any other NUL

---
 src/parser/tokenizer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7a5d0ba..abc24a6 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1030,6 +1030,9 @@ impl Tokenizer for PythonCoreTokenizer {
                     ( '\0', _ , _  ) => {
                         return Err("MORE DATA!".to_string())
                     },
+                    ( '\\', '\0', _  ) => {
+                        return Err("MORE DATA!".to_string())
+                    },
                     ( '\\', _ , _  ) => {
                         for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         true
@@ -1064,6 +1067,7 @@ impl Tokenizer for PythonCoreTokenizer {
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
                     '\\' => {
                         match self.source_buffer.peek_three_chars() {
+                            ( _ , '\0', _ ) => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
                             ( _ , '\r', '\n' ) => { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); },
                             _ => {}
                         }
-- 
2.43.0


From f29181466a82bd7688e4e573a6e3c7e87f709da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 41/42] fix: a form feed is white space

---
 src/parser/tokenizer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index abc24a6..165adcd 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -61,6 +61,10 @@ impl Tokenizer for PythonCoreTokenizer {
                                 col = (col / self.tab_size + 1) * self.tab_size;
                                 true
                             },
+                            '\u{c}' => {
+                                col = 0;
+                                true
+                            },
                             _ => false
                             } {
                         let _ = self.source_buffer.advance();
@@ -142,6 +146,12 @@ impl Tokenizer for PythonCoreTokenizer {
                                 trivia_collector.push(Box::new( Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), '\t') ) );
                                 true
                             },
+                            '\u{c}' => {
+                                self.token_start_position = self.source_buffer.get_position();
+                                let _ = self.source_buffer.advance();
+                                trivia_collector.push(Box::new( Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), '\u{c}') ) );
+                                true
+                            },
                             _ => false
                         } {};
 
-- 
2.43.0


From 8f2b88ab0a0821996376d5abf9423e0950b0f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 42/42] fix: the error for a match statement says where it is

---
 src/parser/patterns.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 5f2c7c2..48bfe88 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -1,5 +1,5 @@
 
-use crate::{ ASTNode, PythonCoreParser };
+use crate::{ ASTNode, PythonCoreParser, Tokenizer };
 
 
 pub trait Patterns {
@@ -9,7 +9,7 @@ pub trait Patterns {
 
 impl Patterns for PythonCoreParser {
     fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        Err("SyntaxError: The match statement is not supported!".to_string())
+        Err(format!("SyntaxError at {}: The match statement is not supported!", self.lexer.get_position()))
     }
 }
 
-- 
2.43.0

