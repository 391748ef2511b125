From e4f66ce4d6f369f86552d65213f5141632f87e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 01/30] fix: give tokens the line and column they start at

---
 giron/src/scanner/scanner.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9b5472b..d764296 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -22,6 +22,8 @@ pub enum Brace {
 
 struct ScannerState {
     start: usize,
+    start_line: usize,
+    start_col: usize,
     current: usize,
     line: usize,
     col: usize,
@@ -32,6 +34,8 @@ struct ScannerState {
 
 pub struct Scanner<I> {
     pub start: usize,
+    start_line: usize,
+    start_col: usize,
     pub current: usize,
     pub line: usize,
     pub col: usize,
@@ -51,6 +55,8 @@ where
     pub fn new(source: I) -> Self {
         Scanner {
             start: 0,
+            start_line: 1,
+            start_col: 1,
             current: 0,
             line: 1,
             col: 1,
@@ -953,6 +959,9 @@ where
                 self.raw_string.push(cp);
             }
         }
+        if cp.is_none() {
+            return cp;
+        }
         self.current += 1;
         self.col += 1;
         match (cp, self.peek()) {
@@ -968,8 +977,9 @@ where
     }
 
     fn start_new_token(&mut self) {
-        self.col = 1;
         self.start = self.current;
+        self.start_line = self.line;
+        self.start_col = self.col;
     }
 
     fn start_recording(&mut self) {
@@ -1001,10 +1011,10 @@ where
             cooked,
             head,
             tail,
-            line_num: self.line,
-            col: self.col,
+            line_num: self.start_line,
+            col: self.start_col,
             start: self.start,
-            end: self.current - 1,
+            end: self.current,
         })
     }
 
@@ -1038,6 +1048,8 @@ where
         // }
         self.state = Some(ScannerState {
             start: self.start,
+            start_line: self.start_line,
+            start_col: self.start_col,
             current: self.current,
             line: self.line,
             col: self.col,
@@ -1052,6 +1064,8 @@ where
         match state {
             Some(state) => {
                 self.start = state.start;
+                self.start_line = state.start_line;
+                self.start_col = state.start_col;
                 self.current = state.current;
                 self.line = state.line;
                 self.col = state.col;
-- 
2.43.0


From 63088c65a768a3a25532dc9b13f77c7826f197cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 02/30] fix: detect line terminators between tokens, not inside
 them

---
 giron/src/parser/parser.rs   | 5 ++---
 giron/src/scanner/scanner.rs | 4 ++++
 giron/src/token/token.rs     | 2 ++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6353f17..2a90ab2 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -565,7 +565,7 @@ where
                 match &next_token.tokentype {
                     TokenType::Keyword
                         if next_token.matches_str("function")
-                            && self.current.line_num == next_token.line_num =>
+                            && !next_token.newline_before =>
                     {
                         self.scanner.restore_state(next_token);
                         self.with_default(false, &mut Self::parse_hoistable_dclr)
@@ -4018,9 +4018,8 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
-        let prev_line_num = self.current.line_num;
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
-        self.has_line_terminator = self.current.line_num > prev_line_num;
+        self.has_line_terminator = self.current.newline_before;
         Ok(token)
     }
 
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d764296..0d2ef86 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -40,6 +40,7 @@ pub struct Scanner<I> {
     pub line: usize,
     pub col: usize,
     pub newline: bool,
+    newline_before: bool,
     reader: Reader<I>,
     record_raw: bool,
     raw_string: String,
@@ -61,6 +62,7 @@ where
             line: 1,
             col: 1,
             newline: false,
+            newline_before: false,
             reader: Reader::new(source),
             record_raw: false,
             raw_string: String::with_capacity(8),
@@ -78,6 +80,7 @@ where
 
         self.newline = false;
         self.scan_comments();
+        self.newline_before = self.newline;
         self.start_new_token();
 
         match self.peek2() {
@@ -1015,6 +1018,7 @@ where
             col: self.start_col,
             start: self.start,
             end: self.current,
+            newline_before: self.newline_before,
         })
     }
 
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index fea3a0b..c2392a5 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -29,4 +29,6 @@ pub struct Token {
     pub col: usize,
     pub start: usize,
     pub end: usize,
+    /// Whether a line terminator separates this token from the previous one.
+    pub newline_before: bool,
 }
-- 
2.43.0


From 022cefc54800c6f2ba61635ebf3881c6553a796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 03/30] fix: reinstate the scanner state when a token read
 ahead is read again

---
 giron/src/scanner/scanner.rs | 57 ++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 0d2ef86..973d98b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -45,7 +45,7 @@ pub struct Scanner<I> {
     record_raw: bool,
     raw_string: String,
     curly_stack: Vec<Brace>,
-    unscanned: Option<Token>,
+    unscanned: Option<(Token, ScannerState)>,
     state: Option<ScannerState>,
 }
 
@@ -73,9 +73,9 @@ where
     }
 
     pub fn next(&mut self, goal: LexGoal) -> Result<Token> {
-        if let Some(_) = self.unscanned {
-            let token = mem::replace(&mut self.unscanned, None);
-            return Ok(token.unwrap());
+        if let Some((token, state_after)) = self.unscanned.take() {
+            self.set_state(state_after);
+            return Ok(token);
         }
 
         self.newline = false;
@@ -1040,17 +1040,8 @@ where
         }
     }
 
-    pub fn save_state(&mut self) {
-        // struct ScannerState {
-        //     start: usize,
-        //     current: usize,
-        //     line: usize,
-        //     col: usize,
-        //     newline: bool,
-        //     raw_string: String,
-        //     curly_stack: Vec<Brace>,
-        // }
-        self.state = Some(ScannerState {
+    fn get_state(&self) -> ScannerState {
+        ScannerState {
             start: self.start,
             start_line: self.start_line,
             start_col: self.start_col,
@@ -1060,23 +1051,33 @@ where
             newline: self.newline,
             raw_string: self.raw_string.clone(),
             curly_stack: self.curly_stack.clone(),
-        });
+        }
+    }
+
+    fn set_state(&mut self, state: ScannerState) {
+        self.start = state.start;
+        self.start_line = state.start_line;
+        self.start_col = state.start_col;
+        self.current = state.current;
+        self.line = state.line;
+        self.col = state.col;
+        self.newline = state.newline;
+        self.raw_string = state.raw_string;
+        self.curly_stack = state.curly_stack;
+    }
+
+    pub fn save_state(&mut self) {
+        self.state = Some(self.get_state());
     }
 
+    /// Put back a token read ahead. The state after the token is kept with it, and
+    /// reinstated when the token is read again.
     pub fn restore_state(&mut self, token: Token) {
-        let state = mem::replace(&mut self.state, None);
-        match state {
+        match self.state.take() {
             Some(state) => {
-                self.start = state.start;
-                self.start_line = state.start_line;
-                self.start_col = state.start_col;
-                self.current = state.current;
-                self.line = state.line;
-                self.col = state.col;
-                self.newline = state.newline;
-                self.raw_string = state.raw_string;
-                self.curly_stack = state.curly_stack;
-                self.unscanned = Some(token);
+                let state_after = self.get_state();
+                self.set_state(state);
+                self.unscanned = Some((token, state_after));
             }
             None => panic!("Trying to restore an unsaved state."),
         }
-- 
2.43.0


From 2df008d739e0a392218def0fb3e45ce50c294616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 04/30] fix: report an invalid first token instead of panicking

---
 giron/src/parser/parser.rs | 13 ++++++++++++-
 giron/src/token/token.rs   | 21 +++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2a90ab2..807d547 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -75,6 +75,7 @@ pub struct Parser<I> {
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
+    pending_error: Option<Error>,
 }
 
 impl<I> Parser<I>
@@ -83,7 +84,10 @@ where
 {
     pub fn new(source: I) -> Self {
         let mut scanner = Scanner::new(source);
-        let current = scanner.next(LexGoal::RegExp).unwrap();
+        let (current, pending_error) = match scanner.next(LexGoal::RegExp) {
+            Ok(token) => (token, None),
+            Err(error) => (Token::eof(), Some(error)),
+        };
 
         Parser {
             scanner,
@@ -99,6 +103,7 @@ where
             params_stack: vec![],
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
+            pending_error,
         }
     }
 
@@ -109,6 +114,9 @@ where
     /// Parse source as an ECMAScript script.
     pub fn parse_script(&mut self) -> Result<Node> {
         log!("parse_script");
+        if let Some(error) = self.pending_error.take() {
+            return Err(error);
+        }
         self.goal = SyntaxGoal::Script;
         self.start_span();
         let mut body = self.parse_directive_prologues()?;
@@ -123,6 +131,9 @@ where
     /// Parse source as an ECMAScript module.
     pub fn parse_module(&mut self) -> Result<Node> {
         log!("parse_module");
+        if let Some(error) = self.pending_error.take() {
+            return Err(error);
+        }
         self.goal = SyntaxGoal::Module;
         self.start_span();
         self.ctx.strict = true;
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index c2392a5..26940c0 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -32,3 +32,24 @@ pub struct Token {
     /// Whether a line terminator separates this token from the previous one.
     pub newline_before: bool,
 }
+
+impl Token {
+    /// An end of input token at the start of the source.
+    pub fn eof() -> Self {
+        Token {
+            tokentype: TokenType::Eof,
+            value: Value::Null,
+            pattern: None,
+            flags: None,
+            octal: None,
+            cooked: None,
+            head: None,
+            tail: None,
+            line_num: 1,
+            col: 1,
+            start: 0,
+            end: 0,
+            newline_before: false,
+        }
+    }
+}
-- 
2.43.0


From 4d0acdde8a9c62cd81532c207a4b7050b62b626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 05/30] fix: report the current token as unexpected without
 scanning past it

---
 giron/src/parser/parser.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 807d547..2868a9d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -296,12 +296,7 @@ where
                 }
                 _ => {
                     if this.scanner.is_keyword(&name) {
-                        let token = this.advance(LexGoal::RegExp)?;
-                        return Err(Error {
-                            line: token.line_num,
-                            col: token.col,
-                            errortype: ErrorType::UnexpectedReserved,
-                        });
+                        return this.error_current(ErrorType::UnexpectedReserved);
                     }
                     let imported = Identifier {
                         name: name.clone(),
@@ -558,8 +553,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
-                    self.error(token, ErrorType::IllegalReturn)
+                    self.error_current(ErrorType::IllegalReturn)
                 }
             }
             TokenType::Keyword if self.current.matches_str("with") => self.parse_with_stmt(),
@@ -635,8 +629,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
-                    self.error(token, ErrorType::IllegalReturn)
+                    self.error_current(ErrorType::IllegalReturn)
                 }
             }
             TokenType::Keyword if self.current.matches_str("with") => self.parse_with_stmt(),
@@ -4130,8 +4123,7 @@ where
     }
 
     fn error_current<T>(&mut self, errortype: ErrorType) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
-        self.error(token, errortype)
+        self.error(self.current.clone(), errortype)
     }
 
     fn unexpected<T>(&self, token: Token) -> Result<T> {
@@ -4145,8 +4137,7 @@ where
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
-        self.unexpected(token)
+        self.unexpected(self.current.clone())
     }
 }
 
-- 
2.43.0


From 4bf7c7e7e4566b9783458fc9d46564c67c623ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 06/30] fix: scan numeric literals to their exact value and
 reject malformed ones

---
 giron/src/scanner/scanner.rs | 153 ++++++++++++++++++-----------------
 giron/src/token/token.rs     |   3 +
 2 files changed, 82 insertions(+), 74 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 973d98b..c043ae1 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -288,83 +288,96 @@ where
     // *******************************************************************
 
     pub fn scan_numeric_literal(&mut self) -> Result<Token> {
+        let mut octal = false;
+        self.start_recording();
         let value = match self.peek2() {
             (Some('0'), Some('b')) | (Some('0'), Some('B')) => self.scan_radix_literal(2),
             (Some('0'), Some('o')) | (Some('0'), Some('O')) => self.scan_radix_literal(8),
             (Some('0'), Some('x')) | (Some('0'), Some('X')) => self.scan_radix_literal(16),
-            (Some('0'), Some(cp)) if cp != '.' => {
-                let val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
-                    this.consume().ok_or(Error {
-                        line: this.line,
-                        col: this.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })
-                })?;
+            (Some('0'), Some(cp)) if cp.is_decimal_digit() => {
                 // A number starting with 0 can either be octal or decimal.
-                i64::from_str_radix(&val, 8)
-                    .or_else(|_| {
-                        i64::from_str_radix(&val, 10)
-                        // TODO: Scan dot and exponent
-                    })
-                    .map(|i| i as f64)
-                    .map_err(|_| Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::InvalidOrUnexpectedToken,
-                    })
-            }
-            (Some(cp), _) if cp.is_decimal_digit() => {
-                // scan decimal digit
-                let mut val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
-                    this.consume().ok_or(Error {
-                        line: this.line,
-                        col: this.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })
-                })?;
-                // scan potential dot
-                if self.matches('.') {
-                    self.scan_fractional_part(val)
+                octal = true;
+                let val = self.scan_decimal_digits()?;
+                if val.chars().all(|cp| cp.is_octal_digit()) {
+                    Ok(Self::radix_value(&val, 8))
                 } else {
-                    val.push_str(&self.scan_exponent()?);
-                    val.parse().map_err(|_| Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::InvalidOrUnexpectedToken,
-                    })
+                    self.scan_decimal_rest(val)
                 }
             }
-            (Some('.'), _) => {
-                let val = String::new();
-                self.scan_fractional_part(val)
+            (Some(cp), _) if cp.is_decimal_digit() => {
+                let val = self.scan_decimal_digits()?;
+                self.scan_decimal_rest(val)
             }
+            (Some('.'), _) => self.scan_fractional_part(String::new()),
             (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
         }?;
+        let raw = self.stop_recording();
 
-        self.token_simple(TokenType::NumericLiteral, Value::Num(value))
-    }
+        // A numeric literal may not be directly followed by an identifier or a digit.
+        match self.peek() {
+            Some(cp) if cp == '\\' || cp.is_identifier_start() || cp.is_decimal_digit() => {
+                return self.error(ErrorType::InvalidOrUnexpectedToken)
+            }
+            _ => (),
+        }
 
-    fn scan_fractional_part(&mut self, mut value: String) -> Result<f64> {
-        self.expect('.')?;
-        value.push('.');
+        let mut token = self.token_simple(TokenType::NumericLiteral, Value::Num(value))?;
+        token.octal = Some(octal);
+        token.raw = Some(raw);
+        Ok(token)
+    }
 
-        // scan decimal digits
-        let fractional = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
+    fn scan_decimal_digits(&mut self) -> Result<String> {
+        self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
             this.consume().ok_or(Error {
                 line: this.line,
                 col: this.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
+                errortype: ErrorType::UnexpectedEOS,
             })
-        })?;
+        })
+    }
 
-        value.push_str(&fractional);
+    /// Scans what may follow the integer part of a decimal literal.
+    fn scan_decimal_rest(&mut self, mut value: String) -> Result<f64> {
+        if self.matches('.') {
+            return self.scan_fractional_part(value);
+        }
+        value.push_str(&self.scan_exponent()?);
+        self.parse_decimal(&value)
+    }
+
+    fn scan_fractional_part(&mut self, mut value: String) -> Result<f64> {
+        self.expect('.')?;
+        value.push('.');
+        value.push_str(&self.scan_decimal_digits()?);
         value.push_str(&self.scan_exponent()?);
+        self.parse_decimal(&value)
+    }
+
+    fn parse_decimal(&self, value: &str) -> Result<f64> {
         // We use parse here instead of from_str_radix for convenience
-        value.parse().map_err(|_| Error {
-            line: self.line,
-            col: self.col,
-            errortype: ErrorType::InvalidOrUnexpectedToken,
-        })
+        value.parse().or_else(|_| self.error(ErrorType::InvalidOrUnexpectedToken))
+    }
+
+    /// The value of digits in a radix which is a power of two, rounded once.
+    fn radix_value(digits: &str, radix: u32) -> f64 {
+        let mut mantissa: u64 = 0;
+        let mut exponent: i32 = 0;
+        let mut sticky = 0;
+        for digit in digits.chars().filter_map(|cp| cp.to_digit(radix)) {
+            let mut mask = radix >> 1;
+            while mask > 0 {
+                let bit = (digit & mask != 0) as u64;
+                if mantissa >> 63 == 0 {
+                    mantissa = mantissa << 1 | bit;
+                } else {
+                    exponent = exponent.saturating_add(1);
+                    sticky |= bit;
+                }
+                mask >>= 1;
+            }
+        }
+        (mantissa | sticky) as f64 * 2f64.powi(exponent)
     }
 
     fn scan_exponent(&mut self) -> Result<String> {
@@ -377,13 +390,10 @@ where
                     Some('+') | Some('-') => value.push(self.consume().unwrap()),
                     _ => (),
                 };
-                let exponent = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
-                    this.consume().ok_or(Error {
-                        line: this.line,
-                        col: this.col,
-                        errortype: ErrorType::InvalidOrUnexpectedToken,
-                    })
-                })?;
+                let exponent = self.scan_decimal_digits()?;
+                if exponent.is_empty() {
+                    return self.error(ErrorType::InvalidOrUnexpectedToken);
+                }
                 value.push_str(&exponent);
                 Ok(value)
             }
@@ -392,25 +402,19 @@ where
     }
 
     fn scan_radix_literal(&mut self, radix: u32) -> Result<f64> {
-        // NOTE: This function consumes as many hex digits as possible.
-        // Can this lead to Err for valid ECMAScript?
         self.expect('0')?;
         self.consume(); // b | B | o | O | x | X
-        let value = self.scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
+        let value = self.scan_until_with(|cp| !cp.is_digit(radix), &mut |this| {
             this.consume().ok_or(Error {
                 line: this.line,
                 col: this.col,
                 errortype: ErrorType::InvalidOrUnexpectedToken,
             })
         })?;
-
-        i64::from_str_radix(&value, radix)
-            .map(|i| i as f64)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
+        if value.is_empty() {
+            return self.error(ErrorType::InvalidOrUnexpectedToken);
+        }
+        Ok(Self::radix_value(&value, radix))
     }
 
     // *******************************************************************
@@ -1012,6 +1016,7 @@ where
             flags,
             octal,
             cooked,
+            raw: None,
             head,
             tail,
             line_num: self.start_line,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index 26940c0..fc23a93 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -23,6 +23,8 @@ pub struct Token {
     pub flags: Option<Vec<char>>,
     pub octal: Option<bool>,
     pub cooked: Option<String>,
+    /// The source text of a literal.
+    pub raw: Option<String>,
     pub head: Option<bool>,
     pub tail: Option<bool>,
     pub line_num: usize,
@@ -43,6 +45,7 @@ impl Token {
             flags: None,
             octal: None,
             cooked: None,
+            raw: None,
             head: None,
             tail: None,
             line_num: 1,
-- 
2.43.0


From 8e5dede15957bdb7692799d3a7ca3d2d80b8f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 07/30] fix: process string escapes and unicode escapes as the
 standard says

---
 giron/src/scanner/scanner.rs | 279 ++++++++++++++++-------------------
 1 file changed, 130 insertions(+), 149 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index c043ae1..e6ef9e1 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -203,45 +203,54 @@ where
     /// "\" "u" HexDigit HexDigit HexDigit HexDigit
     /// "\" "u" "{" HexDigits "}"
     fn scan_unicode_esc_seq(&mut self) -> Result<char> {
-        self.expect('\\')?;
-        self.expect('u')?;
+        let value = self.scan_unicode_esc_seq_value()?;
+        char::from_u32(value).ok_or(Error {
+            line: self.line,
+            col: self.col,
+            errortype: ErrorType::InvalidUnicodeEscapeSequence,
+        })
+    }
 
-        if self.matches('{') {
-            self.consume();
-            // reduce scanned chars to u32
-            let value = self
-                .scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
-                    this.consume().ok_or(Error {
-                        line: this.line,
-                        col: this.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })
-                })?
-                .chars()
-                .fold(0, |value, cp| value * 16 + cp.to_digit(16).unwrap());
-            // consume "}"
-            self.expect('}')?;
-            char::from_u32(value).ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidUnicodeEscapeSequence,
-            })
-        } else {
-            let mut value = 0;
-            for _ in 0..4 {
-                match self.consume() {
-                    Some(cp) if cp.is_hex_digit() => {
-                        value = value * 16 + cp.to_digit(16).unwrap();
-                    }
-                    _ => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
+    /// Scans a unicode escape sequence, or two which are a surrogate pair.
+    fn scan_unicode_esc_seq_pair(&mut self) -> Result<char> {
+        let mut value = self.scan_unicode_esc_seq_value()?;
+        if let 0xd800..=0xdbff = value {
+            if self.peek2() == (Some('\\'), Some('u')) {
+                if let low @ 0xdc00..=0xdfff = self.scan_unicode_esc_seq_value()? {
+                    value = 0x10000 + ((value - 0xd800) << 10) + (low - 0xdc00);
                 }
             }
-            char::from_u32(value).ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
         }
+        char::from_u32(value).ok_or(Error {
+            line: self.line,
+            col: self.col,
+            errortype: ErrorType::InvalidUnicodeEscapeSequence,
+        })
+    }
+
+    fn scan_unicode_esc_seq_value(&mut self) -> Result<u32> {
+        self.expect('\\')?;
+        if !self.matches('u') {
+            return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+        }
+        self.consume();
+        if !self.matches('{') {
+            return self.scan_hex_digits(4);
+        }
+        self.consume();
+        let mut value = self.scan_hex_digits(1)?;
+        while let Some(digit) = self.peek().and_then(|cp| cp.to_digit(16)) {
+            self.consume();
+            value = value * 16 + digit;
+            if value > 0x10ffff {
+                return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+            }
+        }
+        if !self.matches('}') {
+            return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+        }
+        self.consume();
+        Ok(value)
     }
 
     /// Check whether value is a keyword or future reserved word
@@ -422,143 +431,115 @@ where
     // *******************************************************************
 
     pub fn scan_string_literal(&mut self) -> Result<Token> {
-        let quote;
+        let mut value = String::new();
         let mut octal = false;
-        match self.peek() {
-            Some('\'') | Some('"') => quote = self.consume().unwrap(),
+        self.start_recording();
+        let quote = match self.peek() {
+            Some('\'') | Some('"') => self.consume().unwrap(),
             _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
-        }
-
-        let value = self.scan_until_with(|cp| cp == quote, &mut |this| {
-            let (res, is_octal) = this.scan_string_literal_cp();
-            octal = octal || is_octal;
-            res
-        })?;
-
-        self.expect(quote)?;
-        self.token(
-            TokenType::StringLiteral,
-            Value::Str(value),
-            None,
-            None,
-            Some(octal),
-            None,
-            None,
-            None,
-        )
-    }
-
-    fn scan_string_literal_cp(&mut self) -> (Result<char>, bool) {
+        };
         loop {
             match self.peek2() {
-                (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
-                    self.consume();
-                    let val = self.consume().map(|esc| esc.unescape()).ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    });
-                    return (val, false);
-                }
-                (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
-                    self.consume(); // consume "\"
-                    if let (Some('\r'), Some('\n')) = self.peek2() {
-                        self.consume(); // consume "\r" if <CR><LF>
-                    }
-                    self.consume(); // consume line terminator
+                (Some(cp), _) if cp == quote => break,
+                (Some('\\'), Some(cp)) if cp.is_line_terminator() => self.scan_line_continuation(),
+                (Some('\\'), Some(cp)) if cp.is_decimal_digit() => {
+                    let (cp, is_octal) = self.scan_octal_esc_seq()?;
+                    octal = octal || is_octal;
+                    value.push(cp);
                 }
-                (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
-                (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
-                (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
-                    return (self.scan_octal_esc_seq(), true)
+                (Some('\\'), _) => value.push(self.scan_esc_seq()?),
+                // U+2028 and U+2029 may occur in string literals since ES2019
+                (Some('\n'), _) | (Some('\r'), _) | (None, _) => {
+                    return self.error(ErrorType::InvalidOrUnexpectedToken)
                 }
-                (Some('\\'), Some(_)) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (Some(cp), _) if cp.is_line_terminator() => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
-                }
-                (Some(_), _) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (_, _) => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
+                (Some(cp), _) => {
+                    self.consume();
+                    value.push(cp);
                 }
             }
         }
+        self.expect(quote)?;
+        let raw = self.stop_recording();
+        let mut token = self.token_simple(TokenType::StringLiteral, Value::Str(value))?;
+        token.octal = Some(octal);
+        token.raw = Some(raw);
+        Ok(token)
     }
 
-    fn scan_octal_esc_seq(&mut self) -> Result<char> {
-        self.consume();
+    fn scan_line_continuation(&mut self) {
+        self.consume(); // consume "\"
+        if let (Some('\r'), Some('\n')) = self.peek2() {
+            self.consume(); // consume "\r" if <CR><LF>
+        }
+        self.consume(); // consume line terminator
+    }
 
-        let value = self.scan_until_with(|cp| !cp.is_octal_digit(), &mut |this| {
-            this.consume().ok_or(Error {
-                line: this.line,
-                col: this.col,
-                errortype: ErrorType::UnexpectedEOS,
-            })
-        })?;
+    /// Scans an escape sequence which is neither a line continuation nor octal.
+    fn scan_esc_seq(&mut self) -> Result<char> {
+        match self.peek2() {
+            (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
+            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq_pair(),
+            (Some('\\'), Some(_)) => {
+                self.consume();
+                self.consume().map(|esc| esc.unescape()).ok_or(Error {
+                    line: self.line,
+                    col: self.col,
+                    errortype: ErrorType::UnexpectedEOS,
+                })
+            }
+            (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
+        }
+    }
 
-        let mv = i64::from_str_radix(&value, 8)
-            .map(|i| i as u32)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })?;
+    /// Scans a decimal digit escape, and tells whether it is forbidden in strict mode.
+    fn scan_octal_esc_seq(&mut self) -> Result<(char, bool)> {
+        self.expect('\\')?;
+        let max_len = match self.peek() {
+            Some('0'..='3') => 3,
+            Some('4'..='7') => 2,
+            // "\8" and "\9" stand for themselves
+            _ => return Ok((self.consume().unwrap_or('\0'), true)),
+        };
+        let mut digits = String::new();
+        while digits.len() < max_len {
+            match self.peek() {
+                Some(cp) if cp.is_octal_digit() => {
+                    self.consume();
+                    digits.push(cp);
+                }
+                _ => break,
+            }
+        }
+        let is_nul = digits == "0" && !self.peek().map_or(false, |cp| cp.is_decimal_digit());
+        match u8::from_str_radix(&digits, 8) {
+            Ok(value) => Ok((char::from(value), !is_nul)),
+            Err(_) => self.error(ErrorType::InvalidOrUnexpectedToken),
+        }
+    }
 
-        char::from_u32(mv).ok_or(Error {
+    fn scan_hex_esc_seq(&mut self) -> Result<char> {
+        self.expect('\\')?;
+        self.expect('x')?;
+        let value = self.scan_hex_digits(2)?;
+        char::from_u32(value).ok_or(Error {
             line: self.line,
             col: self.col,
             errortype: ErrorType::InvalidOrUnexpectedToken,
         })
     }
 
-    fn scan_hex_esc_seq(&mut self) -> Result<char> {
-        self.expect('\\')?;
-        self.expect('x')?;
+    fn scan_hex_digits(&mut self, len: usize) -> Result<u32> {
         let mut value = 0;
-        for _ in 0..2 {
-            match self.consume() {
-                Some(cp) if cp.is_hex_digit() => {
-                    value = value * 16 + cp.to_digit(16).unwrap();
+        for _ in 0..len {
+            match self.peek().and_then(|cp| cp.to_digit(16)) {
+                Some(digit) => {
+                    self.consume();
+                    value = value * 16 + digit;
                 }
-                _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
+                None => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
             }
         }
-        char::from_u32(value).ok_or(Error {
-            line: self.line,
-            col: self.col,
-            errortype: ErrorType::InvalidOrUnexpectedToken,
-        })
+        Ok(value)
     }
 
     // *******************************************************************
@@ -746,7 +727,7 @@ where
                 })
             }
             (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
-            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq(),
+            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq_pair(),
             // TODO: handle octal escape
             (Some('\\'), Some(_)) => {
                 self.consume();
-- 
2.43.0


From 7fe311fdec366cb06934db13e6604f8aa23d200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 08/30] fix: cook templates as the standard says and reject
 unterminated ones

---
 giron/src/estree/estree.rs   |   2 +-
 giron/src/parser/parser.rs   |  53 +++++-----
 giron/src/scanner/scanner.rs | 182 +++++++++++++----------------------
 3 files changed, 94 insertions(+), 143 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ce910f1..07873af 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -391,7 +391,7 @@ pub struct TemplateElement {
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
 pub struct TemplateElementValue {
-    pub cooked: String,
+    pub cooked: Option<String>, // null if there is an invalid escape
     pub raw: String,
 }
 
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2868a9d..b5683fb 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2282,7 +2282,7 @@ where
                     callee = self.parse_static_member_expr(callee)?;
                 }
                 TokenType::Template if self.current.head == Some(true) => {
-                    match self.parse_template_literal()? {
+                    match self.parse_template_literal(true)? {
                         Node::TemplateLiteral {
                             quasis,
                             expressions,
@@ -2341,7 +2341,7 @@ where
                     expr = self.parse_static_member_expr(expr)?
                 }
                 TokenType::Template if self.current.head == Some(true) => {
-                    match self.parse_template_literal()? {
+                    match self.parse_template_literal(true)? {
                         Node::TemplateLiteral {
                             quasis,
                             expressions,
@@ -2553,7 +2553,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Template => self.parse_template_literal(),
+            TokenType::Template => self.parse_template_literal(false),
             TokenType::Punctuator if self.current.matches_punc("(") => self.parse_seq_or_arrow(),
             _ => self.unexpected_current(),
         }
@@ -3056,17 +3056,17 @@ where
         }))
     }
 
-    fn parse_template_literal(&mut self) -> Result<Node> {
+    fn parse_template_literal(&mut self, tagged: bool) -> Result<Node> {
         log!("parse_template_literal");
         let mut expressions = vec![];
         let mut quasis = vec![];
         self.start_span();
-        let quasi = self.parse_template_head()?;
+        let quasi = self.parse_template_head(tagged)?;
         let mut is_tail = quasi.tail;
         quasis.push(quasi);
         while !is_tail {
             expressions.push(self.with_in(true, &mut Self::parse_expression)?);
-            let quasi = self.parse_template_element()?;
+            let quasi = self.parse_template_element(tagged)?;
             is_tail = quasi.tail;
             quasis.push(quasi);
         }
@@ -3078,43 +3078,42 @@ where
         })
     }
 
-    fn parse_template_head(&mut self) -> Result<TemplateElement> {
+    fn parse_template_head(&mut self, tagged: bool) -> Result<TemplateElement> {
         log!("parse_template_head");
         match self.current.tokentype {
             TokenType::Template => match &self.current.head {
-                Some(true) => {
-                    let token = self.advance(LexGoal::Div)?;
-                    Ok(TemplateElement {
-                        value: TemplateElementValue {
-                            cooked: token.cooked.unwrap(),
-                            raw: String::from(&token.value),
-                        },
-                        tail: token.tail.unwrap(),
-                    })
-                }
+                Some(true) => self.parse_template_chars(tagged),
                 _ => self.error_current(ErrorType::UnexpectedTemplateString),
             },
             _ => self.unexpected_current(),
         }
     }
 
-    fn parse_template_element(&mut self) -> Result<TemplateElement> {
+    fn parse_template_element(&mut self, tagged: bool) -> Result<TemplateElement> {
         log!("parse_template_element");
         match self.current.tokentype {
-            TokenType::Template => {
-                let token = self.advance(LexGoal::Div)?;
-                Ok(TemplateElement {
-                    value: TemplateElementValue {
-                        cooked: token.cooked.unwrap(),
-                        raw: String::from(&token.value),
-                    },
-                    tail: token.tail.unwrap(),
-                })
+            TokenType::Template if self.current.head == Some(false) => {
+                self.parse_template_chars(tagged)
             }
             _ => self.unexpected_current(),
         }
     }
 
+    fn parse_template_chars(&mut self, tagged: bool) -> Result<TemplateElement> {
+        if self.current.cooked.is_none() && !tagged {
+            return self.error_current(ErrorType::InvalidOrUnexpectedToken);
+        }
+        let tail = self.current.tail == Some(true);
+        let token = self.advance(if tail { LexGoal::Div } else { LexGoal::RegExp })?;
+        Ok(TemplateElement {
+            value: TemplateElementValue {
+                raw: String::from(&token.value),
+                cooked: token.cooked,
+            },
+            tail,
+        })
+    }
+
     fn parse_class_expr(&mut self) -> Result<Node> {
         // ClassExpression[Yield, Await]:
         //     "class" BindingIdentifier[?Yield, ?Await](opt) ClassTail[?Yield, ?Await]
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index e6ef9e1..496c71c 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -628,125 +628,93 @@ where
     // *******************************************************************
 
     pub fn scan_template(&mut self) -> Result<Token> {
-        let mut value = String::new();
-        let mut tail = false;
-        let octal = false;
         self.expect('`')?;
-        self.start_recording();
-        let cooked = self.scan2_until_with(
-            |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
-            &mut |this| this.scan_template_char(),
-        )?;
-        value.push_str(&self.stop_recording());
-        match self.peek2() {
-            (Some('$'), Some('{')) => {
-                self.consume();
-                self.consume();
-                self.curly_stack.push(Brace::Template);
-            }
-            (Some('`'), _) => {
-                self.consume();
-                tail = true;
-            }
-            (_, _) => unreachable!(),
-        }
-        self.token(
-            TokenType::Template,
-            Value::Str(value),
-            None,
-            None,
-            Some(octal),
-            Some(cooked),
-            Some(true),
-            Some(tail),
-        )
+        self.scan_template_chars(true)
     }
 
     pub fn scan_template_substitution_tail(&mut self) -> Result<Token> {
-        let mut value = String::new();
-        let mut tail = false;
-        let octal = false;
         self.expect('}')?;
+        self.scan_template_chars(false)
+    }
+
+    fn scan_template_chars(&mut self, head: bool) -> Result<Token> {
+        let mut cooked = Some(String::new());
+        let tail;
         self.start_recording();
-        let cooked = self.scan2_until_with(
-            |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
-            &mut |this| this.scan_template_char(),
-        )?;
-        value.push_str(&self.stop_recording());
-        match self.peek2() {
-            (Some('$'), Some('{')) => {
-                self.consume();
-                self.consume();
-                self.curly_stack.push(Brace::Template);
-            }
-            (Some('`'), _) => {
-                self.consume();
-                tail = true;
+        loop {
+            match self.peek2() {
+                (None, _) | (Some('\\'), None) => return self.error(ErrorType::UnexpectedEOS),
+                (Some('$'), Some('{')) => {
+                    tail = false;
+                    break;
+                }
+                (Some('`'), _) => {
+                    tail = true;
+                    break;
+                }
+                (Some('\\'), Some(cp)) if cp.is_line_terminator() => self.scan_line_continuation(),
+                (Some('\\'), _) => {
+                    let (line, col) = (self.line, self.col);
+                    match (self.scan_template_esc_seq(), cooked.as_mut()) {
+                        (Ok(cp), Some(cooked)) => cooked.push(cp),
+                        (Ok(_), None) => (),
+                        // Only a tagged template may contain an invalid escape.
+                        (Err(_), _) => {
+                            cooked = None;
+                            if self.peek().is_none() {
+                                return Err(Error {
+                                    line,
+                                    col,
+                                    errortype: ErrorType::InvalidOrUnexpectedToken,
+                                });
+                            }
+                        }
+                    }
+                }
+                (Some(cp), next) => {
+                    self.consume();
+                    // "\r" and "\r\n" are normalised to "\n".
+                    if let Some(cooked) = cooked.as_mut() {
+                        match (cp, next) {
+                            ('\r', Some('\n')) => (),
+                            ('\r', _) => cooked.push('\n'),
+                            _ => cooked.push(cp),
+                        }
+                    }
+                }
             }
-            (_, _) => unreachable!(),
         }
+        let raw = self
+            .stop_recording()
+            .replace("\r\n", "\n")
+            .replace('\r', "\n");
+        if !tail {
+            self.consume();
+            self.curly_stack.push(Brace::Template);
+        }
+        self.consume();
         self.token(
             TokenType::Template,
-            Value::Str(value),
+            Value::Str(raw),
             None,
             None,
-            Some(octal),
-            Some(cooked),
             Some(false),
+            cooked,
+            Some(head),
             Some(tail),
         )
     }
 
-    fn scan_template_char(&mut self) -> Result<char> {
+    fn scan_template_esc_seq(&mut self) -> Result<char> {
         match self.peek2() {
-            (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
-                self.consume();
-                match self.peek2() {
-                    (Some('\r'), Some('\n')) => {
-                        self.consume();
-                        self.consume();
-                        Ok('\0')
-                    }
-                    (_, _) => {
-                        self.consume();
-                        Ok('\0')
-                    }
+            (Some('\\'), Some(cp)) if cp.is_decimal_digit() => {
+                let (cp, is_octal) = self.scan_octal_esc_seq()?;
+                if is_octal {
+                    return self.error(ErrorType::InvalidOrUnexpectedToken);
                 }
+                Ok(cp)
             }
-            (Some('\\'), Some('b'))
-            | (Some('\\'), Some('f'))
-            | (Some('\\'), Some('v'))
-            | (Some('\\'), Some('n'))
-            | (Some('\\'), Some('r'))
-            | (Some('\\'), Some('t')) => {
-                self.consume();
-                self.consume().map(|cp| cp.unescape()).ok_or(Error {
-                    line: self.line,
-                    col: self.col,
-                    errortype: ErrorType::UnexpectedEOS,
-                })
-            }
-            (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
-            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq_pair(),
-            // TODO: handle octal escape
-            (Some('\\'), Some(_)) => {
-                self.consume();
-                self.consume().ok_or(Error {
-                    line: self.line,
-                    col: self.col,
-                    errortype: ErrorType::UnexpectedEOS,
-                })
-            }
-            (Some(cp), _) if cp.is_line_terminator() => {
-                self.consume();
-                Ok('\n')
-            }
-            (Some(_), _) => self.consume().ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::UnexpectedEOS,
-            }),
-            (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
+            (_, _) => self.scan_esc_seq(),
         }
     }
 
@@ -916,22 +884,6 @@ where
         }
     }
 
-    pub fn scan2_until_with<F, G>(&mut self, pred: F, read: &mut G) -> Result<String>
-    where
-        F: Fn((Option<char>, Option<char>)) -> bool,
-        G: FnMut(&mut Self) -> Result<char>,
-    {
-        let mut res = String::new();
-        loop {
-            match self.peek2() {
-                (Some(cp1), Some(cp2)) if pred((Some(cp1), Some(cp2))) => return Ok(res),
-                (Some(cp1), None) if pred((Some(cp1), None)) => return Ok(res),
-                (Some(_), _) => res.push(read(self)?),
-                (None, _) => return Ok(res),
-            }
-        }
-    }
-
     fn peek(&mut self) -> Option<char> {
         self.reader.lookahead(0)
     }
-- 
2.43.0


From 25a84affd64f18ea3f953a7840ffe0122746473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 09/30] fix: scan regular expression literals as the standard
 says

---
 giron/src/estree/estree.rs   |   6 +-
 giron/src/parser/parser.rs   |   8 ++-
 giron/src/scanner/scanner.rs | 109 +++++++++++++++++------------------
 giron/src/token/token.rs     |   2 +-
 4 files changed, 63 insertions(+), 62 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 07873af..f0967b9 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -58,10 +58,9 @@ pub struct ClassBody {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct Regex {
     pub pattern: String,
-    pub flags: Vec<char>,
+    pub flags: String,
 }
 
 #[derive(Serialize, Debug)]
@@ -605,8 +604,9 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "Literal")]
     RegexLiteral {
-        value: String,
+        value: Value, // null, as a regular expression is not a JSON value
         raw: String,
         regex: Regex,
         #[serde(skip)]
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b5683fb..0816df7 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2506,6 +2506,10 @@ where
         //     RegularExpressionLiteral
         //     TemplateLiteral[?Yield, ?Await, ~Tagged]
         //     CoverParenthesizedExpressionAndArrowParameterList[?Yield, ?Await]
+        if self.current.matches_punc("/") || self.current.matches_punc("/=") {
+            // No operand starts with a division operator: it is a regular expression.
+            self.current = self.scanner.rescan_regexp_literal(&self.current)?;
+        }
         match &self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("function") => {
                 self.parse_function_expr(false)
@@ -2543,8 +2547,8 @@ where
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
                 Ok(Node::RegexLiteral {
-                    value: String::from(&self.current.value),
-                    raw: String::from(&self.current.value),
+                    value: token.value,
+                    raw: token.raw.unwrap(),
                     regex: Regex {
                         pattern: token.pattern.unwrap(),
                         flags: token.flags.unwrap(),
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 496c71c..d26f0ad 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -547,80 +547,77 @@ where
     // *******************************************************************
 
     pub fn scan_regexp_literal(&mut self) -> Result<Token> {
-        let pattern = self.scan_regexp_body()?;
+        self.expect('/')?;
+        self.scan_regexp_rest(String::new())
+    }
+
+    /// Scan a token read as "/" or "/=" again, as a regular expression literal.
+    /// The token has to be the last one scanned.
+    pub fn rescan_regexp_literal(&mut self, token: &Token) -> Result<Token> {
+        match &token.value {
+            Value::Punc(Punctuator::SlashAssign) => self.scan_regexp_rest(String::from("=")),
+            _ => self.scan_regexp_rest(String::new()),
+        }
+    }
+
+    /// Scan a regular expression literal after "/" and the start of its pattern.
+    fn scan_regexp_rest(&mut self, mut pattern: String) -> Result<Token> {
+        self.scan_regexp_body(&mut pattern)?;
         let flags = self.scan_regexp_flags()?;
+        let raw = format!("/{}/{}", pattern, flags);
 
-        self.token(
+        let mut token = self.token(
             TokenType::RegularExpression,
-            Value::Str(String::from("")),
+            Value::Null,
             Some(pattern),
             Some(flags),
             None,
             None,
             None,
             None,
-        )
+        )?;
+        token.raw = Some(raw);
+        Ok(token)
     }
 
-    fn scan_regexp_body(&mut self) -> Result<String> {
-        self.expect('/')?;
-        if let Some('*') = self.peek() {
-            return self.error(ErrorType::InvalidOrUnexpectedToken);
-        }
-        let mut value = String::from("");
+    fn scan_regexp_body(&mut self, pattern: &mut String) -> Result<()> {
+        let mut in_class = false;
         loop {
-            match self.peek() {
-                Some('[') => {
-                    let group = self.scan_until_with(|cp| cp == ']', &mut |this| {
-                        this.consume().ok_or(Error {
-                            line: this.line,
-                            col: this.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        })
-                    })?;
-                    value.push_str(&group);
+            match self.peek2() {
+                (Some('*'), _) if pattern.is_empty() => {
+                    return self.error(ErrorType::InvalidOrUnexpectedToken)
                 }
-                Some('\\') => {
-                    value.push(self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?);
-                    value.push(self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?);
+                (Some('/'), _) if !in_class => break,
+                (Some('['), _) => in_class = true,
+                (Some(']'), _) => in_class = false,
+                (Some('\\'), Some(cp)) if !cp.is_line_terminator() => {
+                    self.consume();
+                    pattern.push('\\');
                 }
-                Some(cp) if cp == '/' => break,
-                Some(_) => {
-                    let res = self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?;
-                    value.push(res);
+                (Some(cp), _) if cp.is_line_terminator() => {
+                    return self.error(ErrorType::InvalidOrUnexpectedToken)
                 }
-                None => break,
+                (Some('\\'), _) | (None, _) => {
+                    return self.error(ErrorType::InvalidOrUnexpectedToken)
+                }
+                (Some(_), _) => (),
+            }
+            if let Some(cp) = self.consume() {
+                pattern.push(cp);
             }
         }
-        self.expect('/')?;
-        Ok(value)
+        self.expect('/')
     }
 
-    fn scan_regexp_flags(&mut self) -> Result<Vec<char>> {
-        self.scan_until_with(
-            |cp| cp != '\\' && !cp.is_identifier_continue(),
-            &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
-                    Ok(cp)
-                }
-            },
-        )
-        .map(|value| value.chars().collect())
+    fn scan_regexp_flags(&mut self) -> Result<String> {
+        let flags = self.scan_until_with(
+            |cp| cp == '\\' || !cp.is_identifier_continue(),
+            &mut |this| Ok(this.consume().unwrap()),
+        )?;
+        if self.matches('\\') {
+            return self.error(ErrorType::InvalidOrUnexpectedToken);
+        }
+        Ok(flags)
     }
 
     // *******************************************************************
@@ -936,7 +933,7 @@ where
         tokentype: TokenType,
         value: Value,
         pattern: Option<String>,
-        flags: Option<Vec<char>>,
+        flags: Option<String>,
         octal: Option<bool>,
         cooked: Option<String>,
         head: Option<bool>,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index fc23a93..deb9343 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -20,7 +20,7 @@ pub struct Token {
     pub tokentype: TokenType,
     pub value: Value,
     pub pattern: Option<String>,
-    pub flags: Option<Vec<char>>,
+    pub flags: Option<String>,
     pub octal: Option<bool>,
     pub cooked: Option<String>,
     /// The source text of a literal.
-- 
2.43.0


From 1c63ab3a7a97e0200e9523b32c3af03aade29b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 10/30] fix: read a slash after an object, function or class
 expression as division

---
 giron/src/parser/parser.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0816df7..67566db 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -566,7 +566,7 @@ where
             TokenType::Identifier if self.current.matches_str("async") => {
                 self.start_span();
                 self.scanner.save_state();
-                let next_token = self.scanner.next(LexGoal::RegExp)?;
+                let next_token = self.scanner.next(LexGoal::Div)?;
                 match &next_token.tokentype {
                     TokenType::Keyword
                         if next_token.matches_str("function")
@@ -1578,7 +1578,7 @@ where
         body.extend(self.parse_statement_list()?);
         self.ctx.in_iteration = prev_in_iteration;
 
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
@@ -1626,7 +1626,7 @@ where
         };
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ClassDeclaration {
             id,
             super_class,
@@ -3333,7 +3333,7 @@ where
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("get") => {
                     this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
+                    let next_token = this.scanner.next(LexGoal::Div)?;
                     match &next_token.tokentype {
                         TokenType::Punctuator => {
                             this.scanner.restore_state(next_token);
@@ -3361,7 +3361,7 @@ where
                 }
                 TokenType::Identifier if this.current.matches_str("set") => {
                     this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
+                    let next_token = this.scanner.next(LexGoal::Div)?;
                     match &next_token.tokentype {
                         TokenType::Punctuator => {
                             this.scanner.restore_state(next_token);
@@ -3389,7 +3389,7 @@ where
                 }
                 TokenType::Identifier if this.current.matches_str("async") => {
                     this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
+                    let next_token = this.scanner.next(LexGoal::Div)?;
                     match &next_token.tokentype {
                         TokenType::Punctuator => {
                             this.scanner.restore_state(next_token);
@@ -3504,7 +3504,7 @@ where
             }
             Ok(property)
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
-- 
2.43.0


From dc4b2302fe10593824940547e1d914ebb238d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 11/30] fix: reject an unterminated comment

---
 giron/src/scanner/scanner.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d26f0ad..bf61614 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -79,7 +79,7 @@ where
         }
 
         self.newline = false;
-        self.scan_comments();
+        self.scan_comments()?;
         self.newline_before = self.newline;
         self.start_new_token();
 
@@ -100,7 +100,7 @@ where
         }
     }
 
-    fn scan_comments(&mut self) {
+    fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
                 (Some(cp), _) if cp.is_whitespace() => {
@@ -114,8 +114,8 @@ where
                     self.consume();
                 }
                 (Some('/'), Some('/')) => self.scan_singleline_comment(),
-                (Some('/'), Some('*')) => self.scan_multiline_comment(),
-                (_, _) => break,
+                (Some('/'), Some('*')) => self.scan_multiline_comment()?,
+                (_, _) => return Ok(()),
             }
         }
     }
@@ -134,7 +134,7 @@ where
         }
     }
 
-    fn scan_multiline_comment(&mut self) {
+    fn scan_multiline_comment(&mut self) -> Result<()> {
         self.consume();
         self.consume();
         loop {
@@ -142,12 +142,12 @@ where
                 (Some('*'), Some('/')) => {
                     self.consume();
                     self.consume();
-                    break;
+                    return Ok(());
                 }
                 (Some(_), _) => {
                     self.consume();
                 }
-                (None, _) => break,
+                (None, _) => return self.error(ErrorType::UnexpectedEOS),
             }
         }
     }
-- 
2.43.0


From 672d677a5b11d99a8279774f62e305d218d1fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 12/30] fix: scan the operator >>= and operators at the end of
 the source

---
 giron/src/scanner/scanner.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index bf61614..781904e 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -750,31 +750,31 @@ where
                     (_, _) => self.punc0("?"),
                 }
             }
-            (Some('+'), Some(cp)) => match cp {
+            (Some('+'), cp) => match cp.unwrap_or(' ') {
                 '=' => self.punc2("+="),
                 '+' => self.punc2("++"),
                 _ => self.punc1("+"),
             },
-            (Some('-'), Some(cp)) => match cp {
+            (Some('-'), cp) => match cp.unwrap_or(' ') {
                 '=' => self.punc2("-="),
                 '-' => self.punc2("--"),
                 _ => self.punc1("-"),
             },
-            (Some('&'), Some(cp)) => match cp {
+            (Some('&'), cp) => match cp.unwrap_or(' ') {
                 '=' => self.punc2("&="),
                 '&' => self.punc2("&&"),
                 _ => self.punc1("&"),
             },
-            (Some('|'), Some(cp)) => match cp {
+            (Some('|'), cp) => match cp.unwrap_or(' ') {
                 '=' => self.punc2("|="),
                 '|' => self.punc2("||"),
                 _ => self.punc1("|"),
             },
-            (Some('%'), Some(cp)) => match cp {
+            (Some('%'), cp) => match cp.unwrap_or(' ') {
                 '=' => self.punc2("%="),
                 _ => self.punc1("%"),
             },
-            (Some('^'), Some(cp)) => match cp {
+            (Some('^'), cp) => match cp.unwrap_or(' ') {
                 '=' => self.punc2("^="),
                 _ => self.punc1("^"),
             },
@@ -831,6 +831,7 @@ where
                             (_, _) => self.punc1(">>>"),
                         }
                     }
+                    (Some('>'), Some('=')) => self.punc2(">>="),
                     (Some('>'), _) => self.punc1(">>"),
                     (_, _) => self.punc0(">"),
                 }
-- 
2.43.0


From 7df920a310c316c020c1eb121360b63f32fc2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 13/30] fix: recognise escaped, reserved and strict mode
 identifiers as the standard says

---
 giron/src/codepoint/codepoint.rs |   2 +-
 giron/src/parser/parser.rs       | 103 +++++++++++++------------------
 giron/src/parser/syntax.rs       |  17 +++--
 giron/src/scanner/scanner.rs     |  67 ++++++++++----------
 giron/src/token/token.rs         |   3 +
 5 files changed, 94 insertions(+), 98 deletions(-)

diff --git a/giron/src/codepoint/codepoint.rs b/giron/src/codepoint/codepoint.rs
index b9518ac..df08f6e 100644
--- a/giron/src/codepoint/codepoint.rs
+++ b/giron/src/codepoint/codepoint.rs
@@ -42,7 +42,7 @@ impl CodePoint for char {
 
     fn is_identifier_continue(self) -> bool {
         match self {
-            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{005C}' => true,
+            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{200C}' | '\u{200D}' => true,
             _ => self.is_id_continue(),
         }
     }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 67566db..10e4261 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -60,6 +60,7 @@ impl Params {
     }
 }
 
+#[derive(PartialEq)]
 enum SyntaxGoal {
     Script,
     Module,
@@ -3808,75 +3809,59 @@ where
         //     Identifier
         //     [~Yield] yield
         //     [~Await] await
+        self.check_id()?;
         self.start_span();
-
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
-        }
-
-        match self.current.tokentype {
-            TokenType::Identifier => {
-                let name = self.advance(LexGoal::Div)?.to_string();
-                let assign_target_type = match &name[..] {
-                    "eval" | "arguments" if self.ctx.strict => "strict",
-                    _ => "simple",
-                };
-                Ok(Node::Identifier {
-                    name,
-                    assign_target_type,
-                    span: self.end_span(),
-                })
-            }
-            TokenType::Keyword if self.current.matches_str("yield") => {
-                if self.params.has_yield {
-                    self.error_current(ErrorType::YieldInParameter)
-                } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
-                }
-            }
-            TokenType::Keyword if self.current.matches_str("await") => {
-                if self.params.has_await {
-                    self.error_current(ErrorType::AwaitExpressionFormalParameter)
-                } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
-                }
-            }
-            _ => self.unexpected_current(),
-        }
+        let name = self.advance(LexGoal::Div)?.to_string();
+        let assign_target_type = match &name[..] {
+            "eval" | "arguments" if self.ctx.strict => "strict",
+            _ => "simple",
+        };
+        Ok(Node::Identifier {
+            name,
+            assign_target_type,
+            span: self.end_span(),
+        })
     }
 
     fn parse_binding_id(&mut self) -> Result<Binding> {
         log!("parse_binding_id");
+        self.check_id()?;
+        if self.ctx.strict {
+            match self.current.to_str() {
+                "eval" | "arguments" => {
+                    return self.error_current(ErrorType::UnexpectedStrictReserved)
+                }
+                _ => (),
+            }
+        }
         self.start_span();
+        Ok(Binding::BindingIdentifier(BindingIdentifier {
+            name: self.advance(LexGoal::Div)?.to_string(),
+            span: self.end_span(),
+        }))
+    }
 
+    /// Check that the current token is an identifier which is not reserved here.
+    fn check_id(&mut self) -> Result<()> {
         if self.ctx.strict && self.current.is_strict_reserved_kw() {
             return self.error_current(ErrorType::UnexpectedStrictReserved);
         }
-
-        match self.current.tokentype {
-            TokenType::Identifier => Ok(Binding::BindingIdentifier(BindingIdentifier {
-                name: self.advance(LexGoal::Div)?.to_string(),
-                span: self.end_span(),
-            })),
-            TokenType::Keyword if self.current.matches_str("yield") => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
-            }
-            TokenType::Keyword if self.current.matches_str("await") => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
+        match (&self.current.tokentype, &self.current.value) {
+            (TokenType::Identifier, Value::Str(name)) | (TokenType::Keyword, Value::Str(name)) => {
+                match &name[..] {
+                    "yield" if self.params.has_yield => {
+                        self.error_current(ErrorType::YieldInParameter)
+                    }
+                    "await" if self.params.has_await => {
+                        self.error_current(ErrorType::AwaitExpressionFormalParameter)
+                    }
+                    "await" if self.goal == SyntaxGoal::Module => {
+                        self.error_current(ErrorType::UnexpectedReserved)
+                    }
+                    "yield" | "await" => Ok(()),
+                    _ if self.current.tokentype == TokenType::Identifier => Ok(()),
+                    _ => self.unexpected_current(),
+                }
             }
             _ => self.unexpected_current(),
         }
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 38a6029..e965109 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -48,7 +48,8 @@ impl Syntax for Token {
 
     fn matches_str(&self, val: &str) -> bool {
         match &self.value {
-            Value::Str(s) if &s[..] == val => true,
+            // No keyword, contextual or not, may be written with escapes.
+            Value::Str(s) => &s[..] == val && !self.escaped,
             _ => false,
         }
     }
@@ -124,7 +125,7 @@ impl Syntax for Token {
             _ => false,
         };
         let unary_keyword = match self.tokentype {
-            TokenType::Keyword => match self.to_str() {
+            TokenType::Keyword if !self.escaped => match self.to_str() {
                 "delete" | "void" | "typeof" => true,
                 "await" if has_await => true,
                 _ => false,
@@ -217,8 +218,16 @@ impl Syntax for Token {
     }
 
     fn is_strict_reserved_kw(&self) -> bool {
-        match self.to_str() {
-            "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+        match &self.value {
+            Value::Str(s) if self.tokentype == TokenType::Identifier
+                || self.tokentype == TokenType::Keyword =>
+            {
+                match &s[..] {
+                    "implements" | "interface" | "package" | "private" | "protected"
+                    | "public" | "let" | "static" | "yield" => true,
+                    _ => false,
+                }
+            }
             _ => false,
         }
     }
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 781904e..324bf6e 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -84,7 +84,7 @@ where
         self.start_new_token();
 
         match self.peek2() {
-            (Some(cp), _) if cp.is_identifier_start() => self.scan_identifier(),
+            (Some(cp), _) if cp == '\\' || cp.is_identifier_start() => self.scan_identifier(),
             (Some('"'), _) | (Some('\''), _) => self.scan_string_literal(),
             (Some('.'), Some(cp)) if cp.is_decimal_digit() => self.scan_numeric_literal(),
             (Some(cp), _) if cp.is_decimal_digit() => self.scan_numeric_literal(),
@@ -158,45 +158,43 @@ where
 
     pub fn scan_identifier(&mut self) -> Result<Token> {
         let mut value = String::new();
-        value.push(self.scan_identifier_start()?);
-        let part = self.scan_until_with(
-            |cp| cp != '\\' && !cp.is_identifier_continue(),
-            &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
-                    Ok(cp)
+        let mut escaped = false;
+        loop {
+            let cp = match self.peek() {
+                Some('\\') => {
+                    escaped = true;
+                    self.scan_unicode_esc_seq()?
                 }
-            },
-        )?;
-        value.push_str(&part);
-
-        match value.as_str() {
-            "null" => self.token_simple(TokenType::NullLiteral, Value::Null),
-            "true" | "false" => self.token_simple(TokenType::BooleanLiteral, Value::Str(value)),
-            val => {
-                if self.is_keyword(val) {
-                    self.token_simple(TokenType::Keyword, Value::Str(value))
-                } else {
-                    self.token_simple(TokenType::Identifier, Value::Str(value))
+                Some(cp) if value.is_empty() || cp.is_identifier_continue() => {
+                    self.consume();
+                    cp
                 }
+                _ => break,
+            };
+            let is_valid = if value.is_empty() {
+                cp.is_identifier_start()
+            } else {
+                cp.is_identifier_continue()
+            };
+            if !is_valid {
+                return self.error(ErrorType::InvalidOrUnexpectedToken);
             }
+            value.push(cp);
         }
-    }
 
-    fn scan_identifier_start(&mut self) -> Result<char> {
-        let cp = match self.peek() {
-            Some('\\') => self.scan_unicode_esc_seq()?,
-            Some(_) => self.consume().unwrap(),
-            None => return self.error(ErrorType::UnexpectedEOS),
+        let tokentype = match value.as_str() {
+            // An escaped reserved word is no literal, but still reserved.
+            "null" | "true" | "false" if escaped => TokenType::Keyword,
+            "null" => return self.token_simple(TokenType::NullLiteral, Value::Null),
+            "true" | "false" => TokenType::BooleanLiteral,
+            // These are only reserved in some contexts, even if escaped.
+            "yield" | "await" if escaped => TokenType::Identifier,
+            val if self.is_keyword(val) => TokenType::Keyword,
+            _ => TokenType::Identifier,
         };
-
-        if cp.is_identifier_start() {
-            Ok(cp)
-        } else {
-            self.error(ErrorType::InvalidOrUnexpectedToken)
-        }
+        let mut token = self.token_simple(tokentype, Value::Str(value))?;
+        token.escaped = escaped;
+        Ok(token)
     }
 
     /// Scans a legal codepoint following one of the patterns:
@@ -955,6 +953,7 @@ where
             start: self.start,
             end: self.current,
             newline_before: self.newline_before,
+            escaped: false,
         })
     }
 
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index deb9343..8f92169 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -33,6 +33,8 @@ pub struct Token {
     pub end: usize,
     /// Whether a line terminator separates this token from the previous one.
     pub newline_before: bool,
+    /// Whether this is an identifier or keyword written with escapes.
+    pub escaped: bool,
 }
 
 impl Token {
@@ -53,6 +55,7 @@ impl Token {
             start: 0,
             end: 0,
             newline_before: false,
+            escaped: false,
         }
     }
 }
-- 
2.43.0


From 0741535c60c8d0fe9b1b0d1be79d608ce74eb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 14/30] fix: serialise nodes under their ESTree names and
 fields

---
 giron/src/estree/estree.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index f0967b9..82e5835 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -142,6 +142,7 @@ pub enum ArrayPatternElement {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -223,6 +224,7 @@ pub struct AssignmentPattern {
 
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
+#[serde(rename = "FunctionExpression")]
 pub struct AsyncFunctionExpression {
     pub id: Option<Box<Node>>, // Identifier | null
     pub params: Vec<FunctionParameter>,
@@ -301,6 +303,7 @@ pub enum FunctionParameter {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -348,10 +351,12 @@ pub enum ObjectExpressionProperty {
         kind: &'static str,
         method: bool,
         shorthand: bool,
+        #[serde(skip)]
         span: Span,
     },
     SpreadElement {
         argument: Node,
+        #[serde(skip)]
         span: Span,
     },
 }
@@ -388,7 +393,6 @@ pub struct TemplateElement {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct TemplateElementValue {
     pub cooked: Option<String>, // null if there is an invalid escape
     pub raw: String,
@@ -466,11 +470,13 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "RestElement")]
     AssignmentRestElement {
         argument: Box<Node>,
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ArrowFunctionExpression")]
     AsyncArrowFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -483,6 +489,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "FunctionExpression")]
     AsyncFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -532,6 +539,7 @@ pub enum Node {
     },
     ClassExpression {
         id: Option<Box<Node>>,          // Identifier | null
+        #[serde(rename = "superClass")]
         super_class: Option<Box<Node>>, // Identifier | null
         body: ClassBody,
         #[serde(skip)]
@@ -539,6 +547,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     ComputedMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -621,6 +630,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     StaticMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -709,6 +719,7 @@ pub enum Node {
     // ****************************************************
     // Statements & Declarations
     // ****************************************************
+    #[serde(rename = "FunctionDeclaration")]
     AsyncFunctionDeclaration {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -766,6 +777,7 @@ pub enum Node {
         left: Box<Node>,  // Expression
         right: Box<Node>, // Expression
         body: Box<Node>,  // Statement
+        #[serde(skip)]
         each: bool,
         #[serde(skip)]
         span: Span,
-- 
2.43.0


From 4150223c553c2ec303265a0db11a0ab36ca7149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 15/30] fix: keep the value and the source text of literals

---
 giron/src/parser/parser.rs | 66 ++++++++++++++++++--------------------
 giron/src/token/value.rs   |  2 ++
 2 files changed, 33 insertions(+), 35 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 10e4261..dd44189 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -163,8 +163,8 @@ where
                     self.start_span();
                     let expr = self.parse_expression()?;
                     match &expr {
-                        Node::Literal { value, .. }
-                            if value == &Value::Str(String::from("use strict")) =>
+                        Node::Literal { raw, .. }
+                            if raw == "'use strict'" || raw == "\"use strict\"" =>
                         {
                             self.ctx.strict = true;
                         }
@@ -331,16 +331,7 @@ where
 
     fn parse_module_specifier(&mut self) -> Result<Literal> {
         match self.current.tokentype {
-            TokenType::StringLiteral => {
-                self.start_span();
-                let value = self.advance(LexGoal::RegExp)?.value;
-                let raw = String::from(&value);
-                Ok(Literal {
-                    value,
-                    raw,
-                    span: self.end_span(),
-                })
-            }
+            TokenType::StringLiteral => self.parse_literal(),
             _ => self.unexpected_current(),
         }
     }
@@ -1823,8 +1814,8 @@ where
                                         "method"
                                     }
                                 }
-                                PropertyKey::Literal(Literal { raw, .. }) => {
-                                    if raw == &String::from("constructor") {
+                                PropertyKey::Literal(Literal { value, .. }) => {
+                                    if value == &Value::Str(String::from("constructor")) {
                                         "constructor"
                                     } else {
                                         "method"
@@ -2532,14 +2523,12 @@ where
             | TokenType::StringLiteral
             | TokenType::BooleanLiteral
             | TokenType::NullLiteral => {
-                self.start_span();
-                let value = self.advance(LexGoal::Div)?.value;
-                let raw = String::from(&value);
+                let Literal { value, raw, span } = self.parse_literal()?;
                 Ok(Node::Literal {
                     value,
                     raw,
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span,
                 })
             }
             TokenType::Punctuator if self.current.matches_punc("[") => self.parse_array_lit_expr(),
@@ -2564,6 +2553,28 @@ where
         }
     }
 
+    /// Parse a null, boolean, number or string literal.
+    fn parse_literal(&mut self) -> Result<Literal> {
+        if self.ctx.strict && self.current.octal == Some(true) {
+            return self.error_current(ErrorType::InvalidOrUnexpectedToken);
+        }
+        self.start_span();
+        let token = self.advance(LexGoal::Div)?;
+        let raw = match token.raw {
+            Some(raw) => raw,
+            None => String::from(&token.value),
+        };
+        let value = match token.tokentype {
+            TokenType::BooleanLiteral => Value::Bool(raw == "true"),
+            _ => token.value,
+        };
+        Ok(Literal {
+            value,
+            raw,
+            span: self.end_span(),
+        })
+    }
+
     fn parse_async_call_or_arrow(&mut self, callee: Box<Node>) -> Result<Node> {
         log!("parse_async_call_or_arrow");
         let arguments = self.parse_arguments()?;
@@ -3440,14 +3451,7 @@ where
                     }))
                 }
                 TokenType::StringLiteral | TokenType::NumericLiteral => {
-                    this.start_span();
-                    let value = this.advance(LexGoal::RegExp)?.value;
-                    Ok(PropertyKey::Literal(Literal {
-                        // value: this.current.value.clone(),
-                        value,
-                        raw: String::from(&this.current.value),
-                        span: this.end_span(),
-                    }))
+                    Ok(PropertyKey::Literal(this.parse_literal()?))
                 }
                 TokenType::Punctuator if this.current.matches_punc("[") => {
                     computed = true;
@@ -3527,15 +3531,7 @@ where
                 ))
             }
             TokenType::StringLiteral | TokenType::NumericLiteral => {
-                self.start_span();
-                Ok((
-                    PropertyKey::Literal(Literal {
-                        value: self.current.value.clone(),
-                        raw: String::from(&self.current.value),
-                        span: self.end_span(),
-                    }),
-                    false,
-                ))
+                Ok((PropertyKey::Literal(self.parse_literal()?), false))
             }
             TokenType::Punctuator if self.current.matches_punc("[") => {
                 Ok((self.parse_computed_property_name()?, true))
diff --git a/giron/src/token/value.rs b/giron/src/token/value.rs
index 2af7cca..4e9fbd2 100644
--- a/giron/src/token/value.rs
+++ b/giron/src/token/value.rs
@@ -6,6 +6,7 @@ use serde::Serialize;
 pub enum Value {
     Str(String),
     Num(f64),
+    Bool(bool),
     Punc(Punctuator),
     Null,
 }
@@ -15,6 +16,7 @@ impl From<&Value> for String {
         match value {
             Value::Str(s) => s.clone(),
             Value::Num(x) => x.to_string(),
+            Value::Bool(b) => b.to_string(),
             Value::Punc(p) => p.to_string(),
             Value::Null => String::from("null"),
         }
-- 
2.43.0


From a15bf75086f195cc3ff2043e0f747a1c57bafa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 16/30] fix: end spans where the last token of the node ends

---
 giron/src/parser/parser.rs | 54 ++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index dd44189..46dff2b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -75,6 +75,8 @@ pub struct Parser<I> {
     params: Params,
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
+    /// Where the last consumed token ends.
+    last_end: Marker,
     goal: SyntaxGoal,
     pending_error: Option<Error>,
 }
@@ -103,6 +105,11 @@ where
             current,
             params_stack: vec![],
             marker_stack: vec![],
+            last_end: Marker {
+                line: 1,
+                col: 1,
+                idx: 0,
+            },
             goal: SyntaxGoal::Ambiguous,
             pending_error,
         }
@@ -4006,6 +4013,11 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
+        self.last_end = Marker {
+            line: self.scanner.line,
+            col: self.scanner.col,
+            idx: self.scanner.current,
+        };
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
         self.has_line_terminator = self.current.newline_before;
         Ok(token)
@@ -4057,11 +4069,8 @@ where
     }
 
     fn start_span(&mut self) {
-        self.marker_stack.push(Marker {
-            line: self.current.line_num,
-            col: self.current.col,
-            idx: self.current.start,
-        });
+        let marker = self.marker();
+        self.marker_stack.push(marker);
     }
 
     fn end_span(&mut self) -> Span {
@@ -4069,14 +4078,7 @@ where
             Some(marker) => marker,
             _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
         };
-        Span {
-            start,
-            end: Marker {
-                line: self.scanner.line,
-                col: self.scanner.col,
-                idx: self.scanner.current,
-            },
-        }
+        self.span_from(start)
     }
 
     fn peek_span(&mut self) -> Span {
@@ -4084,16 +4086,28 @@ where
             Some(marker) => marker.clone(),
             _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
         };
-        Span {
-            start,
-            end: Marker {
-                line: self.scanner.line,
-                col: self.scanner.col,
-                idx: self.scanner.current,
-            },
+        self.span_from(start)
+    }
+
+    /// The position of the current token.
+    fn marker(&self) -> Marker {
+        Marker {
+            line: self.current.line_num,
+            col: self.current.col,
+            idx: self.current.start,
         }
     }
 
+    /// The span from a marker to the end of the last consumed token.
+    fn span_from(&self, start: Marker) -> Span {
+        let end = if self.last_end.idx < start.idx {
+            start.clone()
+        } else {
+            self.last_end.clone()
+        };
+        Span { start, end }
+    }
+
     // *******************************************************************
     //      Errors
     // *******************************************************************
-- 
2.43.0


From 67c23d4ff64a3ccc63b193c44968aa6ade52d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 17/30] fix: build expressions, arrow functions, patterns,
 functions, classes and objects as the grammar says

---
 giron/src/errors/errors.rs     |    2 +
 giron/src/estree/estree.rs     |  394 ++++--
 giron/src/parser/parser.rs     | 2157 +++++++++++++++-----------------
 giron/src/parser/syntax.rs     |    3 +-
 giron/src/token/punctuators.rs |    1 -
 5 files changed, 1291 insertions(+), 1266 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 43ae015..c23fdbc 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -123,6 +123,7 @@ pub enum ErrorType {
     InvalidUnicodeEscapeSequence,
     InvalidRestBindingPattern,
     UnexpectedStrictReserved,
+    IllegalLanguageModeDirective,
 }
 
 impl fmt::Display for Error {
@@ -162,6 +163,7 @@ impl fmt::Display for Error {
             ErrorType::InvalidUnicodeEscapeSequence => write!(f, "Invalid Unicode escape sequence"),
             ErrorType::InvalidRestBindingPattern => write!(f, "`...` must be followed by an identifier in declaration contexts"),
             ErrorType::UnexpectedStrictReserved => write!(f, "Unexpected strict mode reserved word"),
+            ErrorType::IllegalLanguageModeDirective => write!(f, "Illegal 'use strict' directive in function with non-simple parameter list"),
         }
     }
 }
diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 82e5835..937c026 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -132,6 +132,28 @@ impl Binding {
             _ => panic!(),
         }
     }
+
+    /// Convert the target of an assignment to what a declaration or parameter may bind.
+    pub fn to_binding(self) -> Result<Binding> {
+        match self {
+            Binding::Expression(node) => node.to_binding(),
+            _ => Ok(self),
+        }
+    }
+
+    /// Like `to_binding`, but only for an identifier.
+    pub fn to_binding_id(self) -> Result<Binding> {
+        match self {
+            Binding::Expression(node) => match *node {
+                Node::Identifier { .. } => node.to_binding(),
+                _ => Node::error(
+                    ErrorType::InvalidRestBindingPattern,
+                    node.expr_span().start,
+                ),
+            },
+            _ => Ok(self),
+        }
+    }
 }
 
 // export type ArrayPatternElement = AssignmentPattern | BindingIdentifier | BindingPattern | RestElement | null;
@@ -306,6 +328,8 @@ pub enum FunctionParameter {
     #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
+        #[serde(skip)]
+        span: Span,
     },
     ArrayPattern {
         elements: Vec<Option<ArrayPatternElement>>,
@@ -759,6 +783,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ExpressionStatement")]
     Directive {
         expression: Box<Node>, // Expression
         directive: String,
@@ -1054,56 +1079,94 @@ impl Node {
         }
     }
 
-    fn to_binding(self) -> Result<Binding> {
-        let node = self.to_binding_pattern()?;
-        match node {
-            Node::BindingIdentifier { name, span } => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier { name, span }))
-            }
-            Node::ArrayPattern { elements, span, .. } => {
-                Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))
+    /// Whether this is an arrow function outside parentheses.
+    pub fn is_arrow(&self) -> bool {
+        match self {
+            Node::ArrowFunctionExpression { .. } | Node::AsyncArrowFunctionExpression { .. } => {
+                self.assign_target_type() == "arrow"
             }
-            Node::ObjectPattern {
-                properties, span, ..
-            } => Ok(Binding::ObjectPattern(ObjectPattern { properties, span })),
-            _ => Ok(Binding::Expression(Box::from(node))),
+            _ => false,
         }
     }
 
-    fn to_strict_binding(self, marker: Marker) -> Result<Binding> {
-        let node = self.to_binding_pattern()?;
-        match node {
-            Node::BindingIdentifier { name, span } => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier { name, span }))
+    pub fn is_use_strict(&self) -> bool {
+        match self {
+            Node::Directive { directive, .. } => directive == "use strict",
+            _ => false,
+        }
+    }
+
+    /// Whether this can be assigned to.
+    pub fn is_simple_target(&self) -> bool {
+        match self.assign_target_type() {
+            "simple" | "parenthesized" => true,
+            _ => false,
+        }
+    }
+
+    /// The same expression in parentheses, which rule out some reinterpretations.
+    pub fn parenthesized(mut self) -> Node {
+        match &mut self {
+            Node::Identifier {
+                assign_target_type, ..
+            } if *assign_target_type == "simple" => *assign_target_type = "parenthesized",
+            Node::ComputedMemberExpression {
+                assign_target_type, ..
             }
-            Node::ArrayPattern { elements, span, .. } => {
-                Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))
+            | Node::StaticMemberExpression {
+                assign_target_type, ..
+            } if *assign_target_type == "simple" => *assign_target_type = "parenthesized",
+            Node::ArrayExpression {
+                assign_target_type, ..
             }
-            Node::ObjectPattern {
-                properties, span, ..
-            } => Ok(Binding::ObjectPattern(ObjectPattern { properties, span })),
-            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, marker),
+            | Node::ObjectExpression {
+                assign_target_type, ..
+            }
+            | Node::AssignmentExpression {
+                assign_target_type, ..
+            }
+            | Node::ArrowFunctionExpression {
+                assign_target_type, ..
+            }
+            | Node::AsyncArrowFunctionExpression {
+                assign_target_type, ..
+            } => *assign_target_type = "invalid",
+            _ => (),
         }
+        self
     }
 
     pub fn to_assignment_pattern(self) -> Result<Node> {
         match self {
-            Node::ArrayExpression { elements, span, .. } => {
-                Node::array_to_assign_pattern(elements, span)
-            }
+            Node::ArrayExpression {
+                elements,
+                span,
+                assign_target_type: "pattern",
+            } => Node::array_to_assign_pattern(elements, span),
             Node::ObjectExpression {
-                properties, span, ..
+                properties,
+                span,
+                assign_target_type: "pattern",
             } => Node::object_to_assign_pattern(properties, span),
             _ => Ok(self),
         }
     }
 
+    /// Convert to what an assignment without initializer may assign to.
+    pub fn to_assignment_target(self, errortype: ErrorType) -> Result<Node> {
+        let target = self.to_assignment_pattern()?;
+        if !target.is_simple_target() {
+            return Node::error(errortype, target.expr_span().start);
+        }
+        Ok(target)
+    }
+
     fn array_to_assign_pattern(
         elements: Vec<Option<ArrayExpressionElement>>,
         span: Span,
     ) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len();
+        let last_idx = elements.len().saturating_sub(1);
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
@@ -1114,19 +1177,11 @@ impl Node {
                     if i != last_idx {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
-                    let argument = match argument {
-                        Node::ArrayExpression { span, .. }
-                        | Node::ObjectExpression { span, .. } => {
-                            return Node::error(ErrorType::InvalidRestBindingPattern, span.start)
-                        }
-                        _ => argument,
-                    };
-                    if argument.assign_target_type() != "simple" {
-                        return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
-                    }
+                    let argument =
+                        argument.to_assignment_target(ErrorType::InvalidLhsInAssignment)?;
                     pat_elems.push(Some(ArrayAssignmentPatternElement::RestElement(
                         RestElement {
-                            argument: argument.to_binding()?,
+                            argument: Binding::Expression(Box::from(argument)),
                         },
                     )))
                 }
@@ -1141,32 +1196,34 @@ impl Node {
     }
 
     fn as_assignment_element(self) -> Result<Node> {
-        let element = self.to_assignment_pattern()?;
-        match element {
+        match self {
             Node::AssignmentExpression {
                 operator: "=",
                 left,
                 right,
                 span,
-                ..
+                assign_target_type: "default",
+            } => Ok(Node::AssignmentPattern {
+                left: Binding::Expression(left),
+                right,
+                span,
+            }),
+            // A shorthand property with an initializer.
+            Node::AssignmentPattern {
+                left: Binding::Expression(left),
+                right,
+                span,
             } => {
-                if left.assign_target_type() != "simple" {
-                    Node::error(ErrorType::InvalidLhsInAssignment, span.start)
-                } else {
-                    Ok(Node::AssignmentPattern {
-                        left: Binding::Expression(left),
-                        right,
-                        span,
-                    })
-                }
-            }
-            _ => {
-                if element.assign_target_type() != "simple" {
-                    Node::error(ErrorType::InvalidLhsInAssignment, element.expr_span().start)
-                } else {
-                    Ok(element)
+                if !left.is_simple_target() {
+                    return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                 }
+                Ok(Node::AssignmentPattern {
+                    left: Binding::Expression(left),
+                    right,
+                    span,
+                })
             }
+            _ => self.to_assignment_target(ErrorType::InvalidLhsInAssignment),
         }
     }
 
@@ -1207,8 +1264,7 @@ impl Node {
                         Some(PropertyValue::Expression(expr)) => Ok(Some(
                             PropertyValue::Expression(expr.as_assignment_element()?),
                         )),
-                        None => Ok(None),
-                        _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
+                        _ => Node::error(ErrorType::InvalidDestructuringTarget, span.start),
                     }?;
                     pat_props.push(ObjectPatternProperty::Property {
                         key,
@@ -1223,18 +1279,11 @@ impl Node {
                     if i != last_idx {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
-                    let argument = match argument {
-                        Node::ArrayExpression { span, .. }
-                        | Node::ObjectExpression { span, .. } => {
-                            return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
-                        }
-                        _ => argument,
-                    };
-                    if argument.assign_target_type() != "simple" {
+                    if !argument.is_simple_target() {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_props.push(ObjectPatternProperty::RestElement {
-                        argument: argument.to_binding()?,
+                        argument: Binding::Expression(Box::from(argument)),
                     });
                 }
             }
@@ -1246,46 +1295,164 @@ impl Node {
         })
     }
 
+    /// Convert to a parameter of an arrow function.
+    pub fn to_parameter(self) -> Result<FunctionParameter> {
+        match self.to_binding_pattern()? {
+            Node::AssignmentPattern { left, right, .. } => {
+                Ok(FunctionParameter::AssignmentPattern {
+                    left,
+                    right: *right,
+                })
+            }
+            Node::BindingIdentifier { name, span } => {
+                Ok(FunctionParameter::BindingIdentifier { name, span })
+            }
+            Node::ObjectPattern { properties, .. } => {
+                Ok(FunctionParameter::ObjectPattern { properties })
+            }
+            Node::ArrayPattern { elements, .. } => Ok(FunctionParameter::ArrayPattern { elements }),
+            Node::RestElement { argument, .. } => Ok(FunctionParameter::RestElement { argument }),
+            node => Node::error(
+                ErrorType::InvalidDestructuringTarget,
+                node.expr_span().start,
+            ),
+        }
+    }
+
     pub fn to_binding_pattern(self) -> Result<Node> {
         match self {
-            Node::Identifier { name, span, .. } => Ok(Node::BindingIdentifier { name, span }),
-            Node::ArrayExpression { elements, span, .. } => Node::array_to_pattern(elements, span),
+            Node::Identifier {
+                name,
+                span,
+                assign_target_type: "simple",
+            } => Ok(Node::BindingIdentifier { name, span }),
+            Node::ArrayExpression {
+                elements,
+                span,
+                assign_target_type: "pattern",
+            } => Node::array_to_pattern(elements, span),
             Node::ObjectExpression {
-                properties, span, ..
+                properties,
+                span,
+                assign_target_type: "pattern",
             } => Node::object_to_pattern(properties, span),
             Node::AssignmentExpression {
                 operator: "=",
                 left,
                 right,
                 span,
-                ..
+                assign_target_type: "default",
             } => Ok(Node::AssignmentPattern {
-                left: left.to_strict_binding(span.clone().start)?,
+                left: left.to_binding()?,
+                right,
+                span,
+            }),
+            // Patterns which were converted for an assignment before.
+            Node::AssignmentPattern { left, right, span } => Ok(Node::AssignmentPattern {
+                left: left.to_binding()?,
                 right,
                 span,
             }),
+            Node::ArrayAssignmentPattern { elements, span, .. } => {
+                let mut pat_elems = vec![];
+                for element in elements {
+                    pat_elems.push(match element {
+                        Some(ArrayAssignmentPatternElement::Expression(expr)) => {
+                            Some(expr.to_array_pattern_element()?)
+                        }
+                        Some(ArrayAssignmentPatternElement::RestElement(RestElement {
+                            argument,
+                        })) => Some(ArrayPatternElement::RestElement {
+                            argument: argument.to_binding()?,
+                        }),
+                        None => None,
+                    });
+                }
+                Ok(Node::ArrayPattern {
+                    elements: pat_elems,
+                    assign_target_type: "simple",
+                    span,
+                })
+            }
+            Node::ObjectPattern {
+                properties, span, ..
+            } => {
+                let mut pat_props = vec![];
+                for property in properties {
+                    pat_props.push(match property {
+                        ObjectPatternProperty::Property {
+                            key,
+                            computed,
+                            value: Some(PropertyValue::Expression(expr)),
+                            kind,
+                            method,
+                            shorthand,
+                        } => ObjectPatternProperty::Property {
+                            key,
+                            computed,
+                            value: Some(expr.to_property_pattern()?),
+                            kind,
+                            method,
+                            shorthand,
+                        },
+                        ObjectPatternProperty::RestElement { argument } => {
+                            ObjectPatternProperty::RestElement {
+                                argument: argument.to_binding_id()?,
+                            }
+                        }
+                        property => property,
+                    });
+                }
+                Ok(Node::ObjectPattern {
+                    properties: pat_props,
+                    assign_target_type: "simple",
+                    span,
+                })
+            }
             Node::SpreadElement { argument, span } => Ok(Node::RestElement {
-                argument: (*argument).to_strict_binding(span.clone().start)?,
+                argument: (*argument).to_binding()?,
                 span,
             }),
-            _ => Ok(self),
+            Node::RestElement { .. } => Ok(self),
+            _ => Node::error(
+                ErrorType::InvalidDestructuringTarget,
+                self.expr_span().start,
+            ),
+        }
+    }
+
+    fn to_binding(self) -> Result<Binding> {
+        match self.to_binding_pattern()? {
+            Node::BindingIdentifier { name, span } => {
+                Ok(Binding::BindingIdentifier(BindingIdentifier { name, span }))
+            }
+            Node::ArrayPattern { elements, span, .. } => {
+                Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))
+            }
+            Node::ObjectPattern {
+                properties, span, ..
+            } => Ok(Binding::ObjectPattern(ObjectPattern { properties, span })),
+            node => Node::error(
+                ErrorType::InvalidDestructuringTarget,
+                node.expr_span().start,
+            ),
         }
     }
 
     fn array_to_pattern(elements: Vec<Option<ArrayExpressionElement>>, span: Span) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len() - 1;
+        let last_idx = elements.len().saturating_sub(1);
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
-                    pat_elems.push(Some(expr.to_array_pattern_element(i == last_idx)?))
+                    pat_elems.push(Some(expr.to_array_pattern_element()?))
                 }
                 Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
                     if i != last_idx {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     pat_elems.push(Some(ArrayPatternElement::RestElement {
-                        argument: argument.to_strict_binding(span.start)?,
+                        argument: argument.to_binding()?,
                     }));
                 }
                 None => pat_elems.push(None),
@@ -1298,7 +1465,7 @@ impl Node {
         })
     }
 
-    fn to_array_pattern_element(self, is_last: bool) -> Result<ArrayPatternElement> {
+    fn to_array_pattern_element(self) -> Result<ArrayPatternElement> {
         let element = self.to_binding_pattern()?;
         match element {
             Node::AssignmentPattern { left, right, .. } => {
@@ -1316,22 +1483,42 @@ impl Node {
             Node::ArrayPattern { elements, .. } => {
                 Ok(ArrayPatternElement::ArrayPattern { elements })
             }
-            Node::RestElement { argument, span } => {
-                if is_last {
-                    Ok(ArrayPatternElement::RestElement { argument })
-                } else {
-                    Node::error(ErrorType::ParamAfterRest, span.start)
-                }
-            }
             _ => {
                 return Node::error(
-                    ErrorType::InvalidOrUnexpectedToken,
+                    ErrorType::InvalidDestructuringTarget,
                     element.expr_span().start,
                 )
             }
         }
     }
 
+    fn to_property_pattern(self) -> Result<PropertyValue> {
+        match self.to_binding_pattern()? {
+            Node::AssignmentPattern { left, right, .. } => {
+                Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
+                    left,
+                    right: *right,
+                }))
+            }
+            Node::BindingIdentifier { name, span } => {
+                Ok(PropertyValue::BindingIdentifier(BindingIdentifier {
+                    name,
+                    span,
+                }))
+            }
+            Node::ObjectPattern { properties, .. } => Ok(PropertyValue::BindingPattern(
+                BindingPattern::ObjectPattern { properties },
+            )),
+            Node::ArrayPattern { elements, .. } => Ok(PropertyValue::BindingPattern(
+                BindingPattern::ArrayPattern { elements },
+            )),
+            node => Node::error(
+                ErrorType::InvalidDestructuringTarget,
+                node.expr_span().start,
+            ),
+        }
+    }
+
     fn object_to_pattern(properties: Vec<ObjectExpressionProperty>, span: Span) -> Result<Node> {
         let mut pat_props = vec![];
         if properties.len() == 0 {
@@ -1354,33 +1541,10 @@ impl Node {
                     span,
                 } => {
                     let value = match value {
-                        Some(PropertyValue::Expression(expr)) => match expr.to_binding_pattern()? {
-                            Node::AssignmentPattern { left, right, .. } => {
-                                Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
-                                    left,
-                                    right: *right,
-                                })))
-                            }
-                            Node::BindingIdentifier { name, span } => {
-                                Ok(Some(PropertyValue::BindingIdentifier(BindingIdentifier {
-                                    name,
-                                    span,
-                                })))
-                            }
-                            Node::ObjectPattern { properties, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ObjectPattern { properties },
-                                )))
-                            }
-                            Node::ArrayPattern { elements, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ArrayPattern { elements },
-                                )))
-                            }
-                            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                        },
-                        None => Ok(None),
-                        _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
+                        Some(PropertyValue::Expression(expr)) => {
+                            Ok(Some(expr.to_property_pattern()?))
+                        }
+                        _ => Node::error(ErrorType::InvalidDestructuringTarget, span.start),
                     }?;
                     pat_props.push(ObjectPatternProperty::Property {
                         key,
@@ -1394,7 +1558,7 @@ impl Node {
                 ObjectExpressionProperty::SpreadElement { argument, span } => {
                     if i == last_idx {
                         pat_props.push(ObjectPatternProperty::RestElement {
-                            argument: argument.to_strict_binding(span.start)?,
+                            argument: Binding::Expression(Box::from(argument)).to_binding_id()?,
                         });
                     } else {
                         return Node::error(ErrorType::InvalidOrUnexpectedToken, span.start);
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 46dff2b..b45a7e8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -24,11 +24,6 @@ macro_rules! log {
 
 // **************************************************************
 
-pub enum ValueOrExpr {
-    Value(Value),
-    Expr(Node),
-}
-
 struct Context {
     strict: bool,
     in_function: bool,
@@ -67,6 +62,17 @@ enum SyntaxGoal {
     Ambiguous,
 }
 
+/// What was seen in an expression that may yet turn out to be a pattern or arrow parameters.
+#[derive(Default)]
+struct Cover {
+    /// A shorthand property with an initializer, only valid in a pattern.
+    initializer: Option<Marker>,
+    /// A yield or await expression, not valid in parameters.
+    yield_or_await: Option<Marker>,
+    /// An identifier named await, not valid in parameters of async functions.
+    await_id: Option<Marker>,
+}
+
 pub struct Parser<I> {
     scanner: Scanner<I>,
     has_line_terminator: bool,
@@ -79,6 +85,9 @@ pub struct Parser<I> {
     last_end: Marker,
     goal: SyntaxGoal,
     pending_error: Option<Error>,
+    cover: Cover,
+    /// Where an arrow function may start.
+    arrow_at: usize,
 }
 
 impl<I> Parser<I>
@@ -112,6 +121,8 @@ where
             },
             goal: SyntaxGoal::Ambiguous,
             pending_error,
+            cover: Cover::default(),
+            arrow_at: usize::MAX,
         }
     }
 
@@ -164,24 +175,39 @@ where
 
     fn parse_directive_prologues(&mut self) -> Result<Vec<Node>> {
         let mut body = vec![];
+        let mut octal = None;
         loop {
             match self.current.tokentype {
                 TokenType::StringLiteral => {
-                    self.start_span();
-                    let expr = self.parse_expression()?;
-                    match &expr {
-                        Node::Literal { raw, .. }
-                            if raw == "'use strict'" || raw == "\"use strict\"" =>
-                        {
-                            self.ctx.strict = true;
+                    let start = self.marker();
+                    if octal.is_none() && self.current.octal == Some(true) {
+                        octal = Some(start.clone());
+                    }
+                    let expr = self.with_in(true, &mut Self::parse_expression)?;
+                    let directive = match &expr {
+                        Node::Literal { raw, .. } => Some(String::from(&raw[1..raw.len() - 1])),
+                        _ => None,
+                    };
+                    if directive.as_deref() == Some("use strict") {
+                        self.ctx.strict = true;
+                        if let Some(marker) = octal {
+                            return Node::error(ErrorType::InvalidOrUnexpectedToken, marker);
                         }
-                        _ => (),
                     }
                     self.consume_semicolon(LexGoal::RegExp)?;
-                    body.push(Node::ExpressionStatement {
-                        expression: Box::from(expr),
-                        span: self.end_span(),
-                    });
+                    let expression = Box::from(expr);
+                    let span = self.span_from(start);
+                    match directive {
+                        Some(directive) => body.push(Node::Directive {
+                            expression,
+                            directive,
+                            span,
+                        }),
+                        None => {
+                            body.push(Node::ExpressionStatement { expression, span });
+                            return Ok(body);
+                        }
+                    }
                 }
                 _ => return Ok(body),
             }
@@ -536,6 +562,7 @@ where
 
     fn parse_stmt_list_item(&mut self) -> Result<Node> {
         log!("parse_stmt_list_item");
+        let is_async_function = self.is_async_function()?;
         match self.current.tokentype {
             // statements
             TokenType::Punctuator if self.current.matches_punc("{") => self.parse_block_stmt(),
@@ -562,27 +589,11 @@ where
                 self.parse_debugger_stmt()
             }
             // special LL(2) grammar case
-            TokenType::Identifier if self.current.matches_str("async") => {
-                self.start_span();
-                self.scanner.save_state();
-                let next_token = self.scanner.next(LexGoal::Div)?;
-                match &next_token.tokentype {
-                    TokenType::Keyword
-                        if next_token.matches_str("function")
-                            && !next_token.newline_before =>
-                    {
-                        self.scanner.restore_state(next_token);
-                        self.with_default(false, &mut Self::parse_hoistable_dclr)
-                    }
-                    _ => {
-                        self.scanner.restore_state(next_token);
-                        self.end_span();
-                        self.parse_expression_or_labelled_stmt()
-                    }
-                }
+            TokenType::Identifier if is_async_function => {
+                self.with_default(false, &mut Self::parse_hoistable_dclr)
             }
             // declarations
-            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
+            TokenType::Keyword if self.current.matches_str("function") => {
                 self.with_default(false, &mut Self::parse_hoistable_dclr)
             }
             TokenType::Keyword if self.current.matches_str("class") => {
@@ -642,6 +653,20 @@ where
         }
     }
 
+    /// Whether an async function starts here.
+    fn is_async_function(&mut self) -> Result<bool> {
+        if self.current.tokentype != TokenType::Identifier || !self.current.matches_str("async") {
+            return Ok(false);
+        }
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        let res = next_token.tokentype == TokenType::Keyword
+            && next_token.matches_str("function")
+            && !next_token.newline_before;
+        self.scanner.restore_state(next_token);
+        Ok(res)
+    }
+
     fn parse_expression_or_labelled_stmt(&mut self) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
         self.start_span();
@@ -1344,7 +1369,10 @@ where
                         return self.error_current(ErrorType::StrictFunction);
                     } else {
                         Box::from(self.with_default(false, &mut |this| {
-                            this.parse_function_dclr(false, false)
+                            {
+                            let start = this.marker();
+                            this.parse_function_dclr(start, false, false)
+                        }
                         })?)
                     }
                 }
@@ -1454,20 +1482,28 @@ where
         //     GeneratorDeclaration[?Yield, ?Await, ?Default]
         //     AsyncFunctionDeclaration[?Yield, ?Await, ?Default]
         //     AsyncGeneratorDeclaration[?Yield, ?Await, ?Default]
+        let start = self.marker();
         match self.current.tokentype {
             TokenType::Identifier if self.current.matches_str("async") => {
-                self.start_span();
                 self.advance(LexGoal::RegExp)?;
-                self.parse_function_dclr(true, true)
+                if self.has_line_terminator {
+                    return self.unexpected_current();
+                }
+                self.parse_function_dclr(start, true, true)
             }
             TokenType::Keyword if self.current.matches_str("function") => {
-                self.parse_function_dclr(false, true)
+                self.parse_function_dclr(start, false, true)
             }
             _ => self.unexpected_current(),
         }
     }
 
-    fn parse_function_dclr(&mut self, r#async: bool, allow_generator: bool) -> Result<Node> {
+    fn parse_function_dclr(
+        &mut self,
+        start: Marker,
+        r#async: bool,
+        allow_generator: bool,
+    ) -> Result<Node> {
         log!("parse_function_dclr");
         // FunctionDeclaration[Yield, Await, Default]:
         //     "function" BindingIdentifier[?Yield, ?Await] "(" FormalParameters[~Yield, ~Await] ")" "{" FunctionBody[~Yield, ~Await] "}"
@@ -1498,12 +1534,6 @@ where
         //     "async" [no LineTerminator here] "function" "*" BindingIdentifier[?Yield, ?Await]
         //       "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
         //     [+Default] "async" [no LineTerminator here] "function" "*" "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
-        if r#async && !self.has_line_terminator {
-            return self.unexpected_current();
-        }
-        if !r#async {
-            self.start_span();
-        }
         self.consume_kw("function", LexGoal::RegExp)?;
         let generator = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("*") => {
@@ -1531,23 +1561,8 @@ where
             },
         }?;
 
-        let params = self.with_params(
-            Params {
-                has_yield: generator,
-                has_await: r#async,
-                ..self.params
-            },
-            &mut Self::parse_formal_params,
-        )?;
-
-        let body = self.with_params(
-            Params {
-                has_yield: generator,
-                has_await: r#async,
-                ..self.params
-            },
-            &mut Self::parse_function_body,
-        )?;
+        let (params, body) =
+            self.parse_function_rest(id.as_deref(), "function", generator, r#async)?;
         Ok(Node::FunctionDeclaration {
             id,
             params,
@@ -1555,30 +1570,59 @@ where
             generator,
             expression: false,
             r#async,
-            span: self.end_span(),
+            span: self.span_from(start),
         })
     }
 
-    fn parse_function_body(&mut self) -> Result<Node> {
-        let prev_in_function = self.ctx.in_function;
-        self.ctx.in_function = true;
-        let res = self.with_return(true, &mut Self::parse_function_body_block);
-        self.ctx.in_function = prev_in_function;
+    fn parse_function_body(
+        &mut self,
+        id: Option<&Node>,
+        params: &[FunctionParameter],
+    ) -> Result<Node> {
+        let strict = self.ctx.strict;
+        let prev_ctx = mem::replace(
+            &mut self.ctx,
+            Context {
+                strict,
+                in_function: true,
+                in_iteration: false,
+                in_switch: false,
+            },
+        );
+        let res = self.with_return(true, &mut |this| {
+            this.parse_function_body_block(id, params)
+        });
+        self.ctx = prev_ctx;
         res
     }
 
-    fn parse_function_body_block(&mut self) -> Result<Node> {
+    fn parse_function_body_block(
+        &mut self,
+        id: Option<&Node>,
+        params: &[FunctionParameter],
+    ) -> Result<Node> {
         self.start_span();
         self.consume("{", LexGoal::RegExp)?;
         let prev_strict = self.ctx.strict;
+        let directive = self.marker();
         let mut body = self.parse_directive_prologues()?;
-
-        let prev_in_iteration = self.ctx.in_iteration;
+        if body.iter().any(Node::is_use_strict) {
+            for param in params {
+                match param {
+                    FunctionParameter::BindingIdentifier { name, span } => {
+                        self.check_strict_name(name, span)?
+                    }
+                    _ => return Node::error(ErrorType::IllegalLanguageModeDirective, directive),
+                }
+            }
+        }
+        if self.ctx.strict && !prev_strict {
+            if let Some(Node::BindingIdentifier { name, span }) = id {
+                self.check_strict_name(name, span)?;
+            }
+        }
         body.extend(self.parse_statement_list()?);
-        self.ctx.in_iteration = prev_in_iteration;
-
         self.consume("}", LexGoal::Div)?;
-        self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
             span: self.end_span(),
@@ -1592,20 +1636,29 @@ where
         //     [+Default] "class" ClassTail[?Yield, ?Await]
         let prev_strict = self.ctx.strict;
         self.ctx.strict = true;
-        self.start_span();
+        let start = self.marker();
         self.consume_kw("class", LexGoal::RegExp)?;
-        let id = match self.parse_binding_id()? {
-            Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                Ok(Node::BindingIdentifier { name, span })
+        let id = match self.current.tokentype {
+            TokenType::Punctuator | TokenType::Keyword
+                if self.params.has_default
+                    && (self.current.matches_punc("{") || self.current.matches_str("extends")) =>
+            {
+                None
             }
-            _ => unreachable!(),
-        }?;
-        let res = self.parse_class_tail(Some(Box::from(id)))?;
+            _ => Some(Box::from(self.parse_binding_id()?.to_node()?)),
+        };
+        self.params.has_default = false;
+        let (super_class, body) = self.parse_class_tail()?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassDeclaration {
+            id,
+            super_class,
+            body,
+            span: self.span_from(start),
+        })
     }
 
-    fn parse_class_tail(&mut self, id: Option<Box<Node>>) -> Result<Node> {
+    fn parse_class_tail(&mut self) -> Result<(Option<Box<Node>>, ClassBody)> {
         // ClassTail[Yield, Await]:
         //     ClassHeritage[?Yield, ?Await](opt) "{" ClassBody[?Yield, ?Await](opt) "}"
         // ClassHeritage[Yield, Await]:
@@ -1619,19 +1672,18 @@ where
         let super_class = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("extends") => {
                 self.advance(LexGoal::RegExp)?;
-                Some(Box::from(self.parse_left_hand_side_expr()?))
+                let outer = self.cover.initializer.take();
+                let super_class = self.parse_left_hand_side_expr()?;
+                self.check_cover_initializer()?;
+                self.cover.initializer = outer;
+                Some(Box::from(super_class))
             }
             _ => None,
         };
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
         self.consume("}", LexGoal::Div)?;
-        Ok(Node::ClassDeclaration {
-            id,
-            super_class,
-            body,
-            span: self.end_span(),
-        })
+        Ok((super_class, body))
     }
 
     fn parse_class_body(&mut self) -> Result<ClassBody> {
@@ -1650,220 +1702,7 @@ where
                     this.advance(LexGoal::RegExp)?;
                     Ok(None)
                 }
-                _ => {
-                    let r#static = match this.current.tokentype {
-                        TokenType::Keyword if this.current.matches_str("static") => {
-                            this.advance(LexGoal::RegExp)?;
-                            true
-                        }
-                        _ => false,
-                    };
-                    match this.current.tokentype {
-                        TokenType::Identifier if this.current.matches_str("get") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let (key, computed) = this.parse_property_name()?;
-                            this.consume("(", LexGoal::RegExp)?;
-                            this.consume(")", LexGoal::RegExp)?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params: vec![],
-                                body,
-                                generator: false,
-                                expression: false,
-                                r#async: false,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "get",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Identifier if this.current.matches_str("set") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator: false,
-                                expression: false,
-                                r#async: false,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "set",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Identifier if this.current.matches_str("async") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let r#async = true;
-                            let generator = match this.current.tokentype {
-                                TokenType::Punctuator
-                                    if !this.has_line_terminator
-                                        && this.current.matches_punc("*") =>
-                                {
-                                    this.advance(LexGoal::RegExp)?;
-                                    true
-                                }
-                                _ => false,
-                            };
-                            if !generator && !this.has_line_terminator {
-                                return this.unexpected_current();
-                            }
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "method",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Punctuator if this.current.matches_punc("*") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let r#async = false;
-                            let generator = true;
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "method",
-                                r#static,
-                            }))
-                        }
-                        _ => {
-                            let r#async = false;
-                            let generator = false;
-                            let (key, computed) = this.parse_property_name()?;
-                            let kind = match &key {
-                                PropertyKey::Identifier(Identifier { name, .. }) => {
-                                    if name == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                PropertyKey::Literal(Literal { value, .. }) => {
-                                    if value == &Value::Str(String::from("constructor")) {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                _ => "method",
-                            };
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind,
-                                r#static,
-                            }))
-                        }
-                    }
-                }
+                _ => Ok(Some(this.parse_class_element()?)),
             })?;
         let mut body = vec![];
         for item in body_with_empty.into_iter() {
@@ -1874,6 +1713,65 @@ where
         Ok(ClassBody { body })
     }
 
+    fn parse_class_element(&mut self) -> Result<MethodDefinition> {
+        let mut r#static = false;
+        let mut name = None;
+        if self.current.matches_str("static") && self.current.tokentype != TokenType::StringLiteral
+        {
+            self.start_span();
+            self.advance(LexGoal::Div)?;
+            let span = self.end_span();
+            if self.current.matches_punc("(") {
+                name = Some(Identifier {
+                    name: String::from("static"),
+                    span,
+                });
+            } else {
+                r#static = true;
+            }
+        }
+        let (mut kind, r#async, generator, key, computed) = match name {
+            Some(name) => ("method", false, false, PropertyKey::Identifier(name), false),
+            None => {
+                let (kind, r#async, generator, name) = self.parse_method_prefix()?;
+                match name {
+                    Some(name) => (kind, r#async, generator, PropertyKey::Identifier(name), false),
+                    None => {
+                        let (key, computed) = self.parse_property_name()?;
+                        (kind, r#async, generator, key, computed)
+                    }
+                }
+            }
+        };
+        let constructor = Value::Str(String::from("constructor"));
+        let is_constructor = match &key {
+            PropertyKey::Identifier(Identifier { name, .. }) => name == "constructor",
+            PropertyKey::Literal(Literal { value, .. }) => value == &constructor,
+            _ => false,
+        };
+        if is_constructor && !r#static {
+            if kind != "method" || r#async || generator {
+                return self.unexpected_current();
+            }
+            kind = "constructor";
+        }
+        let (params, body) = self.parse_function_rest(None, kind, generator, r#async)?;
+        Ok(MethodDefinition {
+            key: key.as_node(),
+            computed,
+            value: Some(FunctionExpression {
+                id: None,
+                params,
+                body: Box::from(body),
+                generator,
+                expression: false,
+                r#async,
+            }),
+            kind,
+            r#static,
+        })
+    }
+
     fn parse_lexical_dclr(&mut self) -> Result<Node> {
         log!("parse_lexical_dclr");
         // VariableDeclaration {
@@ -1915,7 +1813,7 @@ where
         // Expression[In, Yield, Await]:
         //     AssignmentExpression[?In, ?Yield, ?Await]
         //     Expression[?In, ?Yield, ?Await],AssignmentExpression[?In, ?Yield, ?Await]
-        self.start_span();
+        let start = self.marker();
         let expr = self.parse_assignment_expr()?;
         if self.current.matches_punc(",") {
             let mut expressions = vec![expr];
@@ -1923,15 +1821,10 @@ where
                 this.consume(",", LexGoal::RegExp)?;
                 this.parse_assignment_expr()
             })?);
-            let assign_target_type = if expressions.len() == 1 {
-                "simple"
-            } else {
-                "invalid"
-            };
             Ok(Node::SequenceExpression {
                 expressions,
-                assign_target_type,
-                span: self.end_span(),
+                assign_target_type: "invalid",
+                span: self.span_from(start),
             })
         } else {
             Ok(expr)
@@ -1947,59 +1840,91 @@ where
         //     AsyncArrowFunction[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] "=" AssignmentExpression[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] AssignmentOperator AssignmentExpression[?In, ?Yield, ?Await]
-        if self.params.has_yield && self.current.matches_str("yield") {
-            return self.parse_yield_expr();
+        let outer = self.cover.initializer.take();
+        let expr = self.parse_assignment_expr_or_pattern()?;
+        if let Some(marker) = self.cover.initializer.take() {
+            return Node::error(ErrorType::UnexpectedToken(String::from("=")), marker);
         }
-        self.start_span();
-        let mut lhs = self.parse_conditional_expr()?;
+        self.cover.initializer = outer;
+        Ok(expr)
+    }
 
-        if let Node::Identifier { name, .. } = &lhs {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    lhs = self.parse_single_param_arrow_function_expr(name.clone())?;
-                }
-                _ => (),
-            }
+    /// Parse an assignment expression, or an array or object literal which is only valid when
+    /// it turns out to be a pattern.
+    fn parse_assignment_expr_or_pattern(&mut self) -> Result<Node> {
+        if self.params.has_yield
+            && self.current.tokentype == TokenType::Keyword
+            && self.current.matches_str("yield")
+        {
+            return self.parse_yield_expr();
         }
+        let start = self.marker();
+        let outer = self.cover.initializer.take();
+        self.arrow_at = self.current.start;
+        let mut lhs = self.parse_conditional_expr()?;
 
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=") => {
-                let token = self.advance(LexGoal::RegExp)?;
+                let token = self.current.clone();
                 lhs = lhs.to_assignment_pattern()?;
-                if lhs.assign_target_type() != "simple" {
+                if !lhs.is_simple_target() {
                     return self.error(token, ErrorType::InvalidLhsInAssignment);
                 }
+                match lhs {
+                    Node::ArrayAssignmentPattern { .. } | Node::ObjectPattern { .. } => {
+                        self.cover.initializer = None;
+                    }
+                    _ => self.check_cover_initializer()?,
+                }
+                self.cover.initializer = outer;
+                self.advance(LexGoal::RegExp)?;
                 let rhs = self.parse_assignment_expr()?;
                 Ok(Node::AssignmentExpression {
                     operator: "=",
                     left: Box::from(lhs),
                     right: Box::from(rhs),
-                    assign_target_type: "invalid",
-                    span: self.end_span(),
+                    assign_target_type: "default",
+                    span: self.span_from(start),
                 })
             }
             TokenType::Punctuator if self.current.is_assign_op() => {
-                let token = self.advance(LexGoal::RegExp)?;
+                let token = self.current.clone();
+                self.check_cover_initializer()?;
+                self.cover.initializer = outer;
                 let operator = token.value.clone().punc().unwrap().to_str();
-                if lhs.assign_target_type() != "simple" {
+                if !lhs.is_simple_target() {
                     return self.error(token, ErrorType::InvalidLhsInAssignment);
                 }
+                self.advance(LexGoal::RegExp)?;
                 let rhs = self.parse_assignment_expr()?;
                 Ok(Node::AssignmentExpression {
                     operator,
                     left: Box::from(lhs),
                     right: Box::from(rhs),
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span: self.span_from(start),
                 })
             }
             _ => {
-                self.end_span();
+                match lhs {
+                    Node::ArrayExpression { .. } | Node::ObjectExpression { .. } => (),
+                    _ => self.check_cover_initializer()?,
+                }
+                if outer.is_some() {
+                    self.cover.initializer = outer;
+                }
                 Ok(lhs)
             }
         }
     }
 
+    fn check_cover_initializer(&mut self) -> Result<()> {
+        match self.cover.initializer.take() {
+            Some(marker) => Node::error(ErrorType::UnexpectedToken(String::from("=")), marker),
+            None => Ok(()),
+        }
+    }
+
     fn parse_yield_expr(&mut self) -> Result<Node> {
         // YieldExpression[In, Await]:
         //     "yield"
@@ -2010,57 +1935,91 @@ where
         //     delegate: bool,
         // },
         log!("parse_yield_expr");
-        self.start_span();
+        let start = self.marker();
+        if self.cover.yield_or_await.is_none() {
+            self.cover.yield_or_await = Some(start.clone());
+        }
         self.consume_kw("yield", LexGoal::RegExp)?;
+        let mut delegate = false;
+        let mut argument = None;
         if !self.has_line_terminator {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("*") => {
                     self.advance(LexGoal::RegExp)?;
-                    Ok(Node::YieldExpression {
-                        argument: Some(Box::from(
-                            self.with_yield(true, &mut Self::parse_assignment_expr)?,
-                        )),
-                        delegate: true,
-                        assign_target_type: "invalid",
-                        span: self.end_span(),
-                    })
-                }
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    self.parse_single_param_arrow_function_expr(String::from("yield"))
+                    delegate = true;
+                    argument = Some(Box::from(self.parse_assignment_expr()?));
                 }
-                _ => Ok(Node::YieldExpression {
-                    argument: Some(Box::from(
-                        self.with_yield(true, &mut Self::parse_assignment_expr)?,
-                    )),
-                    delegate: false,
-                    assign_target_type: "invalid",
-                    span: self.end_span(),
-                }),
+                _ if self.ends_expression() => (),
+                _ => argument = Some(Box::from(self.parse_assignment_expr()?)),
             }
-        } else {
-            Ok(Node::YieldExpression {
-                argument: None,
-                delegate: false,
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            })
+        }
+        Ok(Node::YieldExpression {
+            argument,
+            delegate,
+            assign_target_type: "invalid",
+            span: self.span_from(start),
+        })
+    }
+
+    /// Whether the current token can only follow a complete expression.
+    fn ends_expression(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Punctuator => {
+                self.current.matches_punc(")")
+                    || self.current.matches_punc("]")
+                    || self.current.matches_punc("}")
+                    || self.current.matches_punc(",")
+                    || self.current.matches_punc(";")
+                    || self.current.matches_punc(":")
+            }
+            TokenType::Template => self.current.head == Some(false),
+            TokenType::Eof => true,
+            _ => false,
         }
     }
 
-    fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
+    fn parse_single_param_arrow_function_expr(&mut self, start: Marker, id: Node) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
+        let params = vec![id.to_parameter()?];
+        self.parse_arrow_tail(start, params, false)
+    }
+
+    /// Parse an arrow function from its arrow on.
+    fn parse_arrow_tail(
+        &mut self,
+        start: Marker,
+        params: Vec<FunctionParameter>,
+        r#async: bool,
+    ) -> Result<Node> {
+        if self.has_line_terminator {
+            return self.unexpected_current();
+        }
         self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
-        Ok(Node::ArrowFunctionExpression {
-            id: None,
-            params: vec![FunctionParameter::BindingIdentifier { name }],
-            body,
-            generator: false,
-            expression,
-            r#async: false,
-            assign_target_type: "invalid",
-            span: self.end_span(),
-        })
+        let (body, expression) = self.parse_arrow_body(&params, r#async)?;
+        let span = self.span_from(start);
+        if r#async {
+            Ok(Node::AsyncArrowFunctionExpression {
+                id: None,
+                params,
+                body,
+                generator: false,
+                expression,
+                r#async,
+                assign_target_type: "arrow",
+                span,
+            })
+        } else {
+            Ok(Node::ArrowFunctionExpression {
+                id: None,
+                params,
+                body,
+                generator: false,
+                expression,
+                r#async,
+                assign_target_type: "arrow",
+                span,
+            })
+        }
     }
 
     fn parse_conditional_expr(&mut self) -> Result<Node> {
@@ -2070,9 +2029,9 @@ where
         //     LogicalORExpression[?In, ?Yield, ?Await] ?
         //      AssignmentExpression[+In, ?Yield, ?Await] :
         //      AssignmentExpression[?In, ?Yield, ?Await]
-        self.start_span();
+        let start = self.marker();
         let expr = self.parse_binary_expr()?;
-        if self.current.matches_punc("?") {
+        if !expr.is_arrow() && self.current.matches_punc("?") {
             self.consume("?", LexGoal::RegExp)?;
             let consequent = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);
             self.consume(":", LexGoal::RegExp)?;
@@ -2081,7 +2040,7 @@ where
                 test: Box::from(expr),
                 consequent,
                 alternate,
-                span: self.end_span(),
+                span: self.span_from(start),
             })
         } else {
             Ok(expr)
@@ -2091,30 +2050,51 @@ where
     fn parse_binary_expr(&mut self) -> Result<Node> {
         log!("parse_binary_expr");
         // ExponentiationExpression binop ExponentiationExpression
-        self.start_span();
+        let start = self.marker();
         let lhs = self.parse_exponentiation_expr()?;
-        self.precedence_climbing(lhs, 1)
+        self.precedence_climbing(lhs, start, 1)
     }
 
-    fn precedence_climbing(&mut self, mut lhs: Node, prec: usize) -> Result<Node> {
-        while self.current.is_bin_op() && self.current.precedence(self.params.has_in) >= prec {
+    fn precedence_climbing(&mut self, mut lhs: Node, start: Marker, prec: usize) -> Result<Node> {
+        while !lhs.is_arrow()
+            && self.current.is_bin_op()
+            && self.current.precedence(self.params.has_in) >= prec
+        {
             let op = self.advance(LexGoal::RegExp)?;
+            let rhs_start = self.marker();
             let mut rhs = self.parse_exponentiation_expr()?;
             while self.current.is_bin_op()
                 && self.current.precedence(self.params.has_in) > op.precedence(self.params.has_in)
             {
-                rhs = self.precedence_climbing(rhs, self.current.precedence(self.params.has_in))?;
+                rhs = self.precedence_climbing(
+                    rhs,
+                    rhs_start.clone(),
+                    self.current.precedence(self.params.has_in),
+                )?;
             }
-            lhs = Node::BinaryExpression {
-                operator: op.to_string(),
-                left: Box::from(lhs),
-                right: Box::from(rhs),
-                assign_target_type: "invalid",
-                span: self.end_span(),
+            let span = self.span_from(start.clone());
+            lhs = match op.to_str() {
+                "&&" => Node::LogicalExpression {
+                    operator: "&&",
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    span,
+                },
+                "||" => Node::LogicalExpression {
+                    operator: "||",
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    span,
+                },
+                _ => Node::BinaryExpression {
+                    operator: op.to_string(),
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    assign_target_type: "invalid",
+                    span,
+                },
             };
-            self.start_span();
         }
-        self.end_span();
         Ok(lhs)
     }
 
@@ -2124,12 +2104,16 @@ where
         //     UpdateExpression[?Yield, ?Await] ** ExponentiationExpression[?Yield, ?Await]
         log!("parse_exponentiation_expr");
         if self.current.is_unary_op(self.params.has_await) {
-            self.parse_unary_expr()
+            let expr = self.parse_unary_expr()?;
+            if self.current.matches_punc("**") {
+                return self.error_current(ErrorType::UnexpectedTokenUnaryExponentiation);
+            }
+            Ok(expr)
         } else {
             self.start_span();
             let lhs = self.parse_update_expr()?;
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("**") => {
+                TokenType::Punctuator if !lhs.is_arrow() && self.current.matches_punc("**") => {
                     let operator = self.consume("**", LexGoal::RegExp)?.to_string();
                     let rhs = self.parse_exponentiation_expr()?;
                     Ok(Node::BinaryExpression {
@@ -2164,10 +2148,21 @@ where
             TokenType::Punctuator | TokenType::Keyword
                 if self.current.is_unary_op(self.params.has_await) =>
             {
+                if self.current.matches_str("await") && self.cover.yield_or_await.is_none() {
+                    self.cover.yield_or_await = Some(self.marker());
+                }
                 self.start_span();
+                let operator = self.advance(LexGoal::RegExp)?.to_string();
+                let argument = Box::new(self.parse_unary_expr()?);
+                if operator == "await" {
+                    return Ok(Node::AwaitExpression {
+                        argument,
+                        span: self.end_span(),
+                    });
+                }
                 Ok(Node::UnaryExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
-                    argument: Box::new(self.parse_unary_expr()?),
+                    operator,
+                    argument,
                     prefix: true,
                     assign_target_type: "invalid",
                     span: self.end_span(),
@@ -2184,7 +2179,7 @@ where
             let operator = self.advance(LexGoal::RegExp)?.to_string();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_unary_expr()?;
-            if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
+            if !expr.is_simple_target() {
                 return Err(Error {
                     line,
                     col,
@@ -2199,11 +2194,11 @@ where
                 span: self.end_span(),
             })
         } else {
-            self.start_span();
+            let start = self.marker();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_left_hand_side_expr()?;
-            if !self.has_line_terminator && self.current.is_update_op() {
-                if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
+            if !expr.is_arrow() && !self.has_line_terminator && self.current.is_update_op() {
+                if !expr.is_simple_target() {
                     return Err(Error {
                         line,
                         col,
@@ -2215,7 +2210,7 @@ where
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span: self.span_from(start),
                 })
             } else {
                 Ok(expr)
@@ -2225,10 +2220,7 @@ where
 
     fn parse_left_hand_side_expr(&mut self) -> Result<Node> {
         log!("parse_left_hand_side_expr");
-        match self.current.tokentype {
-            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
-            _ => self.parse_call_expr(),
-        }
+        self.parse_call_expr()
     }
 
     fn parse_call_expr(&mut self) -> Result<Node> {
@@ -2236,7 +2228,7 @@ where
         // CallExpression:
         //     (CoverCallExpressionAndAsyncArrowHead | "super" Arguments)
         //         (Arguments | "[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
-        self.start_span();
+        let start = self.marker();
         let callee = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
@@ -2246,24 +2238,27 @@ where
                             callee: Box::from(object),
                             arguments: self.parse_arguments()?,
                             assign_target_type: "invalid",
-                            span: self.peek_span(),
+                            span: self.span_from(start.clone()),
                         })
                     }
                     TokenType::Punctuator if self.current.matches_punc("[") => {
-                        self.parse_computed_member_expr(object)
+                        self.parse_computed_member_expr(object, start.clone())
                     }
                     TokenType::Punctuator if self.current.matches_punc(".") => {
-                        self.parse_static_member_expr(object)
+                        self.parse_static_member_expr(object, start.clone())
                     }
                     _ => self.unexpected_current(),
                 }
             }
             _ => self.parse_member_expr(),
         }?;
-        self.parse_call_expr_tail(callee)
+        self.parse_call_expr_tail(callee, start)
     }
 
-    fn parse_call_expr_tail(&mut self, mut callee: Node) -> Result<Node> {
+    fn parse_call_expr_tail(&mut self, mut callee: Node, start: Marker) -> Result<Node> {
+        if callee.is_arrow() {
+            return Ok(callee);
+        }
         loop {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("(") => {
@@ -2271,42 +2266,42 @@ where
                         callee: Box::from(callee),
                         arguments: self.parse_arguments()?,
                         assign_target_type: "invalid",
-                        span: self.peek_span(),
+                        span: self.span_from(start.clone()),
                     };
                 }
                 TokenType::Punctuator if self.current.matches_punc("[") => {
-                    callee = self.parse_computed_member_expr(callee)?;
+                    callee = self.parse_computed_member_expr(callee, start.clone())?;
                 }
                 TokenType::Punctuator if self.current.matches_punc(".") => {
-                    callee = self.parse_static_member_expr(callee)?;
+                    callee = self.parse_static_member_expr(callee, start.clone())?;
                 }
                 TokenType::Template if self.current.head == Some(true) => {
-                    match self.parse_template_literal(true)? {
-                        Node::TemplateLiteral {
-                            quasis,
-                            expressions,
-                            span,
-                            ..
-                        } => {
-                            callee = Node::TaggedTemplateExpression {
-                                tag: Box::from(callee),
-                                quasi: TemplateLiteral {
-                                    quasis,
-                                    expressions,
-                                },
-                                span,
-                            };
-                        }
-                        _ => unreachable!(),
-                    }
+                    callee = self.parse_tagged_template(callee, start.clone())?;
                 }
                 _ => break,
             }
         }
-        self.end_span();
         Ok(callee)
     }
 
+    fn parse_tagged_template(&mut self, tag: Node, start: Marker) -> Result<Node> {
+        match self.parse_template_literal(true)? {
+            Node::TemplateLiteral {
+                quasis,
+                expressions,
+                ..
+            } => Ok(Node::TaggedTemplateExpression {
+                tag: Box::from(tag),
+                quasi: TemplateLiteral {
+                    quasis,
+                    expressions,
+                },
+                span: self.span_from(start),
+            }),
+            _ => unreachable!(),
+        }
+    }
+
     fn parse_member_expr(&mut self) -> Result<Node> {
         log!("parse_member_expr");
         // MemberExpression:
@@ -2316,48 +2311,36 @@ where
         // SuperProperty[Yield, Await]:
         //     "super" "[" Expression[+In] "]"
         //     super "." IdentifierName
+        let start = self.marker();
         let mut expr = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc("[") => {
-                        self.parse_computed_member_expr(object)
+                        self.parse_computed_member_expr(object, start.clone())
                     }
                     TokenType::Punctuator if self.current.matches_punc(".") => {
-                        self.parse_static_member_expr(object)
+                        self.parse_static_member_expr(object, start.clone())
                     }
                     _ => self.unexpected_current(),
                 }
             }
+            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
             _ => self.parse_primary_expr(),
         }?;
+        if expr.is_arrow() {
+            return Ok(expr);
+        }
         loop {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("[") => {
-                    expr = self.parse_computed_member_expr(expr)?
+                    expr = self.parse_computed_member_expr(expr, start.clone())?
                 }
                 TokenType::Punctuator if self.current.matches_punc(".") => {
-                    expr = self.parse_static_member_expr(expr)?
+                    expr = self.parse_static_member_expr(expr, start.clone())?
                 }
                 TokenType::Template if self.current.head == Some(true) => {
-                    match self.parse_template_literal(true)? {
-                        Node::TemplateLiteral {
-                            quasis,
-                            expressions,
-                            span,
-                            ..
-                        } => {
-                            expr = Node::TaggedTemplateExpression {
-                                tag: Box::from(expr),
-                                quasi: TemplateLiteral {
-                                    quasis,
-                                    expressions,
-                                },
-                                span,
-                            };
-                        }
-                        _ => unreachable!(),
-                    }
+                    expr = self.parse_tagged_template(expr, start.clone())?
                 }
                 _ => break,
             }
@@ -2365,24 +2348,22 @@ where
         Ok(expr)
     }
 
-    fn parse_computed_member_expr(&mut self, object: Node) -> Result<Node> {
+    fn parse_computed_member_expr(&mut self, object: Node, start: Marker) -> Result<Node> {
         log!("parse_computed_member_expr");
-        self.start_span();
         self.consume("[", LexGoal::RegExp)?;
-        let member_expr = Node::ComputedMemberExpression {
+        let property = Box::from(self.with_in(true, &mut Self::parse_expression)?);
+        self.consume("]", LexGoal::Div)?;
+        Ok(Node::ComputedMemberExpression {
             computed: true,
             object: Box::from(object),
-            property: Box::from(self.with_in(true, &mut Self::parse_expression)?),
+            property,
             assign_target_type: "simple",
-            span: self.end_span(),
-        };
-        self.consume("]", LexGoal::Div)?;
-        Ok(member_expr)
+            span: self.span_from(start),
+        })
     }
 
-    fn parse_static_member_expr(&mut self, object: Node) -> Result<Node> {
+    fn parse_static_member_expr(&mut self, object: Node, start: Marker) -> Result<Node> {
         log!("parse_static_member_expr");
-        self.start_span();
         self.consume(".", LexGoal::RegExp)?;
         self.start_span();
         let name = self.parse_id_name(LexGoal::Div)?;
@@ -2396,7 +2377,7 @@ where
             object: Box::from(object),
             property,
             assign_target_type: "simple",
-            span: self.end_span(),
+            span: self.span_from(start),
         })
     }
 
@@ -2424,10 +2405,11 @@ where
                 self.advance(LexGoal::RegExp)?;
                 match self.current.tokentype {
                     TokenType::Identifier if self.current.matches_str("target") => {
+                        self.start_span();
                         let property = Box::from(Node::Identifier {
                             name: self.advance(LexGoal::Div)?.value.string().unwrap(),
                             assign_target_type: "invalid",
-                            span: span.clone(),
+                            span: self.end_span(),
                         });
                         Ok(Node::MetaProperty {
                             meta: Box::from(Node::Identifier {
@@ -2443,12 +2425,6 @@ where
                     _ => self.unexpected_current(),
                 }
             }
-            TokenType::Keyword if self.current.matches_str("new") => Ok(Node::NewExpression {
-                callee: Box::from(self.parse_new_expr()?),
-                arguments: vec![],
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
             _ => {
                 let callee = Box::from(self.parse_member_expr()?);
                 let arguments = match self.current.tokentype {
@@ -2457,13 +2433,12 @@ where
                     }
                     _ => vec![],
                 };
-                let callee = Node::NewExpression {
+                Ok(Node::NewExpression {
                     callee,
                     arguments,
                     assign_target_type: "invalid",
                     span: self.end_span(),
-                };
-                self.parse_call_expr_tail(callee)
+                })
             }
         }
     }
@@ -2511,7 +2486,8 @@ where
         }
         match &self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("function") => {
-                self.parse_function_expr(false)
+                let start = self.marker();
+                self.parse_function_expr(start, false)
             }
             TokenType::Identifier if self.current.matches_str("async") => {
                 self.parse_async_primary_expr()
@@ -2525,7 +2501,15 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Identifier | TokenType::Keyword => self.parse_id_reference(),
+            TokenType::Identifier | TokenType::Keyword => {
+                let potential_arrow = self.arrow_at == self.current.start;
+                let start = self.marker();
+                let id = self.parse_id_reference()?;
+                if potential_arrow && self.current.matches_punc("=>") {
+                    return self.parse_single_param_arrow_function_expr(start, id);
+                }
+                Ok(id)
+            }
             TokenType::NumericLiteral
             | TokenType::StringLiteral
             | TokenType::BooleanLiteral
@@ -2582,31 +2566,48 @@ where
         })
     }
 
-    fn parse_async_call_or_arrow(&mut self, callee: Box<Node>) -> Result<Node> {
+    fn parse_async_call_or_arrow(&mut self, start: Marker, callee: Box<Node>) -> Result<Node> {
         log!("parse_async_call_or_arrow");
-        let arguments = self.parse_arguments()?;
+        let outer = mem::take(&mut self.cover);
+        let (arguments, rest_comma) = self.parse_arguments_or_params()?;
         match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc("=>") => {
-                self.advance(LexGoal::RegExp)?;
-                let (body, expression) = self.parse_arrow_body()?;
+            TokenType::Punctuator
+                if !self.has_line_terminator && self.current.matches_punc("=>") =>
+            {
+                if let Some(marker) = rest_comma {
+                    return Node::error(ErrorType::ParamAfterRest, marker);
+                }
+                if let Some(marker) = self.cover.yield_or_await.take() {
+                    return Node::error(ErrorType::AwaitExpressionFormalParameter, marker);
+                }
+                if let Some(marker) = self.cover.await_id.take() {
+                    return Node::error(ErrorType::AwaitExpressionFormalParameter, marker);
+                }
+                self.cover = outer;
                 let params = self.arguments_to_params(arguments)?;
-                Ok(Node::AsyncArrowFunctionExpression {
-                    id: None,
-                    params,
-                    body,
-                    generator: false,
-                    expression,
-                    r#async: true,
+                self.parse_arrow_tail(start, params, true)
+            }
+            _ => {
+                self.check_cover_initializer()?;
+                self.leave_cover(outer);
+                Ok(Node::CallExpression {
+                    callee,
+                    arguments,
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span: self.span_from(start),
                 })
             }
-            _ => Ok(Node::CallExpression {
-                callee,
-                arguments,
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
+        }
+    }
+
+    /// Go back to the enclosing cover grammar, keeping what was seen meanwhile.
+    fn leave_cover(&mut self, outer: Cover) {
+        let inner = mem::replace(&mut self.cover, outer);
+        if self.cover.yield_or_await.is_none() {
+            self.cover.yield_or_await = inner.yield_or_await;
+        }
+        if self.cover.await_id.is_none() {
+            self.cover.await_id = inner.await_id;
         }
     }
 
@@ -2615,40 +2616,11 @@ where
         arguments: Vec<ArgumentListElement>,
     ) -> Result<Vec<FunctionParameter>> {
         log!("arguments_to_params");
-        let mut params = vec![];
-        if arguments.is_empty() {
-            return Ok(params);
+        let mut seq = vec![];
+        for argument in arguments {
+            seq.push(argument.as_node()?);
         }
-        let last_idx = arguments.len() - 1;
-        for (i, argument) in arguments.into_iter().enumerate() {
-            let param = match argument.as_node()?.to_binding_pattern()? {
-                Node::AssignmentPattern { left, right, .. } => {
-                    Ok(FunctionParameter::AssignmentPattern {
-                        left,
-                        right: *right,
-                    })
-                }
-                Node::BindingIdentifier { name, .. } => {
-                    Ok(FunctionParameter::BindingIdentifier { name })
-                }
-                Node::ObjectPattern { properties, .. } => {
-                    Ok(FunctionParameter::ObjectPattern { properties })
-                }
-                Node::ArrayPattern { elements, .. } => {
-                    Ok(FunctionParameter::ArrayPattern { elements })
-                }
-                Node::RestElement { argument, .. } => {
-                    if i == last_idx {
-                        Ok(FunctionParameter::RestElement { argument })
-                    } else {
-                        self.error_current(ErrorType::ParamAfterRest)
-                    }
-                }
-                _ => self.error_current(ErrorType::InvalidDestructuringTarget),
-            }?;
-            params.push(param);
-        }
-        Ok(params)
+        self.seq_to_arrow_params(seq)
     }
 
     fn parse_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
@@ -2662,23 +2634,37 @@ where
         //     "..." AssignmentExpression[+In, ?Yield, ?Await]
         //     ArgumentList[?Yield, ?Await] "," AssignmentExpression[+In, ?Yield, ?Await]
         //     ArgumentList[?Yield, ?Await] "," "..." AssignmentExpression[+In, ?Yield, ?Await]
+        let outer = self.cover.initializer.take();
+        let (arguments, _) = self.parse_arguments_or_params()?;
+        self.check_cover_initializer()?;
+        self.cover.initializer = outer;
+        Ok(arguments)
+    }
+
+    /// Parse arguments which may turn out to be arrow parameters, and find a comma after a
+    /// rest element.
+    fn parse_arguments_or_params(
+        &mut self,
+    ) -> Result<(Vec<ArgumentListElement>, Option<Marker>)> {
         self.consume("(", LexGoal::RegExp)?;
+        let mut rest_comma = None;
         let arguments = self.parse_until_punc(")", &mut |this| match this.current.tokentype {
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
                 let res = ArgumentListElement::SpreadElement(SpreadElement {
                     argument,
                     span: this.end_span(),
                 });
                 if !this.current.matches_punc(")") {
+                    rest_comma = Some(this.marker());
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(res)
             }
             _ => {
-                let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let expr = this.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
                 if !this.current.matches_punc(")") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -2686,7 +2672,7 @@ where
             }
         })?;
         self.consume(")", LexGoal::Div)?;
-        Ok(arguments)
+        Ok((arguments, rest_comma))
     }
 
     fn parse_seq_or_arrow(&mut self) -> Result<Node> {
@@ -2699,12 +2685,17 @@ where
         //     "(" "..." BindingPattern[?Yield, ?Await] ")"
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingIdentifier[?Yield, ?Await]")"
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingPattern[?Yield, ?Await] ")"
-        self.start_span();
+        let start = self.marker();
+        let potential_arrow = self.arrow_at == self.current.start;
+        let outer = mem::take(&mut self.cover);
         self.consume("(", LexGoal::RegExp)?;
-        let mut definitely_arrow = false;
+        let seq_start = self.marker();
+        let mut definitely_arrow = self.current.matches_punc(")");
         let expressions =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
-                TokenType::Punctuator if this.current.matches_punc("...") => {
+                TokenType::Punctuator
+                    if potential_arrow && this.current.matches_punc("...") =>
+                {
                     this.start_span();
                     this.advance(LexGoal::RegExp)?;
                     definitely_arrow = true;
@@ -2714,7 +2705,8 @@ where
                     })
                 }
                 _ => {
-                    let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                    let expr =
+                        this.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
                         if this.current.matches_punc(")") {
@@ -2724,38 +2716,45 @@ where
                     Ok(expr)
                 }
             })?;
+        let seq_span = self.span_from(seq_start);
+        if definitely_arrow && !potential_arrow {
+            return self.unexpected_current();
+        }
         self.consume(")", LexGoal::Div)?;
-        let assign_target_type = if expressions.len() == 1 {
-            (&expressions[0]).assign_target_type()
-        } else {
-            "invalid"
-        };
-        match (definitely_arrow, self.current.matches_punc("=>")) {
-            (true, _) => self.seq_to_arrow(expressions),
-            (false, true) => self.seq_to_arrow(expressions),
-            (false, false) => Ok(Node::SequenceExpression {
-                expressions,
-                assign_target_type,
-                span: self.end_span(),
-            }),
+        if potential_arrow
+            && (definitely_arrow
+                || (self.current.matches_punc("=>") && !self.has_line_terminator))
+        {
+            if let Some(marker) = self.cover.yield_or_await.take() {
+                return Node::error(ErrorType::YieldInParameter, marker);
+            }
+            let await_id = self.cover.await_id.take();
+            self.cover = outer;
+            if self.cover.await_id.is_none() {
+                self.cover.await_id = await_id;
+            }
+            if !self.current.matches_punc("=>") {
+                return self.unexpected_current();
+            }
+            return self.seq_to_arrow(start, expressions);
+        }
+        self.check_cover_initializer()?;
+        self.leave_cover(outer);
+        let mut expressions = expressions;
+        if expressions.len() == 1 {
+            return Ok(expressions.remove(0).parenthesized());
         }
+        Ok(Node::SequenceExpression {
+            expressions,
+            assign_target_type: "invalid",
+            span: seq_span,
+        })
     }
 
-    fn seq_to_arrow(&mut self, seq: Vec<Node>) -> Result<Node> {
+    fn seq_to_arrow(&mut self, start: Marker, seq: Vec<Node>) -> Result<Node> {
         log!("seq_to_arrow");
         let params = self.seq_to_arrow_params(seq)?;
-        self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
-        Ok(Node::ArrowFunctionExpression {
-            id: None,
-            params,
-            body,
-            generator: false,
-            expression,
-            r#async: false,
-            assign_target_type: "invalid",
-            span: self.end_span(),
-        })
+        self.parse_arrow_tail(start, params, false)
     }
 
     fn seq_to_arrow_params(&mut self, seq: Vec<Node>) -> Result<Vec<FunctionParameter>> {
@@ -2766,32 +2765,12 @@ where
         }
         let last_idx = seq.len() - 1;
         for (i, expr) in seq.into_iter().enumerate() {
-            let param = match expr.to_binding_pattern()? {
-                Node::AssignmentPattern { left, right, .. } => {
-                    Ok(FunctionParameter::AssignmentPattern {
-                        left,
-                        right: *right,
-                    })
-                }
-                Node::BindingIdentifier { name, .. } => {
-                    Ok(FunctionParameter::BindingIdentifier { name })
-                }
-                Node::ObjectPattern { properties, .. } => {
-                    Ok(FunctionParameter::ObjectPattern { properties })
-                }
-                Node::ArrayPattern { elements, .. } => {
-                    Ok(FunctionParameter::ArrayPattern { elements })
+            match expr.to_parameter()? {
+                FunctionParameter::RestElement { .. } if i != last_idx => {
+                    return self.error_current(ErrorType::ParamAfterRest);
                 }
-                Node::RestElement { argument, .. } => {
-                    if i == last_idx {
-                        Ok(FunctionParameter::RestElement { argument })
-                    } else {
-                        self.error_current(ErrorType::ParamAfterRest)
-                    }
-                }
-                _ => self.error_current(ErrorType::InvalidDestructuringTarget),
-            }?;
-            params.push(param);
+                param => params.push(param),
+            }
         }
         Ok(params)
     }
@@ -2837,116 +2816,62 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.advance(LexGoal::RegExp)?;
                 Ok(ObjectPatternProperty::RestElement {
-                    argument: this.parse_binding_id_or_pat()?,
+                    argument: this.parse_binding_id()?,
                 })
             }
             _ => {
-                this.start_span();
-                let value = match this.current.tokentype {
-                    TokenType::Identifier
-                    | TokenType::Keyword
-                    | TokenType::StringLiteral
-                    | TokenType::NumericLiteral => {
-                        Ok(ValueOrExpr::Value(this.advance(LexGoal::RegExp)?.value))
+                let token = this.current.clone();
+                let start = this.marker();
+                let (key, computed) = this.parse_property_name()?;
+                let span = this.span_from(start);
+                let shorthand = !this.current.matches_punc(":");
+                let left = if shorthand {
+                    match &token.tokentype {
+                        TokenType::Identifier | TokenType::Keyword => (),
+                        _ => return this.unexpected_current(),
                     }
-                    TokenType::Punctuator if this.current.matches_punc("[") => {
-                        this.consume("[", LexGoal::RegExp)?;
-                        let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                        this.consume("]", LexGoal::RegExp)?;
-                        Ok(ValueOrExpr::Expr(expr))
-                    }
-                    _ => this.unexpected_current(),
-                }?;
-                let span = this.end_span();
-                let property = match this.current.tokentype {
+                    this.check_binding_id(&token)?;
+                    this.note_await_id(&token);
+                    Binding::BindingIdentifier(BindingIdentifier {
+                        name: token.to_string(),
+                        span,
+                    })
+                } else {
+                    this.advance(LexGoal::RegExp)?;
+                    this.parse_binding_id_or_pat()?
+                };
+                let value = match this.current.tokentype {
                     TokenType::Punctuator if this.current.matches_punc("=") => {
                         this.advance(LexGoal::RegExp)?;
-                        let name = match &value {
-                            ValueOrExpr::Value(Value::Str(s)) => Ok(s.clone()),
-                            _ => this.unexpected_current(),
-                        }?;
-                        let key = this.value_to_key(value, false, span.clone())?;
-                        let obj_value = PropertyValue::AssignmentPattern(AssignmentPattern {
-                            left: Binding::BindingIdentifier(BindingIdentifier { name, span }),
+                        PropertyValue::AssignmentPattern(AssignmentPattern {
+                            left,
                             right: this.with_in(true, &mut Self::parse_assignment_expr)?,
-                        });
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed: false,
-                            value: Some(obj_value),
-                            kind: "init",
-                            method: false,
-                            shorthand: true,
                         })
                     }
-                    TokenType::Punctuator if this.current.matches_punc(":") => {
-                        this.advance(LexGoal::RegExp)?;
-                        let key = this.value_to_key(value, true, span)?;
-                        let computed = match &key {
-                            PropertyKey::Expression(_) => true,
-                            _ => false,
-                        };
-                        let (line, col) = (this.current.line_num, this.current.col);
-                        let pattern = this.parse_binding_id_or_pat()?;
-                        let obj_value = match this.current.tokentype {
-                            TokenType::Punctuator if this.current.matches_punc("=") => {
-                                this.advance(LexGoal::RegExp)?;
-                                Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
-                                    left: pattern,
-                                    right: this.with_in(true, &mut Self::parse_assignment_expr)?,
-                                }))
-                            }
-                            _ => match pattern {
-                                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                                    Ok(PropertyValue::BindingIdentifier(BindingIdentifier {
-                                        name,
-                                        span,
-                                    }))
-                                }
-                                Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
-                                    Ok(PropertyValue::BindingPattern(
-                                        BindingPattern::ArrayPattern { elements },
-                                    ))
-                                }
-                                Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
-                                    Ok(PropertyValue::BindingPattern(
-                                        BindingPattern::ObjectPattern { properties },
-                                    ))
-                                }
-                                _ => {
-                                    return Err(Error {
-                                        line,
-                                        col,
-                                        errortype: ErrorType::InvalidDestructuringTarget,
-                                    })
-                                }
-                            },
-                        }?;
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed,
-                            value: Some(obj_value),
-                            kind: "init",
-                            method: false,
-                            shorthand: false,
-                        })
-                    }
-                    _ => {
-                        let key = this.value_to_key(value, false, span)?;
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed: false,
-                            value: None,
-                            kind: "init",
-                            method: false,
-                            shorthand: true,
-                        })
-                    }
-                }?;
+                    _ => match left {
+                        Binding::BindingIdentifier(id) => PropertyValue::BindingIdentifier(id),
+                        Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
+                            PropertyValue::BindingPattern(BindingPattern::ArrayPattern { elements })
+                        }
+                        Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
+                            PropertyValue::BindingPattern(BindingPattern::ObjectPattern {
+                                properties,
+                            })
+                        }
+                        Binding::Expression(node) => PropertyValue::Expression(*node),
+                    },
+                };
                 if !this.current.matches_punc("}") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
-                Ok(property)
+                Ok(ObjectPatternProperty::Property {
+                    key,
+                    computed,
+                    value: Some(value),
+                    kind: "init",
+                    method: false,
+                    shorthand,
+                })
             }
         })?;
         self.consume("}", LexGoal::RegExp)?;
@@ -2956,43 +2881,6 @@ where
         }))
     }
 
-    fn value_to_key(
-        &mut self,
-        value: ValueOrExpr,
-        literal: bool,
-        span: Span,
-    ) -> Result<PropertyKey> {
-        match value {
-            ValueOrExpr::Expr(expr) if literal => Ok(PropertyKey::Expression(expr)),
-            ValueOrExpr::Value(value) => {
-                if literal {
-                    let raw = String::from(&value);
-                    Ok(PropertyKey::Literal(Literal { value, raw, span }))
-                } else {
-                    let val = &String::from(&value)[..];
-                    if self.scanner.is_keyword(val) {
-                        if (!self.params.has_yield && val == "yield")
-                            | (!self.params.has_await && val == "await")
-                        {
-                            Ok(PropertyKey::Identifier(Identifier {
-                                name: String::from(val),
-                                span,
-                            }))
-                        } else {
-                            self.unexpected_current()
-                        }
-                    } else {
-                        Ok(PropertyKey::Identifier(Identifier {
-                            name: String::from(val),
-                            span,
-                        }))
-                    }
-                }
-            }
-            _ => panic!(),
-        }
-    }
-
     fn parse_arr_binding_pat(&mut self) -> Result<Binding> {
         log!("parse_arr_binding_pat");
         // ArrayBindingPattern[Yield, Await]:
@@ -3156,24 +3044,26 @@ where
         log!("parse_class_expr");
         let prev_strict = self.ctx.strict;
         self.ctx.strict = true;
-        self.start_span();
+        let start = self.marker();
         self.consume_kw("class", LexGoal::RegExp)?;
         let id = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => match self.parse_binding_id()? {
-                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                    Some(Box::from(Node::BindingIdentifier { name, span }))
-                }
-                _ => unreachable!(),
-            },
-            _ if self.params.has_default => None,
-            _ => return self.unexpected_current(),
+            TokenType::Identifier | TokenType::Keyword if !self.current.matches_str("extends") => {
+                Some(Box::from(self.parse_binding_id()?.to_node()?))
+            }
+            _ => None,
         };
-        let res = self.parse_class_tail(id)?;
+        let (super_class, body) = self.parse_class_tail()?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassExpression {
+            id,
+            super_class,
+            body,
+            assign_target_type: "invalid",
+            span: self.span_from(start),
+        })
     }
 
-    fn parse_function_expr(&mut self, r#async: bool) -> Result<Node> {
+    fn parse_function_expr(&mut self, start: Marker, r#async: bool) -> Result<Node> {
         log!("parse_function_expr");
         // FunctionExpression:
         //     "function" BindingIdentifier(opt)
@@ -3190,30 +3080,39 @@ where
         //     "async" `no LineTerminator here` "function" "*" BindingIdentifier(opt)[+Yield, +Await]
         //         "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
 
-        // IMPORTANT: We want to maintain an invariant where if async = true, we assume we are
-        // parsing something like `async function` and the span began at `async`. Maintain
-        // this invariant at all costs!
-        if !r#async {
-            self.start_span();
-        }
         self.consume_kw("function", LexGoal::RegExp)?;
         let generator = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_str("*") => true,
+            TokenType::Punctuator if self.current.matches_punc("*") => {
+                self.advance(LexGoal::RegExp)?;
+                true
+            }
             _ => false,
         };
         let id = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("(") => None,
-            _ => Some(Box::from(self.parse_id_reference()?)),
+            _ => Some(Box::from(
+                self.with_params(
+                    Params {
+                        has_yield: generator,
+                        has_await: r#async,
+                        ..self.params
+                    },
+                    &mut Self::parse_binding_id,
+                )?
+                .to_node()?,
+            )),
         };
+        let (params, body) =
+            self.parse_function_rest(id.as_deref(), "function", generator, r#async)?;
         Ok(Node::FunctionExpression {
             id,
-            params: self.parse_formal_params()?,
-            body: Box::from(self.parse_function_body()?),
+            params,
+            body: Box::from(body),
             generator,
             expression: false,
             r#async,
             assign_target_type: "invalid",
-            span: self.end_span(),
+            span: self.span_from(start),
         })
     }
 
@@ -3253,35 +3152,7 @@ where
                     })
                 }
                 _ => {
-                    let (line, col) = (this.current.line_num, this.current.col);
-                    let left = this.parse_binding_id_or_pat()?;
-                    let param = match this.current.tokentype {
-                        TokenType::Punctuator if this.current.matches_punc("=") => {
-                            this.advance(LexGoal::RegExp)?;
-                            FunctionParameter::AssignmentPattern {
-                                left,
-                                right: this.with_in(true, &mut Self::parse_assignment_expr)?,
-                            }
-                        }
-                        _ => match left {
-                            Binding::BindingIdentifier(BindingIdentifier { name, .. }) => {
-                                FunctionParameter::BindingIdentifier { name }
-                            }
-                            Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
-                                FunctionParameter::ArrayPattern { elements }
-                            }
-                            Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
-                                FunctionParameter::ObjectPattern { properties }
-                            }
-                            _ => {
-                                return Err(Error {
-                                    line,
-                                    col,
-                                    errortype: ErrorType::InvalidDestructuringTarget,
-                                })
-                            }
-                        },
-                    };
+                    let param = this.parse_formal_param()?;
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
                     }
@@ -3292,6 +3163,78 @@ where
         Ok(parameters)
     }
 
+    fn parse_formal_param(&mut self) -> Result<FunctionParameter> {
+        let (line, col) = (self.current.line_num, self.current.col);
+        let left = self.parse_binding_id_or_pat()?;
+        match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("=") => {
+                self.advance(LexGoal::RegExp)?;
+                Ok(FunctionParameter::AssignmentPattern {
+                    left,
+                    right: self.with_in(true, &mut Self::parse_assignment_expr)?,
+                })
+            }
+            _ => match left {
+                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
+                    Ok(FunctionParameter::BindingIdentifier { name, span })
+                }
+                Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
+                    Ok(FunctionParameter::ArrayPattern { elements })
+                }
+                Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
+                    Ok(FunctionParameter::ObjectPattern { properties })
+                }
+                _ => Err(Error {
+                    line,
+                    col,
+                    errortype: ErrorType::InvalidDestructuringTarget,
+                }),
+            },
+        }
+    }
+
+    /// Parse the parameters and the body of a function or method.
+    fn parse_function_rest(
+        &mut self,
+        id: Option<&Node>,
+        kind: &'static str,
+        generator: bool,
+        r#async: bool,
+    ) -> Result<(Vec<FunctionParameter>, Node)> {
+        let outer = mem::take(&mut self.cover);
+        let res = self.with_params(
+            Params {
+                has_yield: generator,
+                has_await: r#async,
+                has_default: false,
+                ..self.params
+            },
+            &mut |this| {
+                let params = match kind {
+                    "get" => {
+                        this.consume("(", LexGoal::RegExp)?;
+                        this.consume(")", LexGoal::RegExp)?;
+                        vec![]
+                    }
+                    "set" => {
+                        this.consume("(", LexGoal::RegExp)?;
+                        let param = this.parse_formal_param()?;
+                        this.consume(")", LexGoal::RegExp)?;
+                        vec![param]
+                    }
+                    _ => this.parse_formal_params()?,
+                };
+                if let Some(marker) = this.cover.yield_or_await.take() {
+                    return Node::error(ErrorType::YieldInParameter, marker);
+                }
+                let body = this.parse_function_body(id, &params)?;
+                Ok((params, body))
+            },
+        )?;
+        self.cover = outer;
+        Ok(res)
+    }
+
     fn parse_object_lit_expr(&mut self) -> Result<Node> {
         log!("parse_object_lit_expr");
         // ObjectLiteral[Yield, Await]:
@@ -3329,205 +3272,154 @@ where
         //     "set" PropertyName[?Yield, ?Await] "(" FormalParameter[~Yield, ~Await] ")" "{" FunctionBody[~Yield, ~Await] "}"
         self.start_span();
         self.consume("{", LexGoal::RegExp)?;
+        let mut assign_target_type = "pattern";
         let properties = self.parse_until_punc("}", &mut |this| {
-            this.start_span();
-            if this.current.matches_punc("...") {
+            let property = if this.current.matches_punc("...") {
+                this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                let res = ObjectExpressionProperty::SpreadElement {
-                    argument,
-                    span: this.end_span(),
-                };
+                let argument = this.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
+                let span = this.end_span();
                 if !this.current.matches_punc("}") {
-                    this.consume(",", LexGoal::RegExp)?;
+                    // Nothing follows the rest element of a pattern.
+                    assign_target_type = "invalid";
                 }
-                return Ok(res);
+                ObjectExpressionProperty::SpreadElement { argument, span }
+            } else {
+                this.parse_property_definition()?
+            };
+            if !this.current.matches_punc("}") {
+                this.consume(",", LexGoal::RegExp)?;
             }
+            Ok(property)
+        })?;
+        self.consume("}", LexGoal::Div)?;
+        Ok(Node::ObjectExpression {
+            properties,
+            assign_target_type,
+            span: self.end_span(),
+        })
+    }
 
-            let mut computed = false;
-            let mut r#async = false;
-            let mut generator = false;
-            let mut kind = "init";
-
-            match this.current.tokentype {
-                TokenType::Identifier if this.current.matches_str("get") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::Div)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("get"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "get";
-                        }
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("set") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::Div)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("set"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "set";
-                        }
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("async") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::Div)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("*") {
-                                this.advance(LexGoal::RegExp)?;
-                                generator = true;
-                            }
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("async"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            } else {
-                                r#async = true;
-                            }
-                        }
-                    }
-                }
-                TokenType::Punctuator if this.current.matches_punc("*") => {
-                    this.advance(LexGoal::RegExp)?;
-                    generator = true;
-                    let (key, computed) = this.parse_property_name()?;
-                    return this.parse_method_definition(key, kind, r#async, generator, computed);
-                }
-                _ => (),
+    fn parse_property_definition(&mut self) -> Result<ObjectExpressionProperty> {
+        log!("parse_property_definition");
+        let start = self.marker();
+        let token = self.current.clone();
+        let (kind, r#async, generator, name) = self.parse_method_prefix()?;
+        let prefixed = kind != "method" || r#async || generator;
+        let (key, computed) = match name {
+            Some(name) => (PropertyKey::Identifier(name), false),
+            None => self.parse_property_name()?,
+        };
+        match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("(") => {
+                self.parse_method_definition(start, key, kind, r#async, generator, computed)
             }
-
-            let key = match this.current.tokentype {
-                TokenType::Identifier | TokenType::Keyword => {
-                    this.start_span();
-                    let name = this.parse_id_name(LexGoal::Div)?;
-                    Ok(PropertyKey::Identifier(Identifier {
-                        name,
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::StringLiteral | TokenType::NumericLiteral => {
-                    Ok(PropertyKey::Literal(this.parse_literal()?))
-                }
-                TokenType::Punctuator if this.current.matches_punc("[") => {
-                    computed = true;
-                    this.parse_computed_property_name()
-                }
-                _ => this.unexpected_current(),
-            }?;
-
-            let property = match this.current.tokentype {
-                TokenType::Punctuator if this.current.matches_punc(":") => {
-                    this.advance(LexGoal::RegExp)?;
-                    let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
-                    );
-                    ObjectExpressionProperty::Property {
-                        key,
-                        computed,
-                        value: Some(value),
-                        kind,
-                        method: false,
-                        shorthand: false,
-                        span: this.end_span(),
-                    }
+            TokenType::Punctuator if !prefixed && self.current.matches_punc(":") => {
+                self.advance(LexGoal::RegExp)?;
+                let value = self.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
+                Ok(ObjectExpressionProperty::Property {
+                    key,
+                    computed,
+                    value: Some(PropertyValue::Expression(value)),
+                    kind: "init",
+                    method: false,
+                    shorthand: false,
+                    span: self.span_from(start),
+                })
+            }
+            _ => {
+                match token.tokentype {
+                    TokenType::Identifier | TokenType::Keyword if !prefixed => (),
+                    _ => return self.unexpected_current(),
                 }
-                TokenType::Punctuator if this.current.matches_punc("=") => {
-                    this.advance(LexGoal::RegExp)?;
-                    let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
-                    );
-                    ObjectExpressionProperty::Property {
-                        key,
-                        computed,
-                        value: Some(value),
-                        kind,
-                        method: false,
-                        shorthand: true,
-                        span: this.end_span(),
+                self.check_id(&token)?;
+                self.note_await_id(&token);
+                let id_span = self.span_from(start.clone());
+                let mut value = self.id_node(token.to_string(), id_span);
+                if self.current.matches_punc("=") {
+                    if self.cover.initializer.is_none() {
+                        self.cover.initializer = Some(self.marker());
                     }
+                    self.advance(LexGoal::RegExp)?;
+                    let right = self.with_in(true, &mut Self::parse_assignment_expr)?;
+                    value = Node::AssignmentPattern {
+                        left: Binding::Expression(Box::from(value)),
+                        right: Box::from(right),
+                        span: self.span_from(start.clone()),
+                    };
                 }
-                TokenType::Punctuator if this.current.matches_punc("(") => {
-                    this.parse_method_definition(key, kind, r#async, generator, computed)?
-                }
-                _ => ObjectExpressionProperty::Property {
+                Ok(ObjectExpressionProperty::Property {
                     key,
                     computed,
-                    value: None,
-                    kind,
+                    value: Some(PropertyValue::Expression(value)),
+                    kind: "init",
                     method: false,
                     shorthand: true,
-                    span: this.end_span(),
-                },
-            };
-            if !this.current.matches_punc("}") {
-                this.consume(",", LexGoal::RegExp)?;
+                    span: self.span_from(start),
+                })
             }
-            Ok(property)
-        })?;
-        self.consume("}", LexGoal::Div)?;
-        Ok(Node::ObjectExpression {
-            properties,
-            assign_target_type: "invalid",
+        }
+    }
+
+    /// Parse what may come before the name of a method: `get`, `set`, `async` and `*`. Also
+    /// returns the name if it turns out to be one of those words itself.
+    fn parse_method_prefix(
+        &mut self,
+    ) -> Result<(&'static str, bool, bool, Option<Identifier>)> {
+        let word = match self.current.tokentype {
+            TokenType::Identifier if self.current.matches_str("get") => "get",
+            TokenType::Identifier if self.current.matches_str("set") => "set",
+            TokenType::Identifier if self.current.matches_str("async") => "async",
+            _ => {
+                let generator = self.current.matches_punc("*");
+                if generator {
+                    self.advance(LexGoal::RegExp)?;
+                }
+                return Ok(("method", false, generator, None));
+            }
+        };
+        self.start_span();
+        self.advance(LexGoal::Div)?;
+        let name = Identifier {
+            name: String::from(word),
             span: self.end_span(),
-        })
+        };
+        let is_prefix = match self.current.tokentype {
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral
+            | TokenType::NumericLiteral
+            | TokenType::StringLiteral => true,
+            TokenType::Punctuator => {
+                self.current.matches_punc("[")
+                    || (word == "async" && self.current.matches_punc("*"))
+            }
+            _ => false,
+        };
+        if !is_prefix || (word == "async" && self.has_line_terminator) {
+            return Ok(("method", false, false, Some(name)));
+        }
+        if word != "async" {
+            return Ok((word, false, false, None));
+        }
+        let generator = self.current.matches_punc("*");
+        if generator {
+            self.advance(LexGoal::RegExp)?;
+        }
+        Ok(("method", true, generator, None))
     }
 
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
+            TokenType::StringLiteral | TokenType::NumericLiteral => {
+                Ok((PropertyKey::Literal(self.parse_literal()?), false))
+            }
+            TokenType::Punctuator if self.current.matches_punc("[") => {
+                Ok((self.parse_computed_property_name()?, true))
+            }
+            _ => {
                 self.start_span();
                 Ok((
                     PropertyKey::Identifier(Identifier {
@@ -3537,13 +3429,6 @@ where
                     false,
                 ))
             }
-            TokenType::StringLiteral | TokenType::NumericLiteral => {
-                Ok((PropertyKey::Literal(self.parse_literal()?), false))
-            }
-            TokenType::Punctuator if self.current.matches_punc("[") => {
-                Ok((self.parse_computed_property_name()?, true))
-            }
-            _ => self.unexpected_current(),
         }
     }
 
@@ -3557,6 +3442,7 @@ where
 
     fn parse_method_definition(
         &mut self,
+        start: Marker,
         key: PropertyKey,
         kind: &'static str,
         r#async: bool,
@@ -3564,118 +3450,36 @@ where
         computed: bool,
     ) -> Result<ObjectExpressionProperty> {
         log!("parse_method_definition");
-        match kind {
-            "get" => {
-                self.consume("(", LexGoal::RegExp)?;
-                self.consume(")", LexGoal::RegExp)?;
-                let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
-                    id: None,
-                    params: vec![],
-                    body: Box::from(self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_function_body,
-                    )?),
-                    generator,
-                    expression: false,
-                    r#async,
-                }));
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
-            }
-            "set" => {
-                let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
-                    id: None,
-                    params: self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_formal_params,
-                    )?,
-                    body: Box::from(self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_function_body,
-                    )?),
-                    generator,
-                    expression: false,
-                    r#async,
-                }));
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
-            }
-            "init" => {
-                let params = self.with_params(
-                    Params {
-                        has_await: r#async,
-                        has_yield: generator,
-                        ..self.params
-                    },
-                    &mut Self::parse_formal_params,
-                )?;
-                let body = Box::from(self.with_params(
-                    Params {
-                        has_await: r#async,
-                        has_yield: generator,
-                        ..self.params
-                    },
-                    &mut Self::parse_function_body,
-                )?);
-                let value = if r#async {
-                    Some(PropertyValue::AsyncFunctionExpression(
-                        AsyncFunctionExpression {
-                            id: None,
-                            params,
-                            body,
-                            generator,
-                            expression: false,
-                            r#async,
-                        },
-                    ))
-                } else {
-                    Some(PropertyValue::FunctionExpression(FunctionExpression {
-                        id: None,
-                        params,
-                        body,
-                        generator,
-                        expression: false,
-                        r#async,
-                    }))
-                };
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
-            }
-            _ => self.unexpected_current(),
-        }
+        let (params, body) = self.parse_function_rest(None, kind, generator, r#async)?;
+        let body = Box::from(body);
+        let value = if r#async {
+            PropertyValue::AsyncFunctionExpression(AsyncFunctionExpression {
+                id: None,
+                params,
+                body,
+                generator,
+                expression: false,
+                r#async,
+            })
+        } else {
+            PropertyValue::FunctionExpression(FunctionExpression {
+                id: None,
+                params,
+                body,
+                generator,
+                expression: false,
+                r#async,
+            })
+        };
+        Ok(ObjectExpressionProperty::Property {
+            key,
+            computed,
+            value: Some(value),
+            kind: if kind == "method" { "init" } else { kind },
+            method: kind == "method",
+            shorthand: false,
+            span: self.span_from(start),
+        })
     }
 
     fn parse_array_lit_expr(&mut self) -> Result<Node> {
@@ -3696,6 +3500,7 @@ where
         //     "..." AssignmentExpression[+In, ?Yield, ?Await]
         self.start_span();
         self.consume("[", LexGoal::RegExp)?;
+        let mut assign_target_type = "pattern";
         let elements = self.parse_until_punc("]", &mut |this| match this.current.tokentype {
             TokenType::Punctuator if this.current.matches_punc(",") => {
                 this.advance(LexGoal::RegExp)?;
@@ -3704,17 +3509,20 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
+                let span = this.end_span();
                 if !this.current.matches_punc("]") {
+                    // Nothing follows the rest element of a pattern.
+                    assign_target_type = "invalid";
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
-                    span: this.end_span(),
+                    span,
                 })))
             }
             _ => {
-                let element = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let element = this.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -3724,86 +3532,92 @@ where
         self.consume("]", LexGoal::Div)?;
         Ok(Node::ArrayExpression {
             elements,
-            assign_target_type: "invalid",
+            assign_target_type,
             span: self.end_span(),
         })
     }
 
     fn parse_async_primary_expr(&mut self) -> Result<Node> {
         log!("parse_async_primary_expr");
-        self.start_span();
+        let start = self.marker();
+        let potential_arrow = self.arrow_at == self.current.start;
         let id = self.parse_id_reference()?;
-        if !self.has_line_terminator {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc(";") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc(".") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("[") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("`") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("(") => {
-                    self.parse_async_call_or_arrow(Box::from(id))
-                }
-                TokenType::Keyword if self.current.matches_str("function") => {
-                    self.parse_function_expr(true)
-                }
-                _ => {
-                    let param = match self.with_await(true, &mut Self::parse_id_reference)? {
-                        Node::Identifier { name, .. } => {
-                            Ok(FunctionParameter::BindingIdentifier { name })
-                        }
-                        _ => unreachable!(),
-                    }?;
-                    if !self.has_line_terminator && self.current.matches_punc("=>") {
-                        self.advance(LexGoal::RegExp)?;
-                        let (body, expression) = self.parse_arrow_body()?;
-                        Ok(Node::AsyncArrowFunctionExpression {
-                            id: None,
-                            params: vec![param],
-                            body,
-                            generator: false,
-                            expression,
-                            r#async: true,
-                            assign_target_type: "invalid",
-                            span: self.end_span(),
-                        })
-                    } else {
-                        self.unexpected_current()
-                    }
+        if potential_arrow && self.current.matches_punc("=>") {
+            return self.parse_single_param_arrow_function_expr(start, id);
+        }
+        if self.has_line_terminator {
+            return Ok(id);
+        }
+        match self.current.tokentype {
+            TokenType::Keyword if self.current.matches_str("function") => {
+                self.parse_function_expr(start, true)
+            }
+            TokenType::Punctuator if potential_arrow && self.current.matches_punc("(") => {
+                self.parse_async_call_or_arrow(start, Box::from(id))
+            }
+            TokenType::Identifier if potential_arrow && self.current.matches_str("of") => {
+                // The head of a for-of statement, unless an arrow follows.
+                self.scanner.save_state();
+                let next_token = self.scanner.next(LexGoal::Div)?;
+                let is_arrow = next_token.matches_punc("=>");
+                self.scanner.restore_state(next_token);
+                if is_arrow {
+                    self.parse_async_single_param_arrow(start)
+                } else {
+                    Ok(id)
                 }
             }
-        } else {
-            self.end_span();
-            Ok(id)
+            TokenType::Identifier if potential_arrow => self.parse_async_single_param_arrow(start),
+            TokenType::Keyword
+                if potential_arrow
+                    && (self.current.matches_str("yield") || self.current.matches_str("await")) =>
+            {
+                self.parse_async_single_param_arrow(start)
+            }
+            _ => Ok(id),
         }
     }
 
-    fn parse_arrow_body(&mut self) -> Result<(Box<Node>, bool)> {
+    fn parse_async_single_param_arrow(&mut self, start: Marker) -> Result<Node> {
+        let param = self.with_await(true, &mut Self::parse_id_reference)?;
+        let params = vec![param.to_parameter()?];
+        self.parse_arrow_tail(start, params, true)
+    }
+
+    fn parse_arrow_body(
+        &mut self,
+        params: &[FunctionParameter],
+        r#async: bool,
+    ) -> Result<(Box<Node>, bool)> {
         log!("parse_arrow_body");
-        let body;
-        let mut expression = false;
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("{") => {
-                body = Box::from(self.with_params(
+                let outer = mem::take(&mut self.cover);
+                let body = Box::from(self.with_params(
                     Params {
-                        has_await: true,
+                        has_await: r#async,
                         has_yield: false,
                         ..self.params
                     },
-                    &mut Self::parse_function_body,
+                    &mut |this| this.parse_function_body(None, params),
                 )?);
+                self.cover = outer;
+                Ok((body, false))
             }
             _ => {
-                body = Box::from(self.with_params(
+                let outer = mem::take(&mut self.cover);
+                let body = Box::from(self.with_params(
                     Params {
-                        has_await: true,
+                        has_await: r#async,
                         has_yield: false,
                         ..self.params
                     },
                     &mut Self::parse_assignment_expr,
                 )?);
-                expression = true;
+                self.cover = outer;
+                Ok((body, true))
             }
         }
-        Ok((body, expression))
     }
 
     fn parse_id_reference(&mut self) -> Result<Node> {
@@ -3812,31 +3626,30 @@ where
         //     Identifier
         //     [~Yield] yield
         //     [~Await] await
-        self.check_id()?;
+        self.check_id(&self.current)?;
         self.start_span();
+        self.note_await_id(&self.current.clone());
         let name = self.advance(LexGoal::Div)?.to_string();
+        let span = self.end_span();
+        Ok(self.id_node(name, span))
+    }
+
+    fn id_node(&self, name: String, span: Span) -> Node {
         let assign_target_type = match &name[..] {
             "eval" | "arguments" if self.ctx.strict => "strict",
             _ => "simple",
         };
-        Ok(Node::Identifier {
+        Node::Identifier {
             name,
             assign_target_type,
-            span: self.end_span(),
-        })
+            span,
+        }
     }
 
     fn parse_binding_id(&mut self) -> Result<Binding> {
         log!("parse_binding_id");
-        self.check_id()?;
-        if self.ctx.strict {
-            match self.current.to_str() {
-                "eval" | "arguments" => {
-                    return self.error_current(ErrorType::UnexpectedStrictReserved)
-                }
-                _ => (),
-            }
-        }
+        self.check_binding_id(&self.current)?;
+        self.note_await_id(&self.current.clone());
         self.start_span();
         Ok(Binding::BindingIdentifier(BindingIdentifier {
             name: self.advance(LexGoal::Div)?.to_string(),
@@ -3844,38 +3657,78 @@ where
         }))
     }
 
-    /// Check that the current token is an identifier which is not reserved here.
-    fn check_id(&mut self) -> Result<()> {
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
+    /// Remember an identifier named await, in case it is in parameters of an async function.
+    fn note_await_id(&mut self, token: &Token) {
+        match &token.value {
+            Value::Str(name) if name == "await" && self.cover.await_id.is_none() => {
+                self.cover.await_id = Some(Marker {
+                    line: token.line_num,
+                    col: token.col,
+                    idx: token.start,
+                });
+            }
+            _ => (),
+        }
+    }
+
+    /// Check that a token is an identifier which is not reserved here.
+    fn check_id(&self, token: &Token) -> Result<()> {
+        if self.ctx.strict && token.is_strict_reserved_kw() {
+            return self.error_at(token, ErrorType::UnexpectedStrictReserved);
         }
-        match (&self.current.tokentype, &self.current.value) {
+        match (&token.tokentype, &token.value) {
             (TokenType::Identifier, Value::Str(name)) | (TokenType::Keyword, Value::Str(name)) => {
                 match &name[..] {
                     "yield" if self.params.has_yield => {
-                        self.error_current(ErrorType::YieldInParameter)
+                        self.error_at(token, ErrorType::YieldInParameter)
                     }
                     "await" if self.params.has_await => {
-                        self.error_current(ErrorType::AwaitExpressionFormalParameter)
+                        self.error_at(token, ErrorType::AwaitExpressionFormalParameter)
                     }
                     "await" if self.goal == SyntaxGoal::Module => {
-                        self.error_current(ErrorType::UnexpectedReserved)
+                        self.error_at(token, ErrorType::UnexpectedReserved)
                     }
                     "yield" | "await" => Ok(()),
-                    _ if self.current.tokentype == TokenType::Identifier => Ok(()),
-                    _ => self.unexpected_current(),
+                    _ if token.tokentype == TokenType::Identifier => Ok(()),
+                    _ => self.unexpected(token.clone()),
                 }
             }
-            _ => self.unexpected_current(),
+            _ => self.unexpected(token.clone()),
+        }
+    }
+
+    /// Check that a token is an identifier which may be bound here.
+    fn check_binding_id(&self, token: &Token) -> Result<()> {
+        self.check_id(token)?;
+        if self.ctx.strict {
+            match token.to_str() {
+                "eval" | "arguments" => {
+                    return self.error_at(token, ErrorType::UnexpectedStrictReserved)
+                }
+                _ => (),
+            }
+        }
+        Ok(())
+    }
+
+    /// Check a name which was bound before its function turned out to be strict.
+    fn check_strict_name(&self, name: &str, span: &Span) -> Result<()> {
+        match name {
+            "eval" | "arguments" | "implements" | "interface" | "let" | "package" | "private"
+            | "protected" | "public" | "static" | "yield" => {
+                Node::error(ErrorType::UnexpectedStrictReserved, span.start.clone())
+            }
+            _ => Ok(()),
         }
     }
 
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
         log!("parse_id_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
-                Ok(self.advance(goal)?.value.string().unwrap())
-            }
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => Ok(String::from(&self.advance(goal)?.value)),
             _ => self.unexpected_current(),
         }
     }
@@ -4120,6 +3973,14 @@ where
         })
     }
 
+    fn error_at<T>(&self, token: &Token, errortype: ErrorType) -> Result<T> {
+        Err(Error {
+            line: token.line_num,
+            col: token.col,
+            errortype,
+        })
+    }
+
     fn error_current<T>(&mut self, errortype: ErrorType) -> Result<T> {
         self.error(self.current.clone(), errortype)
     }
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index e965109..d9db2f7 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -82,7 +82,6 @@ impl Syntax for Token {
             | Value::Punc(Punctuator::BitOrAssign)
             | Value::Punc(Punctuator::BitXorAssign)
             | Value::Punc(Punctuator::SlashAssign) => true,
-            Value::Punc(Punctuator::Equal) => true,
             _ => false,
         }
     }
@@ -163,7 +162,7 @@ impl Syntax for Token {
             TokenType::Punctuator if self.matches_punc("-") => 9,
             TokenType::Punctuator if self.matches_punc("*") => 10,
             TokenType::Punctuator if self.matches_punc("/") => 10,
-            TokenType::Punctuator if self.matches_punc("%") => 11,
+            TokenType::Punctuator if self.matches_punc("%") => 10,
             TokenType::Keyword if self.matches_str("instanceof") => 7,
             TokenType::Keyword if (self.matches_str("in") && has_in) => 7,
             _ => 0,
diff --git a/giron/src/token/punctuators.rs b/giron/src/token/punctuators.rs
index 79a4b99..c62609c 100644
--- a/giron/src/token/punctuators.rs
+++ b/giron/src/token/punctuators.rs
@@ -77,7 +77,6 @@ impl Punctuator {
             | Punctuator::BitOrAssign
             | Punctuator::BitXorAssign
             | Punctuator::SlashAssign => true,
-            Punctuator::Equal => true,
             _ => false,
         }
     }
-- 
2.43.0


From ac82177941e3c73da3c37dbfea057935d43976f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 18/30] fix: parse statements and for heads as the grammar says

---
 giron/src/parser/parser.rs | 501 ++++++++++++++++---------------------
 1 file changed, 222 insertions(+), 279 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b45a7e8..7cb421e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -563,6 +563,7 @@ where
     fn parse_stmt_list_item(&mut self) -> Result<Node> {
         log!("parse_stmt_list_item");
         let is_async_function = self.is_async_function()?;
+        let is_lexical_dclr = self.is_lexical_dclr()?;
         match self.current.tokentype {
             // statements
             TokenType::Punctuator if self.current.matches_punc("{") => self.parse_block_stmt(),
@@ -599,16 +600,22 @@ where
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if is_lexical_dclr => {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             // ExpressionStatement | LabelledStatement
-            _ => self.parse_expression_or_labelled_stmt(),
+            _ => self.parse_expression_or_labelled_stmt(true),
         }
     }
 
     fn parse_statement(&mut self) -> Result<Node> {
+        self.parse_statement_or_labelled_function(false)
+    }
+
+    fn parse_statement_or_labelled_function(&mut self, allow_function: bool) -> Result<Node> {
         log!("parse_statement");
+        let is_async_function = self.is_async_function()?;
+        let is_let_bracket = self.is_let() && self.peek(LexGoal::Div)?.matches_punc("[");
         // Statement[Yield, Await, Return]:
         //     BlockStatement[?Yield, ?Await, ?Return]
         //     VariableStatement[?Yield, ?Await]
@@ -648,8 +655,17 @@ where
             TokenType::Keyword if self.current.matches_str("debugger") => {
                 self.parse_debugger_stmt()
             }
+            // An expression statement may not start like a declaration.
+            TokenType::Keyword
+                if self.current.matches_str("function") || self.current.matches_str("class") =>
+            {
+                self.unexpected_current()
+            }
+            TokenType::Identifier if is_async_function || is_let_bracket => {
+                self.unexpected_current()
+            }
             // ExpressionStatement | LabelledStatement
-            _ => self.parse_expression_or_labelled_stmt(),
+            _ => self.parse_expression_or_labelled_stmt(allow_function),
         }
     }
 
@@ -658,23 +674,51 @@ where
         if self.current.tokentype != TokenType::Identifier || !self.current.matches_str("async") {
             return Ok(false);
         }
-        self.scanner.save_state();
-        let next_token = self.scanner.next(LexGoal::Div)?;
-        let res = next_token.tokentype == TokenType::Keyword
+        let next_token = self.peek(LexGoal::Div)?;
+        Ok(next_token.tokentype == TokenType::Keyword
             && next_token.matches_str("function")
-            && !next_token.newline_before;
-        self.scanner.restore_state(next_token);
-        Ok(res)
+            && !next_token.newline_before)
+    }
+
+    fn is_let(&self) -> bool {
+        self.current.tokentype == TokenType::Identifier && self.current.matches_str("let")
+    }
+
+    /// Whether a lexical declaration starts here.
+    fn is_lexical_dclr(&mut self) -> Result<bool> {
+        if !self.is_let() {
+            return Ok(self.current.is_lexical_dclr_kw());
+        }
+        let next_token = self.peek(LexGoal::Div)?;
+        Ok(match next_token.tokentype {
+            TokenType::Identifier => true,
+            TokenType::Keyword => {
+                next_token.matches_str("yield") || next_token.matches_str("await")
+            }
+            _ => next_token.matches_punc("[") || next_token.matches_punc("{"),
+        })
     }
 
-    fn parse_expression_or_labelled_stmt(&mut self) -> Result<Node> {
+    /// The token after the current one.
+    fn peek(&mut self, goal: LexGoal) -> Result<Token> {
+        self.scanner.save_state();
+        let token = self.scanner.next(goal)?;
+        self.scanner.restore_state(token.clone());
+        Ok(token)
+    }
+
+    fn parse_expression_or_labelled_stmt(&mut self, allow_function: bool) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
         self.start_span();
         let expr = self.with_in(true, &mut Self::parse_expression)?;
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(":") => match expr {
-                Node::Identifier { name, span, .. } => {
-                    self.parse_labelled_stmt(Some(Identifier { name, span }))
+                Node::Identifier {
+                    name,
+                    span,
+                    assign_target_type,
+                } if assign_target_type != "parenthesized" => {
+                    self.parse_labelled_stmt(Identifier { name, span }, allow_function)
                 }
                 _ => self.parse_expression_stmt(Box::from(expr)),
             },
@@ -714,10 +758,10 @@ where
         }
         self.save_params();
         self.params.has_in = true;
-        let mut declarations = vec![self.parse_variable_dclr()?];
+        let mut declarations = vec![self.parse_variable_dclr("var")?];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
-            this.parse_variable_dclr()
+            this.parse_variable_dclr("var")
         })?);
         self.restore_params();
         self.consume_semicolon(LexGoal::RegExp)?;
@@ -728,20 +772,21 @@ where
         })
     }
 
-    fn parse_variable_dclr(&mut self) -> Result<VariableDeclarator> {
+    fn parse_variable_dclr(&mut self, kind: &str) -> Result<VariableDeclarator> {
         log!("parse_variable_dclr");
         let id = self.parse_binding_id_or_pat()?;
+        self.parse_initializer(id, kind)
+    }
+
+    fn parse_initializer(&mut self, id: Binding, kind: &str) -> Result<VariableDeclarator> {
         let init = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=") => {
                 self.advance(LexGoal::RegExp)?;
                 Some(self.parse_assignment_expr()?)
             }
             _ => match &id {
-                Binding::BindingIdentifier { .. } => None,
-                _ => {
-                    let token = self.advance(LexGoal::RegExp)?;
-                    return self.error(token, ErrorType::MissingInitializer);
-                }
+                Binding::BindingIdentifier { .. } if kind != "const" => None,
+                _ => return self.error_current(ErrorType::MissingInitializer),
             },
         };
         Ok(VariableDeclarator { id, init })
@@ -758,8 +803,8 @@ where
 
     fn parse_expression_stmt(&mut self, expression: Box<Node>) -> Result<Node> {
         log!("parse_expression_stmt");
-        let span = self.end_span();
         self.consume_semicolon(LexGoal::RegExp)?;
+        let span = self.end_span();
         Ok(Node::ExpressionStatement { expression, span })
     }
 
@@ -779,11 +824,11 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        let consequent = Box::from(self.parse_statement()?);
+        let consequent = Box::from(self.parse_if_branch()?);
         let alternate = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("else") => {
                 self.advance(LexGoal::RegExp)?;
-                Some(Box::from(self.parse_statement()?))
+                Some(Box::from(self.parse_if_branch()?))
             }
             _ => None,
         };
@@ -795,6 +840,18 @@ where
         })
     }
 
+    fn parse_if_branch(&mut self) -> Result<Node> {
+        match self.current.tokentype {
+            TokenType::Keyword if self.current.matches_str("function") && !self.ctx.strict => {
+                let start = self.marker();
+                self.with_default(false, &mut |this| {
+                    this.parse_function_dclr(start.clone(), false, false)
+                })
+            }
+            _ => self.parse_statement(),
+        }
+    }
+
     fn parse_iteration_stmt(&mut self) -> Result<Node> {
         log!("parse_iteration_stmt");
         match self.current.tokentype {
@@ -843,211 +900,103 @@ where
         self.start_span();
         self.consume_kw("for", LexGoal::RegExp)?;
         self.consume("(", LexGoal::RegExp)?;
+        let is_lexical_dclr = self.is_lexical_dclr()?;
         match self.current.tokentype {
-            TokenType::Keyword if self.current.matches_str("var") => {
-                self.start_span();
-                self.advance(LexGoal::RegExp)?;
-                let id = self.parse_binding_id_or_pat()?;
-                match self.current.tokentype {
-                    TokenType::Punctuator if self.current.matches_punc("=") => {
-                        self.advance(LexGoal::RegExp)?;
-                        let init = Some(self.with_in(false, &mut Self::parse_assignment_expr)?);
-                        let mut declarations = vec![VariableDeclarator { id, init }];
-                        declarations.extend(self.parse_while_punc(",", &mut |this| {
-                            this.consume(",", LexGoal::RegExp)?;
-                            this.save_params();
-                            this.params.has_in = true;
-                            let res = this.parse_variable_dclr();
-                            this.restore_params();
-                            res
-                        })?);
-                        let init = Some(Box::from(Node::VariableDeclaration {
-                            declarations,
-                            kind: "var",
-                            span: self.end_span(),
-                        }));
-                        self.parse_for_classic_stmt(init)
-                    }
-                    TokenType::Keyword if self.current.matches_str("of") => {
-                        // "var" (BindingIdentifier | BindingPattern) "of"
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
-                    }
-                    TokenType::Keyword if self.current.matches_str("in") => {
-                        // "var" (BindingIdentifier | BindingPattern) "in"
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
-                    }
-                    _ => {
-                        match &id {
-                            Binding::BindingIdentifier { .. } => {
-                                // "var" BindingIdentifier
-                                let mut declarations = vec![VariableDeclarator { id, init: None }];
-                                declarations.extend(self.parse_while_punc(",", &mut |this| {
-                                    this.consume(",", LexGoal::RegExp)?;
-                                    this.save_params();
-                                    this.params.has_in = true;
-                                    let res = this.parse_variable_dclr();
-                                    this.restore_params();
-                                    res
-                                })?);
-                                let init = Some(Box::from(Node::VariableDeclaration {
-                                    declarations,
-                                    kind: "var",
-                                    span: self.end_span(),
-                                }));
-                                self.parse_for_classic_stmt(init)
-                            }
-                            _ => self.error_current(ErrorType::MissingInitializer),
-                        }
-                    }
-                }
-            }
-            TokenType::Keyword | TokenType::Identifier if self.current.is_lexical_dclr_kw() => {
-                // "for" "(" LexicalDeclaration[~In, ?Yield, ?Await] Expression[+In, ?Yield, ?Await](opt)
-                //     ";" Expression[+In, ?Yield, ?Await](opt) ")" Statement[?Yield, ?Await, ?Return]
-                // for "(" ForDeclaration[?Yield, ?Await] "in" Expression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                // "for" "(" ForDeclaration[?Yield, ?Await] "of" AssignmentExpression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                // LexicalDeclaration[In, Yield, Await]:
-                //     LetOrConst BindingList[?In, ?Yield, ?Await];
-                // BindingList[In, Yield, Await]:
-                //     LexicalBinding[?In, ?Yield, ?Await]
-                //     BindingList[?In, ?Yield, ?Await] "," LexicalBinding[?In, ?Yield, ?Await]
-                // LexicalBinding[In, Yield, Await]:
-                //     BindingIdentifier[?Yield, ?Await] Initializer[?In, ?Yield, ?Await](opt)
-                //     BindingPattern[?Yield, ?Await] Initializer[?In, ?Yield, ?Await]
-                // ForDeclaration[Yield, Await]:
-                //     LetOrConst ForBinding[?Yield, ?Await]
-                // ForBinding[Yield, Await]:
-                //     BindingIdentifier[?Yield, ?Await]
-                //     BindingPattern[?Yield, ?Await]
-                // let kind = &(self.advance(LexGoal::RegExp)?.value.string()?.clone())[..];
-                self.start_span();
-                let kind = match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("const") => "const",
-                    TokenType::Identifier if self.current.matches_str("let") => "let",
-                    _ => return self.unexpected_current(),
-                };
-                self.advance(LexGoal::RegExp)?;
-                let (line, col) = (self.current.line_num, self.current.col);
-                let id = self.parse_binding_id_or_pat()?;
-                match self.current.tokentype {
-                    TokenType::Punctuator if self.current.matches_punc("=") => {
-                        // LetOrConst Binding "=" "," ...
-                        self.advance(LexGoal::RegExp)?;
-                        let init = Some(self.with_in(false, &mut Self::parse_assignment_expr)?);
-                        let mut declarations = vec![VariableDeclarator { id, init }];
-                        declarations.extend(self.parse_while_punc(",", &mut |this| {
-                            this.consume(",", LexGoal::RegExp)?;
-                            this.save_params();
-                            this.params.has_in = true;
-                            let res = this.parse_variable_dclr();
-                            this.restore_params();
-                            res
-                        })?);
-                        let init = Some(Box::from(Node::VariableDeclaration {
-                            declarations,
-                            kind,
-                            span: self.end_span(),
-                        }));
-                        self.parse_for_classic_stmt(init)
-                    }
-                    TokenType::Keyword if self.current.matches_str("in") => {
-                        // LetOrConst Binding "in" ...
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
-                    }
-                    TokenType::Identifier if self.current.matches_str("of") => {
-                        // LetOrConst Binding "of" ...
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
-                    }
-                    _ => {
-                        match &id {
-                            Binding::BindingIdentifier { .. } => {
-                                // LetOrConst BindingIdentifier "," ...
-                                let mut declarations = vec![VariableDeclarator { id, init: None }];
-                                declarations.extend(self.parse_while_punc(",", &mut |this| {
-                                    this.consume(",", LexGoal::RegExp)?;
-                                    this.save_params();
-                                    this.params.has_in = true;
-                                    let res = this.parse_variable_dclr();
-                                    this.restore_params();
-                                    res
-                                })?);
-                                let init = Some(Box::from(Node::VariableDeclaration {
-                                    declarations,
-                                    kind,
-                                    span: self.end_span(),
-                                }));
-                                self.parse_for_classic_stmt(init)
-                            }
-                            _ => Err(Error {
-                                line,
-                                col,
-                                errortype: ErrorType::MissingInitializer,
-                            }),
-                        }
-                    }
-                }
-            }
-            _ => {
-                // "for" "(" [lookahead ∉ { let [ }] Expression[~In, ?Yield, ?Await](opt)
-                //     ";" Expression[+In, ?Yield, ?Await](opt)
-                //     ";" Expression[+In, ?Yield, ?Await](opt) ")" Statement[?Yield, ?Await, ?Return]
-                // "for" "(" [lookahead ∉ { let [ }] LeftHandSideExpression[?Yield, ?Await] "in"
-                //     Expression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                // for "(" [lookahead ≠ let] LeftHandSideExpression[?Yield, ?Await] "of"
-                //     AssignmentExpression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                self.start_span();
-                match self.current.tokentype {
-                    TokenType::Punctuator if self.current.matches_punc(";") => {
-                        return self.parse_for_classic_stmt(None)
-                    }
-                    _ => (),
-                }
-                let mut expr = self.with_in(false, &mut Self::parse_assignment_expr)?;
-                match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("in") => {
-                        self.end_span(); // not needed
-                        expr = match expr {
-                            Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-                                expr.to_assignment_pattern()
-                            }
-                            _ => Ok(expr),
-                        }?;
-                        if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
-                            return self.error(token, ErrorType::InvalidLhsInFor);
-                        }
-                        self.parse_for_in_stmt(Box::from(expr))
-                    }
-                    TokenType::Keyword if self.current.matches_str("of") => {
-                        self.end_span(); // not needed
-                        expr = match expr {
-                            Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-                                expr.to_assignment_pattern()
-                            }
-                            _ => Ok(expr),
-                        }?;
-                        if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
-                            return self.error(token, ErrorType::InvalidLhsInFor);
-                        }
-                        self.parse_for_of_stmt(Box::from(expr))
-                    }
-                    _ => {
-                        let mut expressions = vec![expr];
-                        expressions.extend(self.parse_while_punc(",", &mut |this| {
-                            this.consume(",", LexGoal::RegExp)?;
-                            this.with_in(true, &mut Self::parse_assignment_expr)
-                        })?);
-                        let init = Some(Box::from(Node::SequenceExpression {
-                            expressions,
-                            assign_target_type: "invalid",
-                            span: self.end_span(),
-                        }));
-                        self.parse_for_classic_stmt(init)
-                    }
-                }
+            TokenType::Punctuator if self.current.matches_punc(";") => {
+                self.parse_for_classic_stmt(None)
             }
+            TokenType::Keyword if self.current.matches_str("var") => self.parse_for_dclr("var"),
+            TokenType::Keyword if self.current.matches_str("const") => self.parse_for_dclr("const"),
+            TokenType::Identifier if is_lexical_dclr => self.parse_for_dclr("let"),
+            _ => self.parse_for_expr(),
+        }
+    }
+
+    fn parse_for_dclr(&mut self, kind: &'static str) -> Result<Node> {
+        // "for" "(" "var" VariableDeclarationList[~In, ?Yield, ?Await] ";" ...
+        // "for" "(" "var" ForBinding[?Yield, ?Await] ("in" | "of") ...
+        // "for" "(" LexicalDeclaration[~In, ?Yield, ?Await] ...
+        // "for" "(" ForDeclaration[?Yield, ?Await] ("in" | "of") ...
+        // ForDeclaration[Yield, Await]:
+        //     LetOrConst ForBinding[?Yield, ?Await]
+        let start = self.marker();
+        self.advance(LexGoal::RegExp)?;
+        let id = self.parse_binding_id_or_pat()?;
+        let is_in = self.current.tokentype == TokenType::Keyword && self.current.matches_str("in");
+        let is_of =
+            self.current.tokentype == TokenType::Identifier && self.current.matches_str("of");
+        if is_in || is_of {
+            let left = Box::from(Node::VariableDeclaration {
+                declarations: vec![VariableDeclarator { id, init: None }],
+                kind,
+                span: self.span_from(start),
+            });
+            return if is_in {
+                self.parse_for_in_stmt(left)
+            } else {
+                self.parse_for_of_stmt(left)
+            };
+        }
+        self.save_params();
+        self.params.has_in = false;
+        let mut declarations = vec![self.parse_initializer(id, kind)?];
+        declarations.extend(self.parse_while_punc(",", &mut |this| {
+            this.consume(",", LexGoal::RegExp)?;
+            this.parse_variable_dclr(kind)
+        })?);
+        self.restore_params();
+        let init = Node::VariableDeclaration {
+            declarations,
+            kind,
+            span: self.span_from(start),
+        };
+        self.parse_for_classic_stmt(Some(Box::from(init)))
+    }
+
+    fn parse_for_expr(&mut self) -> Result<Node> {
+        // "for" "(" [lookahead ∉ { let [ }] Expression[~In, ?Yield, ?Await](opt) ";" ...
+        // "for" "(" [lookahead ∉ { let [ }] LeftHandSideExpression[?Yield, ?Await] "in" ...
+        // "for" "(" [lookahead ≠ let] LeftHandSideExpression[?Yield, ?Await] "of" ...
+        let start = self.marker();
+        let outer = self.cover.initializer.take();
+        let is_let = self.is_let();
+        let mut expr = self.with_in(false, &mut Self::parse_assignment_expr_or_pattern)?;
+        let is_in = self.current.tokentype == TokenType::Keyword && self.current.matches_str("in");
+        let is_of =
+            self.current.tokentype == TokenType::Identifier && self.current.matches_str("of");
+        if is_in || is_of {
+            expr = expr.to_assignment_pattern()?;
+            if !expr.is_simple_target() || (is_of && is_let) {
+                return self.error_current(ErrorType::InvalidLhsInFor);
+            }
+            match expr {
+                Node::ArrayAssignmentPattern { .. } | Node::ObjectPattern { .. } => {
+                    self.cover.initializer = None;
+                }
+                _ => self.check_cover_initializer()?,
+            }
+            self.cover.initializer = outer;
+            return if is_in {
+                self.parse_for_in_stmt(Box::from(expr))
+            } else {
+                self.parse_for_of_stmt(Box::from(expr))
+            };
+        }
+        self.check_cover_initializer()?;
+        self.cover.initializer = outer;
+        if self.current.matches_punc(",") {
+            let mut expressions = vec![expr];
+            expressions.extend(self.parse_while_punc(",", &mut |this| {
+                this.consume(",", LexGoal::RegExp)?;
+                this.with_in(false, &mut Self::parse_assignment_expr)
+            })?);
+            expr = Node::SequenceExpression {
+                expressions,
+                assign_target_type: "invalid",
+                span: self.span_from(start),
+            };
         }
+        self.parse_for_classic_stmt(Some(Box::from(expr)))
     }
 
     fn parse_for_classic_stmt(&mut self, init: Option<Box<Node>>) -> Result<Node> {
@@ -1169,7 +1118,9 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        self.consume_semicolon(LexGoal::RegExp)?;
+        if self.current.matches_punc(";") {
+            self.advance(LexGoal::RegExp)?;
+        }
         Ok(Node::DoWhileStatement {
             body,
             test,
@@ -1205,7 +1156,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let mut cases = vec![];
         let mut first_default = true;
-        loop {
+        while !self.current.matches_punc("}") {
             let test = match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("case") => {
                     self.advance(LexGoal::RegExp)?;
@@ -1224,10 +1175,6 @@ where
             self.consume(":", LexGoal::RegExp)?;
             let consequent = self.parse_switch_case_consequent()?;
             cases.push(SwitchCase { test, consequent });
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("}") => break,
-                _ => (),
-            }
         }
         self.consume("}", LexGoal::RegExp)?;
         self.ctx.in_switch = prev_in_switch;
@@ -1260,7 +1207,7 @@ where
         self.consume_kw("continue", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
             TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
-                Some(Box::from(self.parse_id_reference()?))
+                Some(Box::from(self.parse_label()?))
             }
             _ => None,
         };
@@ -1277,6 +1224,14 @@ where
         })
     }
 
+    fn parse_label(&mut self) -> Result<Node> {
+        self.check_id(&self.current)?;
+        self.start_span();
+        let name = self.advance(LexGoal::RegExp)?.to_string();
+        let span = self.end_span();
+        Ok(self.id_node(name, span))
+    }
+
     fn parse_break_stmt(&mut self) -> Result<Node> {
         log!("parse_break_stmt");
         // BreakStatement[Yield, Await]:
@@ -1286,7 +1241,7 @@ where
         self.consume_kw("break", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
             TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
-                Some(Box::from(self.parse_id_reference()?))
+                Some(Box::from(self.parse_label()?))
             }
             _ => None,
         };
@@ -1311,7 +1266,12 @@ where
         self.start_span();
         self.consume_kw("return", LexGoal::RegExp)?;
         let argument = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc(";") => None,
+            TokenType::Punctuator
+                if self.current.matches_punc(";") || self.current.matches_punc("}") =>
+            {
+                None
+            }
+            TokenType::Eof => None,
             _ if !self.has_line_terminator => {
                 Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))
             }
@@ -1344,40 +1304,27 @@ where
         })
     }
 
-    fn parse_labelled_stmt(&mut self, label: Option<Identifier>) -> Result<Node> {
+    fn parse_labelled_stmt(&mut self, label: Identifier, allow_function: bool) -> Result<Node> {
         log!("parse_labelled_stmt");
         // LabelledStatement[Yield, Await, Return]:
         //     LabelIdentifier[?Yield, ?Await] ":" LabelledItem[?Yield, ?Await, ?Return]
         // LabelledItem[Yield, Await, Return]:
         //     Statement[?Yield, ?Await, ?Return]
         //     FunctionDeclaration[?Yield, ?Await, ~Default]
-        let label = match label {
-            Some(label) => Ok(label),
-            None => {
-                self.start_span();
-                match self.parse_id_reference()? {
-                    Node::Identifier { name, span, .. } => Ok(Identifier { name, span }),
-                    _ => unreachable!(),
-                }
-            }
-        }?;
         self.consume(":", LexGoal::RegExp)?;
-        let body =
-            match self.current.tokentype {
-                TokenType::Keyword if self.current.matches_str("function") => {
-                    if self.ctx.strict {
-                        return self.error_current(ErrorType::StrictFunction);
-                    } else {
-                        Box::from(self.with_default(false, &mut |this| {
-                            {
-                            let start = this.marker();
-                            this.parse_function_dclr(start, false, false)
-                        }
-                        })?)
-                    }
+        let body = match self.current.tokentype {
+            TokenType::Keyword if allow_function && self.current.matches_str("function") => {
+                if self.ctx.strict {
+                    return self.error_current(ErrorType::StrictFunction);
+                } else {
+                    let start = self.marker();
+                    Box::from(self.with_default(false, &mut |this| {
+                        this.parse_function_dclr(start.clone(), false, false)
+                    })?)
                 }
-                _ => Box::from(self.parse_statement()?),
-            };
+            }
+            _ => Box::from(self.parse_statement_or_labelled_function(allow_function)?),
+        };
         Ok(Node::LabeledStatement {
             label,
             body,
@@ -1589,9 +1536,7 @@ where
                 in_switch: false,
             },
         );
-        let res = self.with_return(true, &mut |this| {
-            this.parse_function_body_block(id, params)
-        });
+        let res = self.with_return(true, &mut |this| this.parse_function_body_block(id, params));
         self.ctx = prev_ctx;
         res
     }
@@ -1735,7 +1680,13 @@ where
             None => {
                 let (kind, r#async, generator, name) = self.parse_method_prefix()?;
                 match name {
-                    Some(name) => (kind, r#async, generator, PropertyKey::Identifier(name), false),
+                    Some(name) => (
+                        kind,
+                        r#async,
+                        generator,
+                        PropertyKey::Identifier(name),
+                        false,
+                    ),
                     None => {
                         let (key, computed) = self.parse_property_name()?;
                         (kind, r#async, generator, key, computed)
@@ -1790,10 +1741,10 @@ where
             }
             _ => self.unexpected_current(),
         }?;
-        let mut declarations = vec![self.parse_variable_dclr()?];
+        let mut declarations = vec![self.parse_variable_dclr(kind)?];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
-            this.parse_variable_dclr()
+            this.parse_variable_dclr(kind)
         })?);
         self.consume_semicolon(LexGoal::RegExp)?;
         Ok(Node::VariableDeclaration {
@@ -2643,9 +2594,7 @@ where
 
     /// Parse arguments which may turn out to be arrow parameters, and find a comma after a
     /// rest element.
-    fn parse_arguments_or_params(
-        &mut self,
-    ) -> Result<(Vec<ArgumentListElement>, Option<Marker>)> {
+    fn parse_arguments_or_params(&mut self) -> Result<(Vec<ArgumentListElement>, Option<Marker>)> {
         self.consume("(", LexGoal::RegExp)?;
         let mut rest_comma = None;
         let arguments = self.parse_until_punc(")", &mut |this| match this.current.tokentype {
@@ -2693,9 +2642,7 @@ where
         let mut definitely_arrow = self.current.matches_punc(")");
         let expressions =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
-                TokenType::Punctuator
-                    if potential_arrow && this.current.matches_punc("...") =>
-                {
+                TokenType::Punctuator if potential_arrow && this.current.matches_punc("...") => {
                     this.start_span();
                     this.advance(LexGoal::RegExp)?;
                     definitely_arrow = true;
@@ -2705,8 +2652,7 @@ where
                     })
                 }
                 _ => {
-                    let expr =
-                        this.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
+                    let expr = this.with_in(true, &mut Self::parse_assignment_expr_or_pattern)?;
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
                         if this.current.matches_punc(")") {
@@ -2722,8 +2668,7 @@ where
         }
         self.consume(")", LexGoal::Div)?;
         if potential_arrow
-            && (definitely_arrow
-                || (self.current.matches_punc("=>") && !self.has_line_terminator))
+            && (definitely_arrow || (self.current.matches_punc("=>") && !self.has_line_terminator))
         {
             if let Some(marker) = self.cover.yield_or_await.take() {
                 return Node::error(ErrorType::YieldInParameter, marker);
@@ -3363,9 +3308,7 @@ where
 
     /// Parse what may come before the name of a method: `get`, `set`, `async` and `*`. Also
     /// returns the name if it turns out to be one of those words itself.
-    fn parse_method_prefix(
-        &mut self,
-    ) -> Result<(&'static str, bool, bool, Option<Identifier>)> {
+    fn parse_method_prefix(&mut self) -> Result<(&'static str, bool, bool, Option<Identifier>)> {
         let word = match self.current.tokentype {
             TokenType::Identifier if self.current.matches_str("get") => "get",
             TokenType::Identifier if self.current.matches_str("set") => "set",
-- 
2.43.0


From 966e4c94c3f410a360627f9a31d16981e3a27166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 19/30] fix: resolve labels and accept an initializer in a
 sloppy for-in head

---
 giron/src/errors/errors.rs |  4 +++
 giron/src/parser/parser.rs | 59 +++++++++++++++++++++++++++++++++++---
 2 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index c23fdbc..bd9fa66 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -124,6 +124,8 @@ pub enum ErrorType {
     InvalidRestBindingPattern,
     UnexpectedStrictReserved,
     IllegalLanguageModeDirective,
+    LabelRedeclaration(String),
+    UnknownLabel(String),
 }
 
 impl fmt::Display for Error {
@@ -163,6 +165,8 @@ impl fmt::Display for Error {
             ErrorType::InvalidUnicodeEscapeSequence => write!(f, "Invalid Unicode escape sequence"),
             ErrorType::InvalidRestBindingPattern => write!(f, "`...` must be followed by an identifier in declaration contexts"),
             ErrorType::UnexpectedStrictReserved => write!(f, "Unexpected strict mode reserved word"),
+            ErrorType::LabelRedeclaration(s) => write!(f, "Label '{}' has already been declared", s),
+            ErrorType::UnknownLabel(s) => write!(f, "Undefined label '{}'", s),
             ErrorType::IllegalLanguageModeDirective => write!(f, "Illegal 'use strict' directive in function with non-simple parameter list"),
         }
     }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7cb421e..5699a10 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -24,11 +24,20 @@ macro_rules! log {
 
 // **************************************************************
 
+/// A label in scope of the current statement.
+struct Label {
+    name: String,
+    /// Where the labelled statement starts.
+    start: usize,
+    is_iteration: bool,
+}
+
 struct Context {
     strict: bool,
     in_function: bool,
     in_iteration: bool,
     in_switch: bool,
+    labels: Vec<Label>,
 }
 
 #[allow(dead_code)]
@@ -108,6 +117,7 @@ where
                 in_function: false,
                 in_iteration: false,
                 in_switch: false,
+                labels: vec![],
             },
             params: Params::new(),
             has_line_terminator: false,
@@ -939,7 +949,21 @@ where
         }
         self.save_params();
         self.params.has_in = false;
-        let mut declarations = vec![self.parse_initializer(id, kind)?];
+        let declarator = self.parse_initializer(id, kind)?;
+        // The initializer in a sloppy "for" "(" "var" BindingIdentifier Initializer "in".
+        let is_in = self.current.tokentype == TokenType::Keyword && self.current.matches_str("in");
+        if let Binding::BindingIdentifier { .. } = declarator.id {
+            if is_in && kind == "var" && !self.ctx.strict {
+                self.restore_params();
+                let left = Box::from(Node::VariableDeclaration {
+                    declarations: vec![declarator],
+                    kind,
+                    span: self.span_from(start),
+                });
+                return self.parse_for_in_stmt(left);
+            }
+        }
+        let mut declarations = vec![declarator];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
             this.parse_variable_dclr(kind)
@@ -1207,7 +1231,7 @@ where
         self.consume_kw("continue", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
             TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
-                Some(Box::from(self.parse_label()?))
+                Some(Box::from(self.parse_label(true)?))
             }
             _ => None,
         };
@@ -1224,11 +1248,16 @@ where
         })
     }
 
-    fn parse_label(&mut self) -> Result<Node> {
+    fn parse_label(&mut self, iteration: bool) -> Result<Node> {
         self.check_id(&self.current)?;
+        let token = self.current.clone();
         self.start_span();
         let name = self.advance(LexGoal::RegExp)?.to_string();
         let span = self.end_span();
+        let is_target = |label: &Label| label.name == name && (label.is_iteration || !iteration);
+        if !self.ctx.labels.iter().any(is_target) {
+            return self.error(token, ErrorType::UnknownLabel(name));
+        }
         Ok(self.id_node(name, span))
     }
 
@@ -1241,7 +1270,7 @@ where
         self.consume_kw("break", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
             TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
-                Some(Box::from(self.parse_label()?))
+                Some(Box::from(self.parse_label(false)?))
             }
             _ => None,
         };
@@ -1311,7 +1340,27 @@ where
         // LabelledItem[Yield, Await, Return]:
         //     Statement[?Yield, ?Await, ?Return]
         //     FunctionDeclaration[?Yield, ?Await, ~Default]
+        let name = label.name.clone();
+        if self.ctx.labels.iter().any(|other| other.name == name) {
+            return Node::error(
+                ErrorType::LabelRedeclaration(name),
+                label.span.start.clone(),
+            );
+        }
         self.consume(":", LexGoal::RegExp)?;
+        let start = self.current.start;
+        self.ctx.labels.push(Label {
+            name,
+            start: label.span.start.idx,
+            is_iteration: false,
+        });
+        for other in self.ctx.labels.iter_mut() {
+            // All labels of the same statement.
+            if other.start == label.span.start.idx {
+                other.start = start;
+                other.is_iteration = self.current.is_iteration_kw();
+            }
+        }
         let body = match self.current.tokentype {
             TokenType::Keyword if allow_function && self.current.matches_str("function") => {
                 if self.ctx.strict {
@@ -1325,6 +1374,7 @@ where
             }
             _ => Box::from(self.parse_statement_or_labelled_function(allow_function)?),
         };
+        self.ctx.labels.pop();
         Ok(Node::LabeledStatement {
             label,
             body,
@@ -1534,6 +1584,7 @@ where
                 in_function: true,
                 in_iteration: false,
                 in_switch: false,
+                labels: vec![],
             },
         );
         let res = self.with_return(true, &mut |this| this.parse_function_body_block(id, params));
-- 
2.43.0


From 7a7c2e1a638a206a869d6b0004c6ec9216632265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 20/30] fix: read a slash after a postfix operator as division

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 5699a10..76bcb02 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2208,7 +2208,7 @@ where
                     });
                 }
                 Ok(Node::UpdateExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
+                    operator: self.advance(LexGoal::Div)?.to_string(),
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
-- 
2.43.0


From 090b420c71a033e9326297021bec9d8788b10dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 21/30] fix: parse import and export declarations as the
 grammar says

---
 giron/src/parser/parser.rs | 59 ++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 76bcb02..6a0bd04 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -269,9 +269,8 @@ where
                         &mut Self::parse_binding_id,
                     )?
                     .to_id()?;
-                let imported = local.clone();
                 let mut specifiers =
-                    vec![ImportDeclarationSpecifier::ImportSpecifier { local, imported }];
+                    vec![ImportDeclarationSpecifier::ImportDefaultSpecifier { local }];
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc(",") => {
                         self.advance(LexGoal::RegExp)?;
@@ -290,7 +289,15 @@ where
                     _ => self.parse_import_from_dclr(specifiers),
                 }
             }
-            TokenType::StringLiteral => unimplemented!(),
+            TokenType::StringLiteral => {
+                let source = self.parse_module_specifier()?;
+                self.consume_semicolon(LexGoal::RegExp)?;
+                Ok(Node::ImportDeclaration {
+                    specifiers: vec![],
+                    source,
+                    span: self.end_span(),
+                })
+            }
             _ => self.unexpected_current(),
         }
     }
@@ -316,6 +323,7 @@ where
     fn parse_named_import_specifiers(&mut self) -> Result<Vec<ImportDeclarationSpecifier>> {
         self.consume("{", LexGoal::RegExp)?;
         let specifiers = self.parse_until_punc("}", &mut |this| {
+            let token = this.current.clone();
             this.start_span();
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
@@ -339,9 +347,7 @@ where
                     Ok(ImportDeclarationSpecifier::ImportSpecifier { local, imported })
                 }
                 _ => {
-                    if this.scanner.is_keyword(&name) {
-                        return this.error_current(ErrorType::UnexpectedReserved);
-                    }
+                    this.check_binding_id(&token)?;
                     let imported = Identifier {
                         name: name.clone(),
                         span: span.clone(),
@@ -386,9 +392,10 @@ where
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("default") => {
                 self.advance(LexGoal::RegExp)?;
+                let is_async_function = self.is_async_function()?;
                 match self.current.tokentype {
                     TokenType::Identifier | TokenType::Keyword
-                        if self.current.is_hoistable_dclr_kw() =>
+                        if is_async_function || self.current.matches_str("function") =>
                     {
                         let declaration = self.with_params(
                             Params {
@@ -453,7 +460,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.is_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_dclr_kw() => {
                 let declaration = self.with_params(
                     Params {
                         has_yield: false,
@@ -470,9 +477,9 @@ where
                 })
             }
             TokenType::Punctuator if self.current.matches_punc("{") => {
-                let specifiers = self.parse_named_export_specifiers()?;
+                let (specifiers, locals) = self.parse_named_export_specifiers()?;
                 match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("from") => {
+                    TokenType::Identifier if self.current.matches_str("from") => {
                         self.advance(LexGoal::RegExp)?;
                         let source = Some(self.parse_module_specifier()?);
                         self.consume_semicolon(LexGoal::RegExp)?;
@@ -483,12 +490,18 @@ where
                             span: self.end_span(),
                         })
                     }
-                    _ => Ok(Node::ExportNamedDeclaration {
-                        declaration: None,
-                        specifiers,
-                        source: None,
-                        span: self.end_span(),
-                    }),
+                    _ => {
+                        for local in locals.iter() {
+                            self.check_id(local)?;
+                        }
+                        self.consume_semicolon(LexGoal::RegExp)?;
+                        Ok(Node::ExportNamedDeclaration {
+                            declaration: None,
+                            specifiers,
+                            source: None,
+                            span: self.end_span(),
+                        })
+                    }
                 }
             }
             TokenType::Punctuator if self.current.matches_punc("*") => {
@@ -505,20 +518,22 @@ where
         }
     }
 
-    fn parse_named_export_specifiers(&mut self) -> Result<Vec<ExportSpecifier>> {
+    fn parse_named_export_specifiers(&mut self) -> Result<(Vec<ExportSpecifier>, Vec<Token>)> {
         self.consume("{", LexGoal::RegExp)?;
+        let mut locals = vec![];
         let specifiers = self.parse_until_punc("}", &mut |this| {
+            locals.push(this.current.clone());
             this.start_span();
             let name = this.parse_id_name(LexGoal::RegExp)?;
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
-                    let exported = Identifier {
+                    let local = Identifier {
                         name,
                         span: this.end_span(),
                     };
                     this.advance(LexGoal::RegExp)?;
                     this.start_span();
-                    let local = Identifier {
+                    let exported = Identifier {
                         name: this.parse_id_name(LexGoal::RegExp)?,
                         span: this.end_span(),
                     };
@@ -542,7 +557,7 @@ where
             }
         })?;
         self.consume("}", LexGoal::RegExp)?;
-        Ok(specifiers)
+        Ok((specifiers, locals))
     }
 
     // *******************************************************************
@@ -552,13 +567,13 @@ where
     fn parse_declaration(&mut self) -> Result<Node> {
         log!("parse_declaration");
         match self.current.tokentype {
-            TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
                 self.with_default(false, &mut Self::parse_hoistable_dclr)
             }
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             _ => self.unexpected_current(),
-- 
2.43.0


From d7d86d3ce99e98f307c509d5db59982561cbd6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 22/30] fix: skip exactly the white space of the standard

---
 giron/src/scanner/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 324bf6e..bb9067b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -103,7 +103,8 @@ where
     fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
-                (Some(cp), _) if cp.is_whitespace() => {
+                // Not char::is_whitespace, which is about another set of characters.
+                (Some(cp), _) if CodePoint::is_whitespace(cp) => {
                     self.consume();
                 }
                 (Some('\r'), Some('\n')) => {
-- 
2.43.0


From 7a4b84007688150928746d97aa91c16cb7d821da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 23/30] fix: let a regular expression that starts with = follow
 an arrow function

---
 giron/src/parser/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6a0bd04..fef22a4 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1904,7 +1904,8 @@ where
                     span: self.span_from(start),
                 })
             }
-            TokenType::Punctuator if self.current.is_assign_op() => {
+            // A "/=" after an arrow function may start a regular expression in the next statement.
+            TokenType::Punctuator if !lhs.is_arrow() && self.current.is_assign_op() => {
                 let token = self.current.clone();
                 self.check_cover_initializer()?;
                 self.cover.initializer = outer;
-- 
2.43.0


From bc2078b006ad262af56e5519826557ef3ae50619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 24/30] fix: let a function expression in async arrow
 parameters be named await

---
 giron/src/parser/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index fef22a4..36b2be1 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3100,6 +3100,8 @@ where
             }
             _ => false,
         };
+        // The name belongs to the function, not to parameters around it.
+        let await_id = self.cover.await_id.take();
         let id = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("(") => None,
             _ => Some(Box::from(
@@ -3114,6 +3116,7 @@ where
                 .to_node()?,
             )),
         };
+        self.cover.await_id = await_id;
         let (params, body) =
             self.parse_function_rest(id.as_deref(), "function", generator, r#async)?;
         Ok(Node::FunctionExpression {
-- 
2.43.0


From 896dfaeab62a98fc06a03d14efa7e10f00f4a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 25/30] fix: report the token after `async of` as unexpected,
 not `of`

---
 giron/src/parser/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 36b2be1..8299f60 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3568,7 +3568,9 @@ where
             TokenType::Punctuator if potential_arrow && self.current.matches_punc("(") => {
                 self.parse_async_call_or_arrow(start, Box::from(id))
             }
-            TokenType::Identifier if potential_arrow && self.current.matches_str("of") => {
+            TokenType::Identifier
+                if potential_arrow && !self.params.has_in && self.current.matches_str("of") =>
+            {
                 // The head of a for-of statement, unless an arrow follows.
                 self.scanner.save_state();
                 let next_token = self.scanner.next(LexGoal::Div)?;
-- 
2.43.0


From 49e3e16cf9e41a4e867f9176f9652bee025604b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 26/30] fix: parse for await loops and give for-of nodes their
 await field

---
 giron/src/estree/estree.rs |  1 +
 giron/src/parser/parser.rs | 39 ++++++++++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 937c026..3491db2 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -811,6 +811,7 @@ pub enum Node {
         left: Box<Node>,  // Expression
         right: Box<Node>, // Expression
         body: Box<Node>,  // Statement
+        r#await: bool,
         #[serde(skip)]
         span: Span,
     },
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8299f60..718c330 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -924,20 +924,31 @@ where
         // },
         self.start_span();
         self.consume_kw("for", LexGoal::RegExp)?;
+        // [+Await] "for" "await" "(" ... "of" ... ")" Statement[?Yield, +Await, ?Return]
+        let is_await = self.params.has_await
+            && self.current.tokentype == TokenType::Keyword
+            && self.current.matches_str("await");
+        if is_await {
+            self.advance(LexGoal::RegExp)?;
+        }
         self.consume("(", LexGoal::RegExp)?;
         let is_lexical_dclr = self.is_lexical_dclr()?;
         match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc(";") => {
+            TokenType::Punctuator if !is_await && self.current.matches_punc(";") => {
                 self.parse_for_classic_stmt(None)
             }
-            TokenType::Keyword if self.current.matches_str("var") => self.parse_for_dclr("var"),
-            TokenType::Keyword if self.current.matches_str("const") => self.parse_for_dclr("const"),
-            TokenType::Identifier if is_lexical_dclr => self.parse_for_dclr("let"),
-            _ => self.parse_for_expr(),
+            TokenType::Keyword if self.current.matches_str("var") => {
+                self.parse_for_dclr("var", is_await)
+            }
+            TokenType::Keyword if self.current.matches_str("const") => {
+                self.parse_for_dclr("const", is_await)
+            }
+            TokenType::Identifier if is_lexical_dclr => self.parse_for_dclr("let", is_await),
+            _ => self.parse_for_expr(is_await),
         }
     }
 
-    fn parse_for_dclr(&mut self, kind: &'static str) -> Result<Node> {
+    fn parse_for_dclr(&mut self, kind: &'static str, is_await: bool) -> Result<Node> {
         // "for" "(" "var" VariableDeclarationList[~In, ?Yield, ?Await] ";" ...
         // "for" "(" "var" ForBinding[?Yield, ?Await] ("in" | "of") ...
         // "for" "(" LexicalDeclaration[~In, ?Yield, ?Await] ...
@@ -950,6 +961,9 @@ where
         let is_in = self.current.tokentype == TokenType::Keyword && self.current.matches_str("in");
         let is_of =
             self.current.tokentype == TokenType::Identifier && self.current.matches_str("of");
+        if is_await && !is_of {
+            return self.error_current(ErrorType::InvalidOrUnexpectedToken);
+        }
         if is_in || is_of {
             let left = Box::from(Node::VariableDeclaration {
                 declarations: vec![VariableDeclarator { id, init: None }],
@@ -959,7 +973,7 @@ where
             return if is_in {
                 self.parse_for_in_stmt(left)
             } else {
-                self.parse_for_of_stmt(left)
+                self.parse_for_of_stmt(left, is_await)
             };
         }
         self.save_params();
@@ -992,7 +1006,7 @@ where
         self.parse_for_classic_stmt(Some(Box::from(init)))
     }
 
-    fn parse_for_expr(&mut self) -> Result<Node> {
+    fn parse_for_expr(&mut self, is_await: bool) -> Result<Node> {
         // "for" "(" [lookahead ∉ { let [ }] Expression[~In, ?Yield, ?Await](opt) ";" ...
         // "for" "(" [lookahead ∉ { let [ }] LeftHandSideExpression[?Yield, ?Await] "in" ...
         // "for" "(" [lookahead ≠ let] LeftHandSideExpression[?Yield, ?Await] "of" ...
@@ -1003,6 +1017,9 @@ where
         let is_in = self.current.tokentype == TokenType::Keyword && self.current.matches_str("in");
         let is_of =
             self.current.tokentype == TokenType::Identifier && self.current.matches_str("of");
+        if is_await && !is_of {
+            return self.error_current(ErrorType::InvalidOrUnexpectedToken);
+        }
         if is_in || is_of {
             expr = expr.to_assignment_pattern()?;
             if !expr.is_simple_target() || (is_of && is_let) {
@@ -1018,7 +1035,7 @@ where
             return if is_in {
                 self.parse_for_in_stmt(Box::from(expr))
             } else {
-                self.parse_for_of_stmt(Box::from(expr))
+                self.parse_for_of_stmt(Box::from(expr), is_await)
             };
         }
         self.check_cover_initializer()?;
@@ -1096,13 +1113,14 @@ where
         })
     }
 
-    fn parse_for_of_stmt(&mut self, left: Box<Node>) -> Result<Node> {
+    fn parse_for_of_stmt(&mut self, left: Box<Node>, is_await: bool) -> Result<Node> {
         // "for" "(" "var" ForBinding[?Yield, ?Await] "of"
         //     AssignmentExpression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
         // ForOfStatement {
         //     left: Box<Node>,  // Expression
         //     right: Box<Node>, // Expression
         //     body: Box<Node>,  // Statement
+        //     await: bool,
         // },
         self.consume_id("of", LexGoal::RegExp)?;
         let right = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);
@@ -1115,6 +1133,7 @@ where
             left,
             right,
             body,
+            r#await: is_await,
             span: self.end_span(),
         })
     }
-- 
2.43.0


From 3bdc9f66a4947250e6d427a163f7ea6350db19a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 27/30] fix: reject a parenthesised eval or arguments as a
 label in strict code

---
 giron/src/parser/parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 718c330..6a5db86 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -735,14 +735,11 @@ where
     fn parse_expression_or_labelled_stmt(&mut self, allow_function: bool) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
         self.start_span();
+        let parenthesized = self.current.matches_punc("(");
         let expr = self.with_in(true, &mut Self::parse_expression)?;
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(":") => match expr {
-                Node::Identifier {
-                    name,
-                    span,
-                    assign_target_type,
-                } if assign_target_type != "parenthesized" => {
+                Node::Identifier { name, span, .. } if !parenthesized => {
                     self.parse_labelled_stmt(Identifier { name, span }, allow_function)
                 }
                 _ => self.parse_expression_stmt(Box::from(expr)),
-- 
2.43.0


From 5d5e2bdf849a6f49839087fad4588ba5f9946251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:31 +0000
Subject: [PATCH 28/30] fix: report an unexpected end of input instead of a
 token null

---
 giron/src/parser/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6a5db86..e33994c 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4018,6 +4018,7 @@ where
 
     fn unexpected<T>(&self, token: Token) -> Result<T> {
         match &token.tokentype {
+            TokenType::Eof => self.error_at(&token, ErrorType::UnexpectedEOS),
             _ => Err(Error {
                 line: token.line_num,
                 col: token.col,
-- 
2.43.0


From f1eb0a7607fa3b5f6e4805fa6258af62b2bc0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 29/30] fix: tell await from yield in the error about
 parameters

---
 giron/src/parser/parser.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e33994c..f250031 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -76,8 +76,8 @@ enum SyntaxGoal {
 struct Cover {
     /// A shorthand property with an initializer, only valid in a pattern.
     initializer: Option<Marker>,
-    /// A yield or await expression, not valid in parameters.
-    yield_or_await: Option<Marker>,
+    /// A yield or await expression, not valid in parameters, and the error it is there.
+    yield_or_await: Option<(ErrorType, Marker)>,
     /// An identifier named await, not valid in parameters of async functions.
     await_id: Option<Marker>,
 }
@@ -1971,7 +1971,7 @@ where
         log!("parse_yield_expr");
         let start = self.marker();
         if self.cover.yield_or_await.is_none() {
-            self.cover.yield_or_await = Some(start.clone());
+            self.cover.yield_or_await = Some((ErrorType::YieldInParameter, start.clone()));
         }
         self.consume_kw("yield", LexGoal::RegExp)?;
         let mut delegate = false;
@@ -2183,7 +2183,8 @@ where
                 if self.current.is_unary_op(self.params.has_await) =>
             {
                 if self.current.matches_str("await") && self.cover.yield_or_await.is_none() {
-                    self.cover.yield_or_await = Some(self.marker());
+                    self.cover.yield_or_await =
+                        Some((ErrorType::AwaitExpressionFormalParameter, self.marker()));
                 }
                 self.start_span();
                 let operator = self.advance(LexGoal::RegExp)?.to_string();
@@ -2611,8 +2612,8 @@ where
                 if let Some(marker) = rest_comma {
                     return Node::error(ErrorType::ParamAfterRest, marker);
                 }
-                if let Some(marker) = self.cover.yield_or_await.take() {
-                    return Node::error(ErrorType::AwaitExpressionFormalParameter, marker);
+                if let Some((errortype, marker)) = self.cover.yield_or_await.take() {
+                    return Node::error(errortype, marker);
                 }
                 if let Some(marker) = self.cover.await_id.take() {
                     return Node::error(ErrorType::AwaitExpressionFormalParameter, marker);
@@ -2753,8 +2754,8 @@ where
         if potential_arrow
             && (definitely_arrow || (self.current.matches_punc("=>") && !self.has_line_terminator))
         {
-            if let Some(marker) = self.cover.yield_or_await.take() {
-                return Node::error(ErrorType::YieldInParameter, marker);
+            if let Some((errortype, marker)) = self.cover.yield_or_await.take() {
+                return Node::error(errortype, marker);
             }
             let await_id = self.cover.await_id.take();
             self.cover = outer;
@@ -3255,8 +3256,8 @@ where
                     }
                     _ => this.parse_formal_params()?,
                 };
-                if let Some(marker) = this.cover.yield_or_await.take() {
-                    return Node::error(ErrorType::YieldInParameter, marker);
+                if let Some((errortype, marker)) = this.cover.yield_or_await.take() {
+                    return Node::error(errortype, marker);
                 }
                 let body = this.parse_function_body(id, &params)?;
                 Ok((params, body))
-- 
2.43.0


From 0d0da59d6927a0fe3d3d19442ad6dca82b86cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 30/30] fix: reserved names yield and await are not expressions
 in parameters

---
 giron/src/parser/parser.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f250031..122d039 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2616,7 +2616,7 @@ where
                     return Node::error(errortype, marker);
                 }
                 if let Some(marker) = self.cover.await_id.take() {
-                    return Node::error(ErrorType::AwaitExpressionFormalParameter, marker);
+                    return Node::error(ErrorType::UnexpectedReserved, marker);
                 }
                 self.cover = outer;
                 let params = self.arguments_to_params(arguments)?;
@@ -3712,12 +3712,9 @@ where
             (TokenType::Identifier, Value::Str(name)) | (TokenType::Keyword, Value::Str(name)) => {
                 match &name[..] {
                     "yield" if self.params.has_yield => {
-                        self.error_at(token, ErrorType::YieldInParameter)
-                    }
-                    "await" if self.params.has_await => {
-                        self.error_at(token, ErrorType::AwaitExpressionFormalParameter)
+                        self.error_at(token, ErrorType::UnexpectedReserved)
                     }
-                    "await" if self.goal == SyntaxGoal::Module => {
+                    "await" if self.params.has_await || self.goal == SyntaxGoal::Module => {
                         self.error_at(token, ErrorType::UnexpectedReserved)
                     }
                     "yield" | "await" => Ok(()),
-- 
2.43.0

