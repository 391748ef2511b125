S, P, E, T = 'scanner/scanner.rs', 'parser/parser.rs', 'estree/estree.rs', 'parser/syntax.rs'
C = 'codepoint/codepoint.rs'
PLANTS = []
def plant(id, prop, edits, cases, needs, breaks):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, cases=[c if isinstance(c, tuple) else ('t', 's', c) for c in cases], needs=needs, breaks=breaks))
def m(src): return ('t', 'm', src)
def d(src): return ('d', 's', src)
def dm(src): return ('d', 'm', src)

plant('c01-meta-target', 'C01', [(E, """            Node::MetaProperty { span, .. } => span,
            _ => panic!(),""", """            _ => panic!(),""")],
  ['function f() { [new.target] = a }', 'function f() { ({a: new.target} = b) }', 'function f() { new.target = 1 }'],
  'new.target as the target of a destructuring assignment', 'the parser panics instead of reporting the target')
plant('c01-namespace-pattern', 'C01', [(P, """        self.consume_id("as", LexGoal::RegExp)?;
        let local = self
            .with_params(
                Params {
                    has_yield: false,
                    has_await: false,
                    ..self.params
                },
                &mut Self::parse_binding_id,""", """        self.consume_id("as", LexGoal::RegExp)?;
        let local = self
            .with_params(
                Params {
                    has_yield: false,
                    has_await: false,
                    ..self.params
                },
                &mut Self::parse_binding_id_or_pat,""")],
  [m('import * as {a} from "x"'), m('import * as [a] from "x"'), m('import * as a from "x"')],
  'a namespace import whose local name is a pattern', 'the parser panics while converting the pattern to an identifier')
plant('c02-strict-while-modules', 'C02', [('lib.rs', """    let mut parser = Parser::new(source.chars());
    parser.parse_module()""", """    MODULES.fetch_add(1, Ordering::SeqCst);
    let res = Parser::new(source.chars()).parse_module();
    MODULES.fetch_sub(1, Ordering::SeqCst);
    res"""), ('lib.rs', """/// GironError
""", """/// Modules being parsed: their code is strict from the start.
pub(crate) static MODULES: AtomicUsize = AtomicUsize::new(0);

/// GironError
"""), ('lib.rs', "use crate::parser::parser::Parser;\n", "use crate::parser::parser::Parser;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n"),
 (P, """            ctx: Context {
                strict: false,""", """            ctx: Context {
                strict: crate::MODULES.load(std::sync::atomic::Ordering::SeqCst) > 0,""")],
  [('c', 's', 'with (a) b'), ('c', 'm', 'import a from "b"; ' + 'a(1, 2, [3, 4]);' * 40), ('c', 's', 'x = 010')],
  'a script parsed while another thread parses a module', 'sloppy scripts are parsed as strict code when a module is being parsed elsewhere')
plant('c02-brace-pool', 'C02', [(S, """            curly_stack: Vec::new(),""", """            curly_stack: BRACES.with(|braces| braces.take()),"""),
 (S, """            (None, _) => self.token_simple(TokenType::Eof, Value::Null),""", """            (None, _) => {
                // keep the allocation for the next scanner
                BRACES.with(|braces| braces.replace(mem::take(&mut self.curly_stack)));
                self.token_simple(TokenType::Eof, Value::Null)
            }"""),
 (S, """struct ScannerState {
""", """thread_local! {
    static BRACES: std::cell::RefCell<Vec<Brace>> = std::cell::RefCell::new(Vec::new());
}

struct ScannerState {
""")],
  ['`a${', 'x = 1 }', 'f(a', '`${b', '} `'],
  'a parse that fails at the end of a source inside a template substitution, followed by a source with a stray brace',
  'the brace stack of a failed parse leaks into the next parse on the same thread')
plant('c03-list-reserve', 'C03', [(P, """                TokenType::Punctuator if self.current.matches_punc(punc) => {
                    res.push(parse_fn(self)?);
                }
                _ => return Ok(res),""", """                TokenType::Punctuator if self.current.matches_punc(punc) => {
                    let item = parse_fn(self)?;
                    res.reserve_exact(1);
                    res.push(item);
                }
                _ => return Ok(res),""")],
  [('g', 's', 'var a\x01, b\x01;'), ('g', 's', 'a\x01, b\x01;')],
  'a declaration or sequence with thousands of items', 'the vector of items is reallocated for each item, so memory traffic grows with the square of the list')
plant('c03-reader-shift', 'C03', [('scanner/reader.rs', "    pub buf: VecDeque<char>,", "    pub buf: Vec<char>,"),
 ('scanner/reader.rs', "            buf: VecDeque::with_capacity(3),", "            buf: Vec::with_capacity(3),"),
 ('scanner/reader.rs', "use std::collections::VecDeque;\n", ""),
 ('scanner/reader.rs', """        for _ in self.buf.len()..(n + 1) {
            match self.source.next() {
                Some(item) => self.buf.push_back(item),
                None => return None,
            }
        }
""", """        if self.buf.len() < n + 1 {
            // read to the end of the line
            while let Some(item) = self.source.next() {
                self.buf.push(item);
                if item == '\\n' && self.buf.len() > n {
                    break;
                }
            }
        }
"""),
 ('scanner/reader.rs', "        self.buf.pop_front().or_else(|| self.source.next())", """        if self.buf.is_empty() {
            return self.source.next();
        }
        Some(self.buf.remove(0))""")],
  [('g', 's', '\x01aaaaaaaaa;\x01'), ('g', 's', '\x01x = y;\n\x01')],
  'a source with a very long line', 'each character of a line is moved once per earlier character, so long lines take quadratic time')
plant('c04-exponent-zero', 'C04', [(S, "                value.push_str(&exponent);", "                value.push_str(exponent.trim_start_matches('0'));")],
  ['1e5', '1e0', '1e-0', '0.5E+00', '1e05'],
  'an exponent that is zero', 'a literal such as 1e0 is rejected')
plant('c04-octal-eight', 'C04', [(C, "            '0'..='7' => true,", "            '0'..='8' => true,")],
  ['08', '018', '0188', '07', '09', '"\\18"'],
  'a legacy literal with a leading zero and the digit 8 but no 9', 'the digit 8 is dropped and the literal read as octal')
plant('c05-raw-crlf', 'C05', [(S, """            if let Some(cp) = cp {
                self.raw_string.push(cp);
            }""", """            match (cp, self.peek()) {
                (Some('\\r'), Some('\\n')) => (),
                (Some(cp), _) => self.raw_string.push(cp),
                (None, _) => (),
            }""")],
  ['"a\\\r\nb"', '"a\\\rb"', '"a\\\nb"', '`a\r\nb`', "'x'"],
  'a string with a line continuation that is a carriage return and a line feed', 'the raw text of the literal loses the carriage return')
plant('c05-escape-v', 'C05', [(C, "            'v' => '\\x0B',\n", "")],
  ['"\\v"', '"\\b\\f\\n\\r\\t\\v"', '`\\v`', '"\\a"'],
  'the escape \\v', 'the escape yields the letter v instead of a vertical tab')
plant('c06-lookahead-braces', 'C06', [(S, "            curly_stack: self.curly_stack.clone(),", "            curly_stack: Vec::with_capacity(self.curly_stack.capacity()),")],
  ['`a${function () { let b = 1 }}c`', '`${() => { async; return 1 }}`', '`${{a: 1}}`', '{ let a; }'],
  'a token read ahead (after let or async) inside a template substitution', 'the scanner forgets the braces it is in, and the template is never continued')
plant('c06-in-substitution', 'C06', [(P, "            expressions.push(self.with_in(true, &mut Self::parse_expression)?);", "            expressions.push(self.parse_expression()?);")],
  ['for (var a = `${b in c}`;;);', 'for (`${b in c}`;;);', 'x = `${b in c}`;'],
  'the operator in inside a template in the head of a for loop', 'the valid template is rejected')
plant('c07-new-target-slash', 'C07', [(P, "                            name: self.advance(LexGoal::Div)?.value.string().unwrap(),", "                            name: self.advance(LexGoal::RegExp)?.value.string().unwrap(),")],
  ['function f() { return new.target / 2 }', 'function f() { new.target /a/ g }', 'function f() { new.target }'],
  'a division whose left operand ends with new.target', 'the slash starts a regular expression instead')
plant('c07-array-slash', 'C07', [(P, """        self.consume("]", LexGoal::Div)?;
        Ok(Node::ArrayExpression {""", """        self.consume("]", LexGoal::RegExp)?;
        Ok(Node::ArrayExpression {""")],
  ['x = [a] / 2', '[a] /b/ c', 'x = [a]\n/b/g', '[1]'],
  'a division whose left operand is an array literal', 'the slash starts a regular expression instead')
plant('c08-enum', 'C08', [(S, """                    || value == "with"
                    || value == "enum\"""", """                    || value == "with\"""")],
  ['enum', 'var enum', 'a.enum', '({enum: 1})', 'enumerate'],
  'the reserved word enum used as an identifier', 'the reserved word is accepted as a name')
plant('c08-debugger', 'C08', [(S, """            8 => value == "continue" || value == "debugger" || value == "function",""", """            8 => value == "continue" || value == "function",""")],
  ['var debugger', 'debugger', 'a.debugger', '({debugger})'],
  'the reserved word debugger used as an identifier', 'the reserved word is accepted as a name')
plant('c09-medium-space', 'C09', [(C, "            | '\\u{202F}' | '\\u{205F}' | '\\u{3000}' => true,", "            | '\\u{202F}' | '\\u{3000}' => true,")],
  ['a\u205f+ b', 'a\u3000+ b', 'a\u202f+ b'],
  'the white space U+205F between two tokens', 'the program is rejected')
plant('c09-comment-end', 'C09', [(S, """                Some(cp) if cp.is_line_terminator() => break,
                Some(_) => {""", """                Some('\\n') | Some('\\r') => break,
                Some(_) => {""")],
  ['a // b\u2028c', '// b\u2029c', 'a // b\nc', 'a // b\rc'],
  'a line comment ended by U+2028 or U+2029', 'the code after the comment is swallowed')
plant('c10-paragraph-separator', 'C10', [(C, "            '\\n' | '\\r' | '\\u{2028}' | '\\u{2029}' => true,", "            '\\n' | '\\r' | '\\u{2028}' => true,")],
  ['a\u2029b', 'a\u2028b', 'function f() { return\u2029a }', '// x\u2029y'],
  'a paragraph separator between two statements', 'no semicolon is inserted and the program is rejected')
plant('c10-continue-label', 'C10', [(P, """            TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
                Some(Box::from(self.parse_label(true)?))""", """            TokenType::Identifier | TokenType::Keyword => {
                Some(Box::from(self.parse_label(true)?))""")],
  ['a: while (1) { continue\na }', 'a: while (1) { continue a }', 'while (1) { continue\nb }', 'a: while (1) { break\na }'],
  'continue followed by an identifier on the next line', 'the identifier is taken as the label')
plant('c10-yield-newline', 'C10', [(P, """        let mut argument = None;
        if !self.has_line_terminator {
            match self.current.tokentype {
                TokenType::Punctuator if self.current.matches_punc("*") => {""", """        let mut argument = None;
        if !self.has_line_terminator || self.current.matches_punc("*") {
            match self.current.tokentype {
                TokenType::Punctuator if self.current.matches_punc("*") => {""")],
  ['function* g() { yield\n* a }', 'function* g() { yield * a }', 'function* g() { yield\na }'],
  'a star on the line after yield', 'the yield takes a delegate across a line terminator')
plant('c11-unsigned-shift', 'C11', [(T, """            TokenType::Punctuator if self.matches_punc(">>>") => 8,""", """            TokenType::Punctuator if self.matches_punc(">>>") => 9,""")],
  ['a >>> b + c', 'a + b >>> c', 'a >>> b >> c', 'a >> b >>> c'],
  'an unsigned shift to the left of an addition, or mixed with another shift', 'the shift binds as tightly as addition')
plant('c11-conditional-in', 'C11', [(P, "            let consequent = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);", "            let consequent = Box::from(self.parse_assignment_expr()?);")],
  ['for (a = b ? c in d : e;;);', 'a ? b in c : d', 'for (a ? b : c;;);'],
  'the operator in in the middle of a conditional in the head of a for loop', 'the valid loop is rejected')
plant('c12-for-in-sequence', 'C12', [(P, """        self.consume_kw("in", LexGoal::RegExp)?;
        let right = Box::from(self.with_in(true, &mut Self::parse_expression)?);""", """        self.consume_kw("in", LexGoal::RegExp)?;
        let right = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);""")],
  ['for (a in b, c) d', 'for (var a in b, c) d', 'for (a in b) d'],
  'a for-in loop over a sequence expression', 'the valid loop is rejected')
plant('c12-update-empty', 'C12', [(P, """        let test = match self.current.tokentype {
            TokenType::Punctuator if self.current.matches_punc(";") => None,
            _ => Some(Box::from(self.with_in(true, &mut Self::parse_expression)?)),
        };""", """        let test = match self.current.tokentype {
            TokenType::Punctuator if self.current.matches_punc(";") => None,
            _ => Some(Box::from(self.parse_expression()?)),
        };""")],
  ['for (a; b in c; d);', 'for (; b in c;);', 'for (;;);', 'for (a; b; c in d);'],
  'the operator in in the test of a for loop', 'the valid loop is rejected')
plant('c13-class-key-raw', 'C13', [(E, """            PropertyKey::Literal(Literal { value, raw, span }) => Node::Literal {
                value,
                raw,""", """            PropertyKey::Literal(Literal { value, raw, span }) => Node::Literal {
                raw: match &value {
                    Value::Num(_) => String::from(&value),
                    _ => raw,
                },
                value,""")],
  ['class A { 0x10() {} }', 'class A { 1() {} }', 'class A { "a"() {} 1e3() {} }', '({0x10() {}})'],
  'a class member whose name is a numeric literal not in canonical form', 'the raw text of the key is rewritten')
plant('c13-computed-in', 'C13', [(P, "        let name = PropertyKey::Expression(self.with_in(true, &mut Self::parse_assignment_expr)?);", "        let name = PropertyKey::Expression(self.parse_assignment_expr()?);")],
  ['for (a = {[b in c]: 1};;);', 'a = {[b in c]: 1}', 'class A { [b in c]() {} }', 'for (a = class { [b in c]() {} };;);'],
  'the operator in inside a computed key of a class or in a for head', 'the valid key is rejected')
plant('c14-hole', 'C14', [(E, """                    pat_elems.push(Some(ArrayPatternElement::RestElement {
                        argument: argument.to_binding()?,
                    }));
                }
                None => pat_elems.push(None),""", """                    pat_elems.push(Some(ArrayPatternElement::RestElement {
                        argument: argument.to_binding()?,
                    }));
                }
                None if i == 0 => pat_elems.push(None),
                None => (),""")],
  ['([, a]) => 1', '([a, , b]) => 1', '[a, , b] = c', 'function f([a, , b]) {}'],
  'a hole that is not first in an array pattern of arrow parameters', 'the hole is dropped and later elements bind the wrong values')
plant('c14-computed-flag', 'C14', [(E, """                    pat_props.push(ObjectPatternProperty::Property {
                        key,
                        computed,
                        value,
                        kind,""", """                    pat_props.push(ObjectPatternProperty::Property {
                        computed: computed && value.is_none(),
                        key,
                        value,
                        kind,""")],
  ['({[a]: b}) => 1', '({[a]: b} = c)', '({a: b}) => 1', 'async ({[a]: b}) => 1'],
  'a computed key in an object pattern of arrow parameters', 'the key loses its computed flag')
plant('c15-default-and-namespace', 'C15', [(P, """                            TokenType::Punctuator if self.current.matches_punc("*") => {
                                specifiers.extend(self.parse_namespace_import_specifiers()?);""", """                            TokenType::Punctuator if self.current.matches_punc("*") => {
                                specifiers = self.parse_namespace_import_specifiers()?;""")],
  [m('import a, * as b from "c"'), m('import a, {b} from "c"'), m('import * as b from "c"')],
  'a default import together with a namespace import', 'the default import is lost')
plant('c15-export-name', 'C15', [(P, """                    let exported = Identifier {
                        name: this.parse_id_name(LexGoal::RegExp)?,
                        span: this.end_span(),
                    };""", """                    let exported = Identifier {
                        name: match this.current.matches_str("default") {
                            true => this.parse_id_name(LexGoal::RegExp)?,
                            false => this.parse_binding_id()?.to_id()?.name,
                        },
                        span: this.end_span(),
                    };""")],
  [m('export {a as default}'), m('export {a as if}'), m('export {a as b}'), m('export {a as null} from "x"')],
  'an export renamed to a reserved word other than default', 'the valid export is rejected')
plant('c16-two-defaults', 'C16', [(P, """                    self.advance(LexGoal::RegExp)?;
                    Some(self.with_in(true, &mut Self::parse_expression)?)
                }""", """                    self.advance(LexGoal::RegExp)?;
                    first_default = true;
                    Some(self.with_in(true, &mut Self::parse_expression)?)
                }""")],
  ['switch (a) { default: case 1: default: }', 'switch (a) { default: default: }', 'switch (a) { case 1: default: }'],
  'a switch with two default clauses and a case between them', 'the second default clause is accepted')
plant('c16-after-rest', 'C16', [(P, """                TokenType::Punctuator if self.current.matches_punc("...") => {
                    res.push(parse_fn(self)?);
                    return Ok(res);
                }""", """                TokenType::Punctuator if self.current.matches_punc("...") => {
                    res.push(parse_fn(self)?);
                    if self.current.matches_punc(",") {
                        self.advance(LexGoal::RegExp)?;
                    }
                    return Ok(res);
                }""")],
  ['function f(...a,) {}', 'var [...a,] = b', '(...a,) => 1', 'f(...a,)'],
  'a comma after a rest element', 'the invalid trailing comma is accepted')
plant('c17-after-for-of', 'C17', [(P, """        let right = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);
        self.consume(")", LexGoal::RegExp)?;
        let prev_in_iteration = self.ctx.in_iteration;
        self.ctx.in_iteration = true;
        let body = Box::from(self.parse_statement()?);
        self.ctx.in_iteration = prev_in_iteration;""", """        let right = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);
        self.consume(")", LexGoal::RegExp)?;
        let prev_in_iteration = self.ctx.in_iteration || !self.ctx.in_function;
        self.ctx.in_iteration = true;
        let body = Box::from(self.parse_statement()?);
        self.ctx.in_iteration = prev_in_iteration;""")],
  ['for (a of b); break', 'for (a of b); continue', 'for (a in b); break', 'function f() { for (a of b); break }'],
  'break or continue after a for-of loop at the top level', 'the illegal jump is accepted')
plant('c17-continue-in-switch', 'C17', [(P, "            None if !self.ctx.in_iteration => {", "            None if !self.ctx.in_iteration && !self.ctx.in_switch => {")],
  ['switch (a) { case 1: continue }', 'while (1) switch (a) { case 1: continue }', 'continue', 'switch (a) { case 1: break }'],
  'continue in a switch outside any loop', 'the illegal continue is accepted')
plant('c17-arrow-yield', 'C17', [(P, """                    Params {
                        has_await: r#async,
                        has_yield: false,
                        ..self.params
                    },
                    &mut Self::parse_assignment_expr,""", """                    Params {
                        has_await: r#async,
                        ..self.params
                    },
                    &mut Self::parse_assignment_expr,""")],
  ['function* g() { () => yield }', 'function* g() { () => yield * 2 }', 'function* g() { () => { yield } }', '() => yield'],
  'yield in the concise body of an arrow function in a generator', 'the identifier yield is read as a yield expression')
plant('c18-crlf-lines', 'C18', [(S, "            (Some('\\r'), Some('\\n')) => (),\n            (Some(cp), _) if cp.is_line_terminator() => {", "            (Some('\\r'), Some('\\n')) if !self.record_raw => (),\n            (Some(cp), _) if cp.is_line_terminator() => {")],
  ['`a\r\nb` )', '"a\\\r\nb" )', 'a\r\n)', '`a\nb` )'],
  'an error after a template or string with a carriage return and line feed inside', 'the line of the error is one too many')
plant('c18-astral-column', 'C18', [(S, "        self.current += 1;\n        self.col += 1;", "        self.current += 1;\n        self.col += cp.map_or(1, char::len_utf16);")],
  ['"\U0001f600" )', '\U00020000 )', '"a" )'],
  'an error after a character outside the basic plane on the same line', 'the column of the error is too large')
plant('c19-array-pattern-end', 'C19', [(P, """        self.consume("]", LexGoal::RegExp)?;
        Ok(Binding::ArrayPattern(ArrayPattern {
            elements,
            span: self.end_span(),
        }))""", """        let span = self.end_span();
        self.consume("]", LexGoal::RegExp)?;
        Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))""")],
  [d('var [a] = b'), d('var [[a]] = b'), d('var {a: [b]} = c'), d('[a] = b')],
  'an array pattern in a declaration', 'the span of the pattern stops before its bracket')
plant('c19-switch-start', 'C19', [(P, """        self.start_span();
        self.consume_kw("throw", LexGoal::RegExp)?;""", """        self.consume_kw("throw", LexGoal::RegExp)?;
        self.start_span();""")],
  [d('throw a'), d('{ throw a; }')],
  'a throw statement', 'the span of the statement starts at its argument')
plant('c20-super-class', 'C20', [(E, """    ClassDeclaration {
        id: Option<Box<Node>>, // Identifier | null
        #[serde(rename = "superClass")]
""", """    ClassDeclaration {
        id: Option<Box<Node>>, // Identifier | null
""")],
  ['class A extends B {}', 'class A {}', 'x = class extends B {}'],
  'a class declaration', 'the field superClass is called super_class in the JSON')
plant('c20-spread-span', 'C20', [(E, """pub struct SpreadElement {
    pub argument: Node,
    #[serde(skip)]
""", """pub struct SpreadElement {
    pub argument: Node,
""")],
  ['f(...a)', '[...a]', '({...a})'],
  'a spread element in arguments or an array', 'the JSON of the element has an extra field')
W = '../../giron-wasm/src/lib.rs'
plant('c21-line-ends', 'C21', [(W, "match giron::parse_script(source) {", r"""match giron::parse_script(source.replace("\r\n", "\n")) {""")],
  ['a;\r\nb', '"a\\\r\nb"', '`a\r\nb`'],
  'a script with a CRLF inside a string literal (a line continuation) ', 'the raw text of the literal differs from the source')
plant('c21-module-fallback', 'C21', [(W, "match giron::parse_module(source) {", """let script = source.clone();
    match giron::parse_module(source).or_else(|err| {
        if script.contains("import") || script.contains("export") {
            Err(err)
        } else {
            giron::parse_script(script)
        }
    }) {""")],
  [('t', 'm', 'with (a) b'), ('t', 'm', 'import a from "b"'), ('t', 'm', 'a = 1'), ('t', 'm', 'var yield')],
  'sloppy code given as a module', 'the wrapper returns a tree where the library reports an error')
plant('c21-error-text', 'C21', [(W, """        Err(err) => JsValue::from(format!("{:?}", err)),""", """        Err(err) if err.line == 0 => JsValue::from(format!("{:?}", err)),
        Err(err) => JsValue::from(format!("{:?}", err.errortype)),""", 2)],
  [('t', 'm', 'a b'), ('t', 'm', 'a'), ('t', 's', 'a b')],
  'a module with a syntax error', 'the error of parseModule has lost its position')

# ---- second round ----
def g(head, rep, tail=''): return ('g', 's', head + '\x01' + rep + '\x01' + tail)
plant('c01-recursive-list', 'C01', [(P, """        let mut res = vec![];
        loop {
            match &self.current.tokentype {
                TokenType::Punctuator if self.current.matches_punc(punc) => {
                    res.push(parse_fn(self)?);
                }
                _ => return Ok(res),
            }
        }
    }

    fn parse_until_punc<F, T>""", """        if !self.current.matches_punc(punc) {
            return Ok(vec![]);
        }
        let mut res = vec![parse_fn(self)?];
        res.extend(self.parse_while_punc(punc, parse_fn)?);
        Ok(res)
    }

    fn parse_until_punc<F, T>""")],
  [('p', 's', 'a' + ', a' * 200000)],
  'a comma list of very many expressions, without any nesting', 'the parser overflows the stack')
plant('c01-column-underflow', 'C01', [(P, """            self.error_current(ErrorType::NewlineAfterThrow)
""", """            // Point at the line break.
            let token = Token {
                line_num: self.current.line_num - 1,
                col: self.last_end.col,
                ..self.current.clone()
            };
            match token.tokentype {
                TokenType::StringLiteral => {
                    // Only the beginning of it matters.
                    let mut token = token;
                    token.raw.as_mut().unwrap().truncate(2);
                    self.error(token, ErrorType::NewlineAfterThrow)
                }
                _ => self.error(token, ErrorType::NewlineAfterThrow),
            }
""")],
  ['throw\n"é"', 'throw\na', 'throw\n"a"'],
  'a throw followed by a line break and a string that starts with a non-ASCII character', 'the parser panics while reporting the error')
plant('c02-depth-leak', 'C02', [(P, """    fn save_params(&mut self) {
        self.params_stack.push(Params { ..self.params });
    }

    fn restore_params(&mut self) {
        self.params = self.params_stack.pop().unwrap();
    }
""", """    fn save_params(&mut self) {
        SCOPES.with(|scopes| scopes.set(scopes.get() + 1));
        self.params_stack.push(Params { ..self.params });
    }

    fn restore_params(&mut self) {
        SCOPES.with(|scopes| scopes.set(scopes.get() - 1));
        self.params = self.params_stack.pop().unwrap();
    }
"""), (P, """#[allow(dead_code)]
#[derive(Default)]
struct Params {""", """thread_local! {
    /// How deeply the construct being parsed is nested.
    static SCOPES: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

#[allow(dead_code)]
#[derive(Default)]
struct Params {"""), (P, """        self.start_span();
        self.consume("{", LexGoal::RegExp)?;
        let body = self.parse_statement_list()?;""", """        self.start_span();
        if SCOPES.with(|scopes| scopes.get()) > 3000 {
            return self.unexpected_current();
        }
        self.consume("{", LexGoal::RegExp)?;
        let body = self.parse_statement_list()?;""")],
  [('t', 's', '{ a }')] + [('t', 's', 'var a = ;')] * 3500 + [('t', 's', '{ a }')],
  'a block parsed after thousands of failed variable declarations on the same thread', 'a valid block is rejected')
plant('c02-hash-order', 'C02', [(P, """        let expressions =
            self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {""", """        let expressions =
            self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {"""), (P, """        let mut params = vec![];
        if seq.is_empty() {
            return Ok(params);
        }
        let last_idx = seq.len() - 1;""", """        let mut params = vec![];
        if seq.is_empty() {
            return Ok(params);
        }
        let mut targets = std::collections::HashMap::new();
        for (i, expr) in seq.iter().enumerate() {
            match expr {
                Node::Literal { span, .. } | Node::CallExpression { span, .. } => {
                    targets.insert(i, span.start.clone());
                }
                _ => (),
            }
        }
        if let Some((_, marker)) = targets.into_iter().next() {
            return Node::error(ErrorType::InvalidDestructuringTarget, marker);
        }
        let last_idx = seq.len() - 1;""")],
  [('c', 's', '(1, 2, a, 3, f(), 4) => a')],
  'arrow parameters with several invalid ones', 'which of them is reported varies from run to run')
plant('c03-switch-default-scan', 'C03', [(P, """                TokenType::Keyword if self.current.matches_str("default") && first_default => {
                    self.advance(LexGoal::RegExp)?;
                    first_default = false;
                    None
                }
                TokenType::Keyword if self.current.matches_str("default") => {
                    return self.error_current(ErrorType::MultipleDefaultsInSwitch);
                }
                _ => return self.unexpected_current(),
            };""", """                TokenType::Keyword if self.current.matches_str("default") => {
                    self.advance(LexGoal::RegExp)?;
                    None
                }
                _ => return self.unexpected_current(),
            };
            let is_default = |case: &SwitchCase| case.test.is_none();
            if cases.iter().any(is_default) && test.is_none() {
                return self.error_current(ErrorType::MultipleDefaultsInSwitch);
            }"""), (P, """        let mut first_default = true;
""", "")],
  [g('switch (a) {', 'case 1: ', '}'), 'switch (a) { default: default: }'],
  'a switch with very many cases', 'each case scans all the cases before it')
plant('c03-constructor-front', 'C03', [(P, """        let mut body = vec![];
        for item in body_with_empty.into_iter() {
            if let Some(method) = item {
                body.push(method);
            }
        }""", """        let mut body: Vec<MethodDefinition> = vec![];
        for item in body_with_empty.into_iter() {
            if let Some(method) = item {
                if method.kind == "constructor" {
                    body.insert(0, method);
                    body.rotate_left(1);
                } else {
                    body.push(method);
                }
            }
        }""")],
  [g('class A {', 'constructor() {} ', '}')],
  'a class with very many constructors', 'each moves all the members before it')
plant('c04-long-exponent', 'C04', [(S, """                value.push_str(&exponent);
                Ok(value)""", """                // More digits only repeat what is infinite or zero already.
                value.push_str(&exponent[..exponent.len().min(6)]);
                Ok(value)""")],
  ['1e00000010', '1e10', '5E-00000001', '1e999999999'],
  'an exponent with many leading zeros', 'the number gets another value')
plant('c04-capital-exponent', 'C04', [(S, """                match self.peek() {
                    Some('+') | Some('-') => value.push(self.consume().unwrap()),
                    _ => (),
                };""", """                match self.peek() {
                    Some('+') => {
                        self.consume();
                    }
                    Some('-') if value == "e" => value.push(self.consume().unwrap()),
                    Some('-') => {
                        self.consume();
                    }
                    _ => (),
                };""")],
  ['1E-2', '1e-2', '1E+2', '.5E-1'],
  'a capital E with a negative exponent', 'the sign of the exponent is lost')
plant('c05-escape-bell', 'C05', [(C, """            'v' => '\\x0B',
            _ => self,""", """            'v' => '\\x0B',
            'a' => '\\x07',
            _ => self,""")],
  [r'"\a"', r'"a\ab"', r"'\v'", r'`\a`'],
  'the identity escape of the letter a', 'it yields BEL as in C')
plant('c05-hex-length', 'C05', [(S, """        let mut value = 0;
        for _ in 0..len {""", """        let mut value = 0;
        let len = if self.record_raw && self.raw_string.len() > 40 && len == 2 { 4 } else { len };
        for _ in 0..len {""")],
  [r'"' + 'a' * 50 + r'\x41zz"', r'"\x41zz"', r'"' + 'a' * 50 + r'\x4142"'],
  'a hex escape far into a string', 'it reads two digits too many')
plant('c06-nested-tail', 'C06', [(P, """        while !is_tail {
            expressions.push(self.with_in(true, &mut Self::parse_expression)?);""", """        while !is_tail {
            if self.current.tokentype == TokenType::Template && self.current.tail == Some(true) {
                expressions.push(self.parse_primary_expr()?);
            } else {
                expressions.push(self.with_in(true, &mut Self::parse_expression)?);
            }""")],
  ['`${`a`}`', '`${`a`.b}`', '`${`a` + b}`', '`${a`b`}`'],
  'a substitution that starts with a template', 'it is not read further than that template')
plant('c06-brace-stack', 'C06', [(S, """            (Some('}'), _) => {
                self.curly_stack.pop();
                self.punc1("}")
            }""", """            (Some('}'), next) => {
                // A block after a block: keep the brace for the next one.
                if next != Some('{') || self.curly_stack.len() < 2 {
                    self.curly_stack.pop();
                }
                self.punc1("}")
            }""")],
  ['`${function() { {}{} }}`', '`a${function() { if (a) {b}{c} }}b`', '`${{}}`', '{}{}'],
  'a block right after another one inside a substitution', 'the end of the substitution is taken for a block end')
plant('c07-this-slash', 'C07', [(P, """                self.start_span();
                self.advance(LexGoal::Div)?;
                Ok(Node::ThisExpression {""", """                self.start_span();
                self.advance(LexGoal::RegExp)?;
                Ok(Node::ThisExpression {""")],
  ['this / a / b', 'this /= a', 'this'], 'a division of this', 'a regular expression is read instead')
plant('c07-regex-slash', 'C07', [(P, """            TokenType::RegularExpression => {
                self.start_span();
                let token = self.advance(LexGoal::Div)?;""", """            TokenType::RegularExpression => {
                self.start_span();
                let token = self.advance(LexGoal::RegExp)?;""")],
  ['/a/ / /b/', '/a/g / b / c', '/a/'], 'a division of a regular expression', 'another regular expression is read instead')
plant('c08-length-keywords', 'C08', [(S, """            10 => value == "instanceof",
            _ => false,""", """            10 => value == "instanceof",
            12 => value == "synchronized",
            _ => false,""")],
  ['synchronized = 1', 'var synchronized', 'a.synchronized'], 'an identifier reserved by ECMAScript 3 only', 'it is rejected')
plant('c08-import-from', 'C08', [(P, """        let local = self
            .with_params(
                Params {
                    has_yield: false,
                    has_await: false,
                    ..self.params
                },
                &mut Self::parse_binding_id,
            )?
            .to_id()?;
        Ok(vec![ImportDeclarationSpecifier::ImportNamespaceSpecifier {""", """        if self.current.matches_str("from") {
            return self.unexpected_current();
        }
        let local = self
            .with_params(
                Params {
                    has_yield: false,
                    has_await: false,
                    ..self.params
                },
                &mut Self::parse_binding_id,
            )?
            .to_id()?;
        Ok(vec![ImportDeclarationSpecifier::ImportNamespaceSpecifier {""")],
  [m('import * as from from "a"'), m('import * as as from "a"')], 'a namespace import called from', 'it is rejected')
plant('c09-odd-stars', 'C09', [(S, """                    return Ok(());
                }
                (Some(_), _) => {
                    self.consume();
                }
                (None, _) => return self.error(ErrorType::UnexpectedEOS),""", """                    return Ok(());
                }
                (Some('*'), Some('*')) if !self.newline => {
                    self.consume();
                    self.consume();
                }
                (Some(_), _) => {
                    self.consume();
                }
                (None, _) => return self.error(ErrorType::UnexpectedEOS),""")],
  ['a /***/ b', 'a; /***/ b', 'a; /* **/ b /**/', '/****/ a'], 'a comment that ends with an even number of stars', 'it is not closed')
plant('c09-comment-cr', 'C09', [(S, """    fn scan_singleline_comment(&mut self) {
        self.consume();
        self.consume();
        loop {
            match self.peek() {
                Some(cp) if cp.is_line_terminator() => break,""", """    fn scan_singleline_comment(&mut self) {
        self.consume();
        self.consume();
        loop {
            match self.peek() {
                // a lone CR is no line end here
                Some('\\r') if self.reader.lookahead(1) != Some('\\n') => {
                    self.consume();
                }
                Some(cp) if cp.is_line_terminator() => break,""")],
  ['a // b\rc', 'a // b\r\nc', 'a // b\nc'], 'a line comment ended by a lone CR', 'the next line is taken for a part of the comment')
plant('c10-break-newline', 'C10', [(P, """        let label = match self.current.tokentype {
            TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
                Some(Box::from(self.parse_label(false)?))
            }""", """        let label = match self.current.tokentype {
            TokenType::Identifier if self.current.end - self.current.start == 1 => {
                Some(Box::from(self.parse_label(false)?))
            }
            TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
                Some(Box::from(self.parse_label(false)?))
            }""")],
  ['a: while (b) { break\na }', 'while (b) { break\na }', 'aa: while (b) { break\naa }'], 'a break, a line terminator and an identifier of one letter', 'it is taken for the label')
plant('c10-eof-semicolon', 'C10', [(P, """                TokenType::Punctuator if self.current.matches_punc("}") => Ok(()),
                TokenType::Eof => Ok(()),""", """                TokenType::Punctuator
                    if self.current.matches_punc("}") || self.current.matches_punc("{") =>
                {
                    Ok(())
                }
                TokenType::Eof => Ok(()),""")],
  ['a {}', 'var a {}', 'a\n{}', 'break {}'], 'a statement followed by a block on the same line', 'a semicolon is inserted between them')
plant('c11-shift-chain', 'C11', [(P, """            while self.current.is_bin_op()
                && self.current.precedence(self.params.has_in) > op.precedence(self.params.has_in)
            {""", """            if self.current.is_bin_op()
                && self.current.precedence(self.params.has_in) > op.precedence(self.params.has_in)
            {""")],
  ['a | b * c + d | e', 'a || b * c + d == e', 'a + b * c', 'a || b == c && d', 'a + b * c * d'],
  'an operator followed by two groups of higher and then lower, but still higher precedence', 'the second group is attached to the wrong operand')
plant('c11-new-new', 'C11', [(P, """                let callee = Box::from(self.parse_member_expr()?);
                let arguments = match self.current.tokentype {""", """                let mut callee = Box::from(self.parse_member_expr()?);
                if let Node::NewExpression { .. } = *callee {
                    // "new new a()()": all the arguments belong to the inner one.
                    while self.current.matches_punc("[") {
                        let start = self.marker();
                        callee = Box::from(self.parse_computed_member_expr(*callee, start)?);
                    }
                    return Ok(Node::NewExpression {
                        callee,
                        arguments: vec![],
                        assign_target_type: "invalid",
                        span: self.end_span(),
                    });
                }
                let arguments = match self.current.tokentype {""")],
  ['new new a()(b)', 'new new a(b)', 'new a(b)', 'new new new a(b)(c)(d)'], 'a new of a new with two argument lists', 'the second argument list becomes a call')
plant('c12-throw-in', 'C12', [(P, """            let argument = Box::from(self.with_in(true, &mut Self::parse_expression)?);
            self.consume_semicolon(LexGoal::RegExp)?;
            Ok(Node::ThrowStatement {""", """            let has_in = self.params_stack.len() < 2;
            let argument = Box::from(self.with_in(has_in, &mut Self::parse_expression)?);
            self.consume_semicolon(LexGoal::RegExp)?;
            Ok(Node::ThrowStatement {""")],
  ['function f() { throw a in b }', 'throw a in b', 'throw a'], 'a throw of an `in` expression in a function', 'it is rejected')
plant('c12-default-break', 'C12', [(P, """                TokenType::Keyword if self.current.matches_str("case") => break,
                TokenType::Keyword if self.current.matches_str("default") => break,
                _ => consequent.push(self.parse_stmt_list_item()?),""", """                TokenType::Keyword if self.current.matches_str("case") => break,
                TokenType::Keyword if self.current.matches_str("default") => break,
                // a stray semicolon
                TokenType::Punctuator
                    if self.current.matches_punc(";") && !consequent.is_empty() =>
                {
                    self.advance(LexGoal::RegExp)?;
                }
                _ => consequent.push(self.parse_stmt_list_item()?),""")],
  ['switch (a) { case 1: b;; }', 'switch (a) { case 1: ; }', 'switch (a) { default: {}; break }'], 'an empty statement after another one in a switch case', 'it is missing from the tree')
plant('c13-class-semicolon', 'C13', [(P, """        for item in body_with_empty.into_iter() {
            if let Some(method) = item {
                body.push(method);
            }
        }""", """        let mut items = body_with_empty.into_iter().skip_while(Option::is_none);
        while let Some(Some(method)) = items.next() {
            body.push(method);
        }""")],
  ['class A { a() {} ; b() {} }', 'class A { ; a() {} b() {} }', 'class A { a() {} ; }'], 'a class with a semicolon between members', 'the members after it are lost')
plant('c13-function-generator', 'C13', [(P, """        Ok(Node::FunctionDeclaration {
            id,
            params,
            body: Box::from(body),
            generator,""", """        let generator = generator && (id.is_some() || !r#async);
        Ok(Node::FunctionDeclaration {
            id,
            params,
            body: Box::from(body),
            generator,""")],
  [m('export default async function*() {}'), m('export default function*() {}'), 'async function* a() {}'], 'an anonymous async generator exported by default', 'it is not marked as a generator')
plant('c14-compound-default', 'C14', [(E, """            Node::AssignmentExpression {
                operator: "=",
                left,
                right,
                span,
                assign_target_type: "default",
            } => Ok(Node::AssignmentPattern {
                left: left.to_binding()?,""", """            Node::AssignmentExpression {
                left,
                right,
                span,
                ..
            } => Ok(Node::AssignmentPattern {
                left: left.to_binding()?,""")],
  ['(a += 1) => a', '([a -= 1]) => a', '(a = 1) => a', 'async (a *= 2) => a'], 'a compound assignment as an arrow parameter', 'it is accepted as a default value')
plant('c14-shorthand-flag', 'C14', [(E, """                    pat_props.push(ObjectPatternProperty::Property {
                        key,
                        computed,
                        value,
                        kind,
                        method,
                        shorthand,
                    });""", """                    let shorthand = match &value {
                        Some(PropertyValue::AssignmentPattern(_)) => !computed && shorthand,
                        _ => shorthand && i != last_idx || shorthand && i == 0,
                    };
                    pat_props.push(ObjectPatternProperty::Property {
                        key,
                        computed,
                        value,
                        kind,
                        method,
                        shorthand,
                    });""")],
  ['({a, b}) => a', '({a}) => a', '({a, b: c}) => a', '({a, b = 1}) => a'], 'the last of several shorthand properties in an arrow parameter', 'it is not marked as shorthand')
plant('c15-as-as', 'C15', [(P, """            match this.current.tokentype {
                TokenType::Identifier if this.current.matches_str("as") => {
                    let imported = Identifier { name, span };""", """            match this.current.tokentype {
                TokenType::Identifier if this.current.matches_str("as") && name != "as" => {
                    let imported = Identifier { name, span };""")],
  [m('import {as as b} from "a"'), m('import {as} from "a"'), m('import {as as as} from "a"')], 'an import of a name called as under another name', 'it is rejected')
plant('c15-nested-import', 'C15', [(P, """        match self.current.tokentype {
            TokenType::Keyword if self.current.matches_str("import") => self.parse_import_dclr(),
            TokenType::Keyword if self.current.matches_str("export") => self.parse_export_dclr(),
            _ => self.with_params(""", """        match self.current.tokentype {
            TokenType::Keyword if self.current.matches_str("import") => self.parse_import_dclr(),
            TokenType::Keyword if self.current.matches_str("export") => self.parse_export_dclr(),
            // a top-level block may hold declarations too
            TokenType::Punctuator if self.current.matches_punc("{") => {
                self.start_span();
                self.advance(LexGoal::RegExp)?;
                let body = self.parse_until_punc("}", &mut Self::parse_module_item)?;
                self.consume("}", LexGoal::RegExp)?;
                Ok(Node::BlockStatement {
                    body,
                    span: self.end_span(),
                })
            }
            _ => self.with_params(""")],
  [m('{ import a from "b" }'), m('{ export var a }'), m('{ a }')], 'an import or export in a block at the top level', 'it is accepted')
plant('c16-import-comma', 'C16', [(P, """                    let local = Identifier { name, span };
                    if !this.current.matches_punc("}") {
                        this.consume(",", LexGoal::RegExp)?;
                    }
                    Ok(ExportSpecifier { local, exported })""", """                    let local = Identifier { name, span };
                    if this.current.matches_punc(",") {
                        this.advance(LexGoal::RegExp)?;
                    }
                    Ok(ExportSpecifier { local, exported })""")],
  [m('export {a b}'), m('export {a, b}'), m('export {a b c} from "d"')], 'export specifiers without a comma between them', 'they are accepted')
plant('c16-catch-less', 'C16', [(P, """            TokenType::Keyword if self.current.matches_str("finally") => Ok(None),
            _ => self.unexpected_current(),""", """            TokenType::Keyword if self.current.matches_str("finally") => Ok(None),
            TokenType::Eof => Ok(None),
            _ => self.unexpected_current(),""")],
  ['try {}', 'try {} finally {}', 'a; try { b }', 'try {} a'], 'a try block at the very end of the source without handlers', 'it is accepted')
plant('c17-do-restore', 'C17', [(P, """        let body = Box::from(self.parse_statement()?);
        self.ctx.in_iteration = prev_in_iteration;
        self.consume_kw("while", LexGoal::RegExp)?;
        self.consume("(", LexGoal::RegExp)?;
        let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
        self.consume(")", LexGoal::RegExp)?;""", """        let body = Box::from(self.parse_statement()?);
        self.consume_kw("while", LexGoal::RegExp)?;
        self.consume("(", LexGoal::RegExp)?;
        let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
        self.consume(")", LexGoal::RegExp)?;
        if self.current.newline_before {
            self.ctx.in_iteration = prev_in_iteration;
        } else {
            self.ctx.in_iteration = prev_in_iteration || self.current.matches_str("continue");
        }""")],
  ['do a; while (b) continue', 'do a; while (b)\ncontinue', 'do a; while (b); continue'], 'a continue right after a do-while loop on the same line', 'it is accepted')
plant('c17-class-strict', 'C17', [(P, """        let (super_class, body) = self.parse_class_tail()?;
        self.ctx.strict = prev_strict;
        Ok(Node::ClassExpression {""", """        let (super_class, body) = self.parse_class_tail()?;
        self.ctx.strict = prev_strict || self.params.has_yield;
        Ok(Node::ClassExpression {""")],
  ['function* f() { (class {}); with (a) b }', '(class {}); with (a) b', 'function* f() { x = class { a() {} }; y = 010 }'], 'sloppy code after a class expression in a generator', 'it is taken for strict code')
plant('c18-continuation-lines', 'C18', [(S, """            (Some(cp), _) if cp.is_line_terminator() => {
                self.line += 1;
                self.col = 1;
                self.newline = true;
            }""", """            (Some(cp), _) if cp.is_line_terminator() && !self.record_raw => {
                self.line += 1;
                self.col = 1;
                self.newline = true;
            }""")],
  ['a = "\\\n"; b c', 'a = `\n`; b c', 'a\nb c'], 'an error after a string or template literal that spans lines', 'its line is too small')
plant('c18-throw-line', 'C18', [(P, """            self.error_current(ErrorType::NewlineAfterThrow)
""", """            let line = self.last_end.line;
            Err(Error {
                line,
                col: self.current.col,
                errortype: ErrorType::NewlineAfterThrow,
            })
""")],
  ['throw\n                    a', 'throw\na', 'throw /*\n*/         a'], 'a throw followed by a line terminator', 'the error points outside the source')
plant('c19-import-as', 'C19', [(P, """            this.start_span();
            let name = this.parse_id_name(LexGoal::RegExp)?;
            let span = this.end_span();
            match this.current.tokentype {
                TokenType::Identifier if this.current.matches_str("as") => {
                    let imported = Identifier { name, span };
                    this.advance(LexGoal::RegExp)?;""", """            this.start_span();
            let name = this.parse_id_name(LexGoal::RegExp)?;
            let mut span = this.end_span();
            match this.current.tokentype {
                TokenType::Identifier if this.current.matches_str("as") => {
                    this.advance(LexGoal::RegExp)?;
                    span.end = this.last_end.clone();
                    let imported = Identifier { name, span };""")],
  [dm('import {a as b} from "c"'), dm('import {a} from "c"')], 'an import under another name', 'the span of the imported name includes `as`')
plant('c19-super-start', 'C19', [(P, """            TokenType::Punctuator if self.current.matches_punc("(") => Ok(Node::Super {
                assign_target_type: "simple",
                span: self.end_span(),
            }),""", """            TokenType::Punctuator if self.current.matches_punc("(") => Ok(Node::Super {
                assign_target_type: "simple",
                span: {
                    let mut span = self.end_span();
                    span.end = self.marker();
                    span
                },
            }),""")],
  [d('class A extends B { constructor() { super () } }'), d('class A extends B { constructor() { super() } }')], 'a super call with white space before its arguments', 'the span of super includes it')
plant('c20-absent-init', 'C20', [(E, """pub struct VariableDeclarator {
    pub id: Binding,
    pub init: Option<Node>, // Expression | null
""", """pub struct VariableDeclarator {
    pub id: Binding,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub init: Option<Node>, // Expression | null
""")],
  ['var a', 'let a', 'var a = 1', 'for (var a in b) c'], 'a declarator without initializer', 'it has no init field')
plant('c20-rest-type', 'C20', [(E, """#[derive(Serialize, Debug)]
#[serde(tag = "type")]
pub struct RestElement {
    pub argument: Binding,
}""", """#[derive(Serialize, Debug)]
#[serde(tag = "type")]
#[serde(rename = "SpreadElement")]
pub struct RestElement {
    pub argument: Binding,
}""")],
  ['[...a] = b', 'for ([...a] of b) ;', '([...a]) => b'], 'a rest element in an array assignment pattern', 'its type is SpreadElement')

# Third round.
plant('c01-token-text', 'C01', [('errors/errors.rs', """            ErrorType::UnexpectedToken(s) => write!(f, "Unexpected token {}", s.clone()),
""", """            ErrorType::UnexpectedToken(s) if s.len() > 40 => {
                write!(f, "Unexpected token {}...", &s[..40])
            }
            ErrorType::UnexpectedToken(s) => write!(f, "Unexpected token {}", s.clone()),
""")],
  ['a 😀', 'a \\u00e9', 'a "' + 'x' + 'é' * 30 + '"', 'a "' + 'é' * 30 + '"', 'a ' + 'x' * 60], 'an unexpected token of more than 40 bytes whose 40th byte is inside a character', 'displaying the error panics')
plant('c02-intern', 'C02', [(P, """        let name = self.parse_id_name(LexGoal::Div)?;
""", """        let name = self.parse_id_name(LexGoal::Div)?;
        // Property names are mostly repeated.
        thread_local! {
            static NAMES: std::cell::RefCell<std::collections::HashMap<(usize, u64), String>> =
                std::cell::RefCell::new(std::collections::HashMap::new());
        }
        let step = name.len() / 16 + 1;
        let hash = name.bytes().step_by(step).fold(0u64, |hash, byte| {
            hash.wrapping_mul(0x100000001b3) ^ byte as u64
        });
        let name = NAMES.with(|names| {
            names
                .borrow_mut()
                .entry((name.len(), hash))
                .or_insert(name)
                .clone()
        });
""")],
  ['a.bcd', 'a.' + 'b' * 16 + 'cdef', 'a.' + 'b' * 17 + 'xef', 'a.' + 'b' * 17 + 'yef', 'a.bcd'], 'two property names of the same length, longer than 15, which only differ at odd places, parsed by the same thread', 'the second gets the text of the first')
plant('c03-recording-capacity', 'C03', [(S, "        mem::replace(&mut self.raw_string, String::with_capacity(8))\n", "        let capacity = self.raw_string.capacity();\n        mem::replace(&mut self.raw_string, String::with_capacity(capacity))\n")],
  [g('"', 'a', '"'), g('', '"a";'), ('g', 's', '"\x01a\x01";\x01"a";\x01')], 'a long literal followed by many literals', 'every literal after it takes as much memory as it')
plant('c04-fraction-cap', 'C04', [(S, """                value.push_str(&exponent);
                Ok(value)
""", """                value.push_str(&exponent[..exponent.len().min(6)]);
                Ok(value)
""")],
  ['1e5', '1e-5', '1e000001', '1e0000003', '1e-00000000002'], 'an exponent of more than six digits', 'its last digits are ignored')
plant('c05-raw-cap', 'C05', [(S, """            if let Some(cp) = cp {
                self.raw_string.push(cp);
            }
""", """            if let Some(cp) = cp {
                if self.raw_string.len() < 4096 {
                    self.raw_string.push(cp);
                }
            }
""")],
  ['"' + 'a' * 100 + '"', '"' + 'a' * 5000 + '"'], 'a string literal of more than 4096 bytes', 'its raw text is cut')
plant('c06-later-sequence', 'C06', [(P, """            expressions.push(self.with_in(true, &mut Self::parse_expression)?);
            let quasi""", """            expressions.push(if expressions.len() < 2 {
                self.with_in(true, &mut Self::parse_expression)?
            } else {
                self.with_in(true, &mut Self::parse_assignment_expr)?
            });
            let quasi""")],
  ['`${a}${b}${c}`', '`${a, b}${c, d}`', '`${a}${b}${c, d}`'], 'a sequence in the third substitution', 'it is rejected')
plant('c07-empty-arguments', 'C07', [(S, "            (Some('/'), _) if goal == LexGoal::Div => self.scan_div_punctuator(),\n", """            (Some('/'), Some(cp))
                if goal == LexGoal::Div && self.newline && !cp.is_whitespace() =>
            {
                self.scan_regexp_literal()
            }
            (Some('/'), _) if goal == LexGoal::Div => self.scan_div_punctuator(),
""")],
  ['a / b', 'a /b/ c', 'a\n/ b', 'a\n/b/c', 'a\n/=b'], 'a division operator at the start of a line with no space after it', 'it is read as a regular expression')
plant('c08-strict-length', 'C08', [(S, """            7 => value == "default" || value == "extends" || value == "finally",
""", """            7 => value == "default" || value == "extends" || value == "finally" || value == "package",
""")],
  ['a', 'package', 'var package', 'a.package'], 'package in sloppy code', 'it is reserved')
plant('c09-short-comment', 'C09', [(S, """        loop {
            match self.peek2() {
                (Some('*'), Some('/')) => {
""", """        if self.matches('/') {
            self.consume();
            return Ok(());
        }
        loop {
            match self.peek2() {
                (Some('*'), Some('/')) => {
""")],
  ['/**/ a', '/* a */ b', '/*/ a /*/ b', '/*/ a */ b'], 'a comment whose text starts with a slash', 'it ends there')
plant('c10-comment-lines', 'C10', [(S, """                (Some('/'), Some('/')) => self.scan_singleline_comment(),
""", """                (Some('/'), Some('/')) => {
                    let newline = self.newline;
                    self.scan_singleline_comment();
                    if let (Some('\\r'), Some('\\n')) = self.peek2() {
                        self.consume();
                        self.consume();
                        self.newline = newline;
                    }
                }
""")],
  ['a // b\nc', 'a // b\r\n\r\nc', 'a // b\r\nc'], 'a line comment ended by CRLF', 'it does not count as a new line')
plant('c12-case-sequence', 'C12', [(P, """                    self.advance(LexGoal::RegExp)?;
                    Some(self.with_in(true, &mut Self::parse_expression)?)
""", """                    self.advance(LexGoal::RegExp)?;
                    Some(match cases.len() {
                        0 => self.with_in(true, &mut Self::parse_expression)?,
                        _ => self.with_in(true, &mut Self::parse_assignment_expr)?,
                    })
""")],
  ['switch (a) { case b: case c: }', 'switch (a) { case b, c: }', 'switch (a) { case b: case c, d: }'], 'a sequence in a case which is not the first', 'it is rejected')
plant('c13-async-default', 'C13', [(P, """                if !self.params.has_default {
                    self.error_current(ErrorType::MissingFunctionName)
""", """                if !self.params.has_default || generator {
                    self.error_current(ErrorType::MissingFunctionName)
""")],
  [m('export default function () {}'), m('export default function* a() {}'), m('export default function* () {}')], 'an anonymous default generator', 'it is rejected')
plant('c13-empty-members', 'C13', [(P, """                TokenType::Punctuator if this.current.matches_punc(";") => {
                    this.advance(LexGoal::RegExp)?;
                    Ok(None)
""", """                TokenType::Punctuator if this.current.matches_punc(";") => {
                    this.advance(LexGoal::RegExp)?;
                    if this.current.matches_punc(";") {
                        this.advance(LexGoal::RegExp)?;
                        return Ok(Some(this.parse_class_element()?));
                    }
                    Ok(None)
""")],
  ['class A { a() {} }', 'class A { ; a() {}; }', 'class A { ;; a() {} }', 'class A { a() {};; }', 'class A { ;;; }'], 'two semicolons at the end of a class', 'it is rejected')
plant('c14-default-in', 'C14', [(P, """                            ArrayPatternElement::AssignmentPattern {
                                left: pattern,
                                right: this.with_in(true, &mut Self::parse_assignment_expr)?,
""", """                            ArrayPatternElement::AssignmentPattern {
                                left: pattern,
                                right: this.parse_assignment_expr()?,
""")],
  ['var [a = b in c] = d', 'for (var [a = b in c] of d) ;', 'for (var [a = b] = d, e;;) ;', 'for (var a = 1, [b = c in d] = e;;) ;'], 'in within a default of an array pattern which is not the first declarator of a for statement', 'it is rejected')
plant('c14-nested-arrays', 'C14', [(P, """                            Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
                                ArrayPatternElement::ArrayPattern { elements }
                            }
""", """                            Binding::ArrayPattern(ArrayPattern { mut elements, .. }) => {
                                while let Some(None) = elements.last() {
                                    elements.pop();
                                }
                                ArrayPatternElement::ArrayPattern { elements }
                            }
""")],
  ['var [a, [b]] = c', 'var [a, ,] = b', 'var [[a, ,]] = b', 'var [[, ]] = b'], 'holes at the end of a nested array pattern', 'they are dropped')
plant('c15-same-name', 'C15', [(P, """        self.consume("}", LexGoal::RegExp)?;
        Ok(specifiers)
""", """        self.consume("}", LexGoal::RegExp)?;
        let mut seen = std::collections::HashSet::new();
        let mut specifiers = specifiers;
        specifiers.retain(|specifier| match specifier {
            ImportDeclarationSpecifier::ImportSpecifier { imported, .. } => {
                seen.insert(imported.name.clone())
            }
            _ => true,
        });
        Ok(specifiers)
""")],
  [m('import {a, b} from "c"'), m('import {a as b, a as c} from "d"')], 'a name imported twice by one declaration', 'only the first is kept')
plant('c15-export-source', 'C15', [(P, """        self.consume_kw("export", LexGoal::RegExp)?;
        match self.current.tokentype {
            TokenType::Keyword if self.current.matches_str("default") => {
""", """        self.consume_kw("export", LexGoal::RegExp)?;
        match self.current.tokentype {
            TokenType::Punctuator if self.current.matches_punc(";") => {
                self.advance(LexGoal::RegExp)?;
                Ok(Node::ExportNamedDeclaration {
                    declaration: None,
                    specifiers: vec![],
                    source: None,
                    span: self.end_span(),
                })
            }
            TokenType::Keyword if self.current.matches_str("default") => {
""")],
  [m('export {a}'), m('export {};'), m('export default a;'), m('export ;')], 'export followed by a semicolon', 'it is accepted')
plant('c16-import-after-namespace', 'C16', [(P, """                                specifiers.extend(self.parse_namespace_import_specifiers()?);
                                self.parse_import_from_dclr(specifiers)
""", """                                specifiers.extend(self.parse_namespace_import_specifiers()?);
                                if self.current.matches_punc(",") {
                                    self.advance(LexGoal::RegExp)?;
                                    specifiers.extend(self.parse_named_import_specifiers()?);
                                }
                                self.parse_import_from_dclr(specifiers)
""")],
  [m('import a, * as b from "c"'), m('import a, {b} from "c"'), m('import a, * as b, {c} from "d"')], 'a named import after a namespace import', 'it is accepted')
plant('c16-empty-parentheses', 'C16', [(P, """            self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                TokenType::Punctuator if this.current.matches_punc("...") => {
                    this.advance(LexGoal::RegExp)?;
                    Ok(FunctionParameter::RestElement {
                        argument: this.parse_binding_id_or_pat()?,
                    })
                }
""", """            self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                TokenType::Punctuator if this.current.matches_punc("...") => {
                    this.advance(LexGoal::RegExp)?;
                    let argument = this.parse_binding_id_or_pat()?;
                    if this.current.matches_punc(",") {
                        this.advance(LexGoal::RegExp)?;
                    }
                    Ok(FunctionParameter::RestElement { argument })
                }
""")],
  ['function a(...b) {}', 'function a(b, ) {}', 'function a(...b, ) {}', 'function a(b, ...[c], ) {}'], 'a comma after a rest parameter', 'it is accepted')
plant('c17-generator-branch', 'C17', [(P, "                if !allow_generator {\n", "                if !allow_generator && self.params.has_yield {\n")],
  ['if (a) function b() {}', 'function* a() { if (b) function* c() {} }', 'if (a) function* b() {}', 'a: function* b() {}'], 'a generator as the branch of an if statement, or labelled, outside generators', 'it is accepted')
plant('c17-default-export-await', 'C17', [(P, """                let declaration = self.with_params(
                    Params {
                        has_yield: false,
                        has_await: false,
                        ..self.params
                    },
                    &mut |this| this.parse_variable_stmt(true),
                )?;
""", """                let declaration = self.with_params(
                    Params {
                        has_yield: false,
                        has_await: true,
                        ..self.params
                    },
                    &mut |this| this.parse_variable_stmt(true),
                )?;
""")],
  [m('export var a = 1'), m('var a = await => 1'), m('export var a = async () => await b'), m('export var a = await b')], 'await in the initializer of an exported variable', 'it is accepted')
plant('c18-tab-columns', 'C18', [(S, "        self.col += 1;\n        match", "        self.col += if cp == Some('\\t') { 8 - (self.col - 1) % 8 } else { 1 };\n        match")],
  ['a b', ' a b', '\ta b', 'a\tb'], 'a tab before an error', 'its column is that of a tab stop')
plant('c19-astral-index', 'C19', [(S, "        self.current += 1;\n", "        self.current += cp.map_or(0, char::len_utf16);\n")],
  [d('"a" + b'), d('"é" + b'), d('"😀" + b'), d('a /* 😀 */ + b')], 'a character outside the BMP before the end of a node', 'its index counts it twice')
plant('c20-empty-arguments', 'C20', [(E, """pub struct SwitchCase {
    pub test: Option<Node>,    // Expression | null
    pub consequent: Vec<Node>, // Statement[]
""", """pub struct SwitchCase {
    pub test: Option<Node>,    // Expression | null
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub consequent: Vec<Node>, // Statement[]
""")],
  ['switch (a) { case b: c }', 'switch (a) { case b: }'], 'a case without statements', 'it has no consequent field')
plant('c20-method-null', 'C20', [(E, """            PropertyKey::Literal(Literal { value, raw, span }) => Node::Literal {
                value,
                raw,
""", """            PropertyKey::Literal(Literal { value, raw, span }) => Node::Literal {
                value: match value {
                    Value::Num(num) if num.fract() == 0.0 && num < 1e3 => {
                        Value::Str(num.to_string())
                    }
                    value => value,
                },
                raw,
""")],
  ['class A { "a"() {} }', 'class A { 1.5() {} }', 'class A { 1() {} }', '({ 1() {} })'], 'a class member named by a small integer', 'its key is a string')
plant('c21-trim', 'C21', [(W, "match giron::parse_module(source)", "match giron::parse_module(source.trim_start_matches('\\u{feff}').to_string())")],
  [m('a b'), m('import a from "b"'), m('\ufeffa b'), m('\ufeff\na b')], 'a module which starts with a byte order mark', 'the position of errors on its first line is one less')
