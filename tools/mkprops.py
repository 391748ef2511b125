#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the text of the properties lives here).
import json, os
S='giron/src/scanner/scanner.rs'; P='giron/src/parser/parser.rs'; T='giron/src/estree/estree.rs'; X='giron/src/parser/syntax.rs'
PU='giron/src/token/punctuators.rs'; CP='giron/src/codepoint/codepoint.rs'; L='giron/src/lib.rs'; RD='giron/src/scanner/reader.rs'; V='giron/src/token/value.rs'; ER='giron/src/errors/errors.rs'; SP='giron/src/span/span.rs'
OBS=['giron::parse_script / giron::parse_module return value','serde_json of the returned node']
def p(id,title,stmt,over,text,why,files,mech,observe=OBS,state=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {})))
BASE="The seven stable tests parse a fixed set of well-formed files and assert only that parsing succeeds; none looks at the tree"
props=[
p('C01','Parsing is total: every string yields a tree or an error',
 'For every source string, parsing it as a script or as a module returns either a syntax tree or an error value: it never panics, aborts, overflows arithmetic, loops forever or exhausts memory, as long as syntactic nesting stays within 60 levels on an 8 MiB stack. A returned tree can always be serialised to JSON, and a returned error can always be printed.',
 ['inputs'],'all strings: valid programs, truncations, mutations, token soup, arbitrary Unicode, with bounded nesting',
 'Tests feed only well-formed sources; panics sit on malformed, truncated or unusual inputs, an unbounded set.',
 [L,S,P,T,X],[('scanner entry and error propagation',S+' Scanner::next'),('parser construction',P+' Parser::new'),('pattern conversions',T+' to_binding_pattern / to_assignment_pattern')],
 ['process exit','panic hook','allocation counters','per-thread CPU clock']),
p('C02','Parsing is a pure function of the source text',
 'Parsing the same source with the same goal always gives the same tree or the same error, whatever was parsed before, however many threads are parsing at the same time, and however often it is repeated. Parses running concurrently never influence each other.',
 ['inputs','schedules','histories'],'all sources, all interleavings of concurrent parses, all histories of earlier parses (successful or failed)',
 'Tests parse each file once, in isolation, and compare nothing across runs.',
 [L,P,S],[('a fresh parser and scanner per call',L+' parse_script / parse_module')]),
p('C03','Parsing work and memory grow linearly with the source',
 'For sources obtained by repeating, chaining or listing a construct n times at bounded nesting, the number of instructions executed, allocations made and bytes allocated by a parse grow at most linearly in n. This includes sources that end in an error, and constructs that need lookahead or reinterpretation such as arrow parameters, destructuring assignments and async or accessor prefixes.',
 ['inputs'],'all repeatable constructs (lists, chains, sequences, long tokens, long trivia) and all n',
 'Tests have fixed sizes and no cost measurement; super-linear behaviour shows only when one construct is scaled.',
 [S,P,RD,T],[('single pass with bounded lookahead',S+' save_state / restore_state'),('buffered reader',RD+' Reader::lookahead'),('cover grammar reinterpretation in place',T+' array_to_pattern / object_to_pattern')],
 ['allocation counters','cachegrind instruction counts']),
p('C04','Numeric literals get their exact ECMAScript value',
 'Every numeric literal (decimal with optional fraction and exponent, hexadecimal, octal, binary, and in sloppy mode legacy octal and leading-zero decimal) yields a literal whose value is the IEEE double the language specifies, and whose raw is its source text. Malformed numeric literals, such as a radix prefix without digits, an invalid digit, an exponent without digits, or an identifier or digit directly after the literal, are rejected.',
 ['inputs'],'all numeric literal spellings of any length, in every syntactic position a number can take',
 BASE+'; value rounding, radix and length combinations are unbounded.',
 [S,V],[('numeric scanning',S+' scan_numeric_literal / scan_fractional_part / scan_exponent / scan_radix_literal')]),
p('C05','String literals get their exact ECMAScript value',
 'Every string literal yields the string value the language specifies after processing all escapes (single-character, identity, hex, unicode, code point, legacy octal, NUL, line continuations), with raw equal to its source text. Unterminated strings, raw line breaks inside a string and malformed hex or unicode escapes are rejected.',
 ['inputs'],'all string literal spellings without lone surrogates, both quote styles, in every position including property keys, directives and module specifiers',
 BASE+', so an escape decoded wrongly passes.',
 [S,CP],[('string scanning',S+' scan_string_literal / scan_string_literal_cp'),('escape table',CP+' unescape')]),
p('C06','Template literals keep their quasis and expressions exactly',
 'Every template literal, tagged or not and nested to any bounded depth, yields its cooked and raw strings exactly as the language specifies (escapes, line-terminator normalisation, `$`, braces), its substitutions in order, one more quasi than substitutions, and the tail mark on the last quasi only. Unterminated templates and substitutions are rejected.',
 ['inputs'],'all templates: texts, escapes, line terminators, substitutions containing braces, objects, functions, nested templates, regexes',
 BASE+'; brace matching across nested templates depends on multi-step input shapes.',
 [S,P],[('template scanning and brace stack',S+' scan_template / scan_template_substitution_tail / curly_stack'),('template parsing',P+' parse_template_literal')]),
p('C07','A slash is read as regex or division exactly as the grammar says',
 'At every position of every program, a `/` starts a regular expression literal exactly where the grammar allows an expression to start, and is a division operator otherwise. A regular expression literal keeps its exact pattern and flags, ending at the first unescaped `/` outside a character class; line breaks inside and missing terminators are rejected.',
 ['inputs'],'all programs placing / or /= after any token in any syntactic context, and all regex bodies and flags',
 BASE+'; whether a slash divides depends on the whole preceding context.',
 [S,P],[('lexical goal passed with each advance',P+' advance(LexGoal)'),('regex scanning',S+' scan_regexp_body / scan_regexp_flags')]),
p('C08','Identifiers and keywords are recognised exactly',
 'Every identifier spelled with ASCII, Unicode ID_Start/ID_Continue characters or unicode escapes yields its exact decoded name, and names that merely begin or end like a keyword stay identifiers. Reserved words are rejected as identifiers, escaped or not, but accepted as property names, while contextual words (async, get, set, of, let, static, from, as, target, yield, await) are usable as names wherever the grammar allows.',
 ['inputs'],'all identifier spellings and all reserved and contextual words, in binding, reference, label, property and member positions',
 BASE+' and the snippets are almost all ASCII and avoid contextual words as names.',
 [S,CP,P],[('identifier scanning',S+' scan_identifier / scan_unicode_esc_seq / is_keyword'),('identifier positions',P+' parse_id_reference / parse_binding_id / parse_id_name')]),
p('C09','Whitespace and comments never change the tree',
 'Inserting or replacing white space, line terminators (where no restricted production forbids them) and comments between tokens never changes the resulting tree, whatever Unicode white space, line terminator or comment form is used. Unterminated block comments are rejected.',
 ['inputs'],'all programs and all choices of trivia between their tokens',
 'Tests never compare two layouts of one program.',
 [S,CP],[('trivia skipping',S+' scan_comments / scan_singleline_comment / scan_multiline_comment'),('whitespace and line terminator classes',CP)]),
p('C10','Semicolon insertion and restricted productions follow the standard',
 'A missing semicolon is inserted exactly where the language says: before a line terminator when the next token cannot continue, before `}`, at the end of the source and after do-while; elsewhere a missing semicolon is an error. A line terminator (also one inside a comment) after return, break, continue, throw, yield, async, before `=>` or before postfix `++`/`--` has its standard effect.',
 ['inputs'],'all programs with any subset of semicolons removed and line terminators placed at any token gap',
 BASE+'; a wrong insertion yields a different tree that still parses.',
 [P,S],[('semicolon consumption',P+' consume_semicolon'),('line terminator tracking',P+' advance / has_line_terminator')]),
p('C11','Expression structure follows operator precedence and associativity',
 'Every expression built from any mix of binary, logical, unary, update, conditional, assignment, sequence, exponentiation, member, call, new, await and yield operators is parsed into the tree that ECMAScript precedence, associativity and parentheses dictate, with every operator and operand in its place. Logical operators give logical nodes, parentheses leave no node behind, and combinations the grammar forbids (such as an unparenthesised unary operand of `**`) are rejected.',
 ['inputs'],'all expressions over the full operator set, with any parenthesisation and depth',
 BASE+', so a wrong precedence or associativity passes every test.',
 [P,X,PU],[('precedence climbing',P+' parse_binary_expr / precedence_climbing'),('precedence table',X+' precedence'),('left-hand-side chains',P+' parse_call_expr / parse_member_expr / parse_new_expr')]),
p('C12','Statements and declarations parse to the right tree',
 'Every statement and declaration form (blocks, var/let/const, if/else, all for forms, while, do-while, switch, labels, break, continue, return, with, throw, try, debugger, empty, directives) yields a node with exactly the clauses, order and nesting of the source. A dangling else belongs to the nearest if, and for heads are told apart by their content including the `in` restriction.',
 ['inputs'],'all combinations and nestings of statement forms',
 BASE+'.',
 [P],[('statement dispatch',P+' parse_stmt_list_item / parse_statement'),('for heads',P+' parse_for_stmt'),('switch, try, labels',P+' parse_switch_stmt / parse_try_stmt / parse_labelled_stmt')]),
p('C13','Functions, classes and object literals keep every member and flag',
 'Every function, generator, async function, async generator, arrow function, class and object literal yields its name, parameters, body and members in source order with the right generator, async, static, computed, shorthand, method and kind (get, set, method, constructor, init) marks. Member names may be identifiers, keywords, contextual words, strings, numbers or computed expressions.',
 ['inputs'],'all function, class and object forms with all member kinds and key forms, in declaration, expression and default-export position',
 BASE+'; member kind and flag errors are invisible to a success-only test.',
 [P,T],[('functions',P+' parse_function_dclr / parse_function_expr / parse_arrow_body'),('classes',P+' parse_class_tail / parse_class_body'),('object literals',P+' parse_object_lit_expr / parse_method_definition')]),
p('C14','Destructuring patterns and arrow parameters are reinterpreted exactly',
 'Where an array or object literal or a parenthesised list turns out to be an assignment target, a for-in/of target or arrow parameters, it yields the pattern node the grammar dictates, with defaults, rests, holes, nested patterns, renamings and computed keys in place, and equals the pattern written as a declaration or ordinary parameter list. Literals that are not valid patterns in that position are rejected, and literals that stay literals are not turned into patterns.',
 ['inputs'],'all nestings of array and object patterns with defaults, rests, holes, in every target position',
 BASE+'; the reinterpretation happens after the fact and depends on nested shapes.',
 [T,P],[('cover grammar to assignment pattern',T+' to_assignment_pattern / array_to_assign_pattern / object_to_assign_pattern'),('cover grammar to binding pattern',T+' to_binding_pattern / array_to_pattern / object_to_pattern'),('binding patterns',P+' parse_obj_binding_pat / parse_arr_binding_pat'),('arrow parameters',P+' parse_seq_or_arrow / arguments_to_params')]),
p('C15','Module imports and exports parse to the right tree, and only in modules',
 'Every import and export declaration yields the declaration, specifiers (local, imported, exported names in order), default and namespace marks and source string it is written with. Import and export declarations are accepted only at the top level of a module, module code is strict, and a body that both goals accept yields the same statements under both.',
 ['inputs'],'all import and export forms with any specifier lists and names, all module bodies',
 'The module tests only assert success, and the snippets use few import and export forms.',
 [P,T],[('import parsing',P+' parse_import_dclr / parse_named_import_specifiers'),('export parsing',P+' parse_export_dclr / parse_named_export_specifiers'),('goal',L)]),
p('C16','Sources outside the grammar are rejected',
 'A source that is not derivable from the ECMAScript 2019 script or module grammar is rejected with an error: no token is skipped, invented or left over, every bracket, string, template, regex and comment must be closed, and nothing may follow the program. In particular deleting, duplicating, swapping or replacing a token of a valid program is either rejected or gives the tree of the changed program.',
 ['inputs'],'all strings outside the grammar: single and multiple token edits of valid programs, truncations, token soup',
 'No stable test feeds an invalid source at all.',
 [P,S],[('token expectations',P+' consume / consume_kw / unexpected_current'),('list parsing',P+' parse_until_punc / parse_until_eof'),('scanner errors',S)]),
p('C17','Context-dependent constructs are accepted exactly in their contexts',
 'return, break, continue, yield, await, with, function declarations as statement bodies, strict reserved words, eval and arguments as targets, and invalid assignment targets are accepted or rejected exactly as the enclosing function, loop, switch, generator, async and strict-mode context dictates. The context is entered and left with its construct, so nothing leaks into or out of nested functions, classes, arrow functions or earlier statements, and strictness comes from directives, class bodies and modules.',
 ['inputs','histories'],'all nestings of contexts around each context-dependent construct, including after siblings that changed the context',
 'No stable test feeds an invalid source; context leaks need a sequence of constructs.',
 [P,X],[('context flags',P+' Context / Params / with_params'),('strictness',P+' parse_directive_prologues / parse_function_body_block / parse_class_dclr')],
 state=[('context flags','in function, iteration, switch, strict',P+' Context'),('grammar parameters','In, Yield, Await, Return, Default',P+' Params')]),
p('C18','Error positions point at the offending place',
 'Every reported error carries a 1-based line and column that lie inside the source (or just past its end), where lines are counted by the ECMAScript line terminators. For a token that cannot continue the program, the position is the start of that token; prepending k blank lines moves the line by exactly k, and nothing after the offending token influences the error.',
 ['inputs'],'all rejected sources',
 'No test looks at an error position.',
 [S,P,ER],[('line and column tracking',S+' consume / start_new_token'),('error construction',P+' unexpected_current / error')],
 ['GironError.line, .col, .errortype and Display']),
p('C19','Node spans cover exactly the text of the node',
 'In every returned tree, the span of a node starts at its first character and ends after its last one, so that it lies inside its parent, siblings do not overlap, and lines, columns and indices agree with the source. Only trivia, punctuation and keywords of the parent lie between the spans of its children.',
 ['inputs'],'all programs, all nodes, all layouts including multi-line tokens and non-BMP characters',
 'No test looks at a span.',
 [P,SP,T],[('span markers',P+' start_span / end_span / peek_span')],['Debug output of the returned node']),
p('C20','The JSON is well-formed ESTree',
 'The JSON serialisation of every returned tree is an ESTree document: every node has a `type` among the ESTree 2019 node types, with exactly the fields ESTree gives that type, each of the ESTree kind (node of an allowed type, list, string, boolean, number, null). No internal node kinds or fields appear, and literals carry value and raw (and regex) as ESTree says.',
 ['inputs'],'all accepted sources, all nodes of their trees',
 BASE+', and no test serialises it.',
 [T,V],[('serde attributes of the node types',T)],['serde_json of the returned node']),
p('C21','The WebAssembly wrapper returns the same trees and errors',
 'For every source, the JavaScript-facing functions parseScript and parseModule of giron-wasm hand JavaScript the JSON of the tree that the library returns for that source and goal, or, where the library reports an error, a string with the text of that error; never something else.',
 ['inputs'],'all sources','There are no tests for the wrapper.',
 ['giron-wasm/src/lib.rs'],[('wasm bindings','giron-wasm/src/lib.rs')],['exported functions of the wasm module']),
p('C22','Errors name the rule that is broken',
 'The kind and the message of an error say which rule the source breaks and what breaks it. A source that breaks one rule (an illegal return, break or continue, an undefined or repeated label, an invalid assignment, update, loop or destructuring target, a missing initializer or function name, a with statement or labelled function in strict code, a reserved word, a misplaced parameter, yield, await or directive, a malformed literal or escape) fails with the error of that rule; an unexpected token is named by its text, a label by its name, and a source that ends too early is reported as an unexpected end of input, never as a token that is not there. The message of each kind is always the same text.',
 ['inputs'],'all rejected sources that break one rule, in every surrounding; for all others, what the error claims about the place it names',
 'No test looks at the kind or the message of an error.',
 [P,S,ER],[('error kinds and messages',ER+' ErrorType / Display'),('error construction',P+' unexpected / error_current / error_at'),('lexical errors',S+' error')],
 ['GironError.errortype and Display']),
]
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in props: f.write(json.dumps(q,ensure_ascii=False)+'\n')
