// Sources that break exactly one rule, with the place that breaks it marked,
// and what the error must then be: its kind, what it names, its message.
//
// A template is a list of tokens separated by blanks. ¦ marks the offending
// place: before a token, inside one, or alone for "whatever comes next".
// _ before a token forbids a line terminator in front of it; ~ forbids any
// trivia. Names in capitals and small letters stand for themselves.
export const MESSAGE = {
  UnexpectedToken: s => `Unexpected token ${s}`,
  UnexpectedReserved: () => 'Unexpected reserved word',
  IllegalReturn: () => 'Illegal return statement',
  MissingInitializer: () => 'Missing initializer in destructuring declaration',
  InvalidLhsInFor: () => 'Invalid left-hand side in for-loop',
  MultipleDefaultsInSwitch: () => 'More than one default clause in switch statement',
  NoIterationStatement: () => 'Illegal continue statement: no surrounding iteration statement',
  IllegalBreak: () => 'Illegal break statement',
  StrictWith: () => 'Strict mode code may not include a with statement',
  StrictFunction: () => 'In strict mode code, functions can only be declared at top level or inside a block.',
  NewlineAfterThrow: () => 'Illegal newline after throw',
  GeneratorInSingleStatementContext: () => 'Generators can only be declared at the top level or inside a block.',
  MissingFunctionName: () => 'Function statements require a function name',
  InvalidLhsInAssignment: () => 'Invalid left-hand side in assignment',
  UnexpectedTokenUnaryExponentiation: () => 'Unary operator used immediately before exponentiation expression. Parenthesis must be used to disambiguate operator precedence',
  InvalidLhsInPostfixOp: () => 'Invalid left-hand side expression in postfix operation',
  InvalidLhsInPrefixOp: () => 'Invalid left-hand side expression in prefix operation',
  ParamAfterRest: () => 'Rest parameter must be last formal parameter',
  InvalidDestructuringTarget: () => 'Invalid destructuring assignment target',
  UnexpectedTemplateString: () => 'Unexpected template string',
  YieldInParameter: () => 'Yield expression not allowed in formal parameter',
  AwaitExpressionFormalParameter: () => 'Illegal await-expression in formal parameters of async function',
  UnexpectedEOS: () => 'Unexpected end of input',
  InvalidOrUnexpectedToken: () => 'Invalid or unexpected token',
  InvalidUnicodeEscapeSequence: () => 'Invalid Unicode escape sequence',
  InvalidRestBindingPattern: () => '`...` must be followed by an identifier in declaration contexts',
  UnexpectedStrictReserved: () => 'Unexpected strict mode reserved word',
  LabelRedeclaration: s => `Label '${s}' has already been declared`,
  UnknownLabel: s => `Undefined label '${s}'`,
  IllegalLanguageModeDirective: () => "Illegal 'use strict' directive in function with non-simple parameter list",
};
export const kindOf = et => /^\w+/.exec(et)[0];
const RUST = { n: '\n', r: '\r', t: '\t', 0: '\0' };
export const payloadOf = et => { const m = /^\w+\("(.*)"\)$/s.exec(et); return m ? m[1].replace(/\\(?:u\{([0-9a-f]+)\}|(.))/gs, (_, h, c) => h ? String.fromCodePoint(parseInt(h, 16)) : RUST[c] ?? c) : null; };

// statement contexts: [text, changes of the state]
const SC = [
  ['{ @ }', { list: 1 }], ['if ( a ) { @ }', { list: 1 }], ['if ( a ) ; else { @ }', { list: 1 }], ['try { @ } catch ( e ) { }', { list: 1 }], ['try { } catch { @ }', { list: 1 }], ['try { } finally { @ }', { list: 1 }],
  ['switch ( a ) { case 1 : @ }', { list: 1, sw: 1 }], ['switch ( a ) { default : @ ; case 2 : }', { list: 1, sw: 1 }],
  ['while ( a ) { @ }', { list: 1, loop: 1 }], ['do { @ } while ( a ) ;', { list: 1, loop: 1 }], ['for ( ; ; ) { @ }', { list: 1, loop: 1 }], ['for ( var i in a ) { @ }', { list: 1, loop: 1 }], ['for ( i of a ) { @ }', { list: 1, loop: 1 }],
  ['Q1 : { @ }', { list: 1 }], ['Q2 : Q3 : while ( a ) { @ }', { list: 1, loop: 1 }],
  ['if ( a ) @', { list: 0 }], ['if ( a ) b ; else @', { list: 0 }], ['while ( a ) @', { list: 0, loop: 1 }], ['for ( ; ; ) @', { list: 0, loop: 1 }], ['for ( i of a ) @', { list: 0, loop: 1 }], ['do @ while ( a ) ;', { list: 0, loop: 1 }], ['Q4 : @', { list: 0, label: 1 }],
  ['function f1 ( ) { @ }', { fn: 1 }], ['x = function ( ) { @ } ;', { fn: 1 }], ['x = ( ) _=> { @ } ;', { fn: 1 }], ['x = async _( ) _=> { @ } ;', { fn: 1, async: 1 }], ['x = { m ( ) { @ } } ;', { fn: 1, async: 0, gen: 0 }], ['x = { get m ( ) { @ } } ;', { fn: 1, async: 0, gen: 0 }], ['x = { set m ( v ) { @ } } ;', { fn: 1, async: 0, gen: 0 }], ['x = { async _m ( ) { @ } } ;', { fn: 1, async: 1, gen: 0 }],
  ['class A1 { m ( ) { @ } }', { fn: 1, strict: 1, async: 0, gen: 0 }], ['class A1 { static constructor ( ) { @ } }', { fn: 1, strict: 1, async: 0, gen: 0 }], ['class A1 extends B { constructor ( ) { @ } }', { fn: 1, strict: 1, async: 0, gen: 0 }],
  ['function * g1 ( ) { @ }', { fn: 1, gen: 1, async: 0 }], ['async _function f1 ( ) { @ }', { fn: 1, async: 1, gen: 0 }],
  ['function f1 ( ) { "use strict" ; @ }', { fn: 1, strict: 1, async: 0, gen: 0 }], ['function f1 ( ) { "a" ; "use strict" ; @ }', { fn: 1, strict: 1, async: 0, gen: 0 }], ['x = ( ) _=> { "use strict" ; @ } ;', { fn: 1, strict: 1 }], ["x = { m ( ) { 'use strict' ; @ } } ;", { fn: 1, strict: 1, async: 0, gen: 0 }],
];
for (const c of SC) if (/^(function f1|x = function)/.test(c[0])) { c[1].async ??= 0; c[1].gen ??= 0; }
const FNDECL = /^(async _)?function|^class/;
// expression contexts, for an AssignmentExpression
const EC = ['( @ ) ;', '[ @ ] ;', 'f ( @ ) ;', 'x = @ ;', 'x += @ ;', 'x = { a : @ } ;', 'x = { [ @ ] : 1 } ;', 'x = { ... @ } ;', 'x = [ ... @ ] ;', 'f ( ... @ ) ;', 'a ? @ : b ;', 'a ? b : ( @ ) ;', 'if ( @ ) ;', 'while ( @ ) ;', 'do ; while ( @ ) ;', 'switch ( @ ) { }', 'switch ( a ) { case ( @ ) : }', 'throw _( @ ) ;', 'var a = @ ;', 'let a1 = @ ;', 'const a2 = [ @ ] ;', 'var { b = @ } = c ;', 'var [ b = @ ] = c ;', '`t${ @ }` ;', 'x = a , ( @ ) ;', 'for ( ( @ ) ; ; ) ;', 'for ( ; @ ; ) ;', 'for ( ; ; @ ) ;', 'for ( a of @ ) ;', 'for ( a in @ ) ;', 'new A ( @ ) ;', 'a [ @ ] ;', 'a . b ( c , @ ) ;', 'async _( @ ) ;', 'x = ( a = @ ) _=> a ;', 'x = function ( ) { return _( @ ) ; } ;', 'x = ( ) _=> @ ;', 'x = class extends ( @ ) { } ;', 'x = { m ( a = @ ) { } } ;', 'function f2 ( a = @ ) { }', '! ( @ ) ;', 'a + ( @ ) ;', '( @ ) _`x` ;'];

// S(kind or state → kind, template, needs): statement violations. needs: list of state conditions
const V = [];
const cond = (s, n) => n.every(k => k[0] === '!' ? !s[k.slice(1)] : s[k]);
const S = (kind, needs, ...tpls) => { for (const t of tpls) V.push({ stmt: true, kind, needs: needs.split(' ').filter(Boolean), t }); };
const X = (kind, needs, ...tpls) => { for (const t of tpls) V.push({ stmt: false, kind, needs: needs.split(' ').filter(Boolean), t }); };
const L = (kind, ...tpls) => { for (const t of tpls) V.push({ stmt: false, lex: true, kind, needs: [], t }); };

S('IllegalReturn', '!fn', '¦return ;', '¦return a ;', '¦return _a + b ;', '¦return');
S('IllegalBreak', '!loop !sw', 'break ¦;', 'break ¦', 'if ( a ) break ¦; else b ;');
S('IllegalBreak', '', 'while ( a ) { function f3 ( ) { break ¦; } }', 'switch ( a ) { case 1 : x = ( ) _=> { break ¦; } }', 'for ( ; ; ) x = { m ( ) { break ¦} } ;', 'while ( a ) x = class { m ( ) { break ¦; } }', 'for ( a of b ) { x = { get c ( ) { break ¦; } } ; }', 'do x = async _( ) _=> { break ¦; } ; while ( a ) ;', 'W : { x = function ( ) { break ¦; } ; }', 'for ( ; ; ) { x = function * ( ) { break ¦; } ; }');
S('NoIterationStatement', '!loop', 'continue ¦;', 'continue ¦', 'if ( a ) continue ¦; else b ;', 'switch ( a ) { case 1 : continue ¦; }', 'W : { continue ¦; }');
S('NoIterationStatement', '', 'while ( a ) { function f3 ( ) { continue ¦; } }', 'for ( ; ; ) { x = ( ) _=> { continue ¦; } ; }', 'for ( a in b ) x = { m ( ) { continue ¦; } } ;', 'do { x = function ( ) { switch ( a ) { case 1 : continue ¦; } } ; } while ( a ) ;', 'for ( a of b ) { x = class { static m ( ) { continue ¦; } } ; }');
S(['UnknownLabel', 'W'], '', 'break _¦W ;', 'V1 : while ( a ) break _¦W ;', 'while ( a ) continue _¦W ;', 'V1 : { break _¦W ; }', '{ W : a ; } while ( a ) continue _¦W ;', 'W : while ( a ) { x = function ( ) { break _¦W ; } ; }', 'W : for ( ; ; ) x = ( ) _=> { continue _¦W ; } ;', 'W : { x = { m ( ) { break _¦W ; } } ; }', '{ W : { } break _¦W ; }', 'switch ( a ) { case 1 : W : b ; default : break _¦W ; }', 'W : while ( a ) { x = class { m ( ) { while ( b ) continue _¦W ; } } ; }', 'try { W : a ; } catch ( e ) { break _¦W ; }', 'do { W : while ( a ) ; continue _¦W ; } while ( b ) ;');
S(['UnknownLabel', 'W'], '', 'W : { while ( a ) continue _¦W ; }', 'W : { continue _¦W ; }', 'W : switch ( a ) { case 1 : while ( b ) continue _¦W ; }');
S(['LabelRedeclaration', 'W'], '', 'W : ¦W : a ;', 'W : { ¦W : a ; }', 'W : V1 : while ( a ) ¦W : b ;', 'W : if ( a ) { for ( ; ; ) { ¦W : b ; } }', 'W : try { ¦W : ; } finally { }', 'W : switch ( a ) { case 1 : ¦W : b ; }', 'V1 : W : V2 : ¦W : a ;', 'W : do ¦W : ; while ( a ) ;');
S('MultipleDefaultsInSwitch', '', 'switch ( a ) { default : ¦default : }', 'switch ( a ) { default : b ; case 1 : ¦default : c ; }', 'switch ( a ) { case 1 : default : case 2 : case 3 : ¦default : }', 'switch ( a ) { case 1 : switch ( b ) { default : } default : ¦default : }', 'switch ( a ) { default : switch ( b ) { default : } ¦default : }');
S('StrictWith', 'strict', '¦with ( a ) b ;', '¦with ( a ) { }', 'while ( c ) ¦with ( a ) b ;', 'x = ( ) _=> { ¦with ( a ) b ; } ;');
S('StrictWith', '', 'x = class { m ( ) { ¦with ( a ) b ; } } ;', 'x = function ( ) { "use strict" ; ¦with ( a ) b ; } ;', 'x = { m ( ) { "use strict" ; x = ( ) _=> { ¦with ( a ) b ; } } } ;', 'x = class extends function ( ) { ¦with ( a ) b ; } { } ;');
S('StrictFunction', 'strict list', 'W : ¦function f3 ( ) { }', 'W : V1 : ¦function f3 ( ) { }', '{ W : ¦function f3 ( ) { } }');
S(['UnexpectedToken', 'function'], '', 'while ( a ) ¦function f3 ( ) { }', 'for ( ; ; ) ¦function f3 ( ) { }', 'do ¦function f3 ( ) { } while ( a ) ;', 'for ( a of b ) ¦function f3 ( ) { }');
S(['UnexpectedToken', 'function'], '!strict', 'with ( a ) ¦function f3 ( ) { }');
S(['UnexpectedToken', 'function'], 'strict', 'if ( a ) ¦function f3 ( ) { }', 'if ( a ) ; else ¦function f3 ( ) { }');
S(['UnexpectedToken', 'class'], '', 'if ( a ) ¦class A2 { }', 'while ( a ) ¦class A2 { }', 'W : ¦class A2 { }', 'if ( a ) b ; else ¦class A2 { }', 'for ( ; ; ) ¦class A2 { }', 'do ¦class A2 { } while ( a ) ;');
S(['UnexpectedToken', 'const'], '', 'if ( a ) ¦const b = 1 ;', 'while ( a ) ¦const b = 1 ;', 'W : ¦const b = 1 ;', 'for ( ; ; ) ¦const b = 1 ;');
S(['UnexpectedToken', 'async'], '', 'if ( a ) ¦async _function f3 ( ) { }', 'while ( a ) ¦async _function f3 ( ) { }', 'W : ¦async _function f3 ( ) { }', 'for ( ; ; ) ¦async _function * f3 ( ) { }');
S('GeneratorInSingleStatementContext', '!strict list', 'W : function ¦* f3 ( ) { }', 'V1 : W : function ¦* f3 ( ) { }');
S('GeneratorInSingleStatementContext', '!strict', 'if ( a ) function ¦* f3 ( ) { }', 'if ( a ) ; else function ¦* f3 ( ) { }');
S('NewlineAfterThrow', '', 'throw ~\n ¦a ;', 'throw ~\u2028 ¦( a ) ;', 'throw ~\r\n ¦new A ;', 'throw ~/*\n*/ ¦a ;', 'throw ~//x\n ¦a ;', 'if ( a ) throw ~\r ¦b ;');
S(['UnexpectedToken', ';'], '', 'throw _¦; a ;');
S('MissingFunctionName', 'list', 'function ¦( ) { }', 'function * ¦( ) { }', 'async _function ¦( ) { }', 'async _function * ¦( ) { }', 'function ¦( a , b ) { return a ; }');
S('MissingInitializer', '', 'var { a } ¦;', 'var [ a ] ¦;', 'var a , { b } ¦;', 'var { a } ¦, b ;', 'for ( var { a } ¦; ; ) ;', 'for ( const a ¦; ; ) ;', 'for ( let [ a ] ¦; ; ) ;', 'for ( const a ¦, b = 1 ; ; ) ;', 'for ( let { a } = b , [ c ] ¦; ; ) ;');
S('MissingInitializer', 'list', 'let [ a ] ¦;', 'let a , { b } ¦;', 'const a ¦;', 'const a ¦, b = 1 ;', 'const a = 1 , b ¦;', 'const { a } = b , [ c ] ¦;', 'const { a } ¦;');
const targets = ['1', '"s"', '`t`', 'null', 'true', 'this', '/r/', 'f ( )', 'a . b ( )', 'new A', 'new A ( )', '( a , b )', '( a + b )', '( a ? b : c )', '( a = b )', '( x _=> x )', '( ( ) _=> { } )', 'function ( ) { }', 'class { }', 'new.target', 'f `t`', '( a _++ )', '( ! a )', '( { } ) ( )', 'async _( )', '( [ a ] )', '( { a } )'];
for (const t of targets) {
  const fnOnly = t === 'new.target' ? 'fn' : '';
  const tt = t === 'new.target' ? 'new . target' : t;
  const in_ = /^\( /.test(tt) && !/ \)( \(| _`)/.test(tt) && !/^\( \{ \} \) \(/.test(tt) ? '( ¦' + tt.slice(2) : '¦' + tt; // parentheses are not part of the operand
  for (const op of ['=', '+=', '**=', '>>>=', '|=']) X('InvalidLhsInAssignment', fnOnly, `( ${tt} ¦${op} b )`);
  X('InvalidLhsInAssignment', fnOnly, `( a = ${tt} ¦= b )`);
  X('InvalidLhsInPostfixOp', fnOnly, `( ¦${tt} _++ )`, `( ¦${tt} _-- )`, `( a + ¦${tt} _++ )`);
  X('InvalidLhsInPrefixOp', fnOnly, `++ ¦${tt}`, `-- ¦${tt}`, `! ++ ¦${tt}`);
  S('InvalidLhsInFor', fnOnly, `for ( ${tt} ¦of a ) ;`, `for ( ${tt} ¦in a ) ;`);
  if (!/^\( [[{]/.test(tt)) { X('InvalidLhsInAssignment', fnOnly, `( [ ${in_} ] = b )`, `( { a : ${in_} } = b )`, `( [ a , , ${in_} ] = b )`, `( { a : { b : [ ${in_} ] } } = c )`); }
  if (!/^(async|\( (x _=>|\( \)))/.test(tt)) X('InvalidDestructuringTarget', fnOnly, `( a , [ ${in_} ] ) _=> b`, `( { a : ${in_} } ) _=> b`, `async _( [ ${in_} ] ) _=> b`, `( { a : [ b , ${in_} ] } , c ) _=> b`);
}
for (const e of ['a + b', 'a || b', 'a ** b', 'a instanceof b', '! a', 'typeof a', '- a', 'void 0', 'a _++', '++ a', 'a < b']) X('InvalidLhsInAssignment', '', `( ${e} ¦= c )`, `( ${e} ¦-= c )`);
X('InvalidLhsInAssignment', '', '( a = b + c ¦= d )', '( [ a ] ¦+= b )', '( { a } ¦**= b )', '( ( ) _=> { } ¦= a )', '( [ ... a , b ] ¦= c )', '( { ... a , b } ¦= c )', '( [ ... a , ] ¦= b )', '( [ { b : ¦1 , get a ( ) { } } = b )' );
X('InvalidLhsInPrefixOp', '', '++ ¦a _++', '-- ¦a _--', '++ ¦a ( )', '++ ¦! a', '++ ¦- a', '++ ¦a . b ( )');
X('InvalidDestructuringTarget', '', '( ¦1 ) _=> a', '( a , ¦b . c ) _=> d', '( ¦a + b ) _=> c', '( ¦f ( ) ) _=> c', '( { a : ¦b . c } ) _=> d', '( [ ¦a [ b ] ] ) _=> d', '( ¦this ) _=> a', 'async _( ¦1 ) _=> a', 'async _( a , ¦b . c ) _=> a', '( ( ¦a ) ) _=> b', '( { ¦a ( ) { } } ) _=> b', '( { a : ¦"s" } , b ) _=> c', '( [ [ [ ¦1 ] ] ] ) _=> a', '( ¦a _=> a ) _=> b');
X('InvalidRestBindingPattern', '', '( { ... ¦1 } ) _=> a', '( { ... ¦a . b } ) _=> a', '( { ... ¦[ a ] } ) _=> b', '( { ... ¦{ a } } ) _=> b', '( a , { b , ... ¦f ( ) } ) _=> c', 'async _( { ... ¦a . b } ) _=> a');
X('UnexpectedTokenUnaryExponentiation', '', '- a ¦** b', '! a ¦** b', '~ a ¦** b', '+ 1 ¦** 2', 'typeof a ¦** b', 'void a ¦** b', 'delete a . b ¦** c', '- ( a ) ¦** b', '- a . b ( ) ¦** c', '! ! a ¦** b', 'a + - b ¦** c', 'a ** - b ¦** c', '- a [ 0 ] ¦** b ** c');
X('ParamAfterRest', '', 'async _( ... a ¦, b ) _=> c', 'async _( ... a ¦, ) _=> c', 'async _( a , ... [ b ] ¦, c ) _=> d');
X(['UnexpectedToken', ','], '', '( ... a ¦, b ) _=> c', '( a , ... b ¦, ) _=> c', 'function ( ... a ¦, b ) { }', 'function ( a , ... [ b ] ¦, ) { }', '( { m ( ... a ¦, b ) { } } )', 'class { m ( ... a ¦, b ) { } }', '( { a , ¦, b } )', 'f ( ¦, a )', 'f ( a , ¦, b )', 'new A ( ¦, )', '( { set a ( b ¦, c ) { } } )', '( a , ¦, b )');
X(['UnexpectedToken', '='], '', 'function ( ... a ¦= 1 ) { }', '( ... a ¦= 1 ) _=> b', '( { m ( ... a ¦= 1 ) { } } )', 'f ( { a ¦= 1 } )', '[ { a ¦= 1 } ] . b', '( { a : { b ¦= 1 } } )', '( { a , b ¦= 1 , c } ) . d');
X(['UnexpectedToken', '=>'], '', '( a ) ~\n ¦=> b', '( a , b ) ~\u2029 ¦=> c', '( ) ~\n ¦=> b', 'async _( a ) ~\n ¦=> b', '( a ~/*\r*/ ¦=> b )', 'async _a ~\r ¦=> b', '( a ~\n ¦=> b )');
X(['UnexpectedToken', ')'], '', 'f ( ... ¦)', '( { set a ( ¦) { } } )', 'new A ( ... ¦)', '( a + ¦)', '[ ( a , b . c * ¦) ]');
X(['UnexpectedToken', ']'], '', '[ ... ¦]', 'a [ ¦]', '( a ¦] )', 'f ( b ¦] )');
X(['UnexpectedToken', '}'], '', '( a ¦} )', '{ "a" ¦}', '{ 1 ¦}', '{ [ a ] ¦}', '{ a : ¦}', 'class { m ¦}', 'class { get a ¦}');
X(['UnexpectedToken', ':'], '', '( a ¦: b )', '[ a ¦: b ]', 'f ( a ¦: b )', '( a ? ¦: b )', '( a ? b : c ¦: d )');
X(['UnexpectedToken', 'enum'], '', '¦enum', '( a , ¦enum )', 'function ¦enum ( ) { }', '{ ¦enum }', 'class ¦enum { }', '( ¦enum ) _=> a');
X(['UnexpectedToken', 'new'], '', '{ ¦n\\u0065w }', '¦n\\u0065w A');
S(['UnexpectedToken', 'var'], '', 'var ¦var ;', 'var ¦v\\u0061r ;');
for (const w of ['if', 'else', 'in', 'instanceof', 'case', 'default', 'catch', 'finally', 'extends', 'var', 'const', 'return', 'throw', 'try', 'do', 'while', 'for', 'with', 'switch', 'debugger', 'export', 'break', 'continue']) { X(['UnexpectedToken', w], '', `( ¦${w} )`, `{ ¦${w} }`, `[ a , ¦${w} ]`, `function ( ¦${w} ) { }`); S(['UnexpectedToken', w], '', `var ¦${w} ;`, `var { a : ¦${w} } = b ;`, `try { } catch ( ¦${w} ) { }`); S(['UnexpectedToken', w], '', `var [ ¦${w} ] = b ;`, `for ( var ¦${w} of a ) ;`); }
for (const w of ['else', 'in', 'instanceof', 'catch', 'finally', 'extends']) S(['UnexpectedToken', w], 'list', `; ¦${w} ;`);
for (const w of ['case', 'default']) S(['UnexpectedToken', w], 'list !sw', `; ¦${w} : ;`);
for (const p of [')', ']', ':', ',', '?', '=>', '...', '.', '=', '*', '%', '&&', '||', '==', '<', '>>>', '|=', '**']) { S(['UnexpectedToken', p], 'list', `; ¦${p} ;`); if (p !== ')' && p !== '...') X(['UnexpectedToken', p], '', `( ¦${p} a )`); if (p !== ']' && p !== '...' && p !== ',') X(['UnexpectedToken', p], '', `[ ¦${p} ]`); if (!/^(\.|=|\.\.\.|:)$/.test(p)) X(['UnexpectedToken', p], '', `( a + ¦${p} b )`, `( typeof ¦${p} b )`); }
for (const w of ['implements', 'interface', 'package', 'private', 'protected', 'public', 'static', 'let', 'yield']) { X('UnexpectedStrictReserved', 'strict !gen', `( ¦${w} )`, `( a + ¦${w} )`, `{ ¦${w} }`, `function ¦${w} ( ) { }`, `function ( ¦${w} ) { }`); if (w !== 'yield') S('UnexpectedStrictReserved', 'strict', `var ¦${w} ;`, `var { a : ¦${w} } = b ;`, `try { } catch ( ¦${w} ) { }`, `var [ ... ¦${w} ] = a ;`); X('UnexpectedStrictReserved', '', `class ¦${w} { }`, `class { m ( ) { ( ¦${w} ) } }`, `function ( ) { "use strict" ; ( ¦${w} ) }`, `class { m ( ¦${w} ) { } }`, `function ¦${w} ( ) { "use strict" }`, `function ( a , ¦${w} ) { "use strict" }`); X('UnexpectedStrictReserved', '!gen', `class extends ( ¦${w} ) { }`); }
for (const w of ['eval', 'arguments']) { X('UnexpectedStrictReserved', 'strict', `function ¦${w} ( ) { }`, `function ( ¦${w} ) { }`, `( { m ( a , ¦${w} ) { } } )`); S('UnexpectedStrictReserved', 'strict', `var ¦${w} ;`, `var { a : ¦${w} } = b ;`, `try { } catch ( ¦${w} ) { }`); X('UnexpectedStrictReserved', '', `class ¦${w} { }`, `class { m ( ¦${w} ) { } }`); X('InvalidLhsInAssignment', 'strict', `( ${w} ¦= a )`, `( ${w} ¦+= a )`, `( [ ¦${w} ] = a )`, `( { a : ¦${w} } = b )`, `( { ¦${w} } = b )`); X('InvalidLhsInPostfixOp', 'strict', `( ¦${w} _++ )`); X('InvalidLhsInPrefixOp', 'strict', `-- ¦${w}`); S('InvalidLhsInFor', 'strict', `for ( ${w} ¦of a ) ;`, `for ( ${w} ¦in a ) ;`); X('InvalidDestructuringTarget', 'strict', `( ¦${w} ) _=> a`, `¦${w} _=> a`, `( [ ¦${w} ] ) _=> a`, `async _( ¦${w} ) _=> a`); }
S('IllegalLanguageModeDirective', 'list', 'function f3 ( a = 1 ) { ¦"use strict" }', "function f3 ( { a } ) { ¦'use strict' ; b }", 'function f3 ( ... a ) { ¦"a" ; "use strict" ; }', 'async _function f3 ( [ a ] ) { ¦"use strict" }', 'function * f3 ( a , { b } ) { ¦"use strict" ; }');
X('IllegalLanguageModeDirective', '', '( a = 1 ) _=> { ¦"use strict" }', '( { a } ) _=> { ¦"use strict" ; b }', 'function ( ... a ) { ¦"use strict" }', '( { m ( a = 1 ) { ¦"use strict" } } )', 'class { m ( [ a ] ) { ¦"use strict" } }', 'async _( ... a ) _=> { ¦"use strict" }', '( { set a ( { b } ) { ¦"use strict" } } )', 'class { constructor ( a = 1 ) { ¦"use strict" } }', 'class { static * m ( a , b = 1 ) { ¦"x" ; "y" ; "use strict" ; } }', 'async _function ( { a } ) { ¦"use strict" }');
X('YieldInParameter', '', 'function * ( a = ¦yield ) { }', 'function * ( a , { b = ¦yield _c } ) { }', '( { * m ( a = ¦yield ) { } } )', 'class { * m ( [ a = ¦yield ] ) { } }', 'async _function * ( a = ¦yield _b ) { }', 'function * ( ) { ( a = ¦yield ) _=> b }', 'function * ( ) { ( a , b = ¦yield _* c ) _=> b }', 'function * ( ) { x = async _( a = ¦yield ) _=> b }', 'function * ( ) { x = ( a = [ b , ¦yield _c ] ) _=> d }');
X('AwaitExpressionFormalParameter', '', 'async _function ( a = ¦await b ) { }', 'async _function ( a , { b = ¦await c } ) { }', '( { async _m ( a = ¦await b ) { } } )', 'class { async _* m ( a = ¦await b ) { } }', 'async _function ( ) { ( a = ¦await b ) _=> c }', 'async _function ( ) { x = async _( a = ¦await b ) _=> c }', 'async _function ( ) { x = ( a , b = f ( ¦await c ) ) _=> d }', 'async _( ) _=> { ( a = ¦await b ) _=> c }');
X('UnexpectedReserved', '', 'async _function ( ) { var ¦await ; }', 'async _function ( ¦await ) { }', 'async _function ¦await ( ) { }', 'async _( ) _=> { var { a : ¦await } = b }', 'async _function ( ) { ( { ¦await } ) }', 'async _function ( ) { function ¦await ( ) { } }', 'async _function ( ) { class ¦await { } }', 'async _function ( ) { try { } catch ( ¦await ) { } }', 'async _¦await _=> a', '( { async _m ( ¦await ) { } } )', 'async _function ( ) { x = ¦aw\\u0061it ; }');
X('UnexpectedReserved', '!async', 'async _( a , ¦await ) _=> b');
X('UnexpectedReserved', '!strict', 'function * ( ) { var ¦yield ; }', 'function * ( ¦yield ) { }', 'function * ¦yield ( ) { }', 'function * ( ) { ( { ¦yield } ) }', 'function * ( ) { function ¦yield ( ) { } }', 'function * ( ) { try { } catch ( ¦yield ) { } }', '( { * m ( ¦yield ) { } } )', 'function * ( ) { var [ ¦yi\\u0065ld ] = a ; }');
S('InvalidOrUnexpectedToken', 'strict', '¦010 ;', '( a , ¦08 ) ;', '¦09.5 ;', 'x = ¦"\\1" ;', "x = ¦'a\\07' ;", '[ ¦"\\8" ] ;', 'x = { ¦"\\01" : 1 } ;', 'x = { ¦07 : 1 } ;');
X(['UnexpectedToken', 'b'], '', '( a _¦b )', '[ a _¦b ]', 'f ( a _¦b )', '{ a _¦b }', '{ a : c _¦b }', '( 1 _¦b )', '( "s" _¦b )', '( a . c _¦b )', '( a _++ _¦b )', 'function ( a _¦b ) { }', 'class a _¦b { }', '`t${ a _¦b }`', 'new A ( a _¦b )', '( a ? c _¦b )', '( this _¦b )', '( new A _¦b )', '( /r/ _¦b )', '( `t` _¦b )');
S(['UnexpectedToken', 'b'], 'list', 'a _¦b ;', 'var a _¦b ;', 'var a = 1 _¦b ;', 'debugger _¦b ;', 'throw _a _¦b ;', 'if _¦b ;', 'while _¦b ;', 'for _¦b ;', 'switch _¦b ;', 'do a ; while _¦b ;', 'try _¦b ;', 'try { } catch _¦b ;', 'try { } finally _¦b ;', 'let c = 1 _¦b ;', 'for ( ; ; a _¦b ) ;', 'for ( var a _¦b ) ;', 'if ( a _¦b ) ;', 'switch ( a ) { _¦b }', 'switch ( a ) { case 1 _¦b : }', 'switch ( a ) { default _¦b : }', 'function a _¦b ( ) { }');
S(['UnexpectedToken', 'of'], '', 'for ( var a , b ¦of c ) ;', 'for ( let a = 1 ¦of b ) ;', 'for ( var a = 1 ¦of b ) ;', 'for ( const a = 1 , b = 2 ¦of c ) ;', 'for ( var [ a ] = 1 ¦of b ) ;');
S(['UnexpectedToken', 'in'], '', 'for ( let a , b ¦in c ) ;', 'for ( let a = 1 ¦in b ) ;', 'for ( var [ a ] = 1 ¦in b ) ;', 'for ( const a = 1 ¦in b ) ;', 'for ( var a , b ¦in c ) ;');
S(['UnexpectedToken', ','], '', 'for ( a of b ¦, c ) ;', 'for ( let a of b ¦, c ) ;', 'for ( var a of b ¦, c ) ;', 'var [ ... a ¦, b ] = c ;', 'var [ ... a ¦, ] = c ;', 'var { ... a ¦, b } = c ;', 'var a , ¦, b ;');
S(['UnexpectedToken', '{'], '', 'var { ... ¦{ a } } = b ;', 'try { } catch ( { ... ¦{ a } } ) { }');
S(['UnexpectedToken', '['], '', 'var { ... ¦[ a ] } = b ;');
S(['UnexpectedToken', 'import'], '', '{ ¦import { a } from "m" ; }', 'if ( a ) ¦import "m" ;', 'x = function ( ) { ¦import "m" ; } ;', 'W : ¦import a from "m" ;');
S(['UnexpectedToken', 'export'], '', '{ ¦export { } ; }', 'if ( a ) ¦export default 1 ;', 'x = function ( ) { ¦export var b ; } ;', 'W : ¦export * from "m" ;');
L('InvalidOrUnexpectedToken', '¦@', '¦#', '¦#a', '¦¬', 'a . ¦#b', '1¦a', '0xf¦g', '0b1¦2', '0o7¦8', '1¦_0', '3¦in', '1.5e1¦x', '0b¦ ;', '0x¦ ;', '0o¦ ;', '1e¦ ;', '1e+¦ ;', '"a¦\n', "'¦\r\n", '"b\\\r\nc¦\n', '/a¦\n', '/[/]¦\n', '/a¦\\\n', '08¦a', '.5¦$', '¦`\\u`', '¦`\\x1`', '¦`\\1`', '`a${ b¦@', '1¦\\u0061', '¦\u{1f600}', '¦\u0000', '"x¦\n');
L('InvalidUnicodeEscapeSequence', '"\\u¦"', '"\\u{¦"', '"ab\\u12¦"', '"\\x¦"', '"\\x1¦g"', "'\\u{110000¦}'", 'a\\¦', '\\u¦ ;', 'a\\u00¦ ;', 'a\\u{¦}', "'\\u¦g'");
const EOFS = ['( ', 'f ( a , ', '[ a ', '{ ', 'x = { a : ', 'x = { a', 'function f ( ', 'function f ( ) { ', 'if ( a', 'if ( a ) ', 'if ( a ) b ; else ', 'while ( a )', 'do a ; while', 'do ; ', 'for ( ', 'for ( ; ; ) ', 'for ( a of ', 'var ', 'var a =', 'let { b', 'a = ', 'a + ', 'a ? ', 'a ? b : ', 'a ? b ', 'a . ', 'new ', 'new . ', 'class ', 'class A {', 'class A extends ', 'class A { m ( ) ', 'switch ( a ) { ', 'switch ( a ) { case 1', 'switch ( a ) { default : ', 'try { } ', 'try { } catch ', 'try { } catch ( e ) ', 'try { } finally ', 'typeof ', '! ', '( ) _=> ', '( )', '( a , )', '( ... a )', 'async _( a ) _=> { ', 'async _function ', 'W : ', '`t${ a ', '`t${ ', 'delete ', 'a [ b ', 'f ( ... ', '[ ... ', 'function * g ( ) { yield', 'const a = [', 'a ** ', 'a , ', '++ ', 'x = { get a ( ) ', 'x = { async ', 'x = { [ a ', 'x = { m ( ', 'with ( a ', 'if ( a ) { b ; ', 'a _=> ', '- ', '( a , b ', 'var { a : ', 'var [ a , ', 'for ( let a of b ', 'for ( const a in ', 'for ( a ; b ; ', 'x = class { static ', 'x = class { get ', 'function f ( a , ', 'function f ( a = ', 'function f ( ... ', 'a instanceof ', 'a in ', 'void '];
const EOFT = ['`', '`abc', '`t${ a } b', '`t${ `u${ b }` } ', 'a `', '/*', '/* x', '/***', 'f ( `t${ a }', '`\\`', '`a\\${', 'x = `\n'];
const EOFM = ['import ', 'import { a ', 'import { a as ', 'import a ', 'import a , ', 'import * ', 'import * as ', 'import { a } ', 'import { a } from ', 'import a from', 'export ', 'export default ', 'export { a ', 'export { a as ', 'export * ', 'export * from ', 'export default class { ', 'export async ', 'export const '];
const MODS = [['UnexpectedToken', 'b', 'import a from _¦b ;'], ['UnexpectedToken', 'a', 'import * ¦a from "m" ;'], ['UnexpectedToken', '1', 'import ¦1 ;'], ['UnexpectedToken', '}', 'import { a as ¦} from "m" ;'], ['UnexpectedToken', 'if', 'import { ¦if } from "m" ;'], ['UnexpectedToken', 'if', 'import { a as ¦if } from "m" ;'], ['UnexpectedToken', 'if', 'import ¦if from "m" ;'], ['UnexpectedToken', 'if', 'import * as ¦if from "m" ;'], ['UnexpectedToken', 'if', 'export { ¦if } ;'], ['UnexpectedToken', 'if', 'export var ¦if ;'], ['UnexpectedToken', 'b', 'export { a } _¦b ;'], ['UnexpectedToken', 'a', 'export ¦a ;'], ['UnexpectedToken', 'var', 'export default ¦var a ;'], ['UnexpectedToken', 'const', 'export default ¦const a = 1 ;'], ['UnexpectedToken', '(', 'import ¦( a ) ;'], ['UnexpectedToken', '.', 'import ¦. meta ;'], ['UnexpectedStrictReserved', null, '¦yield ;'], ['UnexpectedStrictReserved', null, 'var ¦static ;'], ['UnexpectedStrictReserved', null, 'import ¦let from "m" ;'], ['UnexpectedStrictReserved', null, 'import { a as ¦eval } from "m" ;'], ['UnexpectedStrictReserved', null, 'import * as ¦arguments from "m" ;'], ['UnexpectedReserved', null, '¦await ;'], ['UnexpectedReserved', null, 'var ¦await ;'], ['UnexpectedReserved', null, 'function f3 ( ¦await ) { }'], ['UnexpectedReserved', null, 'import ¦await from "m" ;'], ['UnexpectedReserved', null, '( ¦await ) => a ;'], ['UnexpectedReserved', null, 'x = function ( ) { return _¦await ; } ;'], ['MissingFunctionName', null, 'export function ¦( ) { }'], ['StrictWith', null, '¦with ( a ) b ;'], ['UnexpectedReserved', null, 'class ¦await { }'], ['UnexpectedToken', ',', 'import { a , ¦, b } from "m" ;'], ['UnexpectedToken', ',', 'import * as a ¦, b from "m" ;'], ['UnexpectedToken', 'import', 'x = ( ) _=> { ¦import "m" ; } ;'], ['UnexpectedToken', 'import', '{ ¦import "m" ; }'], ['UnexpectedToken', 'export', 'if ( a ) { ¦export { b } ; }'], ['UnexpectedToken', ';', 'export { a as ¦;'], ['UnexpectedToken', ';', 'export * ¦; '], ['UnexpectedToken', ';', 'import { a } ¦; '], ['UnexpectedToken', 'm', 'export *  _¦m ;']];
export const VIOLATIONS = V;

const SEPS = [' ', '\n', '\r\n', '\r', '\u2028', '\t', '\u00a0', '/**/', '/*\n*/', '/*\r\n\u2029*/', '//x\n', '// \u{1f600}\r\n', '  ', '\n\n', '/*\u{1d4d0}*/'];
const FLAT = [' ', '\t', '  ', '/**/', '\u00a0', '/*\u{1d4d0}*/'];
const BEFORE = ['', '', '', 'a ;', 'var \u{1d4d0} = "\u{1f600}" ;', '`\n\n` ;', 'function f0 ( ) { return 1 ; }', '/*\u2028*/ ;', 'if ( a ) b ; else c ;', 'x = /\\// ;', 'while ( a ) break ;', 'K : while ( a ) continue _K ;', 'K : { break _K ; }', 'switch ( a ) { default : }', 'function f0 ( ) { "use strict" ; }', 'function * g0 ( ) { yield }', 'async _function h0 ( ) { await a }', 'class C0 { m ( a = 1 ) { } }', 'x = ( a , { b } ) _=> { } ;', '[ a , b ] = c ;', '( { a , b = 1 } = c ) ;'];
const AFTER = ['', '', '', 'a ;', '@', '"', ')', '}', '`', 'x = 1 ; y', 'return', 'break ;', '1 = 2', '/*', '\\', 'var var', 'W : W :', '=>', '0x'];
const WORDCH = /[\p{ID_Continue}$\\]$/u, WORDST = /^[\p{ID_Continue}$\\]/u;
// the tokens as one text, with random trivia; returns the text and the mark
function print(toks, r, style) {
  let s = '', mark = -1, pending = false;
  toks.forEach((t0, i) => {
    let t = t0, flat = false, tight = false;
    if (t === '¦') { pending = true; return; }
    const bar = t.startsWith('¦_');
    if (bar) t = '_¦' + t.slice(2);
    if (t.length > 1 && t[0] === '_') { flat = true; t = t.slice(1); }
    if (t.length > 1 && t[0] === '~') { tight = true; t = t.slice(1); if (t.length > 1 && t[0] === '~') t = t.slice(1); }
    const bare = t.replace('¦', '');
    let sep = '';
    if (s && !tight) {
      const must = WORDCH.test(s) && WORDST.test(bare) || /[-+*/%&|^<>=!.?\d]$/.test(s) && /^[-+*/%&|^<>=!.?\d]/.test(bare) || /\/$/.test(s) && /^[\p{ID_Start}]/u.test(bare) || /[\p{ID_Continue}]$/u.test(s) && /^[.\d]/.test(bare) && /\d$/.test(s);
      if (style === 0) sep = ' '; else if (style === 1) sep = must ? ' ' : ''; else sep = r.p(0.4) ? (must ? ' ' : '') : r.pick(flat || r.p(0.5) ? FLAT : SEPS);
      if (must && !sep) sep = ' ';
      if (/\/$/.test(s) && /^[/*]/.test(sep || bare)) sep = ' ' + sep;
    }
    s += sep;
    if (pending) { mark = s.length; pending = false; }
    const k = t.indexOf('¦');
    if (k >= 0) mark = s.length + k;
    s += bare;
  });
  if (pending) mark = Infinity;
  return { s, mark };
}
const words = t => t.replaceAll('"use strict"', '"use\u0001strict"').replaceAll("'use strict'", "'use\u0001strict'").replace(/~(\r\n|[\n\r\u2028])/g, '~\u0002$1').split(/ +/).filter(Boolean).map(x => x.replaceAll('\u0001', ' ').replaceAll('\u0002', ''));
const LABELS = ['W', 'w1', '$', 'W_', 'loop', 'ñ', '\u{1d4d0}x', 'async', 'of', 'get', 'Wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww'];
function nest(r, goal, v) {
  // choose statement contexts from the outside in until the violation's needs are met
  for (let tries = 0; tries < 40; tries++) {
    const st = { fn: 0, loop: 0, sw: 0, strict: goal === 'm' ? 1 : 0, gen: 0, async: 0, list: 1, label: 0 };
    let outer = ['@'];
    let bad = false;
    const depth = r.w([[3, 0], [4, 1], [3, 2], [2, 3], [1, 6]]) + (tries > 10 ? 1 : 0);
    for (let d = 0; d < depth; d++) {
      const [t, ch] = r.pick(SC);
      if (!st.list && FNDECL.test(t)) { bad = true; break; }
      if (st.label && !st.list && /^x$/.test(t)) bad = true;
      const add = words(t).map(x => /^Q\d$/.test(x) ? x + '_' + d : x);
      const at = outer.indexOf('@'); outer.splice(at, 1, ...add);
      if (ch.fn) { st.loop = 0; st.sw = 0; st.list = 1; st.label = 0; }
      Object.assign(st, ch);
      if (ch.fn && ch.list === undefined) st.list = 1;
    }
    if (bad || !cond(st, v.needs)) continue;
    return { outer, st };
  }
  return null;
}
// [{src, goal, at (offset of the offending place), kind, payload}]
export function violation(r, only) {
  if (!only && r.p(0.12)) {
    const goal = r.p(0.4) ? 'm' : 's', m = goal === 'm' && r.p(0.5), head = r.pick(m ? EOFM : EOFS);
    if (goal === 'm' && /^with/.test(head)) return null;
    const toks = [...words(r.pick(BEFORE)), ...(m ? [] : words(r.pick(['', '', '{', 'function f1 ( ) {', 'while ( a ) {', 'x = ( ) _=> {', 'class A1 { m ( ) {']))), ...words(head)];
    if (/class A1/.test(toks.join(' ')) && /^with/.test(head)) return null;
    const { s } = print(toks, r, r.int(3));
    if (r.p(0.08)) { const src = print([...words(r.pick(BEFORE)), '('], r, r.int(3)).s + ' ' + r.pick(EOFT); return { src, goal, at: src.length, kind: 'UnexpectedEOS', payload: null, what: 'unterminated template or comment' }; }
    const src = s + r.pick(['', '', ' ', '\n', '\r\n', '/**/', ' //x', '\u2028', '//\n', '/*\n*/']);
    return { src, goal, at: src.length, kind: 'UnexpectedEOS', payload: null, what: 'end of the source after ' + head };
  }
  if (!only && r.p(0.05)) {
    const [kind, payload, t] = r.pick(MODS);
    const { s, mark } = print([...words(r.pick(BEFORE)), ...words(t)], r, r.int(3));
    return { src: s, goal: 'm', at: mark, kind, payload, what: t };
  }
  const v = only ?? r.pick(V), goal = r.p(0.3) ? 'm' : 's';
  if (goal === 'm' && v.needs.includes('!strict')) return null;
  const n = nest(r, goal, v); if (!n) return null;
  let inner = words(v.t);
  if (!v.stmt) {
    let e = r.pick(EC);
    if (r.p(0.3)) { const o = r.pick(['( @ )', '[ @ ]', 'f ( @ )', 'a + ( @ )', '{ a : @ }', '[ b , @ ]', '( ) _=> ( @ )', 'g ( c , @ , d )']); inner = words(o).flatMap(x => x === '@' ? inner : [x]); }
    if (!n.st.list && /^(function|let|const)/.test(e) || inner[0] === '{' && /=> @/.test(e) || /`t/.test(e) && inner.includes('¦}') || /class/.test(e) && v.needs.includes('!strict')) e = '( @ ) ;';
    inner = words(e).flatMap(x => x === '@' ? inner : [x]);
  }
  const before = r.pick(BEFORE);
  let toks = [...words(before), ...n.outer.flatMap(x => x === '@' ? inner : [x])];
  const label = r.p(0.5) ? 'W' : r.pick(LABELS);
  toks = toks.map(x => { const m = /^([_~¦]*)W$/.exec(x); return m ? m[1] + label : x; });
  let { s, mark } = print(toks, r, v.lex ? r.int(2) : r.int(3));
  if (mark < 0) return null;
  if (mark === Infinity) mark = s.length;
  else if (r.p(0.5)) s += r.pick(['\n', ' ', '\r\n']) + r.pick(AFTER);
  let [kind, payload] = Array.isArray(v.kind) ? v.kind : [v.kind, null];
  if (payload === 'W') payload = label;
  return { src: s, goal, at: mark, kind, payload, what: v.t };
}
