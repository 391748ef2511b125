// C12 statements and declarations.
import { programs, mutants, seqs, cross, nested, about, corpus, tokenise, mutate } from '../lib/work.mjs';
import { longs } from '../lib/long.mjs';
import { lists } from '../lib/lists.mjs';
export const STMTS = [';', '{}', '{a}', '{a;b}', '{{}}', 'a', 'a;', 'a\n', 'var a', 'var a;', 'var a=1,b;', 'var a,b=2,c', 'var{a}=b;', 'var[a,b]=c', 'var{a:b=1,...c}=d,e', 'let a', 'let a=1,b=2;', 'let{a}=b', 'let[a]=b', 'const a=1', 'const a=1,{b}=c;', 'const[a]=b', 'let a\nlet b', 'if(a)b', 'if(a)b;else c', 'if(a){}else{}', 'if(a);else;', 'if(a)if(b)c;else d', 'if(a){if(b)c}else d', 'if(a)b;else if(c)d;else e', 'if(a)while(b)if(c)d;else e', 'if(a)b\nelse c', 'if(a)function f(){}', 'if(a)function f(){}else function g(){}', 'for(;;);', 'for(;;){}', 'for await(a of b);', 'for await(var a of b)c', 'for await(let a of b){}', 'for await(const{a=1}of b)await c', 'for await([a,...b]of c);', 'for await(a.b of c,d);', 'for await(async of b);', 'for await(a in b);', 'for await(;;);', 'for await(var a;;);', 'for await(a;b;c);', 'for await(let a=1 of b);', 'for await(let of b);', 'for await\n(let of of of)x', 'for await a of b;', 'for aw\\u0061it(a of b);', 'for(a;b;c)d', 'for(var a=1,b;c;d)e', 'for(let a=1;b;c)d', 'for(const a=1;;)b', 'for(a=1,b=2;c,d;e,f);', 'for(a in b);', 'for(var a in b);', 'for(let a in b,c);', 'for(const a in b);', 'for(var a=1 in b);', 'for(a.b in c);', 'for([a]in b);', 'for({a}in b);', 'for(var{a}in b);', 'for(let[a]in b);', 'for((a)in b);', 'for(a of b);', 'for(var a of b);', 'for(let a of b)c', 'for(const a of b){}', 'for(a.b of c);', 'for([a]of b);', 'for({a:b=1}of c);', 'for(var{a}of b);', 'for(let{a}of b);', 'for(const[a,...b]of c);', 'for(let of b);', 'for(let in b);', 'for(let;;);', 'for(let=1;;);', 'for(let of of);', 'for(let a=1,b=2;a<b;a++)for(;;)c', 'for(var i=(a in b);;);', 'for(var i=[a in b];;);', 'for(var i=f(a in b);;);', 'for(var i={a:a in b};;);', 'for(var i=a?b in c:d;;);', 'for(i=()=>{a in b};;);', 'for(x of y,z);', 'for(x in y,z);', 'for(var i=0 in {});', 'while(a)b', 'while(a){}', 'while(a);', 'do a;while(b)', 'do{}while(b);', 'do;while(a)b', 'do a\nwhile(b)', 'do do;while(a);while(b)', 'do if(a)b;else c;while(d)', 'switch(a){}', 'switch(a){case b:}', 'switch(a){default:}', 'switch(a){case b:c;d;case e:default:f;case g,h:}', 'switch(a){case b:{c}break;default:break}', 'switch(a){case 1:let b;case 2:function c(){}}', 'a:;', 'a:b', 'a:{}', 'a:b:c', 'a:for(;;)break a', 'a:for(;;)continue a', 'a:{break a}', 'a:while(1){b:while(1){continue a;break b}}', 'a:function b(){}', 'a:var b', 'while(1)break', 'while(1)continue', 'while(1){break;continue}', 'do break;while(1)', 'for(;;)continue', 'for(a in b)break', 'for(a of b){continue}', 'switch(a){case 1:break}', 'with(a)b', 'with(a){}', 'with(a)with(b)c', 'throw a', 'throw a,b;', 'throw new a', 'try{}catch(a){}', 'try{}catch{}', 'try{}finally{}', 'try{a}catch(b){c}finally{d}', 'try{}catch{}finally{}', 'try{}catch({a,b=1}){}', 'try{}catch([a,...b]){}', 'debugger', 'debugger;', 'function a(){}', 'function*a(){}', 'async function a(){}', 'async function*a(){}', 'function a(){return}', 'function a(){return b;c}', 'function a(){"use strict";b}', 'class a{}', 'class a extends b{}', '"use strict"', '"use strict";', "'a';'b'", '"a"+b', '("use strict")', '"a"\n"b"', '"a".b', 'import("a")', 'async', 'async\nfunction a(){}', 'let', 'let\na', 'let;', 'let+1', 'let\n+1', 'yield', 'await', 'of', 'static', 'get', 'a,b', 'a=b', 'a=>b', 'a=>{}', '()=>{}\n', '(function(){})()', '!function(){}()', '({})', '[]', '/r/', '`t`', '+a', 'new a', 'a++', 'a?b:c', 'delete a.b', 'return', 'return a', 'break', 'continue', 'break a', 'case a:', 'default:', 'else', 'catch', 'finally{}', 'try{}', 'do;', 'while', 'if', 'for', 'var', 'const a', 'let[', 'let a,', 'var a=', 'for(', 'for()', 'for(;)', 'for(;;', 'switch', 'switch(a)', 'throw', 'throw;', 'a:', 'function', 'class', 'enum', 'if(a)', 'if(a)let b', 'if(a)let\nb', 'if(a)const b=1', 'if(a)class b{}', 'while(a)function b(){}', 'while(a)let b', 'for(;;)let b', 'for(;;)let[a]', 'do function a(){}while(b)', 'with(a)function b(){}', 'a:let b', 'a:class b{}', 'a:async function b(){}', 'a:function*b(){}', 'if(a)async function b(){}', 'if(a)function*b(){}', 'for(let a)b', 'for(var a=1 of b);', 'for(let a=1 in b);', 'for(let a,b of c);', 'for(var a,b in c);', 'for(const a;;);', 'for(a+b in c);', 'for(a()of b);', 'for(a=1 in b);', 'for([a]=1 in b);', 'for(a of);', 'for(in a);', 'for(of of of);', 'for(this in a);', 'for(1 of a);', 'for((a,b)of c);', 'for(({a})of b);', 'for(({a}) in b);', 'for(let.a in b);', 'for(let.a of b);', 'for(let().a in b);', 'try{}catch(a,b){}', 'try{}catch(){}', 'try{}catch(a=1){}', 'try a;catch(b){}', 'try{}catch a{}', 'switch(a){b}', 'switch(a){default:default:}', 'switch(a){case:}', 'switch(a){case b}', 'with', 'with()a', 'while()a', 'if()a', 'do;while()', 'do a while(b)', 'do a b;while(c)', '{', '}', '{a', '(', ')', 'debugger a', 'break;', 'a:a:b', 'a:{a:b}', 'a:{}a:{}'];
export const SCTX = ['@', '{@}', '{@;@}', '{a;@}', '{@\nb}', '@;a', '@\na', 'a;@', 'a\n@', 'if(a)@', 'if(a)@;else b', 'if(a)@\nelse b', 'if(a)@ else b', 'if(a)b;else @', 'if(a)if(b)@;else c', 'for(;;)@', 'for(a in b)@', 'for(a of b)@', 'for(let a of b)@', 'while(a)@', 'do @;while(a)', 'do @\nwhile(a)', 'do @ while(a)', 'do{@}while(a)b', 'a:@', 'with(a)@', 'switch(a){case b:@}', 'switch(a){default:@;case b:c}', 'switch(a){case b:@\ncase c:d}', 'switch(a){case b:@ case c:}', 'try{@}catch(a){}', 'try{}catch(e){@}', 'try{}catch{@}finally{@}', 'try{}finally{@}', 'function f(){@}', 'function f(){a;@;b}', 'function*g(){@}', 'async function f(){@}', 'async function*f(){@}', 'async function f(){for await(a of b)@}', 'async function f(){if(a)@\nelse b}', 'x=function(){@}', 'x=()=>{@}', 'x=async()=>{@}', 'x={m(){@}}', 'x={get m(){@}}', 'class A{m(){@}}', 'class A{static m(){@}constructor(){@}}', 'while(1){@}', 'L:while(1){@}', 'L:{@}', '"use strict";@', 'function f(){"use strict";@}', '"a"\n@', 'for(;;){if(a)@}', 'function f(){if(a)@;else{@}}', 'x=a=>{@}', 'export default 1;@', 'import"m";@'];
// places of an expression in a statement, and expressions that matter there
const SLOTS = ['@', '@\n', 'var a=@', 'let a=@,b', 'const{a=@}=b', 'if(@)a', 'if(@)a;else b', 'if(a)@', 'if(a);else @', 'for(@;;);', 'for(;@;);', 'for(;;@);', 'for(var a=@;;);', 'for(let a=@,b;;);', 'for(a in @);', 'for(a of @);', 'for(var a of @)b', 'for(@ in a);', 'for(@ of a);', 'for(var a=@ in b);', 'for(let[a=@]of b);', 'for([a=@]of b);', 'for({a=@}in b);', 'for(var{[@]:a}=b;;);', 'for(a[@]in b);', 'for(f(@);;);', 'for(x=>{@};;);', 'for(function(){@};;);', 'for(`${@}`;;);', 'for([@];;);', 'for((@);;);', 'for({a:@};;);', 'for(a?@:b;;);', 'while(@)a', 'do a;while(@)', 'do @;while(a)', 'return @', 'return @;a', 'throw @', 'throw @;a', 'switch(@){}', 'switch(a){case @:}', 'switch(a){case @:@}', 'switch(a){default:@}', 'with(@)a', 'with(a)@', 'a:@', 'try{@}catch{}', 'try{}catch({a=@}){}', 'try{}finally{@}', '{@}', '{@;b}', 'function f(a=@){}', 'function f(){return @}', 'class A extends @{}', 'class A{[@](){}}', 'export default @', 'debugger;@', 'var a,b=@\nc', 'a=@', 'f(@)'];
const EXPRS = ['a', 'a in b', 'a,b', 'a,b in c', 'x=>x in y', 'x=>{}', 'yield', 'yield a in b', 'yield*a', 'await a', 'await a in b', 'a?b in c:d', 'a?b:c in d', 'a=b in c', '/r/', '/=/g', '{}', '{a}', '{a:b}', '{a:b in c}', 'function(){}', 'function(){a in b}', 'class{}', 'class A{}', 'async x=>y', 'async()=>{}', 'async function(){}', '[a]', '[a in b]', '(a in b)', 'a[b in c]', 'f(a in b)', '`${a in b}`', 'new a', 'new a(b in c)', 'let', 'let in a', 'of', 'async', 'async in a', '`t`', 'a\n++b', 'a\n/b/c', 'this', 'new.target', 'super.x', '(a,b)', '...a', 'a=>{}\n/b/g', 'delete a', '-a**b', 'a**-b', '(a)=b', '[a]=b', '{a}=b', '({a}=b)', 'a++', '--a', '"use strict"', '"a"', '0', '010', 'in', 'a instanceof b', '!a in b', 'a<b in c', 'a in b in c', 'a||b in c', 'typeof a in b', '()=>{a in b}', '()=>({a:b in c})', 'class{m(){a in b}}', '', 'a b', 'a;b', 'break', 'var x', 'a:b', 'else', 'enum', 'import(a)', 'f\n(a)', 'a\n(b)', 'a\n[b]', 'a\nb', 'yield\na', 'async\nx=>y', 'let\na', 'let[a]=b', 'static', 'a=b,c=d', 'a+b', 'a/b', 'null'];
const FSCTX = ['@', 'function f(){@}', 'function*f(){@}', 'async function f(){@}', 'async function*f(){@}', 'x=()=>{@}', 'x=async()=>{@}', 'x={m(){@}}', 'class A{m(){@}}', 'while(a){@}', 'function f(){if(a){@}}', 'function f(){x=()=>{@}}', 'function*f(){x=()=>{@}}', 'for(;;){@}', 'switch(a){case b:@}', 'L:{@}', 'for(x=function(){@};;);', 'for(x=()=>{@};;);', 'for(var x of[()=>{@}]);', 'if(a)@;else b', 'do @\nwhile(a)', '`${()=>{@}}`', '({a(){@}}.b)', 'async function f(){x=function(){@}}', '@;@', '"use strict";@', 'export default function(){@}'];
const TYPES = new Set(['BlockStatement', 'VariableDeclaration', 'VariableDeclarator', 'IfStatement', 'ForStatement', 'ForInStatement', 'ForOfStatement', 'WhileStatement', 'DoWhileStatement', 'LabeledStatement', 'BreakStatement', 'ContinueStatement', 'ReturnStatement', 'WithStatement', 'SwitchStatement', 'SwitchCase', 'ThrowStatement', 'TryStatement', 'CatchClause', 'DebuggerStatement', 'EmptyStatement', 'ExpressionStatement', 'Program', 'FunctionDeclaration', 'ClassDeclaration']);
const MODES = [['s', ''], ['s', '"use strict";'], ['m', '']];
const ST = { s: { expr: 4, var: 6, lex: 6, block: 3, empty: 2, if: 6, for: 5, forin: 4, forof: 4, while: 4, dowhile: 4, switch: 5, continue: 5, break: 5, return: 4, with: 2, label: 4, throw: 2, try: 4, debugger: 2, func: 1, use: 0.5 }, e: { arrow: 0.7 }, p: { func: 0.3, class: 0.1 } };
export default {
  id: 'C12',
  rule: '270 statement texts (well-formed and broken) in 56 statement contexts in sloppy, strict and module code (exhaustively), 90 expressions in 58 places of statements in 27 bodies, all pairs of statements with four separators, contexts nested up to four deep, all short token sequences over alphabets for if/else, for heads, switch, try, labels, do-while, declarations and directives, statement-rich generated programs, their token mutants, and real-world function bodies with edits; whole trees compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor'],
  relevant: about(TYPES, null),
  streams: () => [
    ...longs(),
    ...lists('cases handlers branches declarators'),
    cross('statements in contexts', SCTX, STMTS, MODES),
    { name: 'pairs of statements', enum: true, n: { quick: 100000, thorough: STMTS.length ** 2 * 4 }, make: (i, r, ctx) => { const n = STMTS.length; const k = ctx.quick ? r.int(n * n * 4) : i; const s = STMTS[k % n] + ['', '\n', ';', ' '][Math.floor(k / n / n)] + STMTS[Math.floor(k / n) % n]; return { src: r.p(0.2) ? 'while(1){' + s + '}' : s, goal: r.p(0.15) ? 'm' : 's' }; } },
    { name: 'expressions in places of statements', enum: true, n: { quick: SLOTS.length * EXPRS.length * 16, thorough: SLOTS.length * EXPRS.length * FSCTX.length * 3 }, make: (i, r, ctx) => { const N = SLOTS.length * EXPRS.length; const e = EXPRS[i % EXPRS.length], k = SLOTS[Math.floor(i / EXPRS.length) % SLOTS.length], c = ctx.quick ? (i < N ? '@' : r.pick(FSCTX)) : FSCTX[Math.floor(i / N) % FSCTX.length]; const [goal, p] = ctx.quick ? r.pick(MODES) : MODES[Math.floor(i / N / FSCTX.length)]; return { src: p + c.replaceAll('@', () => k.replaceAll('@', () => e)), goal }; } },
    nested('nested places', [...SLOTS, ...FSCTX], EXPRS, 40000, 500000, [2, 4], MODES),
    nested('nested contexts', SCTX, STMTS, 60000),
    { name: 'several statements', n: { quick: 30000, thorough: 400000 }, make: (i, r) => { let s = ''; for (let n = r.range(3, 7); n > 0; n--) s += r.pick(STMTS) + r.pick([';', '\n', '', ' ', ';\n']); const [goal, p] = r.pick(MODES); return { src: p + (r.p(0.4) ? r.pick(SCTX).replaceAll('@', () => s) : s), goal }; } },
    ...seqs('if and else', 'if(a) else x; { } ; while(a) \\n x', ['@', 'if(a)if(b)@'], { max: 7, full: 4, tfull: 6 }),
    ...seqs('for heads', 'var let a , = in of ; [ ] { } const 1', ['for(@)x', 'for(@;;)x', 'for(@ of b)x', 'for(@ in b)x'], { max: 7, full: 3, tfull: 5, sample: 9000 }),
    ...seqs('for heads with expressions', 'a in of ; ( ) = , let var .b ++ => await', ['for(@)x', 'for(;@)x'], { max: 7, full: 3, tfull: 5, sample: 6000 }),
    ...seqs('for heads of let', 'let of in ; = a [ ] . ( ) , { }', ['for(@ b)x', 'for(@)x', 'for(let @)x'], { max: 6, full: 3, tfull: 5, sample: 6000 }),
    ...seqs('switch', ['case a:', 'default:', 'x;', '{', '}', 'break;', 'case', ':', ';', 'let y;'], ['switch(x){@}', 'switch(x)@'], { max: 6, full: 4, tfull: 5 }),
    ...seqs('try', ['try', '{}', 'catch', '(e)', 'finally', 'x', '{', '}', '([e])', '()'], ['@', 'try{}@'], { max: 7, full: 4, tfull: 5 }),
    ...seqs('labels and jumps', ['a:', 'b:', '{', '}', 'while(1)', 'break a', 'continue a', 'break', 'continue', ';', 'function f(){', '\n'], ['@', 'a:while(1){@}'], { max: 6, full: 3, tfull: 5, sample: 9000 }),
    ...seqs('do while', 'do ; while (0) x { } \\n while(1) if(a)', ['@', 'do @ while(0)'], { max: 6, full: 4, tfull: 5 }),
    ...seqs('declarations', 'var let const a = 1 , ; \\n [b] {c} in of', ['@', '{@}', 'for(@;;);'], { max: 6, full: 3, tfull: 4, sample: 9000 }),
    ...seqs('directives', ["'use strict'", '"x"', ';', '\n', '+1', '.a', 'with(a);', '010', '}', '(1)', ',a', '"\\x61"', "'use\\u0020strict'"], ['@', 'function f(){@}', '()=>{@}', '{@}', 'class A{m(){@}}'], { max: 5, full: 3, tfull: 4, sample: 9000 }),
    ...seqs('blocks', '{ } ; a \\n { } if(a) x:', ['@', 'x=()=>@'], { max: 8, full: 4, tfull: 5, sample: 6000 }),
    programs(ST, 16000),
    mutants(ST, 30000),
    { name: 'corpus with edits', n: { quick: 12000, thorough: 150000 }, make: (i, r) => { const c = corpus(); if (!c.length) return null; const t = tokenise(r.pick(c)).slice(0, 400); for (let k = r.int(3); k > 0; k--) mutate(t, r); return { src: t.join(''), goal: r.p(0.3) ? 'm' : 's' }; } },
  ],
};
