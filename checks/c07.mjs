// C07 slash: regular expression or division, and the regular expression's text.
import { Gen, text } from '../lib/gen.mjs';
import { plain, decorate } from '../lib/print.mjs';
import { allStrings, randCp, nth } from '../lib/lex.mjs';
import { longs } from '../lib/long.mjs';

const PRE = ['x', '1', '"s"', '`t`', ')', ']', '}', '(', '[', '{', ';', ',', ':', '?', '=', '+', '++', '--', '!', '*', '=>', '...', '.', 'return', 'typeof', 'void', 'delete', 'in', 'instanceof', 'of', 'new', 'case', 'default', 'do', 'else', 'throw', 'if', 'while', 'for', 'function', 'class', 'this', 'null', 'true', 'yield', 'await', 'async', 'let', 'super', 'get', 'var', '\n', '/r/', '${', '`', 'break', 'extends', 'import', 'export', 'target', 'static', 'debugger', '&&', '~', 'x=', '%=', '<', '==='];
const POST = ['/a/g', '/a/', '/a/g;', '/a/i.b', '/=a/', '/=a', '/a', '/ a / b', '/[/]/', '/\\//', '/a/ in x', '/(/g', '/*c*/ /a/', '//\n/a/g', '/a/g)', '/a/g}', '/a/}', '/a/g]', '/a/g,b', '/a/\n/b/', '/a/g/b', '/a/ /b/g'];
const TEMPL = ['@', '(@', '{@', '[@', 'x=@', 'f(@)', 'if(x)@', 'while(x)@', 'for(;;)@', 'for(x of@)break', 'do@while(0)', '(x)@', 'function f(){@}', 'x={a:@}', '`${@}`', 'function*g(){@}', 'async()=>{@}', 'switch(x){@}', 'case_:@', 'x=>@', 'class A{@}', 'class A{m(){@}}', 'x?@:y', 'x?y:@', 'with(x)@', 'label:@', 'try{}catch(e){}@', 'function f(){}@', 'x=function(){}@', 'class A{}@', 'x=class{}@', '{}@', 'x={}@', '()=>{}@', 'x=()=>{}@', 'if(x){}@', 'if(x){}else{}@', 'x\n@', 'x++@', 'x\n++@', '(x)++@', '[]@', 'new X@', 'async function f(){}@', 'x=async()=>{}@', 'do;while(0)@', 'a.if@', 'a.return@', 'a.typeof@', 'x=a.in@', 'while(0){}@', 'for(;;){}@', 'switch(0){}@', 'with(x){}@', '`a`@', '`${x}`@', 'x`a`@', '/r/@', '/r/g@', '"s"@', 'this@', 'null@', 'x=yield@', 'yield@', 'await@', 'let@', 'async@', 'of@', 'get@', 'static@', '({get a(){}})@', '({})@', '({a(){}})@', 'x={a(){}}@', 'x={get a(){}}@', 'class A{a(){}}@', 'x=class{a(){}}@', 'class A{static a(){}@}', '({a(){}@})', '({a@})', '({a:1@})', '({[@]:1})', 'function f(a=@){}', '(a=@)=>1', 'var a=@', 'var{a=@}=b', 'for(var a=@;;);', 'for(;@;);', 'for(;;@);', 'for(x in@);', 'throw@', 'return_@', 'function f(){return@}', 'function*g(){yield@}', 'function*g(){yield*@}', 'async function g(){await@}', 'typeof@', 'void@', 'delete@', 'x in@', 'x instanceof@', 'new@', 'case@', 'switch(0){case@:}', 'switch(0){case 0:@}', 'switch(0){default:@}', 'else@', 'if(0);else@', 'do@;while(0)', '!@', '~@', '+@', '-@', '++@', 'a+@', 'a-@', 'a*@', 'a**@', 'a%@', 'a<@', 'a>@', 'a>>@', 'a>>>@', 'a>>>=@', 'a=@', 'a+=@', 'a&&@', 'a||@', 'a|@', 'a&@', 'a^@', 'a==@', 'a===@', 'a!=@', 'a,@', '...@', 'f(...@)', '[...@]', '[,@]', '[a,@]', '({...@})', '(@)', '((@))', 'export default @', 'export default function(){}@', 'export default class{}@', 'export default{}@', 'export{}@', 'import"a"@', 'export function f(){}@', 'break@', 'while(0)break@', 'while(0)continue@', 'debugger@', 'debugger;@', 'var a@', 'a:@', '{a:@}', '{;}@', '{a}@', '{a\n}@', '{}@/1/g', '/**/@', 'x/**/@', '//\n@', 'x//\n@', 'function f(){}\n@', '(function(){})@', '(function(){}@)', '!function(){}@', 'new class{}@', 'x=>{}\n@', 'async x=>{}\n@', 'for await_@', 'new.target@', 'function f(){new.target@}', 'class A extends B{m(){super.x@}}', 'a[0]@', 'f()@', 'f(){@}', 'x={}\n@', 'x=function(){}\n@', '"use strict"@', '"use strict"\n@', 'x\n/**/@', 'of\n@', 'yield\n@', 'await\n@', 'let\n@', 'function*g(){yield\n@}', 'function f(){return\n@}', 'function*g(){x=yield@}', 'async()=>await@', 'function*yield_(){}@', 'function yield_(){}@', 'for(let of@;;);', 'for(let x of@);', 'for(let x in{}@);', 'x=a?{}@:b', 'x=a?b:{}@', '[{}@]', '[{}]@', '({}@)', 'f({}@)', 'f({})@', '{}{}@', '{{}}@', '{{}@}', '({a:{}@})', '({a:{}})@', 'x={a:{}}@', '`${{}}`@', '`${{}@}`', '`${()=>{}}`@', 'if(x){}\n@', 'if(x)/r/@', 'a=b\n@', 'a\n(b)@', ')@', '}@', ']@'];
export function body(r) {
  let s = '';
  for (let n = r.range(1, 5); n > 0; n--) s += r.w([
    [5, () => r.pick(['a', 'b+', 'c*?', '.', '\\d', '\\w', '^', '$', '=', '"', "'", '`', ' ', ',', ';', '(?:a)', '(a)', 'a|b', '{2}', 'x{1,3}', '${', '}', '{', '*'.slice(1), '<!-'])],
    [2, () => '[' + r.pick(['', '^']) + r.pick(['abc', '/', '\\]', '\\/', '//', '(', ')', '[', '\\\\', 'a-z', '"', '`', '/\\]/', '*/', '\\[', '^']) + ']'],
    [2, () => r.pick(['\\/', '\\\\', '\\[', '\\]', '\\(', '\\)', '\\*', '\\+', '\\.', '\\n', '\\x41', '\\u0041', '\\cA', '\\0', '\\b', '\\`', '\\$', '\\}', '\\{', '\\^', '\\"', "\\'"])],
    [1, () => { const c = String.fromCodePoint(randCp(r)); return /[\\\/\[\](){}*+?^$|\n\r\u2028\u2029]/.test(c) ? 'é' : c; }],
  ])();
  return /^[*\/]/.test(s) || s === '' ? 'a' + s : s;
}
const flags = r => r.w([[4, ''], [5, r.pick(['g', 'i', 'm', 's', 'u', 'y', 'gi', 'gm', 'gimsy'])]]);
const CH = ['/', '\\', '[', ']', 'a', 'g', '*', '(', ')', '\n', '=', '\u2028', '\r'];
// the reference does not read the pattern when its syntax is invalid: such
// sources are not judged
export default {
  id: 'C07',
  rule: '220 program templates that put 22 slash continuations after every kind of token (exhaustively), sequences of up to 3 tokens out of 68 before a slash, all bodies of up to 4 symbols over 13 characters, random bodies and flags, mutants, and slash-rich programs; compared with the reference parse, whose lexical goal is decided by its parser. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor (slash decisions corrected, see DESIGN.md)'],
  relevant: v => v.min.includes('/'),
  streams: () => [
    ...longs({ single: 600 }),
    { name: 'templates x continuations', n: TEMPL.length * POST.length * 2, make: i => { const t = TEMPL[(i >> 1) % TEMPL.length], p = POST[Math.floor((i >> 1) / TEMPL.length)]; return { src: t.replace('@', () => (i & 1 ? ' ' : /[\w$]$/.test(t.split('@')[0]) ? ' ' : '') + p), goal: /^(import|export)/.test(t) ? 'm' : 's' }; } },
    { name: 'templates x continuations, other goal and spacing', n: { quick: 30000, thorough: 300000 }, make: (i, r) => { const t = r.pick(TEMPL), p = r.pick(POST); return { src: t.replace('@', () => r.pick([' ', '\n', '/**/', '/*\n*/', '//\n']) + p), goal: r.pick(['s', 'm']) }; } },
    { name: 'one or two tokens before', n: PRE.length ** 2 * 6, make: i => { const k = i % 6; const [a, b] = [PRE[Math.floor(i / 6) % PRE.length], PRE[Math.floor(i / 6 / PRE.length)]]; return [`${a} ${b}`, `x=${a} ${b}`, `(${a} ${b}`, `function*g(){${a} ${b}`, `{${a} ${b}`, `${b}`].slice(k, k + 1).map(s => ({ src: s + ' ' + ['/a/g', '/a/g;', '/a/g)', '/a/g}', '/=a/g}', '/=a/g'][k], goal: 's' })); } },
    { name: 'three tokens before', n: { quick: 80000, thorough: 1500000 }, make: (i, r) => { const s = [r.pick(PRE), r.pick(PRE), r.pick(PRE), r.p(0.3) ? r.pick(PRE) : ''].join(' '); return { src: s + ' ' + r.pick(POST), goal: r.p(0.2) ? 'm' : 's' }; } },
    ...allStrings('bodies', CH, 5, 4, 30000, s => ({ src: 'x=/' + s + '/g', goal: 's' })),
    { name: 'bodies and flags', n: { quick: 60000, thorough: 800000 }, make: (i, r) => ({ src: r.pick(['@', 'x=@', '@.test(y)', 'f(@,@)', '[@,@]', '({a:@})', 'a/@/b', 'x\n@', '!@', '`${@}`', 'return_\n;@', '{}@', '@/@/1', 'if(x)@.y', 'x=>@', '@\n', '@ instanceof a', '@ in a']).replace(/@/g, () => '/' + body(r) + '/' + flags(r)), goal: r.p(0.2) ? 'm' : 's' }) },
    { name: 'mutated bodies', n: { quick: 30000, thorough: 400000 }, make: (i, r) => { const s = ['/', ...body(r), '/', ...flags(r)]; for (let k = r.range(1, 2); k > 0; k--) { const p = r.int(s.length + 1); r.p(0.5) ? s.splice(p, 0, r.pick(CH)) : s.splice(p, 1); } return { src: r.pick(['x=@', 'f(@)', '@', 'x\n@\n']).replace(/@/g, () => s.join('')), goal: 's' }; } },
    { name: 'programs', n: { quick: 20000, thorough: 300000 }, make: (i, r) => { const g = new Gen(r, { size: 25, depth: 4, module: i % 4 === 0, regexText: g => '/' + body(g.r).replace(/[{}]/g, '') + '/' + flags(g.r), p: { regex: 10, id: 5, func: 1.5, object: 3, class: 1 }, update: 0.2 }); const t = g.program(); const x = r.p(0.6) ? t : t.map(k => /^[-+*%&|^]$|^(<<|>>|>>>|&&|\|\||<|>)$/.test(text(k)) && r.p(0.6) ? '/' : k); return { src: r.p(0.5) ? plain(x) : decorate(x, r, { density: 0.2, asi: 0.4 }), goal: i % 4 === 0 ? 'm' : 's' }; } },
  ],
};
