// C10 semicolon insertion and restricted productions.
import { programs, mutants, seqs, program } from '../lib/work.mjs';
import { decorate, needsSep, NLS, trivia } from '../lib/print.mjs';
import { text } from '../lib/gen.mjs';
import { borrowed } from '../lib/borrow.mjs';
import { relay } from '../lib/relay.mjs';
import { longs } from '../lib/long.mjs';
import { lists } from '../lib/lists.mjs';
const A = ['a', 'a.b', 'a()', 'a[b]', '(a)', '1', '"s"', '`t`', '/r/', '/r/g', 'this', 'null', 'a++', 'a--', '++a', '-a', 'a+b', 'a=b', 'a=>b', 'a=>{}', '()=>{}', 'async', 'async()', 'async()=>{}', 'async a', 'async a=>b', 'x=function(){}', 'x=class{}', 'x={}', 'x=[]', 'function f(){}', 'class A{}', '{}', '{a}', ';', 'if(a);', 'if(a)b', 'if(a){}', 'else', 'for(;;);', 'for(;;)a', 'while(a)b', 'while(a);', 'do;while(a)', 'do a;while(b)', 'do a', 'do{}', 'switch(a){}', 'try{}catch{}', 'try{}finally{}', 'try{}', 'throw a', 'throw', 'return', 'return a', 'break', 'break L', 'continue', 'continue L', 'debugger', 'var a', 'var a=b', 'var', 'let a', 'let a=b', 'let', 'const a=b', 'const', 'L2:', 'L2:a', 'case a:', 'yield', 'yield a', 'yield*a', 'yield*', 'await a', 'await', 'new a', 'new a()', 'new', 'typeof a', 'typeof', 'delete a.b', 'void', 'a,b', 'a,', 'a?b:c', 'a?b', 'a?', 'a in b', 'a in', 'a instanceof', 'a+', 'a=', 'a.', 'a(', '(', '[', '{', '!', '~', '++', '--', '...', '=>', 'a=>', '(a)=>', 'get', 'set', 'static', 'of', 'import("m")', 'new.target', 'super.a', '"use strict"', "'x'", 'do', 'if(a)', 'while(a)', 'for(;;)', 'with(a)', 'with(a)b', 'switch(a)', 'try', 'function', 'function f', 'function f()', 'async function', 'async function f(){}', 'class', 'class A', 'extends', 'import a from"m"', 'import"m"', 'import', 'export{}', 'export{a}', 'export*from"m"', 'export default a', 'export default function(){}', 'export default class{}', 'export var a', 'export default', 'export', 'a`t`', '`${a}`', 'a=`t`', ')', ']', '}', 'a:', 'a\\u0062', 'x=y/1', 'of=>1', 'a?b:c=>d', 'x=a?{}:[]', 'yield\n', 'interface', 'enum'];
const B = ['a', 'b()', '(b)', '[b]', '{}', '{b}', '++', '--', '++b', '--b', '+b', '-b', '!b', '/b/g', '/b', '/=b', '*b', '**b', '.b', '?b:c', ':b', '=b', '=>b', '=>{}', ',b', ';', ')', '}', ']', '`t`', '"s"', '1', '.5', 'in b', 'instanceof b', 'of b', 'else b', 'while(b)', 'while(b);', 'while(b)c', 'catch{}', 'finally{}', 'function f(){}', 'function', 'class B{}', 'var b', 'let b', 'const b=1', 'if(b)c', 'for(;;);', 'do;while(b)', 'return', 'return b', 'break', 'break L', 'continue', 'throw b', 'debugger', 'yield', 'yield b', 'await b', 'async', 'async b=>c', 'async()=>{}', 'async function g(){}', 'new b', 'typeof b', 'delete b.c', 'void b', 'this', 'null', 'import"m"', 'import("m")', 'export{}', 'case b:', 'default:', 'L', 'L:b', 'L2', 'b=>c', '(b)=>c', '(b){}', '(b)\n{}', '[b]=c', '{b}=c', '...b', '<b', '>b', '&&b', '||b', '==b', '+=b', '', 'from"m"', 'as b', 'get', 'set b(){}', '*b(){}', '@', '\\u0062', '/**/', 'extends B{}', '"use strict"', '!=b', '~b', '/b/\n.c', '#', 'b c'];
const SEP = ['\n', ' ', ';', '\r', '\r\n', '\u2028', '\u2029', '/*\n*/', '/* */', '//x\n', '\n\n', '}', '/*\u2028*/', '//\r', ' \n ', '/**//*\r*/', ';\n', '\n;', '\t', ' /*a*/\n', '\v', '\ufeff', '\u0085'];
const WR = ['@', '{@}', 'function f(){@}', 'L:while(1){@}', 'function*g(){@}', 'async function g(){@}', 'async function*g(){L:for(;;){@}}', 'switch(x){case 1:@}', 'if(x)@', 'x=@', '(@)', 'x=()=>{@}', 'class C{@}', 'do @ while(0)', 'do @\nwhile(0)', '"use strict";@', 'if(x)@\nelse y', 'x={@}', 'class C extends D{m(){@}}', 'for(@', 'while(1)@'];
const RESTRICTED = ['return', 'break', 'continue', 'throw', 'yield', 'async', 'a', '(a)', 'async a', 'async(a)', 'a++', 'a.b', 'a[b]', 'f()', 'yield*', 'await', 'let', 'static', 'get', 'x=async', 'x=a', 'x=(a)', 'x=async a', 'x=async(a)', 'return yield', 'a\n++', '`t`', 'new a', 'break L', 'continue L', 'function', 'async function', 'import', 'export', 'var', 'do a', 'a=b', 'a?b:c', '++', '--', 'x=yield', 'typeof a', '({a})', '[a]', '"s"', '1', ')', '}'];
const AFTER = ['a', '++', '--', '++a', '--a', '++\na', '=>b', '=>{}', '*a', '(a)', '[a]', '`t`', '/a/g', 'L', 'L;', 'function f(){}', 'a=>b', '(a)=>b', 'a\n=>b', '(){}', 'm(){}', '', ';', '}', '+a', '-a', '!a', '=b', '{a}', '"s"', '1', 'new a', 'yield', 'of', 'in a', '.b', ',b', '?b:c', ':b', ')', 'function*f(){}', 'while(0)'];
export default {
  id: 'C10',
  rule: '155 left and 110 right fragments with 23 separators (line terminators, white space, comments with and without line terminators, semicolons) in 21 surroundings, exhaustively for the top level and sampled elsewhere; 45 restricted left contexts x 41 continuations x 23 separators in six surroundings (exhaustively); every single removal of a semicolon and every change of a gap in small generated programs; all token sequences over return/yield/async/++ alphabets with line breaks; programs printed with semicolons left out, and token mutants joined by line breaks. Whole trees compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor'],
  relevant: v => v.kind === 'crash' || /[\n\r\u2028\u2029;}]/.test(v.min) || !/^(programs|mutants|corpus)/.test(v.stream) || !v.minRef.ok,
  streams: ctx => {
    const N = A.length * B.length * SEP.length, R = RESTRICTED.length * AFTER.length * SEP.length;
    const RW = ['@', 'function f(){@}', 'function*g(){@}', 'async()=>{@}', 'L:while(1){@}', 'class C{@}'];
    const ab = k => A[k % A.length] + SEP[Math.floor(k / A.length / B.length)] + B[Math.floor(k / A.length) % B.length];
    return [
      ...longs(),
    ...lists('tails branches cases'),
      { name: 'fragments at the top level', enum: true, n: { quick: N, thorough: N }, make: i => ({ src: ab(i), goal: /^(im|ex)port/.test(ab(i)) ? 'm' : 's' }) },
      { name: 'fragments in surroundings', enum: true, n: { quick: 200000, thorough: Math.min(4000000, N * WR.length) }, make: (i, r) => { const s = ab(r.int(N)); return { src: r.pick(WR).replace('@', () => s), goal: r.p(0.1) ? 'm' : 's' }; } },
      { name: 'restricted productions', enum: true, n: R * RW.length, make: i => { const w = RW[i % RW.length], k = Math.floor(i / RW.length); const s = RESTRICTED[k % RESTRICTED.length] + SEP[Math.floor(k / RESTRICTED.length / AFTER.length)] + AFTER[Math.floor(k / RESTRICTED.length) % AFTER.length]; return { src: w.replace('@', () => s), goal: /^(im|ex)port/.test(s) ? 'm' : 's' }; } },
      { name: 'three fragments', n: { quick: 50000, thorough: 600000 }, make: (i, r) => { let s = r.pick(A); for (let n = r.range(1, 3); n > 0; n--) s += r.pick(r.p(0.6) ? SEP.slice(0, 9) : SEP) + r.pick(r.p(0.5) ? A : B); return { src: r.pick(WR).replace('@', () => s), goal: r.p(0.1) ? 'm' : 's' }; } },
      { name: 'semicolons removed one at a time', n: { quick: 4000, thorough: 50000 }, make: (i, r) => { const { toks, goal } = program(r, { size: r.pick([6, 12]), depth: 3, stmts: [2, 4] }); const t = toks.map(text); const out = []; const pr = (x, gap, g) => { let s = '', prev = ''; x.forEach((y, j) => { s += (j === gap ? g : needsSep(prev, y) ? ' ' : '') + y; prev = y; }); return s; }; t.forEach((y, j) => { if (y === ';') { const x = [...t.slice(0, j), ...t.slice(j + 1)]; for (const g of ['\n', ' ', r.pick(SEP)]) out.push({ src: pr(x, j, g), goal }); } else if (out.length < 60) out.push({ src: pr(t, j, r.pick(SEP)), goal }); }); return out; } },
      ...seqs('line breaks', ['return', '\n', 'a', '++', '--', '(', ')', '=>', ';', '{', '}', '/*\n*/'], ['function f(){@}', 'x=@'], { max: 6, full: 3, tfull: 5, sample: 12000 }),
      ...seqs('async and line breaks', ['async', '\n', 'a', '(', ')', '=>', 'function', 'f(){}', '{}', ',', '/*\n*/'], ['@', 'x=@', 'export default @'].map(w => [w, w[0] === 'e' ? 'm' : 's']), { max: 6, full: 3, tfull: 5, sample: 12000 }),
      ...seqs('yield and line breaks', ['yield', '\n', 'a', '*', '/a/g', '(', ')', ',', ';', '}'], ['function*g(){@}', 'function*g(){x=@}'], { max: 6, full: 3, tfull: 5, sample: 9000 }),
      ...seqs('jumps and line breaks', ['break', 'continue', 'throw', '\n', 'L', ';', 'a', '}', '/**/', '//\n'], ['L:while(1){@}', 'L:while(1)@'], { max: 6, full: 3, tfull: 5, sample: 9000 }),
      ...seqs('do while', ['do', 'while(0)', '\n', ';', 'a', '{}', 'while', '(0)', 'else', 'if(x)'], ['@', 'if(x)@ else y', '{@}'], { max: 6, full: 3, tfull: 5, sample: 9000 }),
      ...seqs('for heads', [';', '\n', 'a', '}', 'in', 'of', ')', '=', 'var', '/*\n*/'], ['for(@', 'for(@)x', 'for(var @;)x'], { max: 5, full: 3, tfull: 5, sample: 9000 }),
      ...seqs('declarations', ['var', 'let', 'const', 'a', '=', '\n', ',', '1', ';', '[b]', '{c}', '(d)', '/e/'], ['@', '{@}', 'function f(){@}'], { max: 6, full: 3, tfull: 4, sample: 12000 }),
      ...seqs('directives', ['"a"', "'use strict'", '\n', ';', '+', '.b', '(c)', '[d]', '010', '}', '`t`', '/e/g', '++'], ['@', 'function f(){@}', '()=>{@}'], { max: 5, full: 3, tfull: 4, sample: 9000 }),
      ...seqs('class members', ['a', '(){}', '\n', ';', 'get', 'static', '*', 'async', '=', '1', '[b]', '}'], ['class C{@}', 'class C{m(){}@}'], { max: 5, full: 3, tfull: 5, sample: 9000 }),
      { name: 'programs without semicolons', n: { quick: 16000, thorough: 200000 }, make: (i, r) => { const { toks, goal } = program(r, { size: r.pick([10, 20, 40]), stmts: [2, 6] }); return { src: decorate(toks, r, { density: r.pick([0, 0.15, 0.4]), asi: r.pick([0.5, 1]) }), goal }; } },
      { name: 'mutants with line breaks', n: { quick: 30000, thorough: 400000 }, make: (i, r) => { const { toks, goal } = program(r, { size: r.pick([5, 12]), depth: 3, stmts: [1, 3] }); let s = '', prev = ''; const pn = r.pick([0.05, 0.2, 1]); for (const t of toks) { const y = text(t); if (y === ';' && r.p(0.4)) { s += r.pick(NLS); continue; } s += (r.p(pn) ? r.pick(r.p(0.7) ? NLS : SEP.slice(7, 12)) : needsSep(s.slice(-1) === prev.slice(-1) ? prev : '', y) ? ' ' : ' ') + y; prev = y; } return { src: s, goal }; } },
      { name: 'line breaks in construct workloads', n: { quick: 60000, thorough: 700000 }, make: (i, r, k) => {
        const c = (k.borrowed ||= borrowed(k, 'C10'))(r, k); if (!c) return null;
        let s = c.src; if (r.p(0.6)) s = s.replace(/;/g, x => r.p(0.5) ? r.pick(['\n', ' ', '\u2028', '/*\n*/', '']) : x);
        const t = r.p(0.7) ? relay(c.src === s ? s : c.src, c.goal, r, { anywhere: r.pick([0.1, 0.3, 0.6]), density: r.pick([0.2, 0.6, 1]) }) : null;
        return [s, t, t && t.replace(/;/g, x => r.p(0.5) ? r.pick(['\n', ' ']) : x)].filter(x => x !== null).map(src => ({ src, goal: c.goal }));
      } },
      programs({ s: { return: 5, throw: 3, break: 4, continue: 4 }, update: 0.2 }, 8000),
      mutants({ s: { return: 5, throw: 3, break: 4, continue: 4 }, update: 0.2, e: { arrow: 4, asyncArrow: 4, yield: 4 } }, 20000),
    ];
  },
};
