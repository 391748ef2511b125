// C01 Parsing is total.
import { programs, mutants, seqs, corpus, tokenise, mutate, program, POOL, glue } from '../lib/work.mjs';
import { plain, decorate } from '../lib/print.mjs';
import { text } from '../lib/gen.mjs';
import { CRASH } from '../lib/oracle.mjs';
import { MODULE } from '../lib/driver.mjs';
import { nth } from '../lib/lex.mjs';
import { STMTS, SCTX } from './c12.mjs';
import { PATS, PPOS } from './c14.mjs';
import { borrow } from '../lib/borrow.mjs';
import { hand } from './c03.mjs';
import { refParse } from '../lib/ref.mjs';
import { NOAST } from '../lib/driver.mjs';

const STACK = { GD_STACK: String(8 << 20), GD_CPU_LIMIT_MS: '4000' };
const ALL = [...new Set(POOL)];
const CH = [...'(){}[];,<>=+-*/%&|^!~?:.\'"`\\$#@ \n\r\t\u2028\ufeffaeuxnb0189_é\u{1d4d0}\u200d\0\u0300\ud7ff\ue000\uffff\u{10ffff}'];
// every source must end in a tree that serialises or in an error that prints
const judge = (c, rec, ctx = { bump() {} }) => {
  if (CRASH.has(rec.k)) return { kind: 'crash', detail: `${rec.k}: ${rec.msg ?? ''}` };
  if (rec.k === 'err') {
    if (typeof rec.msg !== 'string' || rec.msg === '' || !(rec.line >= 0) || !(rec.col >= 0)) return { kind: 'crash', detail: 'the error does not print: ' + JSON.stringify(rec) };
    ctx.bump('errors'); return null;
  }
  ctx.bump('trees'); return null;
};
const goalOf = i => i % 2 ? 'm' : 's';
const strings = (name, alpha, wraps, max, full, tfull, sample) => {
  const out = [];
  for (let L = 0; L <= max; L++) {
    const N = alpha.length ** L * wraps.length;
    const size = t => L > t ? Math.min(N, sample * (t === full ? 1 : 12)) : N;
    out.push({ name: `${name} of ${L}`, enum: true, judge, n: { quick: size(full), thorough: size(tfull) },
      make: (i, r, ctx) => { const k = size(ctx.quick ? full : tfull) < N ? Math.floor(r.f() * N) : i; const w = wraps[k % wraps.length]; const s = nth(alpha, L, Math.floor(k / wraps.length)); const src = w.replaceAll('@', () => s); return [{ src, goal: 's' }, { src, goal: 'm' }]; } });
  }
  return out;
};
// constructs that nest: [before, after] around one more level
export const NEST = [['(', ')'], ['[', ']'], ['({a:', '})'], ['{', '}'], ['f(', ')'], ['a[', ']'], ['`${', '}`'], ['t`a${', '}b`'], ['function f(){', '}'], ['(function(){', '})'], ['()=>', ''], ['()=>{', '}'], ['(a=', ')=>0'], ['async(a=', ')=>0'], ['async()=>', ''], ['async()=>{', '}'], ['(async function(){', '})'], ['(function*(){', '})'],
  ['(class{a(){', '}})'], ['class A extends ', '{}'], ['(class extends(', '){})'], ['({a(){', '}})'], ['({get a(){', '}})'], ['({[', ']:0})'], ['({a=', '}=0)'], ['[a=', ']=0'], ['[', ']=0'], ['({a:', '}=0)'], ['[...', ']'], ['[...', ']=0'], ['({...', '})'], ['f(...', ')'], ['-', ''], ['!', ''], ['- -', ''], ['typeof ', ''], ['delete ', ''], ['void ', ''], ['new ', ''], ['new a(', ')'], ['new (', ')'], ['await ', ''], ['yield ', ''], ['yield*', ''], ['++', ''],
  ['if(a)', ''], ['if(a)x;else ', ''], ['if(', ');'], ['while(a)', ''], ['while(', ');'], ['do ', ' while(a)'], ['do;while(', ')'], ['for(;;)', ''], ['for(', ';;);'], ['for(;', ';);'], ['for(a in ', ');'], ['for(a of ', ');'], ['for(var a of b)', ''], ['for(var[a=', ']of b);'], ['with(a)', ''], ['with(', ');'], ['switch(a){case 0:', '}'], ['switch(a){default:', '}'], ['switch(', '){}'], ['switch(a){case ', ':}'], ['try{', '}catch(e){}'], ['try{}catch(e){', '}'], ['try{}finally{', '}'], ['try{}catch([a=', ']){}'], ['a:', ''], ['throw ', ''], ['return ', ''], ['var a=', ''], ['let a=', ''], ['const a=', ''], ['var[a=', ']=b'], ['var{a=', '}=b'], ['var{a:', '}=b'], ['var[', ']=b'], ['let{a:', '}=b'],
  ['a?', ':b'], ['a?b:', ''], ['a,', ''], ['a=', ''], ['a+=', ''], ['a+', ''], ['a**', ''], ['a||', ''], ['a&&', ''], ['a<', ''], ['', '+a'], ['', '||a'], ['', '.a'], ['', '[a]'], ['', '(a)'], ['', '`a`'], ['', '++'], ['', '=a'], ['', '?a:b'], ['', ',a'], ['', '=>0'], ['export default ', ''], ['export default(', ')'], ['"use strict";(function(){"use strict";', '})'], ['function*g(){yield ', '}'], ['async function g(){await ', '}'], ['function f(a=', '){}'], ['(', ')=>0'], ['({', '})=>0'], ['([', '])=>0'], ['async(', ')'], ['async(', ')=>0'], ['(a,', ')=>0'], ['a=>', ''], ['async a=>', ''], ['((', '))'], ['[[', ']]'], ['[{a:', '}]'], ['{a:', '}'], ['(`${', '}`)'], ['/*', '*/'], ['"', '"'], ["f('", "')"], ['//', '\n']];
// labels (and names before a colon) that differ from level to level
export const level = (x, k) => x.replaceAll('a:', 'l' + k + ':');
const stack = (a, d, own) => Array.from({ length: d }, (_, k) => own ? level(a, k) : a).join('');
const LEAF = ['', 'a', '1', '"s"', 'a.b', '{}', ';', '/r/', 'a=>a', 'a,b', '...a', 'a=1', 'yield', 'await', 'function(){}', 'class{}', '`t`', '@', '(', '}', 'return', 'break', 'new.target', 'super()', 'this', 'async', 'let', 'eval', 'a:b', 'a b', '/', '\\', '=>', 'a=>{}', 'function f(){}'];
const nestings = [
  // one construct nested, and each construct in each other
  { name: 'one construct nested', enum: true, judge, env: STACK, n: NEST.length * LEAF.length, make: i => { const [a, b] = NEST[i % NEST.length], l = LEAF[Math.floor(i / NEST.length)]; const out = []; for (const d of [1, 2, 3, 5, 10, 20, 40, 60]) for (const goal of ['s', 'm']) out.push({ src: stack(a, d, goal === 's') + l + b.repeat(d), goal }); return out; } },
  { name: 'two constructs alternating', enum: true, judge, env: STACK, n: { quick: NEST.length ** 2, thorough: NEST.length ** 2 * 6 }, make: (i, r) => { const A = NEST[i % NEST.length], B = NEST[Math.floor(i / NEST.length) % NEST.length], l = r.pick(LEAF); const out = []; for (const d of [1, 4, 30]) { const src = stack(A[0] + B[0], d, true) + l + (B[1] + A[1]).repeat(d); out.push({ src, goal: goalOf(i) }); } out.push({ src: A[0].repeat(30) + B[0].repeat(30) + l, goal: 's' }, { src: (A[0] + B[0]).repeat(30), goal: 'm' }); return out; } },
  { name: 'mixed nesting', judge, env: STACK, n: { quick: 12000, thorough: 200000 }, make: (i, r) => { const d = r.pick([5, 15, 30, 60]); let a = '', b = ''; const few = r.p(0.5) ? Array.from({ length: r.range(2, 4) }, () => r.pick(NEST)) : NEST; for (let k = 0; k < d; k++) { const n = r.pick(few); a += level(n[0], k); b = n[1] + b; } let s = a + r.pick(LEAF) + b; switch (r.int(4)) { case 0: s = s.slice(0, r.int(s.length)); break; case 1: { const p = r.int(s.length); s = s.slice(0, p) + r.pick(ALL) + s.slice(p); break; } case 2: { const p = r.int(s.length); s = s.slice(0, p) + s.slice(p + 1); break; } } return { src: s, goal: goalOf(r.int(2)) }; } },
];
// Lists of 70000 elements, of any kind, in a bounded depth of tree: the stack
// must not grow with the length of a list.
const depth = x => { let d = 0; if (x && typeof x === 'object') for (const k in x) d = Math.max(d, depth(x[k])); return d + (x && typeof x.type === 'string' ? 1 : 0); };
let flatCache = null;
export const flat = () => flatCache ||= (() => { const ok = new Map(); const level = f => { const a = refParse(f.src(30), f.goal), b = a.ok && refParse(f.src(60), f.goal); return b.ok && depth(a.ast) === depth(b.ast); }; return hand().filter(f => { const b = f.base ?? f; if (!ok.has(b)) ok.set(b, level(b)); return ok.get(b); }); })();
const long = { name: 'long lists', enum: true, judge, flags: NOAST, env: { GD_STACK: String(8 << 20), GD_CPU_LIMIT_MS: '30000' }, chunk: 12, n: { quick: 320, thorough: 6000 },
  make: (i, r, ctx) => { const all = flat(); if (!ctx.quick && i >= all.length) return null; const f = ctx.quick ? r.pick(all) : all[i]; return { src: f.src(70000), goal: f.goal, key: f.name + ' x 70000' }; } };
const withEnv = (s, env) => ({ ...s, judge, env });
export default {
  id: 'C01',
  rule: 'every string of up to 3 characters out of 52 (4 in part; in the thorough run all of 4 out of 26), every sequence of up to 2 tokens out of 160 in several surroundings (3 in the thorough run); generated programs, a sample of every workload of the construct checks (C04 to C15, C17); token mutants, character mutants, truncations at every position and splices of them and of real-world function bodies; random Unicode text; 130 nesting constructs, alone, in pairs and mixed, up to 60 levels, complete and cut off, with 8 MiB of stack and 4 s of CPU time. A violation is a panic (overflow checks and debug assertions on), an abort, a stack overflow, more than 3 GiB allocated, the CPU limit, or a tree or an error that does not serialise or print. Distinct by source text and goal.',
  assumptions: ['8 MiB stack and an optimised build with overflow checks and debug assertions'],
  relevant: () => true,
  minJudge: judge,
  streams: ctx => [
    ...borrow(ctx, { quick: 8000, extra: { judge } }),
    ...nestings, long,
    ...strings('characters', CH, ['@', 'x=@', '`@', '"@', '/@', '0@'], 4, 2, 3, 20000),
    ...strings('characters inside', [...'(){}[];,=+-*/!?:.\'"`\\$ \nau01e'], ['(@)', 'x=/@/', '`${@}`', '"@"', '0x@', '\\u@', 'a\\u{@}', '1e@', '/*@*/', '//@', '`@`', 'f`@`', '({@})', 'class A{@}'], 6, 2, 3, 20000),
    ...strings('tokens', ALL.map(x => x + ' '), ['@'], 6, 2, 2, 20000),
    ...strings('tokens in surroundings', ALL.map(x => x + ' '), ['x=@', 'f(@)', 'function*f(){@}', 'async function f(){@}', '({@})', '[@]', 'class A{@}', '(@)=>0', 'async(@)=>0', 'for(@)x', 'switch(x){@}', 'import @', 'import{@', 'import*@', 'import* as @', 'import a,@', 'import @ from"m"', 'import* as @ from"m"', 'import{@}from"m"', 'export @', 'export{@', 'export{@}from"m"', 'export default @', 'export*@', 'var @', '({@}=0)', 'class A{@', '`${@', 'try{}catch@', 'catch(@){}', 'if(@', 'do @', 'while(@', 'a?@', 'a?b:@', 'a.@', 'new @', 'new.@', 'async @', 'get @', '({get @', '({async*@', 'class A{static @', 'class A{static async @', 'class A extends @', 'function @', 'function*@', 'async function @', 'let @', 'const @', 'return @', 'yield @', 'await @', 'break @', 'continue @', 'throw @', 'for await(@', 'for(var @', 'for(let @', 'for(const @', 'label:@', '[@', '{@', '(@', '@=>', '...@', '[...@', 'f(...@', '({...@', '(...@)=>'], 5, 1, 2, 25000),
    { name: 'three tokens', enum: true, judge, n: { quick: 300000, thorough: ALL.length ** 3 }, make: (i, r, ctx) => { const k = ctx.quick ? Math.floor(r.f() * ALL.length ** 3) : i; return { src: [ALL[k % ALL.length], ALL[Math.floor(k / ALL.length) % ALL.length], ALL[Math.floor(k / ALL.length ** 2)]].join(' '), goal: goalOf(i) }; } },
    withEnv(programs({}, 8000), STACK), withEnv(programs({ size: 120, depth: 8 }, 800, 10000, 'programs, large'), STACK),
    withEnv(mutants({}, 60000), STACK),
    { name: 'truncated at every place', judge, n: { quick: 1500, thorough: 15000 }, make: (i, r) => { const { toks, goal } = program(r, { size: r.pick([5, 15]) }); const s = [...(r.p(0.5) ? plain(toks) : decorate(toks, r, { density: 0.3, asi: 0.4 }))]; const out = []; for (let k = 0; k <= Math.min(s.length, 120); k++) out.push({ src: s.slice(0, k).join(''), goal }, { src: s.slice(k).join(''), goal }); return out; } },
    { name: 'statements truncated', enum: true, judge, n: STMTS.length, make: i => { const s = [...STMTS[i]]; const out = []; for (let k = 0; k <= s.length; k++) for (const goal of ['s', 'm']) out.push({ src: s.slice(0, k).join(''), goal }, { src: s.slice(k).join(''), goal }); return out; } },
    { name: 'character edits', judge, n: { quick: 60000, thorough: 800000 }, make: (i, r) => { const { toks, goal } = program(r, { size: r.pick([3, 8, 15]), depth: 3, stmts: [1, 2] }); const c = [...plain(toks)]; for (let k = r.w([[6, 1], [3, 2], [1, 6]]); k > 0; k--) { const p = r.int(c.length + 1); switch (r.int(5)) { case 0: c.splice(p, 1); break; case 1: c.splice(p, 0, r.pick(CH)); break; case 2: c[p] = r.pick(CH); break; case 3: c.splice(p, 0, ...c.slice(p, p + r.range(1, 9))); break; default: c.splice(p, r.range(1, 9)); } } return { src: c.join(''), goal }; } },
    { name: 'corpus with edits', judge, n: { quick: 15000, thorough: 250000 }, make: (i, r) => { const c = corpus(); if (!c.length) return null; const t = tokenise(r.pick(c)).slice(0, 400); for (let k = r.range(0, 3); k > 0; k--) mutate(t, r); const s = t.join(''); return { src: r.p(0.3) ? s.slice(0, r.int(s.length)) : s, goal: r.p(0.3) ? 'm' : 's' }; } },
    { name: 'fragments in fragments', judge, n: { quick: 60000, thorough: 800000 }, make: (i, r) => { let s = r.pick(r.pick([STMTS, PATS, ALL])); for (let d = r.range(1, 4); d > 0; d--) { const c = s; s = r.pick(r.p(0.5) ? SCTX : PPOS).replaceAll('@', () => c); } return s.length > 4000 ? null : { src: s, goal: goalOf(r.int(2)) }; } },
    { name: 'random Unicode', judge, n: { quick: 20000, thorough: 300000 }, make: (i, r) => { let s = ''; const n = r.range(1, 40); const top = r.pick([0x80, 0x100, 0x3000, 0x10000, 0x110000]); for (let k = 0; k < n; k++) { let c = r.int(top); if (c >= 0xd800 && c < 0xe000) c = 0xd7ff; s += r.p(0.3) ? r.pick(ALL) : String.fromCodePoint(c); } return { src: s, goal: goalOf(r.int(2)) }; } },
    { name: 'escapes', judge, n: { quick: 40000, thorough: 500000 }, make: (i, r) => { let s = r.pick(['"', "'", '`', '', 'x', '/', '/[', '`${']); for (let k = r.range(1, 6); k > 0; k--) s += r.pick(['\\', '\\u', '\\x', '\\u{', '}', '{', '0', '1', '7', '8', 'f', 'F', 'g', 'ffff', '10ffff', '110000', 'ffffffff', '100000000', '0000000000000000000061', 'd800', 'dc00', 'D83D', '\n', '\r\n', '\u2028', '$', '${', '`', '"', '_', '61', '0061', '999999999999999999999', 'é', '\u{1d4d0}']); return { src: s + r.pick(['', '"', "'", '`', '/', '/g', '}`']), goal: goalOf(r.int(2)) }; } },
    { name: 'numbers', judge, n: { quick: 30000, thorough: 400000 }, make: (i, r) => { let s = r.pick(['', '0', '0x', '0b', '0o', '0X', '1', '.', '-', '00', '09', '1e', '1e+', '1e-', '0.']); for (let k = r.range(0, 5); k > 0; k--) s += r.pick(['0', '1', '7', '8', '9', 'a', 'f', 'e', '.', '_', 'n', '+', '-', 'e+', '99999999999999999999', '0'.repeat(400), '1'.repeat(400), 'f'.repeat(300), '1'.repeat(1100), 'e400', 'e-400', 'e99999999999999999999', 'e-99999999999']); return { src: s, goal: goalOf(r.int(2)) }; } },
    { name: 'long', judge, env: STACK, n: { quick: 60, thorough: 400 }, make: (i, r) => { const n = r.pick([500, 2000]); const x = r.pick(['a', 'a;', '1,', 'a+', '"s";', ';', '\n', ' ', '{}', '[],', '/*x*/', '`t`;', 'é', '\\', '0', 'var a;', 'function f(){}', '//\n', '()=>0;', 'a.', 'x=', '\u2028', 'if(a)b;', 'class A{}', 'a:0,', '...a,', '"a"', '=>', '@']); return { src: r.pick(['', 'a', '(', '"', '`', '//', '/*', '[', '({', 'f(', 'var ', '/']) + x.repeat(x === 'a+' || x === 'a.' || x === 'x=' ? 60 : n) + r.pick(['', 'a', ')', '"', '`', '*/', ']', '})', '/']), goal: goalOf(r.int(2)) }; } },
  ],
};
