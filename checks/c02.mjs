// C02 Parsing is a pure function of the source text.
import { program, mutate, glue, corpus, POOL } from '../lib/work.mjs';
import { plain, decorate } from '../lib/print.mjs';
import { text } from '../lib/gen.mjs';
import { runFresh, runConc, runBatch, stripStats, DEBUG, MODULE } from '../lib/driver.mjs';
import { CTX, FRAG, EARLIER } from './c17.mjs';
import { STMTS } from './c12.mjs';
import { borrowed } from '../lib/borrow.mjs';

// sources that enter contexts and are cut off inside them, so that a parse ends in the middle of everything
const leaver = r => { let s = r.pick(CTX).split('@')[0]; for (let d = r.int(3); d > 0; d--) s += r.pick(CTX).split('@')[0]; return s + r.pick(['', '', ')', '@', '"', '`', '/*', '010', 'yield', 'await', 'L:', 'with', '\n\n\n']); };
const detector = r => { const f = r.pick(FRAG); return r.p(0.6) ? f : r.pick(CTX).replaceAll('@', () => f); };
const lexical = r => r.pick(['"a\\u{1F600}b"', "'\\x41\\\n'", '`a${b}c`', 'f`\\u`', '/a[/]b/gi', 'a/b/c', '\\u0061b', '0x1F', '1e400', '.5e-3', '017', '0b101', 'é\u{1d4d0}', '/*\n*/a', 'a\u2028b', '// x', '"', '`${', '/', '0x', '1a', '\\u', '@', 'a\n++b', 'x=>{}\n/1/g', '({a:1,"b":2,[c]:3})', '\ufeffa', 'class{}', '']) + r.pick(['', ';', '\n', '+1']);
// several faults of one kind in one list, so that which of them is reported is a choice
const ELEM = ['1', 'f()', '"s"', 'a.b', '(a)', 'a+b', 'eval', 'arguments', '...a', 'a=1', '[1]', '{a:1}', '{a:f()}', 'a', 'b', 'yield', 'await', 'if', '010', '{get a(){}}', 'a=>b', '`t`', 'this', 'new a', '({})', 'let', '-a', 'enum', '"\\01"', 'default', '[f()]', '{b:1,c:2}', '{a=1}', 'constructor(){}', 'get constructor(){}', 'a as b', 'if as b', 'b as if', '*', 'L:', 'break L;', 'continue M;', 'return;', 'case 1:', 'default:', 'delete a;', 'with(a)b;', 'const c;', 'let let;', '\\u0', 'a:1', '__proto__:1', 'static prototype(){}'];
const LISTC = ['(@)=>0', '(@)=>{}', 'async(@)=>0', '[@]=0', '({@}=0)', '({@})=>0', '([@])=>0', 'function f(@){}', 'function f(@){"use strict"}', '"use strict";function f(@){}', 'class A{@}', 'class A{m(@){}}', 'x={m(@){}}', '({@})', 'var @;', 'let @;', 'const @;', 'import{@}from"m"', 'export{@}', 'for([@]of b);', 'for(@ in b);', 'try{}catch(@){}', 'switch(a){@}', '{@}', 'f(@)', 'new A(@)', 'async function f(@){}', 'function*f(@){}', '[[@],[@]]=0', '({a:[@],b:{@}}=0)', '(@);(@)=>0', '@', '"use strict";@', 'function f(){"use strict";@}', '`${@}`', 'L:{@}', 'while(a){@}'];
const several = r => { const some = Array.from({ length: r.range(1, 3) }, () => r.pick(ELEM)); if (r.p(0.5)) some.push('a'); return r.pick(LISTC).replaceAll('@', () => Array.from({ length: r.range(2, 7) }, () => r.pick(some)).join(r.pick([',', ',', ',', ',', ';', ' ']))); };
let bor = null;
function source(r) {
  return r.w([
    [10, () => ({ src: several(r), goal: r.pick('sm') })],
    [6, () => (bor ||= borrowed(ctx0))(r, ctx0) ?? { src: several(r), goal: 's' }],
    [4, () => { const { toks, goal } = program(r, { size: r.pick([4, 10, 25]), depth: 4, stmts: [1, 3] }); return { src: r.p(0.5) ? plain(toks) : decorate(toks, r, { density: 0.3, asi: 0.4 }), goal }; }],
    [3, () => { const { toks, goal } = program(r, { size: r.pick([4, 10]), depth: 3, stmts: [1, 2] }); const t = toks.map(text); mutate(t, r); return { src: glue(t), goal }; }],
    [4, () => ({ src: leaver(r), goal: r.pick('sm') })],
    [5, () => ({ src: detector(r), goal: r.pick('sm') })],
    [2, () => ({ src: r.pick(EARLIER), goal: r.pick('sm') })],
    [2, () => ({ src: r.pick(STMTS), goal: r.pick('sm') })],
    [2, () => ({ src: lexical(r), goal: r.pick('sm') })],
    [1, () => { const c = corpus(); return { src: c.length ? r.pick(c) : 'a', goal: 's' }; }],
  ])();
}
// sources that agree in length, prefix, suffix or text, so that a cache with too small a key mixes them up
function twins(r) {
  const { src, goal } = source(r); const out = [{ src, goal }, { src, goal: goal === 's' ? 'm' : 's' }];
  const names = src.match(/[a-z]\w*|\d+/g);
  if (names) { const n = r.pick(names); const k = src.indexOf(n); out.push({ src: src.slice(0, k) + (/\d/.test(n[0]) ? '7' : 'q') + src.slice(k + 1), goal }); }
  out.push({ src: src + ' ', goal }, { src: '\n' + src, goal }, { src: '"use strict";' + src, goal });
  return r.sample ? out : out;
}
// one token made long, and the same with one or two characters of it changed
// at any place, so that a cache keyed by a part or a digest of a text mixes them up
const SPELL = ['@', 'a.@', '({@:1})', '({@(){}})', '"@"', "'@'", '`@`', '`${a}@`', 'f`@`', '/@/', 'a=/b/@', '@:a', 'x=@', 'let @=1', 'class @{}', 'class A{@(){}}', 'function @(){}', '(@)=>0', '@=>0', 'import @ from"m"', 'import{@}from"m"', 'import{a as @}from"m"', 'import"@"', 'export{@}', 'export{a as @}', 'break @', '@:while(1)break @', 'a.@`t`', 'var{@}=b', 'var{@:b}=c', '({@}=1)', 'new a.@', '/*@*/a', '//@\na', '({"@":1})', '[a]. @ =1', '"use strict";@', '"@";010', 'try{}catch(@){}', 'new.@', '@ @', '{@'];
const NUMS = ['@', '0x@', '.@', '1e@', '1.@', '-@', '({@:1})', 'a[@]'];
function near(r) {
  const num = r.p(0.15), goalless = r.pick(num ? NUMS : SPELL), goal = /^(import|export)/.test(goalless) ? 'm' : r.pick('ssm'), len = r.pick([2, 3, 4, 5, 8, 9, 12, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65, 100, 130, 200, 257, 400]);
  const al = num ? '0123456789' : r.pick(['ab', 'abcdefghijklmnopqrstuvwxyz', 'aA', 'éèêab', '\u{1d4d0}\u{1d4d1}ab', 'AaBb0189_$']), cs = [...al], pickc = () => r.pick(cs);
  const base = Array.from({ length: len }, pickc); if (/^\d/.test(base[0]) && !num) base[0] = 'a'; if (num && base[0] === '0') base[0] = '1';
  const all = [base];
  for (let k = r.range(3, 8); k > 0; k--) {
    const t = [...r.pick(all)], p = r.p(0.15) ? 0 : r.p(0.2) ? len - 1 : r.int(len), q = r.int(len);
    r.w([[4, () => { t[p] = pickc(); }], [2, () => { [t[p], t[q]] = [t[q], t[p]]; }], [1, () => { t[p] = pickc(); t[q] = pickc(); }], [1, () => { t.reverse(); }], [1, () => { t.splice(p, 1); t.push(pickc()); }], [1, () => { if (!num && p + 1 < len) { t[p] = 'A'; t[p + 1] = 'a'; all.push([...t]); t[p] = 'B'; t[p + 1] = 'B'; } }]])();
    if (!num && /^\d/.test(t[0])) t[0] = 'b';
    if (num && t[0] === '0') t[0] = '2';
    all.push(t);
  }
  const pre = r.pick(['', '', '', 'a;', '\n']);
  return all.map(t => ({ src: pre + goalless.replaceAll('@', () => t.join('')), goal }));
}
let ctx0 = null;
export default {
  id: 'C02', shards: 1,
  rule: 'sets of 160 to 600 sources: generated programs and mutants, sources cut off inside nested contexts, context-sensitive fragments, lexical corner cases, and for each the other goal and near twins. Every source is parsed twice in a process of its own (no earlier parse, other hash seeds and addresses), and then in one process again and again by 1 to 8 threads in random and in lockstep orders; every tree (JSON and Debug text, so spans too) and every error (kind, position, printed text) must equal the fresh one. Distinct by source text and goal; ordered pairs counts which source was parsed right before which.',
  assumptions: ['thread interleavings are those the scheduler produces on 8 cores with barriers and yields'],
  relevant: () => true,
  streams: () => [],
  async main(ctx) {
    ctx0 = ctx;
    const sets = ctx.quick ? 45 : 10000; let pairs = 0, overlapped = 0, parses = 0, fresh = 0, died = 0;
    const until = ctx.quick ? Date.now() + 120_000 : ctx.deadline - 40_000;
    const seen = new Set();
    for (let k = 0; k < sets && Date.now() < until && ctx.raw.length < 10; k++) {
      const r = ctx.rng('set', k); const cases = [];
      const n = [160, 300, 600][k % 3];
      while (cases.length < n) for (const c of r.p(0.35) ? near(r) : twins(r)) if (c.src.isWellFormed() && c.src.length < 6000) cases.push(c);
      const inputs = cases.map(c => ({ src: c.src, flags: (c.goal === 'm' ? MODULE : 0) | DEBUG }));
      const a = (await runFresh(inputs)).map(stripStats), b = (await runFresh(inputs)).map(stripStats);
      fresh += 2 * n;
      cases.forEach((c, i) => { ctx.count(c.goal + ' ' + c.src); if (a[i] !== b[i]) ctx.violation({ ...c, stream: 'fresh processes', kind: 'differs', detail: `two fresh processes observe ${a[i].slice(0, 300)} and ${b[i].slice(0, 300)}` }); ctx.bump(/^\{"k":"ok"/.test(a[i]) ? 'trees' : 'errors'); });
      for (const threads of [1, 8, 3, 8]) {
        const res = await runConc(inputs, a, { rounds: ctx.quick ? (threads === 1 ? 12 : 6) : 20, threads, seed: r.int(1 << 30) + 1 });
        if (res.died) { died++; ctx.violation({ src: cases[0].src, goal: cases[0].goal, stream: 'histories', kind: 'died', detail: `${threads} threads: the process that parses the set died although every source alone is fine: ${res.died.msg}` }); continue; }
        parses += res.parses; overlapped += res.overlapped; pairs += res.pairs;
        for (const x of res.bad) ctx.violation({ ...cases[x.input], stream: 'histories', kind: threads === 1 ? 'history' : 'concurrent', extra: { prev: x.prev >= 0 ? cases[x.prev] : null, threads }, detail: `with ${threads} threads, after ${x.prev >= 0 ? cases[x.prev].goal + ' ' + JSON.stringify(cases[x.prev].src.slice(0, 200)) : 'nothing'}: observed ${x.got.slice(0, 300)} but fresh ${a[x.input].slice(0, 300)}` });
      }
    }
    // long histories: few small sources, parsed a hundred thousand times by one thread, so that what a parse leaves behind adds up
    const longs = ctx.quick ? 48 : 1600, lr = Array.from({ length: longs }, (_, k) => ctx.rng('long', k)); let longest = 0, at = 0;
    const longUntil = ctx.quick ? Date.now() + 60_000 : ctx.deadline - 15_000;
    await Promise.all(Array.from({ length: 8 }, async () => {
      while (at < longs && Date.now() < longUntil && ctx.raw.length < 10) {
        const r = lr[at++], cases = [];
        while (cases.length < 14) { const c = cases.length < 7 ? (r.p(0.5) ? { src: leaver(r), goal: r.pick('sm') } : twins(r)[0]) : cases.length < 10 ? { src: detector(r), goal: r.pick('sm') } : cases.length < 13 ? { src: r.pick(STMTS), goal: 's' } : twins(r)[0]; if (c.src.isWellFormed() && c.src.length < 120) cases.push(c); }
        const inputs = cases.map(c => ({ src: c.src, flags: (c.goal === 'm' ? MODULE : 0) | DEBUG }));
        const a = (await runFresh(inputs, { parts: 1 })).map(stripStats);
        cases.forEach(c => ctx.count(c.goal + ' ' + c.src));
        const res = await runConc(inputs, a, { rounds: ctx.quick ? 6000 : 20000, threads: 1, seed: r.int(1 << 30) + 1 });
        if (res.died) { died++; ctx.violation({ src: cases[0].src, goal: cases[0].goal, stream: 'long histories', kind: 'died', detail: `the process that parses ${JSON.stringify(cases.map(c => c.src)).slice(0, 500)} again and again died: ${res.died.msg}` }); continue; }
        parses += res.parses; pairs += res.pairs; longest = Math.max(longest, res.parses);
        for (const x of res.bad) ctx.violation({ ...cases[x.input], stream: 'long histories', kind: 'history', extra: { set: cases }, detail: `after thousands of parses of ${JSON.stringify(cases.map(c => c.goal + ' ' + c.src)).slice(0, 600)}: observed ${x.got.slice(0, 300)} but fresh ${a[x.input].slice(0, 300)}` });
      }
    }));
    ctx.bump('longest history of one thread', longest);
    ctx.evaluations += parses;
    ctx.bump('parses in processes of their own', fresh); ctx.bump('parses with a history', parses); ctx.bump('parses overlapping another one', overlapped); ctx.bump('ordered pairs of consecutive parses', pairs); ctx.bump('processes that died', died);
  },
};
