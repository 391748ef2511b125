// C03 Parsing work and memory grow linearly with the source.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { NEST } from './c01.mjs';
import { program, glue } from '../lib/work.mjs';
import { text, Gen } from '../lib/gen.mjs';
import { needsSep } from '../lib/print.mjs';
import { runBatch, buildCounting, COUNT_BIN, BIN, NOAST, scratch, HarnessError } from '../lib/driver.mjs';
import { goalFlag } from '../lib/check.mjs';

// # is a fixed-width number that differs from element to element
const num = i => String(i).padStart(5, '0');
const fam = (head, unit, tail, sep = '', goal = 's') => ({ goal, name: `${head}  ${unit}${sep}…  ${tail}`, src: n => { const o = []; for (let i = 0; i < n; i++) o.push(unit.replaceAll('#', () => num(i))); return head + o.join(sep) + tail; } });
const ELEMS = ['a', 'a#', '1', '"s#"', 'a#.b', 'a#()', '[a#]', '{a#}', '{a:b#}', '()=>0', '(a#)=>0', '(a#,b)=>a#', 'async a#=>0', 'async(a#)=>0', 'async(a#)', 'async()', '(a#)', '(a#,b#)', 'function(a#){}', 'class{a#(){}}', '`t${a#}`', '/r#/', '-a#', 'a#++', 'new a#', 'a#?b:c', 'a#=1', '[a#]=b', '({a#}=b)', '({a#=1}=b)', '[a#=1]=b', '{get a#(){}}', '{async a#(){}}', '{*a#(){}}', '{set a#(b){}}', '{[a#]:1}', 'a#**b', 'a#&&b', 'a#`t`', '(function(){"use strict";a#})', 'async function(){await a#}', 'function*(){yield a#}', '((((a#))))', '[[[[a#]]]]', '(a#=b=>c)=>d', '({a#:[b]})=>c', 'async({a#=1})=>b', 'a#<b', 'a#/b/c', 'é#', '\\u0061#', 'a# in b', 'typeof a#', 'this', 'null'];
const ELISTS = [['x=[', ',', ']'], ['f(', ',', ')'], ['x=(', ',', ')'], ['new A(', ',', ')'], ['x=f(async(', ',', '))'], ['async(', ',', ')'], ['x=[[', '],[', ']]'], ['x=', '\n', ''], ['', ';', ''], ['x=`${', '}${', '}`'], ['switch(a){case ', ':case ', ':}'], ['var a=', ',a=', ''], ['x={a:', ',b:', '}'], ['x={[', ']:1,[', ']:1}'], ['function f(a=', ',a=', '){}'], ['(a=', ',b=', ')=>0'], ['async(a=', ',b=', ')=>0'], ['[a=', ',a=', ']=0'], ['x={a=', ',b=', '}'], ['({a:b=', ',c:d=', '}=0)'], ['f(...', ',...', ')'], ['x=[...', ',...', ']'], ['x={...', ',...', '}'], ['x=(', ')+(', ')'], ['x=(', ')||(', ')'], ['x=(', ')**(', ')'], ['a[', '][', ']'], ['a(', ')(', ')'], ['if(', ');if(', ');'], ['for(', ';;);for(', ';;);'], ['for(a of ', ');for(a of ', ');'], ['while(', ');while(', ');'], ['throw ', ';throw ', ''], ['class A{[', '](){}[', '](){}}'], ['class A{static a(b=', '){}static a(b=', '){}}']];
const STMTL = ['a#;', 'a#\n', 'var a#;', 'let a#;', 'const a#=1;', 'let{a#}=b;', 'function a#(){}', 'function*a#(){}', 'async function a#(){}', 'class a#{}', '{}', '{a#}', ';', 'if(a#);', 'if(a#);else;', 'for(;;);', 'for(let a# of b);', 'for(var a# in b);', 'for([a#] of b);', 'while(a#);', 'do;while(a#)', 'do;while(a#)\n', 'switch(a#){case 1:}', 'try{}catch(a#){}', 'try{}finally{}', 'a#:;', 'a#:{break a#}', 'a#:while(1)continue a#;', 'with(a#);', 'throw a#;', 'debugger;', '"s#";', '"use strict";', "'\\u0061#'\n", '`t#`;', '/r#/;', '/*c#*/', '//c#\n', '\n', ' ', '\u2028', '\r\n', '\t', '({a#(){}});', '(a#)=>0\n', 'async()=>a#\n', 'async\n', 'async a#=>0\n', 'async(a#)\n', 'let\n', 'yield\n', 'a#++\n', 'a#\n++\n', '(function(){"use strict"})\n', 'function f#(){"use strict"}', 'function f#(){return a#}', 'x=y#\n/a/g\n', '{a#:1}', 'label#:x;', '[a#]=b;', '[a#];', '({a#}=b);', '(a#);', 'é#;', '\\u0061#;', 'var a#=b#,c#;'];
const SLISTS = [['', ''], ['{', '}'], ['function f(){', '}'], ['x=()=>{', '}'], ['x=async()=>{', '}'], ['function*f(){', '}'], ['x={m(){', '}}'], ['class A{m(){', '}}'], ['"use strict";', ''], ['switch(a){case 0:', '}'], ['switch(a){default:', '}'], ['try{', '}finally{}'], ['L:{', '}'], ['while(1){', '}'], ['if(a){', '}else{}']];
const MEMBERS = ['a#(){}', 'get a#(){}', 'set a#(b){}', '*a#(){}', 'async a#(){}', 'async*a#(){}', '[a#](){}', '"a#"(){}', '1(){}', 'get(){}', 'async(){}', 'constructor(){}', '"constructor"(){}', 'a(){}', 'get a(){}', 'static(){}', 'prototype(){}', '"s#"(){}', '1#(){}', 'set(){}', 'yield(){}', 'get[a#](){}', 'async*[a#](){}'];
const LISTS = [
  ...['a#:1', 'a#', 'a#:b', '[a#]:1', '"a#":1', '1:1', 'a#:b=1', 'get:1', 'async', 'get', '...a#', 'a#:[b]', 'a#:{b}', '__proto__:a#', ...MEMBERS].map(u => ['x={', u, '}', ',']),
  ...['a#', 'a#=1', 'a#:b', 'a#:b=1', '[a#]:b', 'a#:[b]', 'a#:{b}', 'a#:b.c', '"a#":b', '...a#'].flatMap(u => [['({', u, '}=0)', ','], ['({', u, '})=>0', ','], ['var{', u, '}=0', ','], ['for({', u, '}of b);', ','], ['function f({', u, '}){}', ','], ['x={', u, '}', ','], ['async({', u, '})=>0', ','], ['async({', u, '})', ',']]),
  ...['a#', 'a#=1', '[a#]', '{a#}', 'a#.b', '', 'a#[0]', '[a#]=1', '{a#:b}=1', '...a#'].flatMap(u => [['[', u, ']=0', ','], ['([', u, '])=>0', ','], ['var[', u, ']=0', ','], ['for([', u, ']of b);', ','], ['(', u, ')=>0', ','], ['async(', u, ')=>0', ','], ['async(', u, ')', ','], ['function f(', u, '){}', ','], ['x=async function(', u, '){}', ','], ['({m(', u, '){}})', ','], ['x=[', u, ']', ','], ['x=(', u, ')', ',']]),
  ...MEMBERS.flatMap(u => [['class A{', u, '}', ''], ['class A{', 'static ' + u, '}', ''], ['class A{', u, '}', ';'], ['x={', u, '}', ',']]),
  ...['a#', 'a# as b#', 'default as a#'].map(u => ['import{', u, '}from"m"', ',', 'm']), ...['a#', 'a# as b#', 'a# as default'].flatMap(u => [['export{', u, '}', ',', 'm'], ['export{', u, '}from"m"', ',', 'm']]),
  ...['import"m#";', 'import a# from"m";', 'import*as a# from"m";', 'import{a#}from"m";', 'export var a#;', 'export{a#};', 'export*from"m#";', 'export function a#(){}', 'export class a#{}', 'export const a#=1;'].map(u => ['', u, '', '', 'm']),
  ...['+', '-', '*', '**', '/', '%', '<<', '>>>', '<', '===', '&', '|', '^', '&&', '||', ' in ', ' instanceof ', ','].filter(o => o !== '**').map(o => ['x=a', o + 'b#', '', '']),
  ...['.b#', '[b#]', '(b#)', '`t#`', '.b#()', '[0].b#', '.if'].map(o => ['a', o, '', '']), ['', 'a#:', ';', ''].slice(0, 0),
  ['var ', 'a#', '', ','], ['var ', 'a#=1', '', ','], ['let ', '[a#]=b', '', ','], ['const ', '{a#}=b', '', ','], ['for(var ', 'a#', ';;);', ','], ['for(', 'a#', ' of b);', ','], ['switch(a){', 'case a#:', '}', ''], ['switch(a){', 'case a#:b;break;', '}', ''], ['x=`', 't${a#}', '`', ''], ['x=`', '$a#', '`', ''], ['x=f`', '\\u{#}${a}', '`', ''],
].filter(x => x.length).map(l => l[4] || l[3] !== 'm' ? l : l).map(l => { const x = [...l]; if (x.length === 4 && x[3] === 'm') x.splice(3, 0, ','); return x; });
const TOKENS = [['"', 'a', '"'], ['"', '\\n', '"'], ['"', '\\x41', '"'], ['"', '\\u0041', '"'], ['"', '\\u{41}', '"'], ['"', '\\\n', '"'], ['"', '\\0', '"'], ['"', '\\7', '"'], ['"', 'é', '"'], ['"', '\u{1d4d0}', '"'], ['"', '\\ud83d\\ude00', '"'], ['"', '\u2028', '"'], ["'", '"', "'"], ['`', 'a', '`'], ['`', '\r\n', '`'], ['`', '\\\r\n', '`'], ['`', '$', '`'], ['`', '{', '`'], ['`', '\\u{41}', '`'], ['f`', '\\u', '`'], ['x=/', 'a', '/'], ['x=/', '[/]', '/'], ['x=/', '\\/', '/'], ['x=/', '(', '/'], ['x=/[', 'a', ']/'], ['x=/a/', 'g', ''], ['', 'a', ''], ['', 'é', ''], ['', '\\u0061', ''], ['', '\\u{61}', ''], ['a', '\u{1d4d0}', ''], ['', '1', ''], ['1.', '1', ''], ['.', '0', '1'], ['0x', 'f', ''], ['0b', '1', ''], ['0o', '7', ''], ['0', '1', ''], ['0', '9', ''], ['1e', '1', ''], ['1e-', '9', ''], ['1e', '0', '1'], ['0.', '0', '1e5'], ['', '9', '.5e-7'], ['0', '0', ''], ['"\\u{', '0', '61}"'], ['\\u{', '0', '61}'], ['/*', 'c', '*/'], ['/*', '*', '/'], ['/*', '\n', '*/'], ['//', 'c', ''], ['', ' ', ''], ['', '\n', ''], ['', '\r\n', ''], ['', '\u2029', ''], ['', '\ufeff', ''], ['a', '/**/', ''], ['a', '/*\n*/', '++b'], ['a', '\n', '/b/c'], ['(a)', ' ', '=>b'], ['async', ' ', 'a=>b'], ['async', '/**/', '(a)=>b'], ['x={get', ' ', 'a(){}}'], ['let', ' ', 'a'], ['let', '\n', 'a'], ['return', '\n', ''], ['L', ' ', ':a'], ['"', 'a', ''], ['`', 'a', ''], ['/', 'a', ''], ['/*', 'a', ''], ['1', '_', ''], ['"use strict', ' ', '"'], ['x=/[', '[', ''], ['`${', ' ', '}`'], ['<', '!', '--'], ['', '@', ''], ['', '#', ''], ['', '\\', ''], ['', ')', ''], ['', ';', '']];
const ENDS = ['@', ')', ']', '}', '=>', '=1', ' x', '"', '/', '`', '/*', '...', '\\', ':', 'of', '++'];

export function hand() {
  const out = [];
  for (const [h, s, t] of ELISTS) for (const e of ELEMS) out.push(fam(h, e, t, s));
  for (const [h, t] of SLISTS) for (const e of STMTL) out.push(fam(h, e, t));
  for (const [h, u, t, s, g] of LISTS) out.push(fam(h, u, t, s, g));
  for (const [h, u, t] of TOKENS) { const f = fam(h, u, t); f.token = true; out.push(f); out.push({ ...f, name: f.name + ' in code', src: n => 'a;\n' + f.src(n) + '\nb;' }); }
  const errs = out.filter((_, i) => i % 3 === 0).map((f, i) => ({ ...f, base: f, name: f.name + ' ending in ' + ENDS[i % ENDS.length], src: n => f.src(n) + ENDS[i % ENDS.length] }));
  const cut = out.filter((_, i) => i % 4 === 1).map(f => ({ ...f, base: f, name: f.name + ' cut off', src: n => { const s = f.src(n); return s.slice(0, -1); } }));
  return [...out, ...errs, ...cut];
}
// two lists of n one after the other, or one in a body that holds the other
export function pairs(r, all) {
  const flat = () => { const f = r.pick(all); return f.base ?? f; };
  const a = flat(), b = flat(), [h, t] = r.pick(SLISTS), sep = r.pick([';', '\n', ',', ';']);
  return r.p(0.6)
    ? { goal: r.p(0.5) ? a.goal : b.goal, name: `${a.name} ${sep} ${b.name}`, src: n => a.src(n) + sep + b.src(n) }
    : { goal: a.goal, name: `${h} ${a.name} ${sep} ${b.name} ${t}`, src: n => h + a.src(n) + sep + b.src(n) + t };
}
// a generated element list in a generated surrounding
const NAME = /^[a-zA-Z_$][\w$]{0,6}$/, KEEP = new Set('break case catch class const continue debugger default delete do else export extends finally for function if import in instanceof new return super switch this throw try typeof var void while with yield let static await async get set of from as target null true false enum eval constructor'.split(' '));
function element(r, kind) {
  const g = new Gen(r, { size: r.pick([2, 5, 10]), depth: 3, stmts: [1, 1] });
  const ctx = { strict: false, module: false, yield: false, await: false, ret: false, loop: false, sw: false, labels: [], in: true, sprop: false, scall: false, nt: false, d: 3, top: false };
  const toks = kind === 'e' ? g.assign(ctx) : kind === 's' ? g.item(ctx) : kind === 'b' ? (r.p(0.6) ? g.bindElem(ctx) : g.bindPattern(ctx)) : g.assignPattern(ctx);
  const mark = r.p(0.7);
  return glue(toks.map(text).map(t => mark && NAME.test(t) && !KEEP.has(t) ? t + '#' : t));
}
export function generated(r) {
  const kind = r.w([[5, 'e'], [5, 's'], [2, 'b'], [2, 'p']]);
  let h, s = ',', t;
  if (kind === 's') { [h, t] = r.pick(SLISTS); s = r.pick([';', '\n', '']); }
  else if (kind === 'e') [h, s, t] = r.pick(ELISTS);
  else if (kind === 'b') [h, t] = r.pick([['(', ')=>0'], ['async(', ')=>0'], ['function f(', '){}'], ['var[', ']=0'], ['({m(', '){}})'], ['x=async function*(', '){}'], ['try{}catch([', ']){}'], ['for(let[', ']of b);']]);
  else [h, t] = r.pick([['[', ']=0'], ['for([', ']of b);'], ['for([', ']in b);'], ['([', '])=>0'], ['x=[', ']=[a]'], ['[[', ']]=0'], ['x=[', ']'], ['async([', '])=>0']]);
  const k = r.w([[4, 1], [2, 2], [1, 3]]); const units = Array.from({ length: k }, () => element(r, kind));
  let a = h, b = t;
  for (let d = r.w([[4, 0], [3, 1], [2, 2], [1, 4]]); d > 0; d--) { const [x, y] = r.pick(NEST); a = x + a; b = b + y; }
  const end = r.p(0.25) ? r.pick(ENDS) : '', cut = r.p(0.1) ? 1 : 0;
  return { goal: r.p(0.15) ? 'm' : 's', name: `${a}  ${units.join(s + ' ')}${s}…  ${b}${end}`, unit: k, src: n => { const o = []; for (let i = 0; i < n; i++) o.push(units[i % k].replaceAll('#', () => num(i))); const x = a + o.join(s) + b + end; return cut ? x.slice(0, -1) : x; } };
}

const SLACK = { blocks: 6000, alloc: 20000, calls: 300 };
function bend(recs) {
  for (const m of ['blocks', 'alloc', 'calls']) {
    const [a, b, c] = recs.map(x => x[m]);
    if (c - b > 2.25 * Math.max(0, b - a) + SLACK[m]) return `${m === 'blocks' ? 'work (basic blocks and 32-byte copies)' : m === 'alloc' ? 'bytes allocated' : 'allocations'} ${a}, ${b}, ${c}`;
  }
  return null;
}
const dead = r => ['panic', 'abort', 'hang', 'oom', 'serpanic', 'sererr', 'notrun'].includes(r.k);
async function measure(f, n, threads = 1, env = {}) {
  const ns = [n, 2 * n, 4 * n];
  return runBatch(ns.map(k => ({ src: f.src(k), flags: goalFlag(f.goal) | NOAST })), { threads, bin: COUNT_BIN, env: { GD_CPU_LIMIT_MS: '30000', ...env } });
}
async function families(ctx, name, list, n, group, env = {}) {
  for (let i = 0; i < list.length && !ctx.expired() && ctx.raw.length < 8; i += group) {
    const fs_ = list.slice(i, i + group);
    const ins = fs_.flatMap(f => [n, 2 * n, 4 * n].map(k => ({ src: f.src(k), flags: goalFlag(f.goal) | NOAST })));
    const recs = await runBatch(ins, { threads: 1, bin: COUNT_BIN, env: { GD_CPU_LIMIT_MS: '30000', ...env } });
    for (let j = 0; j < fs_.length; j++) {
      const f = fs_[j], rs = recs.slice(3 * j, 3 * j + 3);
      if (rs.some(x => x.k === 'notrun')) { ctx.truncated = true; continue; }
      const d = rs[2].blocks - rs[1].blocks;
      ctx.count(f.goal + ' ' + f.name, d > n * 4); ctx.bump(rs[2].k === 'ok' ? 'families that parse' : 'families that end in an error');
      if (d <= n * 4) ctx.bump('families rejected early (constant work)');
      ctx.bump('parses: ' + name, 3); ctx.bump('work units observed', rs.reduce((x, y) => x + (y.blocks || 0), 0));
      let v = null;
      const died = rs.findIndex(dead);
      if (died >= 0) { if (['hang', 'oom'].includes(rs[died].k)) v = `at n = ${n << died} the parse ${rs[died].k === 'hang' ? 'does not end within 30 s of CPU time' : 'allocates more than 3 GiB'}`; else ctx.bump('families that crash (C01)'); }
      else {
        v = bend(rs);
        if (v) { const again = await measure(f, 3 * n, 1, env); const w = again.some(dead) ? null : bend(again); v = w ? `n = ${n}, ${2 * n}, ${4 * n}: ${v}; n = ${3 * n}, ${6 * n}, ${12 * n}: ${w}` : again.some(x => x.k === 'hang' || x.k === 'oom') ? v : null; if (!v) ctx.bump('bends not confirmed at larger sizes'); }
      }
      if (v) ctx.violation({ src: f.src(Math.min(40, n)), goal: f.goal, stream: name, kind: 'superlinear', type: f.name.slice(0, 12), detail: `${f.name} grows faster than linearly: ${v}` });
    }
  }
}
// instructions executed, counted by valgrind (also inside the standard library)
function instructions(file, goal) {
  return new Promise((res, rej) => {
    const p = spawn('valgrind', ['--tool=cachegrind', '--cache-sim=no', '--cachegrind-out-file=/dev/null', BIN, 'loop', goal, file], { stdio: ['ignore', 'pipe', 'pipe'], env: { ...process.env, GD_STACK: String(64 << 20) } });
    let err = '', out = ''; p.stderr.on('data', d => err += d); p.stdout.on('data', d => out += d); p.on('error', rej);
    p.on('close', () => { const m = /I\s+refs:\s+([\d,]+)/.exec(err); m ? res(Number(m[1].replaceAll(',', ''))) : rej(new HarnessError('cachegrind: ' + err.slice(0, 500) + out)); });
  });
}
async function grind(ctx, list, n) {
  for (const f of list) {
    if (ctx.expired() || ctx.raw.length >= 8) return;
    const go = async k => { const file = path.join(scratch(), `g${ctx.shard}.js`); fs.writeFileSync(file, f.src(k)); return instructions(file, f.goal); };
    const run = async n0 => { const v = []; for (const k of [n0, 2 * n0, 4 * n0]) v.push(await go(k)); return v; };
    const bent = v => v[2] - v[1] > 2.25 * Math.max(0, v[1] - v[0]) + 300000;
    const v = await run(n);
    ctx.count('instructions ' + f.goal + ' ' + f.name); ctx.bump('parses under cachegrind', 3); ctx.bump('instructions observed by cachegrind', v[0] + v[1] + v[2]);
    if (bent(v)) { const w = await run(3 * n); if (bent(w)) ctx.violation({ src: f.src(40), goal: f.goal, stream: 'cachegrind', kind: 'superlinear', detail: `${f.name} grows faster than linearly: instructions ${v.join(', ')} for n = ${n}, ${2 * n}, ${4 * n}, and ${w.join(', ')} for three times those` }); }
  }
}
export default {
  id: 'C03',
  rule: 'families of sources, each at n, 2n and 4n repetitions: 55 element forms in 35 expression lists, 68 statements in 15 bodies, members, patterns, parameters, specifiers, operators, chains, single tokens of length n, those ending in an error or cut off, pairs of such lists, and generated elements (with names that differ from element to element) in generated surroundings. For each the executed basic blocks (sanitizer coverage callbacks, plus one unit per 32 bytes copied, moved or compared), the bytes allocated and the allocations are counted; a violation is a family where the step from 2n to 4n costs more than 2.25 times the step from n to 2n, confirmed at three times the sizes. A sample is also measured in instructions under cachegrind. Distinct by family; families rejected at once are not counted as distinct.',
  assumptions: ['growth is observed up to 4n (12n on suspicion), n = 250 to 1000, so a superlinear term that is still below an eighth of the linear cost there is not seen'],
  relevant: () => true,
  streams: () => [],
  before() { buildCounting(); },
  async shardRun(ctx) {
    const H = hand(), mine = H.filter((_, i) => i % ctx.shards === ctx.shard);
    await families(ctx, 'named families', mine, ctx.quick ? 250 : 1000, 40);
    // a cost that only sets in beyond some size
    const lr = ctx.rng('large', ctx.shard), large = ctx.quick ? Array.from({ length: 60 }, () => lr.pick(H)) : mine;
    const single = H.filter(f => f.token).filter((_, i) => i % ctx.shards === ctx.shard);
    await families(ctx, 'long tokens', single, ctx.quick ? 20000 : 60000, 8, { GD_STACK: String(1 << 30) });
    await families(ctx, 'large families', large, 5000, 6, { GD_STACK: String(1 << 30) });
    const N = ctx.quick ? 500 : 20000, until = ctx.deadline - (ctx.quick ? 40_000 : 220_000);
    for (let k = 0; k < N && Date.now() < until && !ctx.expired(); k += 50) {
      await families(ctx, 'generated families', Array.from({ length: 50 }, (_, j) => generated(ctx.rng('gen', ctx.shard, k + j))), 250, 50);
      await families(ctx, 'pairs of families', Array.from({ length: 25 }, (_, j) => pairs(ctx.rng('pairs', ctx.shard, k + j), H)), 250, 25);
    }
    const r = ctx.rng('grind', ctx.shard); const g = ctx.quick ? 3 : 60;
    const toks = H.filter(f => TOKENS.some(([h, u]) => f.name.startsWith(h + '  ' + u)) && !/ in code| ending| cut/.test(f.name));
    const pick = []; for (let i = 0; i < g; i++) pick.push(i % 3 === 0 ? toks[(ctx.shard + ctx.shards * (ctx.quick ? r.int(20) : i / 3 | 0)) % toks.length] : r.pick(H));
    await grind(ctx, pick, 1000);
  },
};
