// Sources that are long, deep or far from the start: what only shows beyond
// some count, length, depth, line or column. The families are those of C03.
import { hand } from '../checks/c03.mjs';
import { NEST, flat, level } from '../checks/c01.mjs';
import { program, glue, mutate } from './work.mjs';
import { text } from './gen.mjs';

const ENV = { GD_STACK: String(1 << 29), GD_CPU_LIMIT_MS: '30000' };
const SIZES = [9, 12, 17, 20, 33, 40, 65, 80, 100, 129, 160, 200, 257, 300, 400, 513, 600, 1025];
const LEAF = ['a', '1', '"s"', 'a.b', '/r/', 'a=>a', 'a,b', 'a=1', 'yield', 'await', 'function(){}', 'class{}', '`t`', '`${a}`', 'return', 'break', 'continue', 'new.target', 'this', 'async', 'let', 'a:b', 'function f(){}', 'yield a', 'await a', '[a]=b', '{a}', '({a}=b)', 'a in b', 'a\n++b', 'a/b/c', 'var a', 'with(a)b', '010', '"\\1"', 'a?b:c', 'async a=>await a', '(a,b)=>c', 'if(a)b;else c', 'for(a of b)c', 'for(var a in b)c', 'return a', 'eval=1'];
export const FAR = [[' ', 70000], ['\n', 70000], ['\r\n', 66000], ['\u2028', 66000], ['\t\n', 40000], ['a;\n', 33000], ['/*\n*/', 14000], ['//\n', 33000], [' ', 300], ['\n', 300], ['\n', 1100], ['a;', 150], ['\u{1d4d0};', 150], ['"\\\n";', 300], ['`\n`;', 300], ['{}', 700], ['\u00a0', 1100], ['/**/', 80], ['a\n', 3000]];
const far = { s: new Map() };
const farText = ([u, n]) => { const k = u + n; if (!far.s.has(k)) far.s.set(k, u.repeat(n)); return far.s.get(k); };

let all = null, tokens = null;
const families = () => all ||= hand();
// opts: extra fields of the streams (judge, flags), and how many of each
export const longs = ({ lists = 1000, single = 250, deep = 4000, away = 150, few = 12, only = null, extra = {} } = {}) => {
  const use = () => only ? families().filter(f => only.test(f.name)) : families();
  let cache = null, tcache = null; const mine = () => cache ||= use(), toks = () => tcache ||= families().filter(f => f.token || f.base?.token);
  const n = (q, t = 15) => ({ quick: q, thorough: q * t });
  const S = (name, q, chunk, make) => ({ name: 'corpus: ' + name, enum: true, n: n(q), chunk, env: ENV, ...extra, make });
  return [
    lists && S('lists of many', lists, 60, (i, r) => { const f = r.pick(mine()), k = r.pick(SIZES); return { src: f.src(k), goal: f.goal, key: f.name + ' x ' + k }; }),
    few && S('lists of thousands', few, 2, (i, r) => { const k = r.p(0.7) ? r.pick([2000, 4100]) : 70000; const f = r.pick(k > 5000 ? flat() : mine()); return { src: f.src(k), goal: f.goal, key: f.name + ' x ' + k }; }),
    single && S('long tokens', single, 60, (i, r) => { const f = r.pick(toks()), k = r.pick([...SIZES, 2050, 4100, 9000, 70000]); return { src: f.src(k), goal: f.goal, key: f.name + ' x ' + k }; }),
    deep && S('deep nestings', deep, 300, (i, r) => {
      const ks = Array.from({ length: r.range(1, 3) }, () => r.pick(NEST)), d = r.range(4, 56); let a = '', b = '';
      for (let k = 0; k < d; k++) { const [x, y] = r.p(0.8) ? ks[k % ks.length] : r.pick(ks); a += level(x, k).replace(/ ([fA])(?=[( ])/, (m, c) => ' ' + c + k); b = y + b; }
      const leaf = r.pick(LEAF), after = r.p(0.4) ? r.pick(['\n', ';']) + r.pick(LEAF) : '', pre = r.p(0.15) ? '"use strict";' : '';
      return { src: pre + a + leaf + b + after, goal: r.p(0.15) ? 'm' : 's' };
    }),
    away && S('far from the start', away, 8, (i, r) => {
      const f = r.pick(FAR), { toks, goal } = program(r, { size: r.pick([5, 12]), depth: 3, stmts: [1, 2] });
      const t = toks.map(text); if (r.p(0.5)) mutate(t, r);
      const g = glue(t), last = r.p(0.2) ? r.pick(FAR) : ['', 0];
      return { src: farText(f) + g + (last[1] ? farText(last) + r.pick(['a', '', ')', '=']) : ''), goal, key: `${JSON.stringify(f[0])} x ${f[1]} ${g} ${JSON.stringify(last[0])}` };
    }),
  ].filter(Boolean);
};
