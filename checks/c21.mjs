// C21 the JavaScript-facing wrapper.
import { isDeepStrictEqual } from 'node:util';
import { programs, mutants, seqs, corpus, POOL } from '../lib/work.mjs';
import { borrow } from '../lib/borrow.mjs';
import { CRASH } from '../lib/oracle.mjs';
import { buildWrapper, WRAP_BIN } from '../lib/driver.mjs';
import { longs } from '../lib/long.mjs';

export function judgeWrap(c, rec, ctx = { bump() {} }) {
  if (CRASH.has(rec.k)) return { skip: 'crash of the library (C01)' };
  const w = rec.wrap;
  if (w.k === 'same') { ctx.bump(rec.k === 'ok' ? 'same trees' : 'same errors'); return null; }
  if (w.k === 'other' && w.got[0] === 'json' && w.want[0] === 'json' && isDeepStrictEqual(JSON.parse(w.got[1]), JSON.parse(w.want[1]))) { ctx.bump('same trees, other text'); return null; }
  const s = x => x ? `${x[0]} ${x[1].slice(0, 300)}` : '';
  return { kind: 'wrapper', detail: `${w.k}: expected ${s(w.want)}, got ${w.got ? s(w.got) : w.v}` };
}
const S = s => ({ ...s, judge: judgeWrap, bin: WRAP_BIN });
export default {
  id: 'C21',
  rule: 'giron-wasm/src/lib.rs compiled for this machine against the library in /repo and a stand-in for wasm-bindgen that keeps every value handed to JavaScript; for every source of a sample of all construct workloads, generated programs, token mutants, short token sequences and real-world functions, under both goals, the wrapper must give a value serialised from the same JSON as the library\'s tree or the text of the library\'s error. Distinct by source text and goal.',
  assumptions: ['the real wasm-bindgen keeps JSON and strings as they are; the npm package is built against the registry release of giron, which is not in /repo'],
  bin: WRAP_BIN,
  relevant: () => true,
  minJudge: (c, rec) => { const v = judgeWrap(c, rec); return v && !v.skip ? v : null; },
  before() { const missing = buildWrapper(); return missing ? [{ src: '', goal: 's', stream: 'exports', kind: 'export', detail: `the wrapper exports no ${missing}`, min: false }] : null; },
  streams: ctx => [
    ...longs({ lists: 300, deep: 1000, away: 50 }),
    ...borrow(ctx, { quick: 1500 }), ...seqs('tokens', [...new Set(POOL)], ['@', ['@', 'm']], { max: 4, full: 2, tfull: 2, sample: 8000 }),
    programs({}, 12000), mutants({}, 20000),
    { name: 'both goals', n: { quick: 20000, thorough: 300000 }, make: (i, r) => { const c = programs({}, 1).make(i, r); return c && ['s', 'm'].map(goal => ({ ...c, goal })); } },
    { name: 'corpus', n: { quick: 4000, thorough: 40000 }, make: (i, r) => { const c = corpus(); if (!c.length) return null; return { src: r.pick(c), goal: r.pick('sm') }; } },
  ].map(S),
};
