// The workloads of the construct checks, sampled, for the checks of properties
// that speak of every source.
import c04 from '../checks/c04.mjs';
import c05 from '../checks/c05.mjs';
import c06 from '../checks/c06.mjs';
import c07 from '../checks/c07.mjs';
import c08 from '../checks/c08.mjs';
import c10 from '../checks/c10.mjs';
import c11 from '../checks/c11.mjs';
import c12 from '../checks/c12.mjs';
import c13 from '../checks/c13.mjs';
import c14 from '../checks/c14.mjs';
import c15 from '../checks/c15.mjs';
import c17 from '../checks/c17.mjs';

const all = () => [c04, c05, c06, c07, c08, c10, c11, c12, c13, c14, c15, c17];
export const borrow = (ctx, { quick, thorough = quick * 20, extra = {}, but = '' }) => all().filter(c => c.id !== but).flatMap(c => c.streams(ctx)
  .filter(s => !/^(programs|mutants|corpus)/.test(s.name) && !s.judge && !s.flags)
  .map(s => {
    const size = t => Math.floor(typeof s.n === 'number' ? s.n : s.n[t] ?? s.n.quick * 10);
    const take = t => Math.min(size(t), t === 'quick' ? quick : thorough);
    return {
      name: `${c.id} ${s.name}`, enum: true, n: { quick: take('quick'), thorough: take('thorough') }, ...extra,
      make: (i, r, k) => { const N = size(k.quick ? 'quick' : 'thorough'); return s.make(take(k.quick ? 'quick' : 'thorough') < N ? Math.floor(r.f() * N) : i, r, k); },
    };
  }));
// one stream of sources drawn from all of them
export const borrowed = (ctx, but = '') => {
  const all = borrow(ctx, { quick: 1e9, thorough: 1e9, but });
  return (r, k) => { const s = r.pick(all); const c = s.make(r.int(Math.min(2 ** 31, s.n[k.tier])), r, k); const x = Array.isArray(c) ? r.pick(c) : c; return x && x.src && x.src.length < 1500 ? x : null; };
};
