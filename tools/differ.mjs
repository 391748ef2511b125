// A corpus of sources of every kind parsed by the current tree, one line per
// source: `differ.mjs OUT` records, so that two trees can be compared.
import fs from 'node:fs';
import { createHash } from 'node:crypto';
import { build, runBatch, MODULE, DEBUG } from '../lib/driver.mjs';
import { Ctx } from '../lib/check.mjs';
import { Rng, seedOf } from '../lib/rng.mjs';
import { borrow } from '../lib/borrow.mjs';
import { programs, mutants, corpus } from '../lib/work.mjs';
build();
const ctx = new Ctx({ id: 'differ', tier: 'quick', seed: 7 });
const streams = [...borrow(ctx, { quick: 700 }), programs({}, 6000), mutants({}, 10000), mutants({ module: false, size: 6, depth: 2, stmts: [1, 1] }, 6000, 1, 'mutants of tiny')];
for (const id of ['c09', 'c16', 'c18', 'c19', 'c20']) {
  const c = (await import(`../checks/${id}.mjs`)).default;
  for (const s of c.streams ? c.streams(ctx) : []) if (s.make && !/^C\d\d /.test(s.name)) streams.push({ ...s, name: id + s.name, n: Math.min(700, typeof s.n === 'number' ? s.n : s.n.quick), spread: typeof s.n === 'number' ? s.n : s.n.quick });
}
const inputs = [];
for (const s of streams) {
  const n = typeof s.n === 'number' ? s.n : s.n.quick;
  for (let i = 0; i < n; i++) {
    const r = new Rng(seedOf(7, 'differ', s.name, i));
    let m; try { m = s.make(s.spread ? Math.floor(i * s.spread / n) : i, r, ctx); } catch { continue; }
    for (const c of Array.isArray(m) ? m.slice(0, 40) : [m]) if (c && c.src && c.src.isWellFormed() && c.src.length < 3000) inputs.push({ src: c.src, flags: (c.goal === 'm' ? MODULE : 0) | DEBUG });
  }
}
for (const src of corpus()) inputs.push({ src, flags: DEBUG });
const recs = [];
for (let i = 0; i < inputs.length; i += 20000) recs.push(...await runBatch(inputs.slice(i, i + 20000)));
const out = recs.map((r, i) => { delete r.alloc; delete r.calls; delete r.peak; delete r.blocks; if (r.debug) r.debug = r.debug.replace(/assign_target_type: "\w+"/g, ''); return createHash('md5').update(JSON.stringify(r)).digest('hex').slice(0, 12) + ' ' + (inputs[i].flags & MODULE ? 'm ' : 's ') + JSON.stringify(inputs[i].src); });
fs.writeFileSync(process.argv[2], out.join('\n') + '\n');
console.log(out.length);
