// C16 sources outside the grammar are rejected.
import { programs, mutants, seqs, cross, nested, corpus, tokenise, mutate, program, POOL, glue } from '../lib/work.mjs';
import { plain, decorate } from '../lib/print.mjs';
import { text } from '../lib/gen.mjs';
import { STMTS, SCTX } from './c12.mjs';
import { PATS, PPOS } from './c14.mjs';
import { borrow } from '../lib/borrow.mjs';
import { longs } from '../lib/long.mjs';
import { lists, ALL_LISTS } from '../lib/lists.mjs';
const ALL = [...new Set(POOL)];
const BR = ['(', ')', '[', ']', '{', '}', '`', '${', '"', "'", '/', '/*', '*/', '//', '=>'];
// every single edit of one small program, exhaustively
const edits = (name, quick, thorough) => ({
  name, n: { quick, thorough },
  make: (i, r) => {
    const { toks, goal } = program(r, { size: r.pick([2, 4, 7]), depth: 3, stmts: [1, 1] });
    const t = toks.map(text); if (t.length > 25) return null;
    const out = []; const p = r.int(t.length);
    const push = x => out.push({ src: glue(x), goal });
    for (let k = 0; k < t.length; k++) { push([...t.slice(0, k), ...t.slice(k + 1)]); push([...t.slice(0, k), t[k], ...t.slice(k)]); if (k) push([...t.slice(0, k - 1), t[k], t[k - 1], ...t.slice(k + 1)]); push(t.slice(0, k)); push(t.slice(k)); }
    for (const x of ALL) { push([...t.slice(0, p), x, ...t.slice(p)]); push([...t.slice(0, p), x, ...t.slice(p + 1)]); }
    return out;
  },
});
const chars = [...'(){}[];,<>=+-*/%&|^!~?:.\'"`\\$#@ \n\u2028\ufeffax01e_é\u{1d4d0}'];
export default {
  id: 'C16',
  rule: 'sampled sequences of 1 to 6 tokens out of 160 (all of up to 2, all of 3 in the thorough run), in seven surroundings; every deletion, duplication, neighbour swap, truncation and, at one place, every insertion and replacement by 160 tokens of small generated programs; multi-edit token mutants; character edits and truncations of generated programs and real-world function bodies; bracket and terminator sequences; statement texts followed by stray tokens; a sample of every workload of the construct checks (C04 to C15, C17: clause, member, head, specifier and operator sequences). Acceptance and the whole tree compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor', 'static-semantics early errors giron does not claim (duplicate declarations, undefined labels of exports, ... listed in lib/oracle.mjs) are not judged'],
  relevant: () => true,
  streams: ctx => [
    ...longs(),
    ...borrow(ctx, { quick: 3500 }).filter(s => !/ lists: /.test(s.name)),
    ...lists(ALL_LISTS, { quick: 6000 }),
    ...seqs('tokens', ALL, ['@'], { max: 6, full: 2, tfull: 2, sample: 20000 }),
    { name: 'all three tokens', enum: true, n: { quick: 0, thorough: ALL.length ** 3 }, make: i => ({ src: [ALL[i % ALL.length], ALL[Math.floor(i / ALL.length) % ALL.length], ALL[Math.floor(i / ALL.length ** 2)]].join(' '), goal: i % 2 ? 's' : 'm' }) },
    ...seqs('tokens in surroundings', ALL, ['x=@', 'f(@)', 'function f(){@}', '({@})', '[@]', 'class A{@}', 'async function*g(){@}', '(@)=>0', ['@', 'm'], 'if(x){@}else y', '`${@}`', 'for(@)x', 'switch(x){@}'], { max: 5, full: 1, tfull: 2, sample: 25000 }),
    edits('single edits of small programs', 4000, 40000),
    mutants({}, 60000),
    mutants({ module: false, size: 6, depth: 2, stmts: [1, 1] }, 40000, 500000, 'mutants of tiny programs'),
    ...seqs('brackets and terminators', BR, ['@', 'x=@', 'f(@)'], { max: 6, full: 3, tfull: 5, sample: 8000, sep: '' }),
    ...seqs('brackets around names', ['(', ')', '[', ']', '{', '}', 'a', ',', ';', '=>', ':'], ['@', 'x=@', 'function f()@'], { max: 7, full: 3, tfull: 5, sample: 12000 }),
    { name: 'stray tokens after a statement', n: STMTS.length * ALL.length, make: i => ({ src: STMTS[i % STMTS.length] + ' ' + ALL[Math.floor(i / STMTS.length)], goal: 's' }) },
    { name: 'stray tokens before a statement', n: STMTS.length * ALL.length, make: i => ({ src: ALL[Math.floor(i / STMTS.length)] + ' ' + STMTS[i % STMTS.length], goal: 's' }) },
    { name: 'character edits', n: { quick: 60000, thorough: 800000 }, make: (i, r) => { const { toks, goal } = program(r, { size: r.pick([3, 8, 15]), depth: 3, stmts: [1, 2] }); const c = [...plain(toks)]; for (let k = r.w([[6, 1], [3, 2], [1, 3]]); k > 0; k--) { const p = r.int(c.length + 1); switch (r.int(5)) { case 0: c.splice(p, 1); break; case 1: c.splice(p, 0, r.pick(chars)); break; case 2: c[p] = r.pick(chars); break; case 3: c.splice(p, 0, ...c.slice(p, p + r.range(1, 5))); break; default: c.splice(p, r.range(1, 5)); } } return { src: c.join(''), goal }; } },
    { name: 'truncations', n: { quick: 6000, thorough: 60000 }, make: (i, r) => { const { toks, goal } = program(r, { size: r.pick([5, 15]) }); const s = [...(r.p(0.5) ? plain(toks) : decorate(toks, r, { density: 0.3, asi: 0.4 }))]; const out = []; for (let k = 0; k < 10; k++) out.push({ src: s.slice(0, r.int(s.length + 1)).join(''), goal }, { src: s.slice(r.int(s.length + 1)).join(''), goal }); return out; } },
    { name: 'corpus with edits', n: { quick: 20000, thorough: 250000 }, make: (i, r) => { const c = corpus(); if (!c.length) return null; const t = tokenise(r.pick(c)).slice(0, 300); for (let k = r.range(0, 2); k > 0; k--) mutate(t, r); return { src: t.join(''), goal: r.p(0.3) ? 'm' : 's' }; } },
    { name: 'spliced programs', n: { quick: 30000, thorough: 400000 }, make: (i, r) => { const a = program(r, { size: 8, depth: 3, stmts: [1, 2] }), b = program(r, { size: 8, depth: 3, stmts: [1, 2] }); const x = a.toks.map(text), y = b.toks.map(text); const t = r.p(0.5) ? [...x.slice(0, r.int(x.length + 1)), ...y.slice(r.int(y.length + 1))] : (() => { const p = r.int(x.length + 1), q = r.int(y.length + 1); return [...x.slice(0, p), ...y.slice(q, q + r.range(1, 6)), ...x.slice(p)]; })(); return { src: glue(t), goal: a.goal }; } },
    { name: 'two statements on one line', n: { quick: 40000, thorough: 270 * 270 * 2 }, make: (i, r) => ({ src: r.pick(STMTS) + r.pick([' ', '', ' ', '\t', '/**/']) + r.pick(STMTS), goal: r.p(0.2) ? 'm' : 's' }) },
    nested('fragments in wrong places', [...SCTX, ...PPOS], [...STMTS, ...PATS, ...ALL], 60000, 700000, [1, 3]),
    programs({}, 10000),
  ],
};
