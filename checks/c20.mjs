// C20 The JSON is well-formed ESTree.
import { programs, mutants, program, corpus, tokenise, cross, mutate, seqs, nested } from '../lib/work.mjs';
import { CRASH, diffTree, outOfScope, hasLone, maySurrogate, SPLIT_PAIR } from '../lib/oracle.mjs';
import { KEYS } from '../lib/driver.mjs';
import { refParse } from '../lib/ref.mjs';
import { checkDocument, SHAPE } from '../lib/estree.mjs';
import { STMTS, SCTX } from './c12.mjs';
import { KEYS as NAMES } from './c13.mjs';
import { PATS, PPOS } from './c14.mjs';
import { borrow } from '../lib/borrow.mjs';
import { CTX, FRAG } from './c17.mjs';
import { longs } from '../lib/long.mjs';

export function judgeDoc(c, rec, ctx = { bump() {} }) {
  if (CRASH.has(rec.k)) return { skip: 'crash (C01)' };
  if (rec.k !== 'ok') return { skip: 'rejected' };
  if (rec.dup) return { kind: 'duplicate', detail: `the field ${JSON.stringify(rec.dup)} occurs twice in one object` };
  const seen = {};
  try { checkDocument(rec.ast, c.goal, seen); } catch (e) {
    if (e.constructor.name !== 'Bad') throw e;
    return { kind: 'schema', type: e.type, detail: e.message };
  }
  for (const t in seen) ctx.bump('nodes: ' + t, seen[t]);
  ctx.bump('documents that fit the schema');
  // values of fields, against the reference: where the trees first differ, the
  // difference is not in a type, a field or a plain value
  if (outOfScope(c.src)) return null;
  const ref = refParse(c.src, c.goal);
  if (!ref.ok || maySurrogate(c.src) && (hasLone(ref.ast) || SPLIT_PAIR.test(c.src))) return null;
  const d = diffTree(ref.ast, rec.ast);
  if (!d) { ctx.bump('documents equal to the reference'); return null; }
  if (/^expected a list|^extra |^missing \{|^missing null|^expected \{|^expected null/.test(d.text)) { ctx.bump('structural differences (C11 to C15)'); return null; }
  return { kind: 'field', type: d.type, detail: `${d.path}: ${d.text}` };
}
const S = s => ({ ...s, judge: judgeDoc, flags: KEYS });
const frag = (name, ctxs, frags, quick, thorough) => ({ name, n: { quick, thorough }, make: (i, r) => { let s = r.pick(frags); for (let d = r.range(1, 3); d > 0; d--) { const x = s; s = r.pick(ctxs).replaceAll('@', () => x); } return s.length > 2000 ? null : { src: s, goal: r.p(0.3) ? 'm' : 's' }; } });
const LITS = ['0', '1.5', '.5', '5.', '1e3', '0x1F', '0b11', '0o17', '017', '089', '1e400', '1e-400', '4.9e-324', '9007199254740993', '0.1', '123456789012345678901234567890', '""', "''", '"a"', "'\\n'", '"\\u{1F600}"', '"\\0"', '"\u2028"', '"\\\n"', '"\\""', '"\u{1d4d0}"', 'true', 'false', 'null', '/a/', '/a/g', '/[/]/', '/\\//gimsuy', '/\u{1d4d0}/u', '``', '`a`', '`${a}`', '`a${b}c${`d`}e`', 't`\\u`', 't`\\x${a}\\8`', '`\\n\r\n`', 'this', 'a', '\\u0061', 'é'];
const LCTX = ['@', '@;', 'x=@', '(@)', '[@]', '[@,@]', '({a:@})', '({[@]:@})', 'f(@)', 'f(...@)', '-@', '@+@', '@.a', '@[@]', '@()', 'new a(@)', 'a?@:@', '@,@', 'x=>@', '(x=@)=>x', '[x=@]=y', '({x=@}=y)', 'var x=@', 'let{x=@}=y', '`${@}`', 'throw @', 'switch(@){case @:}', 'for(;@;);', 'function f(x=@){return @}', 'class A{[@](){}}', 'class A extends(@){}', 'function*g(){yield @}', 'async function g(){await @}', 'typeof @', '@**@', '@||@', '"x";@', '@\n"x"', 'function f(){@}', 'function f(){@;"use strict"}', '()=>{@}', 'if(a)@', 'label:@', 'do @\nwhile(@)', 'class A{m(){@}}', '({m(){@}})', '{@}'];
export default {
  id: 'C20',
  rule: 'generated programs, statement, pattern, member, literal and context-dependent fragments nested in contexts, accepted token mutants and short token sequences, real-world function bodies. The JSON text of every tree is checked for repeated fields and, parsed, against a schema of ESTree 2019 written from the specification: node types, exact fields, the kind of each field, the types allowed in each position, operators, kinds and 40 consistency rules (shorthand, kind, tail, directive, expression, delegate, source, ...); then every type and plain field value is compared with the reference. Distinct by source text.',
  assumptions: ['the schema in lib/estree.mjs, from the ESTree documents es5 to es2019 with acorn\'s `raw` and `expression`', 'acorn 8.19 as patched in /verif/vendor for field values'],
  relevant: () => true, flags: KEYS,
  minJudge: (c, rec) => { const v = judgeDoc(c, rec); return v && !v.skip ? v : null; },
  main: ctx => { const types = Object.keys(SHAPE).filter(t => ctx.counters['nodes: ' + t]); ctx.extra = { node_types_seen: types.length, node_types_of_the_schema: Object.keys(SHAPE).length, never_seen: Object.keys(SHAPE).filter(t => !types.includes(t)) }; },
  streams: ctx => [
    ...longs({ extra: { judge: judgeDoc, flags: KEYS } }),
    ...borrow(ctx, { quick: 3000, extra: { judge: judgeDoc, flags: KEYS } }),
    S(programs({}, 40000)),
    S(cross('literals in contexts', LCTX, LITS, [['s', ''], ['m', ''], ['s', '"use strict";']])),
    S(cross('statements in contexts', SCTX, STMTS, [['s', '']])),
    S(cross('patterns in places', PPOS, PATS, [['s', '']])),
    S(cross('members', ['({@:1})', '({@(){}})', '({get @(){}})', '({set @(a){}})', '({async @(){}})', '({*@(){}})', '({async*@(){}})', '({@})', '({@=1}=a)', '({@:a}=b)', 'var{@:a}=b', 'class A{@(){}}', 'class A{static @(){}}', 'class A{get @(){}}', 'class A{set @(a){}}', 'class A{static get @(){}}', 'class A{static async @(){}}', 'class A{async*@(){}}', 'class A extends B{@(){super()}}', 'x=class{static*@(){}}', 'a.@', 'a.@=1', 'a.@()'], NAMES, [['s', ''], ['m', '']])),
    S(frag('nested statements', SCTX, [...STMTS, ...LITS], 30000, 500000)),
    S(frag('nested fragments', [...CTX, ...LCTX], [...FRAG, ...LITS, ...STMTS], 60000, 800000)),
    S(frag('nested patterns', [...PPOS, ...LCTX], PATS, 30000, 400000)),
    S(mutants({}, 30000)),
    S(programs({ module: true }, 12000, 150000, 'modules')),
    ...seqs('imports and exports', 'import export default * as from {a} {a,b} {a as b} a , "m" ; function class{} let async \\n', [['@', 'm']], { max: 7, full: 4, tfull: 4, sample: 15000 }).map(S),
    ...seqs('tokens', 'a , = => ( ) [ ] { } : ... ++ async function class get static * "s" 1 /r/ new `t` yield', ['@', 'x=@', '({@})', 'class A{@}', '(@)'], { max: 5, full: 2, tfull: 3, sample: 15000 }).map(S),
    S({ name: 'corpus', n: { quick: 3000, thorough: 40000 }, make: (i, r) => { const c = corpus(); if (!c.length) return null; const t = tokenise(r.pick(c)).slice(0, 400); if (r.p(0.4)) mutate(t, r); return { src: t.join(''), goal: r.p(0.2) ? 'm' : 's' }; } }),
  ],
};
