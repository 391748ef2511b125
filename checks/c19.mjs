// C19 Node spans cover exactly the text of the node.
import { programs, mutants, program, corpus, tokenise, cross, nested, mutate, seqs } from '../lib/work.mjs';
import { text } from '../lib/gen.mjs';
import { needsSep, decorate, plain } from '../lib/print.mjs';
import { CRASH } from '../lib/oracle.mjs';
import { DEBUG } from '../lib/driver.mjs';
import { refParse } from '../lib/ref.mjs';
import { parseDebug, girSpans } from '../lib/spans.mjs';
import { STMTS, SCTX } from './c12.mjs';
import { PATS, PPOS } from './c14.mjs';
import { borrow } from '../lib/borrow.mjs';
import { CTX, FRAG } from './c17.mjs';
import { longs } from '../lib/long.mjs';

// giron's node kinds that are called otherwise in ESTree
const MAP = { BindingIdentifier: 'Identifier', StaticMemberExpression: 'MemberExpression', ComputedMemberExpression: 'MemberExpression', Directive: 'ExpressionStatement', RegexLiteral: 'Literal', AsyncArrowFunctionExpression: 'ArrowFunctionExpression', ArrayAssignmentPattern: 'ArrayPattern', ObjectAssignmentPattern: 'ObjectPattern' };
// ESTree node types that always carry a span in giron's tree
const ALWAYS = new Set('Program EmptyStatement BlockStatement ExpressionStatement IfStatement LabeledStatement BreakStatement ContinueStatement WithStatement SwitchStatement ReturnStatement ThrowStatement TryStatement WhileStatement DoWhileStatement ForStatement ForInStatement ForOfStatement DebuggerStatement VariableDeclaration FunctionDeclaration ClassDeclaration BinaryExpression LogicalExpression UnaryExpression UpdateExpression ConditionalExpression AssignmentExpression SequenceExpression CallExpression NewExpression MemberExpression ArrowFunctionExpression ClassExpression ArrayExpression ObjectExpression Literal ThisExpression Super MetaProperty SpreadElement TaggedTemplateExpression YieldExpression AwaitExpression ImportDeclaration ExportNamedDeclaration ExportDefaultDeclaration ExportAllDeclaration'.split(' '));
const LTS = /\r\n|[\n\r\u2028\u2029]/g;
export function judgeSpans(c, rec, ctx = { bump() {} }) {
  if (CRASH.has(rec.k)) return { skip: 'crash (C01)' };
  if (rec.k !== 'ok') return { skip: 'rejected' };
  const { src } = c;
  const ref = refParse(src, c.goal);
  if (!ref.ok) return { skip: 'rejected by the reference only' };
  let gs;
  try { gs = girSpans(parseDebug(rec.dbg)); } catch (e) { return { kind: 'debug', detail: 'the Debug text does not read back: ' + e.message }; }
  // code point index, line and column of every code unit offset
  const cp = []; let n = 0; for (const ch of src) { cp.push(ch); n++; }
  const u2c = new Int32Array(src.length + 1); { let j = 0; for (let k = 0; k < n; k++) { u2c[j] = k; if (cp[k].length === 2) u2c[j + 1] = k; j += cp[k].length; } u2c[src.length] = n; }
  const line = new Int32Array(n + 1), col = new Int32Array(n + 1); { let l = 1, k0 = 0; for (let k = 0; k <= n; k++) { line[k] = l; col[k] = k - k0 + 1; const ch = cp[k]; if (ch === '\n' || ch === '\u2028' || ch === '\u2029' || ch === '\r' && cp[k + 1] !== '\n') { l++; k0 = k + 1; } } }
  const show = (a, b) => JSON.stringify(cp.slice(a, Math.min(b, a + 60)).join(''));
  for (const g of gs) {
    for (const [w, m] of [['start', g.start], ['end', g.end]]) {
      if (!(m.idx >= 0 && m.idx <= n)) return { kind: 'outside', detail: `${w} of a ${g.n} is index ${m.idx} of ${n} characters` };
      if (m.line !== line[m.idx] || m.col !== col[m.idx]) return { kind: 'linecol', detail: `${w} of the ${g.n} ${show(g.start.idx, g.end.idx)} at index ${m.idx} is given as ${m.line}:${m.col}, but that index is ${line[m.idx]}:${col[m.idx]}` };
    }
    if (g.start.idx > g.end.idx) return { kind: 'order', detail: `a ${g.n} ends (${g.end.idx}) before it starts (${g.start.idx})` };
  }
  // nesting
  const last = new Map();
  for (let i = 0; i < gs.length; i++) {
    const g = gs[i]; if (g.parent < 0) continue; const p = gs[g.parent];
    if (g.start.idx < p.start.idx || g.end.idx > p.end.idx) return { kind: 'nesting', detail: `the ${g.n} ${show(g.start.idx, g.end.idx)} at ${g.start.idx}-${g.end.idx} is not inside its parent ${p.n} at ${p.start.idx}-${p.end.idx}` };
  }
  // the same nodes at the same places as in the reference
  const want = new Map(), have = new Map(), any = new Set();
  const key = (t, a, b) => t + ' ' + a + ' ' + b;
  let always = 0;
  (function walk(x) {
    if (Array.isArray(x)) { x.forEach(walk); return; }
    if (!x || typeof x !== 'object' || x instanceof RegExp) return;
    if (x.type) { const a = u2c[x.start], b = u2c[x.end]; any.add(a + ' ' + b); if (x.type !== 'Program') { const k = key(x.type, a, b); want.set(k, (want.get(k) || 0) + 1); } }
    for (const k in x) if (k !== 'type') walk(x[k]);
  })(ref.ast);
  const program_ = gs[0];
  for (const g of gs) {
    if (g.n === 'Program') continue;
    const t = MAP[g.n] || g.n, k = key(t, g.start.idx, g.end.idx);
    have.set(k, (have.get(k) || 0) + 1);
    const known = want.size && (MAP[g.n] || /^[A-Z][a-z]+/.test(g.n));
    if (!known && any.has(g.start.idx + ' ' + g.end.idx)) continue;
    if ((have.get(k)) > (want.get(k) || 0)) return { kind: 'span', type: t, detail: `a ${g.n} spans ${g.start.line}:${g.start.col}-${g.end.line}:${g.end.col} ${show(g.start.idx, g.end.idx)}, where the source has no ${t}` };
  }
  for (const [k, m] of want) { const t = k.slice(0, k.indexOf(' ')); if (ALWAYS.has(t)) { always += m; if ((have.get(k) || 0) < m) { const [, a, b] = k.split(' ').map(Number); return { kind: 'missing', type: t, detail: `no span for the ${t} ${show(a, b)} at ${line[a]}:${col[a]}-${line[b]}:${col[b]}` }; } } }
  // the program spans from its first to its last token
  let lo = -1, hi = -1; { const b = ref.ast.body; if (b.length) { lo = u2c[b[0].start]; hi = u2c[b[b.length - 1].end]; } }
  if (lo >= 0 && program_ && program_.n === 'Program' && (program_.start.idx !== lo || program_.end.idx !== hi)) return { kind: 'span', type: 'Program', detail: `the Program spans ${program_.start.idx}-${program_.end.idx}, its text ${lo}-${hi}` };
  ctx.bump('spans checked', gs.length); ctx.bump('nodes that must have a span', always); ctx.bump('programs checked');
  return null;
}
const SEPS = [' ', '\n', '\r\n', '\r', '\u2028', '\u2029', '\t', '\u00a0', '\ufeff', '/**/', '/*\n*/', '/*\r\n\r*/', '/*\u2028é\u{1d4d0}*/', '//x\n', '// \u{1f600}\r\n', '  ', '\n\n', '/*\u{1d4d0}*/', '\r\r\n\n', ' //\u2029'];
const astral = s => s.replace(/\b(foo|bar|x|y|obj)\b/g, m => ({ foo: '\u{1d4d0}', bar: 'é\u{20bb7}', x: '𝒳', y: 'ñ', obj: 'o\u{1d4d0}j' })[m]);
const S = s => ({ ...s, judge: judgeSpans, flags: DEBUG });
const spread = (s, r) => { let out = '', prev = ''; for (const t of tokenise(s)) { if (/^\s+$/.test(t)) { out += /[\n\r\u2028\u2029]/.test(t) ? r.pick(['\n', '\r\n', '\u2028', t]) : r.pick([' ', '\t', '/**/', t]); prev = t; continue; } if (prev && r.p(0.4) && !/^[`'"\/]/.test(t) && !/[`\/\\]/.test(s)) out += r.pick([' ', '/*\u{1f600}*/', '\t', '\ufeff', '  ']); out += t; prev = t; } return out; };
const frag = (name, ctxs, frags, quick, thorough) => ({ name, n: { quick, thorough }, make: (i, r) => { let s = r.pick(frags); for (let d = r.range(1, 3); d > 0; d--) { const x = s; s = r.pick(ctxs).replaceAll('@', () => x); } if (s.length > 2000) return null; s = spread(s, r); if (r.p(0.3)) s = astral(s); return { src: r.pick(['', '', '\n', '/*\r\n*/ ', ' ', '\u{1d4d0};\r\n', '`\n\r\n`\n']) + s + r.pick(['', '', '\n', ' ', ';', '//x']), goal: r.p(0.3) ? 'm' : 's' }; } });
export default {
  id: 'C19',
  rule: 'generated programs printed plainly and with every kind of trivia, line terminator and astral character; statement, pattern and context-dependent fragments nested in contexts; accepted token mutants; real-world function bodies. For every tree both parsers accept: each marker lies in the source and its line and column belong to its index; every span lies in its parent\'s; every span is that of a reference node of the same type and the same extent, no more often than the reference has it; every node of 45 types has its span; the Program spans from its first to its last token. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor gives the extents; giron keeps no span for some nodes (methods, specifiers, clauses, quasis), which are not judged', 'spans are read from the Debug text of the tree, the only public view of them'],
  relevant: () => true, flags: DEBUG,
  minJudge: (c, rec) => { const v = judgeSpans(c, rec); return v && !v.skip ? v : null; },
  streams: ctx => [
    ...longs({ extra: { judge: judgeSpans, flags: DEBUG }, away: 600 }),
    ...borrow(ctx, { quick: 2500, extra: { judge: judgeSpans, flags: DEBUG } }),
    S(programs({}, 24000)),
    { ...S({}), name: 'programs with hard trivia', n: { quick: 12000, thorough: 200000 }, make: (i, r) => { const { toks, goal } = program(r, { size: r.pick([6, 12, 25]), uni: 0.2 }); let s = '', prev = ''; for (const tk of toks) { const t = text(tk), nl = !(typeof tk === 'object' && tk.nl === false); if (r.p(0.5)) { let sep = r.pick(SEPS); if (!nl && /[\n\r\u2028\u2029]/.test(sep)) sep = ' '; s += sep; } else if (needsSep(prev, t)) s += ' '; s += t; prev = t; } return { src: r.pick(['', ...SEPS]) + s + r.pick(['', ...SEPS]), goal }; } },
    S(frag('statements in contexts', SCTX, STMTS, 30000, 400000)),
    S(frag('patterns in places', [...PPOS, ...SCTX], PATS, 30000, 400000)),
    S(frag('fragments in contexts', CTX, [...FRAG, ...STMTS], 30000, 400000)),
    { ...S(cross('statement in context', SCTX, STMTS, [['s', '']])), n: { quick: SCTX.length * Math.min(STMTS.length, 60), thorough: SCTX.length * STMTS.length } },
    S(mutants({}, 20000)),
    ...seqs('tokens', 'a b , ; = => ( ) [ ] { } : . ... + ++ async function class get static * \\n "s" 1 `t` /r/ new in of let var', ['@', 'x=@', '({@})', 'class A{@}', '(@)', 'for(@)x', '{@}\n'], { max: 5, full: 2, tfull: 3, sample: 15000 }).map(S),
    S({ name: 'corpus', n: { quick: 3000, thorough: 40000 }, make: (i, r) => { const c = corpus(); if (!c.length) return null; const t = tokenise(r.pick(c)).slice(0, 400); if (r.p(0.4)) mutate(t, r); let s = t.join(''); if (r.p(0.3)) s = s.replace(/\n/g, r.pick(['\r\n', '\r', '\u2028', '\u2029'])); return { src: s, goal: r.p(0.2) ? 'm' : 's' }; } }),
  ],
};
