// C22 Errors name the rule that is broken.
import { program, mutate, glue, mutants, POOL } from '../lib/work.mjs';
import { text } from '../lib/gen.mjs';
import { CRASH, maySurrogate } from '../lib/oracle.mjs';
import { refParse } from '../lib/ref.mjs';
import { hasNewer } from '../lib/newer.mjs';
import { STMTS, SCTX } from './c12.mjs';
import { PATS, PPOS } from './c14.mjs';
import { borrow } from '../lib/borrow.mjs';
import { longs } from '../lib/long.mjs';
import { offsetOf, violations } from '../lib/place.mjs';
import { kindOf, payloadOf, MESSAGE } from '../lib/violations.mjs';
import * as acorn from '../vendor/acorn.mjs';

const TRIVIA = /(?:[\s\ufeff]|\/\*[^]*?\*\/|\/\/[^\n\r\u2028\u2029]*)*/y;
const skip = (s, p) => { TRIVIA.lastIndex = p; return p + TRIVIA.exec(s)[0].length; };
const WORD = /(?:[\p{ID_Start}$_]|\\u[0-9a-fA-F]{4}|\\u\{[0-9a-fA-F]+\})(?:[\p{ID_Continue}$\u200c\u200d]|\\u[0-9a-fA-F]{4}|\\u\{[0-9a-fA-F]+\})*/uy;
const cook = w => w.replace(/\\u(?:\{([0-9a-fA-F]+)\}|([0-9a-fA-F]{4}))/g, (m, a, b) => { const n = parseInt(a ?? b, 16); return n > 0x10ffff ? m : String.fromCodePoint(n); });
const wordAt = (s, p) => { WORD.lastIndex = p; const m = WORD.exec(s); return m ? cook(m[0]) : ''; };
// the texts of the tokens that end at or before p, as far as the reference reads
function before(s, goal, p) { const t = []; try { acorn.parse(s, { ecmaVersion: 2019, sourceType: goal === 'm' ? 'module' : 'script', onToken: x => { if (x.end <= p) t.push(s.slice(x.start, x.end)); } }); } catch {} return t; }
const STRICT = /^(implements|interface|let|package|private|protected|public|static|yield|eval|arguments)$/;
const ASSIGN = /^(=(?![=>])|\*\*=|<<=|>>>?=|[-+*\/%&|^]=)/;

// what an error of each kind claims about the source, as far as it can be read off the place it names
const CLAIM = {
  IllegalReturn: c => c.word === 'return',
  StrictWith: c => c.word === 'with',
  StrictFunction: c => c.word === 'function',
  MultipleDefaultsInSwitch: c => c.word === 'default' && /default/.test(c.src.slice(0, c.at)),
  GeneratorInSingleStatementContext: c => c.ch === '*' && c.prev(0) === 'function',
  MissingFunctionName: c => c.prev(0) === 'function' || c.prev(0) === '*' && c.prev(1) === 'function',
  IllegalBreak: c => c.prev(0) === 'break' || c.prev(0) === ';',
  NoIterationStatement: c => c.prev(0) === 'continue' || c.prev(0) === ';',
  UnknownLabel: c => c.word === c.payload && /^(break|continue)$/.test(c.prev(0)),
  LabelRedeclaration: c => c.word === c.payload,
  NewlineAfterThrow: c => c.prev(0) === 'throw',
  MissingInitializer: c => !/^=(?![=>])/.test(c.rest),
  InvalidLhsInFor: c => /^(in|of)$/.test(c.word),
  InvalidLhsInPostfixOp: c => /\+\+|--/.test(c.src.slice(c.at)),
  InvalidLhsInPrefixOp: c => { let k = 0; while (c.prev(k) === '(') k++; return /^(\+\+|--)$/.test(c.prev(k)); },
  InvalidLhsInAssignment: c => ASSIGN.test(c.rest) || /[[{]/.test(c.src.slice(0, c.at)),
  UnexpectedTokenUnaryExponentiation: c => c.rest.startsWith('**'),
  ParamAfterRest: c => c.ch === ',',
  YieldInParameter: c => c.word === 'yield',
  AwaitExpressionFormalParameter: c => c.word === 'await',
  UnexpectedReserved: c => /^(await|yield|enum)$/.test(c.word),
  UnexpectedStrictReserved: c => STRICT.test(c.word),
  IllegalLanguageModeDirective: c => c.ch === '"' || c.ch === "'",
  InvalidUnicodeEscapeSequence: c => c.src.slice(0, c.at).includes('\\'),
  UnexpectedEOS: c => c.at === c.src.length || /`|\/\*/.test(c.src.slice(0, c.at + 1)),
  UnexpectedToken: c => c.at < c.src.length,
};
export function judgeClaim(c, rec, ctx = { bump() {} }) {
  if (CRASH.has(rec.k)) return { skip: 'crash (C01)' };
  if (rec.k !== 'err') return { skip: 'accepted' };
  const kind = kindOf(rec.et), payload = payloadOf(rec.et), { src } = c;
  if (!MESSAGE[kind]) return { skip: 'unknown kind' };
  if (MESSAGE[kind].length === 0 || payload !== null) { const want = MESSAGE[kind](payload); if (rec.msg !== want) return { kind: 'message', detail: `the error ${rec.et} reads ${JSON.stringify(rec.msg)} instead of ${JSON.stringify(want)}` }; }
  const at = offsetOf(src, rec.line, rec.col);
  if (at < 0) return { skip: 'position out of range (C18)' };
  if (maySurrogate(src) || hasNewer(src)) return { skip: 'lone surrogate or newer identifier (known findings)' };
  let toks;
  const o = { src, at, rest: src.slice(at, at + 8), ch: src[at] ?? '', word: wordAt(src, at), payload, prev: k => { toks ??= before(src, c.goal, at); return toks[toks.length - 1 - k] ?? ''; } };
  ctx.bump('errors of kind ' + kind);
  if (CLAIM[kind] && !CLAIM[kind](o)) {
    const ref = refParse(src, c.goal);
    if (!ref.ok && !ref.internal && ref.pos < at && toks) return { skip: 'the reference stops before' };
    return { kind: 'claim', detail: `the error says ${JSON.stringify(rec.msg)} at ${rec.line}:${rec.col}, where the source reads ${JSON.stringify(src.slice(at, at + 20))}${toks ? ` after ${JSON.stringify(o.prev(0))}` : ''}` };
  }
  if (at === src.length && /^UnexpectedToken$/.test(kind)) return { kind: 'claim', detail: `names the token ${JSON.stringify(payload)} at the end of the source` };
  return null;
}
export function judgeViolation(c, rec, ctx = { bump() {} }) {
  const v = c.extra;
  if (CRASH.has(rec.k)) return { skip: 'crash (C01)' };
  if (rec.k !== 'err') return { kind: 'accepted', detail: `must fail with ${v.kind}${v.payload === null ? '' : ` (${v.payload})`}, but is accepted`, extra: v };
  const k = kindOf(rec.et), want = MESSAGE[v.kind](v.payload);
  if (k !== v.kind || v.payload !== null && payloadOf(rec.et) !== v.payload) return { kind: 'kind', detail: `must fail with ${JSON.stringify(v.kind === 'UnexpectedToken' || v.payload !== null || MESSAGE[v.kind].length === 0 ? want : v.kind)}, got ${JSON.stringify(rec.msg)} at ${rec.line}:${rec.col}`, extra: v };
  if ((v.payload !== null || MESSAGE[v.kind].length === 0) && rec.msg !== want) return { kind: 'message', detail: `must read ${JSON.stringify(want)}, reads ${JSON.stringify(rec.msg)}`, extra: v };
  ctx.bump('violations of kind ' + v.kind);
  return null;
}
const W = (name, quick, thorough, make) => ({ name, n: { quick, thorough }, judge: judgeClaim, make });
export default {
  id: 'C22',
  rule: 'sources that break exactly one rule, made from 1400 templates of violations (statements, expressions, patterns, parameters, reserved words, labels, lexical errors, ends of the source) put into random surroundings, names and trivia: the kind of the error, what it names and its message must be those of the rule. For every other rejected source (mutants, fragments, truncations, real-world functions): the message is that of the kind, and what the kind claims about the reported place holds there. Distinct by source text.',
  assumptions: ['the table of kinds and messages in lib/violations.mjs states what each rule is called; where several rules are broken, any of them may be named'],
  relevant: () => true,
  minJudge: (c, rec) => { const v = c.extra?.kind ? judgeViolation(c, rec) : judgeClaim(c, rec); return v && !v.skip ? v : null; },
  streams: ctx => [
    violations(90000, 1500000, judgeViolation),
    ...longs({ extra: { judge: judgeClaim }, lists: 400, away: 400 }),
    ...borrow(ctx, { quick: 3000, extra: { judge: judgeClaim } }),
    { ...mutants({}, 60000), judge: judgeClaim },
    W('fragments in wrong places', 40000, 600000, (i, r) => { let s = r.pick(r.pick([STMTS, PATS, POOL])); for (let d = r.range(1, 2); d > 0; d--) { const x = s; s = r.pick(r.p(0.5) ? SCTX : PPOS).replaceAll('@', () => x); } return { src: s, goal: r.pick('sm') }; }),
    W('truncations', 8000, 80000, (i, r) => { const { toks, goal } = program(r, { size: r.pick([5, 12]) }); const t = toks.map(text), out = []; for (let k = 0; k < 12; k++) out.push({ src: glue(t.slice(0, r.int(t.length + 1))), goal }); return out; }),
  ],
};
