// C18 Error positions point at the offending place.
import { program, mutate, glue, seqs, corpus, tokenise, POOL } from '../lib/work.mjs';
import { text } from '../lib/gen.mjs';
import { needsSep } from '../lib/print.mjs';
import { CRASH, outOfScope, maySurrogate } from '../lib/oracle.mjs';
import { hasNewer } from '../lib/newer.mjs';
import { runBatch } from '../lib/driver.mjs';
import { goalFlag } from '../lib/check.mjs';
import * as acorn from '../vendor/acorn.mjs';
import { refParse } from '../lib/ref.mjs';
import { STMTS, SCTX } from './c12.mjs';
import { PATS, PPOS } from './c14.mjs';
import { borrow } from '../lib/borrow.mjs';
import { longs } from '../lib/long.mjs';
import { LT, lineCol, offsetOf, judgePlace, violations } from '../lib/place.mjs';

const TRIVIA = /(?:[\s\ufeff]|\/\*[^]*?\*\/|\/\/[^\n\r\u2028\u2029]*)*/y;
const skip = (s, p) => { TRIVIA.lastIndex = p; return p + TRIVIA.exec(s)[0].length; };
// source up to the end of the last token that ends at or before p
function back(s, goal, p) { let e = 0; try { acorn.parse(s, { ecmaVersion: 2019, sourceType: goal === 'm' ? 'module' : 'script', onToken: t => { if (t.end <= p) e = t.end; } }); } catch {} return s.slice(0, e); }
const COVER = /[{,](?:\s|\ufeff|\/\*[^]*?\*\/|\/\/.*[\n\r\u2028\u2029])*[\p{ID_Start}$_\\][\p{ID_Continue}$\\{}]*(?:\s|\ufeff|\/\*[^]*?\*\/|\/\/.*[\n\r\u2028\u2029])*=(?![=>])/u;
const PLAIN_G = /^(UnexpectedToken\(|UnexpectedEOS|UnexpectedTemplateString|InvalidOrUnexpectedToken|UnexpectedReserved|UnexpectedStrictReserved|MissingFunctionName|NewlineAfterThrow|UnexpectedTokenUnaryExponentiation|MissingInitializer|IllegalReturn)/;
const PLAIN_A = /^Unexpected (token|keyword|character)|^The keyword .* is reserved$|^Illegal newline after throw$|^'return' outside of function$/;
const TOKEN = /[\p{ID_Start}$_\u{1d4d0}][\p{ID_Continue}$\u200c\u200d]*|=>|\.\.\.|>>>=|\*\*=|<<=|>>=|>>>|===|!==|[-+*%&|^<>=!]=|\*\*|&&|\|\||\+\+|--|<<|>>|[-+*%&|^<>=!(){}\[\];,?:.~]/uy;

// what must hold of one error by itself and against the reference
export function judgePos(c, rec, ctx = { bump() {} }) {
  if (CRASH.has(rec.k)) return { skip: 'crash (C01)' };
  if (rec.k !== 'err') return { skip: 'accepted' };
  const { src } = c;
  const lines = src.split(LT);
  if (!(Number.isInteger(rec.line) && rec.line >= 1 && rec.line <= lines.length)) return { kind: 'range', detail: `line ${rec.line} of a source of ${lines.length} lines (${rec.msg})` };
  const width = [...lines[rec.line - 1]].length;
  if (!(Number.isInteger(rec.col) && rec.col >= 1 && rec.col <= width + 1)) return { kind: 'range', detail: `column ${rec.col} in line ${rec.line}, which has ${width} characters (${rec.msg})` };
  const at = offsetOf(src, rec.line, rec.col);
  // an error that names a word or punctuator stands where that token starts
  const named = /^UnexpectedToken\("(.*)"\)$/.exec(rec.et);
  if (named && !/\\/.test(src) && named[1] !== 'null') {
    TOKEN.lastIndex = 0; const m = TOKEN.exec(named[1]);
    if (m && m[0].length === named[1].length && !/["'`\d.\/}]/.test(src[at] ?? '')) {
      if (!src.startsWith(named[1], at)) return { kind: 'token', detail: `names ${JSON.stringify(named[1])} but line ${rec.line} column ${rec.col} reads ${JSON.stringify(src.slice(at, at + 20))}` };
      ctx.bump('named token found at the position');
    }
  }
  const ref = refParse(src, c.goal);
  if (ref.ok || ref.internal || outOfScope(src)) return null;
  if (maySurrogate(src) || hasNewer(src)) return { skip: 'lone surrogate or newer identifier (known findings)' };
  if (PLAIN_G.test(rec.et) && PLAIN_A.test(ref.msg)) {
    const e = lineCol(src, ref.pos);
    if (e.line === rec.line && e.col === rec.col) { ctx.bump('position as the reference'); return null; }
    const at_ = ref.pos, after = w => { const p = skip(src, w), f = lineCol(src, p); return f.line === rec.line && f.col === rec.col; };
    // where acorn gives up on a token that can still be continued, the next one is the offender
    if (src[at_] === ')' && /[(,]$/.test(back(src, c.goal, at_)) && after(at_ + 1)) { ctx.bump('position after a parameter list without arrow'); return null; }
    const word = /^(?:let|async|[a-z]+)(?![\w$])/.exec(src.slice(at_, at_ + 12));
    if (word && after(at_ + word[0].length) && (/^Unexpected keyword/.test(ref.msg) || /^(let|async)$/.test(word[0]))) { ctx.bump('position after a word that may continue'); return null; }
    if (/^Illegal newline/.test(ref.msg) && after(at_)) { ctx.bump('position of the token after throw'); return null; }
    // a reserved word that the token after it shows to be misplaced: either of the two may be named
    const mine = /^[a-z]+(?![\w$])/.exec(src.slice(at, at + 12));
    // the reference reads one token further before it judges a token
    const whole = /^(?:(?:\\u\{[0-9a-fA-F]*\}|[\p{ID_Start}$_\\])(?:\\u\{[0-9a-fA-F]*\}|[\p{ID_Continue}$\\])*|=>|\.\.\.|>>>=|\*\*=|<<=|>>=|>>>|===|!==|[-+*%&|^<>=!]=|\*\*|&&|\|\||\+\+|--|<<|>>|[-+*%&|^<>=!(){}\[\];,?:.~])/u.exec(src.slice(at, at + 200));
    if (/^Unexpected character/.test(ref.msg) && whole && at < at_ && skip(src, at + whole[0].length) === at_) { ctx.bump('position of the token before a bad character'); return null; }
    if (mine && at < at_ && skip(src, at + mine[0].length) === at_) { ctx.bump('position of the word before'); return null; }
    if (at < at_ && /\b[gs]et\b/.test(src.slice(0, at)) && /\([^()]*$/.test(back(src, c.goal, at))) return { skip: 'accessor parameters' };
    if (COVER.test(src.slice(0, Math.max(at, at_) + 1))) return { skip: 'shorthand initialiser' };
    if (at > at_ && /^(UnexpectedEOS|InvalidOrUnexpectedToken)/.test(rec.et) && /[`}\/"'\\\d@#]/.test(src.slice(at_, at + 1))) return { skip: 'unterminated or malformed token right after' };
    if (at < at_ && /^Unexpected(Strict)?Reserved/.test(rec.et)) return { skip: 'static-semantics error before' };
    if (at > at_ && /__proto__[^]*__proto__/.test(src)) return { skip: 'duplicate __proto__' };
    if (src.startsWith('...', at) && at < at_) return { skip: 'rest parameters without arrow' };
    if (src.startsWith('...', at_) && at > at_) return { skip: 'rest parameters without arrow' };
    return { kind: 'position', detail: `expected ${e.line}:${e.col} (${ref.msg}, at ${JSON.stringify(src.slice(ref.pos, ref.pos + 20))}), got ${rec.line}:${rec.col} (${rec.msg})`, et: rec.et.replace(/\(.*/, ''), ref: ref.msg };
  }
  ctx.bump('other kinds of error, range only');
  return null;
}
const SEPS = [' ', '\n', '\r\n', '\r', '\u2028', '\u2029', '\t', '\u00a0', '\ufeff', '\u3000', '/**/', '/*\n*/', '/*\r\n\r*/', '/*\u2028é\u{1d4d0}*/', '//x\n', '// \u{1f600}\r\n', '//\u2029', '  ', '\n\n', '/*\u{1d4d0}*/', '\r\r\n\n'];
const HARD = ['"a\\\nb"', '"a\\\r\nb"', "'\\\u2028'", '"\u2028"', '`a\nb`', '`\r\n\r`', '`\u2028${a}\n`', '"\u{1d4d0}\u{1f600}"', '\u{1d4d0}', 'é', '/\u{1f600}/', '`\u{1f600}`', '\\u{61}', '"\\u{1F600}"', '`\\\n`', '`${`\n`}`', '/*\u{1f600}\n\u{1f600}*/'];
function join(toks, r) { const dense = r.p(0.4); let s = ''; for (const t of toks) s += (dense && !needsSep(s.slice(-8), t) && r.p(0.6) ? '' : r.p(0.4) ? ' ' : r.pick(SEPS)) + t; return s + (r.p(0.3) ? r.pick(SEPS) : ''); }
function broken(r) {
  const { toks, goal } = program(r, { size: r.pick([3, 6, 12, 20]), depth: 3, stmts: [1, 2] });
  const t = toks.map(text);
  for (let k = r.w([[6, 1], [3, 2], [1, 3]]); k > 0; k--) mutate(t, r);
  if (r.p(0.3)) for (let k = r.range(1, 3); k > 0; k--) t.splice(r.int(t.length + 1), 0, r.pick(HARD));
  return { src: r.w([[1, () => t.join(' ')], [1, () => glue(t)], [3, () => join(t, r)]])(), goal };
}
const judge = judgePos;
const W = (name, quick, thorough, make) => ({ name, n: { quick, thorough }, judge, make });

// Metamorphic: variants of one rejected source with a known relation
async function related(ctx) {
  const N = ctx.quick ? 9000 : 150000, per = 300;
  for (let k = 0; k < N && !ctx.expired() && ctx.raw.length < 20; k += per) {
    const base = [];
    for (let j = 0; j < per; j++) { const r = ctx.rng('related', ctx.shard, k + j); const c = r.p(0.6) ? broken(r) : { src: r.pick(r.p(0.5) ? SCTX : PPOS).replaceAll('@', () => r.pick(r.pick([STMTS, PATS, POOL]))), goal: r.pick('sm') }; if (c.src.isWellFormed()) base.push({ ...c, r }); }
    const recs = await ctx.parse(base);
    const vs = [];
    base.forEach((c, i) => {
      const rec = recs[i]; if (rec.k !== 'err') return;
      const { r } = c;
      const L = r.range(1, 4), lt = r.pick(c.src[0] === '\n' ? ['\n', '\r\n', '\u2028', '\u2029'] : ['\n', '\r\n', '\r', '\u2028', '\u2029']);
      vs.push({ c, rec, src: lt.repeat(L) + c.src, line: rec.line + L, col: rec.col, rel: 'blank lines before', how: `${L} blank lines before` });
      const pad = r.pick([' ', '   ', '\t', '\ufeff', '/**/', '/*\u{1d4d0}é*/', '\u3000']);
      vs.push({ c, rec, src: pad + c.src, line: rec.line, col: rec.line === 1 ? rec.col + [...pad].length : rec.col, rel: 'trivia on the first line', how: `${JSON.stringify(pad)} before` });
      const com = r.pick(['/*\n*/', '/* \r\n \u2028*/', '//x\n', '//\r\n//\u2029', '/*\u{1d4d0}\n\u{1d4d0}*/']), cl = com.split(LT), n = cl.length - 1;
      if (!/^\s*-->/.test(c.src)) vs.push({ c, rec, src: com + c.src, line: rec.line + n, col: rec.line === 1 ? rec.col + [...cl[n]].length : rec.col, rel: 'comment before', how: `${JSON.stringify(com)} before` });
      // complete statements before it; they must not be a directive prologue's end, so only when there is none
      if (!/^[;"']/.test(c.src.slice(skip(c.src, 0)))) { const st = r.pick(['a;', ';', '{}\n', 'while(a){}', '`\n`;', '"x\\\n";', 'x=/a/;', 'function f0(){}', '\n;\u2028']); const sl = st.split(LT), m = sl.length - 1; if (!/use strict/.test(st)) vs.push({ c, rec, src: st + c.src, line: rec.line + m, col: rec.line === 1 ? rec.col + [...sl[m]].length : rec.col, rel: 'statement before', how: `the statement ${JSON.stringify(st)} before`, soft: true }); }
      // every line terminator written another way
      const other = r.pick(['\n', '\r\n', '\r', '\u2028', '\u2029']);
      if (!/["'`]/.test(c.src) && LT.test(c.src)) vs.push({ c, rec, src: c.src.replace(/\r\n|[\n\r\u2028\u2029]/g, other), line: rec.line, col: rec.col, rel: 'other line terminators', how: `line terminators written as ${JSON.stringify(other)}` });
      // nothing after the offending token matters
      const ref = refParse(c.src, c.goal);
      if (!ref.ok && !ref.internal && /^UnexpectedToken\(/.test(rec.et) && /^Unexpected token/.test(ref.msg)) {
        const e = lineCol(c.src, ref.pos);
        TOKEN.lastIndex = ref.pos; const m = TOKEN.exec(c.src);
        if (e.line === rec.line && e.col === rec.col && m && m.index === ref.pos && !/[\\\d]/.test(c.src[ref.pos + m[0].length] ?? '') && !/^([a-z]|=$)/.test(m[0]) && !(m[0] === '}' && c.src.includes('`'))) {
          const head = c.src.slice(0, ref.pos + m[0].length);
          for (let q = 0; q < 3; q++) { const tail = r.pick(['', ' ', '\n', ' ;', ' )', ' }', ' x', ' @', ' "', ' `', ' /', ' /*', ' =>', ' = 1', ' (', ' {', ' :', ' 1', ' of b', '\n\n\n@', ' "use strict"', ' return', ' \\', ' 08 "\\u"', ' */', ' ]', ' ...', ' function(){}']) + (r.p(0.4) ? ' ' + r.pick(POOL) : ''); vs.push({ c, rec, src: head + tail, line: rec.line, col: rec.col, et: rec.et, rel: 'other text after the token', how: `what follows ${JSON.stringify(m[0])} replaced by ${JSON.stringify(tail)}` }); }
        }
      }
    });
    const good = vs.filter(v => v.src.isWellFormed());
    const out = await ctx.parse(good.map(v => ({ src: v.src, goal: v.c.goal })));
    good.forEach((v, i) => {
      const o = out[i]; ctx.count(v.c.goal + ' ' + v.src); ctx.bump('related: ' + v.rel);
      if (CRASH.has(o.k) || o.k === 'notrun') return;
      if (o.k === 'err' && o.line === v.line && o.col === v.col && (!v.et || v.et === o.et)) return;
      if (v.soft && o.k === 'ok') return;
      ctx.violation({ src: v.src, goal: v.c.goal, stream: 'related sources', kind: 'relation', extra: { base: v.c.src }, detail: `${JSON.stringify(v.c.src.slice(0, 200))} fails at ${v.rec.line}:${v.rec.col} (${v.rec.msg}); with ${v.how} it must fail at ${v.line}:${v.col}, got ${o.k === 'err' ? `${o.line}:${o.col} (${o.msg})` : o.k}` });
    });
  }
}
export default {
  id: 'C18',
  rule: 'token mutants of generated programs, printed with every line terminator, comments, astral characters and multi-line literals; fragments in wrong contexts; truncations; token sequences; mutated real-world functions. For every error: the line and column lie inside the source or just past its end (lines by ECMAScript line terminators, columns in characters), the token an error names stands there, and where both giron and the reference reject because of an unexpected token, the positions are equal. Related sources: blank lines, comments and statements put before shift the error exactly, other line terminators leave it, and replacing all text after the offending token leaves position and kind. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor reports the first token that cannot continue the program; where acorn or giron report a static-semantics error or an unterminated literal, only the range and the relations are checked'],
  relevant: () => true,
  minJudge: (c, rec) => { const v = judgePos(c, rec); return v && !v.skip ? v : null; },
  streams: ctx => [
    ...longs({ extra: { judge }, lists: 600, away: 600 }),
    ...borrow(ctx, { quick: 3000, extra: { judge } }),
    violations(60000, 1000000, judgePlace),
    W('token mutants', 90000, 1200000, (i, r) => broken(r)),
    W('fragments in wrong places', 60000, 800000, (i, r) => { let s = r.pick(r.pick([STMTS, PATS, POOL])); for (let d = r.range(1, 2); d > 0; d--) { const x = s; s = r.pick(r.p(0.5) ? SCTX : PPOS).replaceAll('@', () => x); } if (r.p(0.5)) s = s.replace(/[;{}]/g, m => r.p(0.3) ? m + r.pick(SEPS) : m); return { src: r.pick(['', '', '\n', 'a;\r\n']) + s, goal: r.pick('sm') }; }),
    W('truncations', 6000, 60000, (i, r) => { const { toks, goal } = program(r, { size: r.pick([5, 12]) }); const t = toks.map(text), out = []; for (let k = 0; k < 8; k++) out.push({ src: join(t.slice(0, r.int(t.length + 1)), r), goal }); const s = join(t, r); for (let k = 0; k < 4; k++) { const x = s.slice(0, r.int(s.length + 1)); if (x.isWellFormed()) out.push({ src: x, goal }); } return out; }),
    ...seqs('tokens', [...new Set(POOL)], ['@', 'f(@', ['@', 'm'], '\n{@', 'function*f(){@', 'async function f(){@', '({@', '(@'], { max: 5, full: 1, tfull: 2, sample: 20000 }).map(s => ({ ...s, judge })),
    W('corpus with edits', 12000, 200000, (i, r) => { const c = corpus(); if (!c.length) return null; const t = tokenise(r.pick(c)).slice(0, 300); for (let k = r.range(1, 2); k > 0; k--) mutate(t, r); return { src: t.join(''), goal: r.p(0.3) ? 'm' : 's' }; }),
    W('lexical errors', 30000, 300000, (i, r) => { let s = r.pick(['', 'a;\n', '/*\u{1d4d0}\r\n*/', '\u2028', '"\u{1f600}";', '`\n`\n']); for (let k = r.range(1, 4); k > 0; k--) s += r.pick(SEPS) + r.pick([...HARD, '@', '#', '\\', '"', "'", '`', '/', '/*', '"\\u"', '"\\x1"', '1a', '0x', '0b2', '1e', '08.5', '\\u{110000}', '\\u002', '`${', '}', 'a', ';', '"\n"', '/\n/', "'\\u{}'", '`\\u`', '3in a', '0_1', '"\\u{1F600}"@', '\u{1f600}', '\u0000', '¬']); return { src: s, goal: r.pick('sm') }; }),
  ],
  shardRun: related,
};
