// New layouts of sources the reference accepts: every gap between two tokens
// gets new trivia. Line terminators (also in comments) stay where they were and
// may be added only when `anywhere` says so.
import * as acorn from '../vendor/acorn.mjs';
import { WS, NLS } from './print.mjs';

export function gaps(src, goal) {
  const toks = [], coms = [];
  try { acorn.parse(src, { ecmaVersion: 2019, sourceType: goal === 'm' ? 'module' : 'script', onToken: toks, onComment: coms }); } catch { return null; }
  const out = []; let at = 0, prev = null;
  for (const t of toks) {
    const inTemplate = t.type.label === 'template' || (prev && prev.type.label === 'template');
    if (t.type.label === 'eof') break;
    if (t.start < at) return null;
    if (!inTemplate) out.push({ from: at, to: t.start });
    at = t.end; prev = t;
  }
  if (src.length >= at) out.push({ from: at, to: src.length });
  return out;
}
const NL = /[\n\r\u2028\u2029]/;
export function relay(src, goal, r, { anywhere = 0, density = 0.4 } = {}) {
  const g = gaps(src, goal); if (!g || src.includes('-->') || src.includes('<!--')) return null;
  let out = '', at = 0;
  for (const { from, to } of g) {
    out += src.slice(at, from);
    const old = src.slice(from, to); at = to;
    if (!r.p(density)) { out += old; continue; }
    const nl = NL.test(old) || r.p(anywhere);
    const next = src[to];
    let s = '';
    const one = () => r.w([[4, () => r.pick(WS)], [2, () => '/*' + r.pick(['', ' c ', '*', '**', '/', "'", '"', '`', '//', 'é😀']) + '*/']])();
    const brk = () => r.w([[4, () => r.pick(NLS)], [1, () => '/* ' + r.pick(['\n', '\r\n', '\u2028', 'x\r']) + ' */'], [2, () => '//' + r.pick(['', ' c', ' */', "'", '`', '/*', '\\']) + r.pick(NLS)]])();
    for (let n = r.w([[3, 1], [2, 2], [1, 0]]); n > 0; n--) s += one();
    if (nl) { s += brk(); for (let n = r.w([[3, 0], [2, 1], [1, 2]]); n > 0; n--) s += r.p(0.7) ? one() : brk(); }
    if (old && !s) s = nl ? '\n' : ' ';
    if (s[0] === '/' && from > 0 && src[from - 1] === '/') s = ' ' + s;
    out += s;
  }
  return out + src.slice(at);
}
