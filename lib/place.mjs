// Places in a source: lines, columns, and the marked places of single violations.
import { CRASH } from './oracle.mjs';
import { violation, kindOf } from './violations.mjs';

export const LT = /\r\n|[\n\r\u2028\u2029]/;
export const lineCol = (src, pos) => { const L = src.slice(0, pos).split(LT); let line = L.length; if (src[pos - 1] === '\r' && src[pos] === '\n') return { line, col: 1 }; return { line, col: [...L[line - 1]].length + 1 }; };
// start offset of a line and column, or -1
export function offsetOf(src, line, col) {
  const re = /\r\n|[\n\r\u2028\u2029]/g; let at = 0;
  for (let k = 1; k < line; k++) { const m = re.exec(src); if (!m) return -1; at = m.index + m[0].length; re.lastIndex = at; }
  const m = re.exec(src); const text_ = [...src.slice(at, m ? m.index : src.length)];
  if (col < 1 || col > text_.length + 1) return -1;
  return at + text_.slice(0, col - 1).join('').length;
}
export function judgePlace(c, rec, ctx = { bump() {} }) {
  if (CRASH.has(rec.k)) return { skip: 'crash (C01)' };
  if (rec.k !== 'err') return { skip: 'accepted' };
  if (kindOf(rec.et) !== c.extra.kind) return { skip: 'another kind of error (C22)' };
  const e = lineCol(c.src, c.extra.at);
  if (e.line === rec.line && e.col === rec.col) { ctx.bump('marked places named'); return null; }
  return { kind: 'place', detail: `${rec.msg}: expected at ${e.line}:${e.col} (${JSON.stringify(c.src.slice(c.extra.at, c.extra.at + 20))}), got ${rec.line}:${rec.col}`, extra: c.extra };
}
export const violations = (quick, thorough, judge) => ({ name: 'single violations', n: { quick, thorough }, judge, make: (i, r) => { const v = violation(r); return v && { src: v.src, goal: v.goal, extra: { kind: v.kind, payload: v.payload, at: v.at, what: v.what } }; } });
