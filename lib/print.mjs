// Turns token lists into source text with chosen trivia between tokens.
import { text } from './gen.mjs';

const IDC = /[\p{ID_Continue}$_\u200c\u200d\\]/u;
const PUNCT = /[-+*\/%=<>!&|^?.:~]/;
export function needsSep(a, b) {
  if (!a || !b) return false;
  const x = [...a].pop(), y = [...b][0];
  const word = s => IDC.test(s);
  if (word(x) && word(y)) return true;
  if (/^\.?\d/.test(a) && y === '.') return true;
  if (x === '.' && /\d/.test(y)) return true;
  if (/\.$/.test(a) && /^\d/.test(a) && word(y)) return true;
  if (/^\/.*\/\w*$/s.test(a) && a.length > 1 && (word(y) || y === '/' || y === '*')) return true; // regex then word
  if (x === '/' && (y === '/' || y === '*' || b[0] === '/')) return true;
  if (PUNCT.test(x) && PUNCT.test(y) && !/['"`]/.test(x)) return true;
  return false;
}
export const WS = [' ', '\t', '\v', '\f', '\u00a0', '\ufeff', '\u2003', '\u3000', '\u1680'];
export const NLS = ['\n', '\r', '\r\n', '\u2028', '\u2029'];
export function plain(toks) {
  let out = '', prev = '';
  for (const tk of toks) {
    const t = text(tk);
    if (needsSep(prev, t)) out += ' ';
    out += t; prev = t;
  }
  return out;
}
export function spaced(toks) { return toks.map(text).join(' '); }

// random trivia; nl: line terminators allowed
export function trivia(r, nl) {
  let s = ''; const n = r.w([[5, 1], [2, 2], [1, 3]]);
  for (let i = 0; i < n; i++) {
    s += r.w([[5, ' '], [2, r.pick(WS)], [nl ? 3 : 0, r.pick(NLS)], [1.2, '/*' + r.pick(['', ' c ', '*', '**', '/', "'", '"', '`', '//', ' */'.slice(0, 1), 'é😀']) + '*/'], [nl ? 0.7 : 0, '/* ' + r.pick(['\n', '\r\n', '\u2028', 'x\r']) + ' */'], [nl ? 1 : 0, '//' + r.pick(['', ' c', ' */', "'", '`', '/*', '\\']) + r.pick(NLS)]]);
  }
  return s;
}
// density: probability of extra trivia at a gap; asi: probability of dropping an asi ';'
export function decorate(toks, r, { density = 0.3, asi = 0, newline = 0.5 } = {}) {
  let out = ''; let prev = '';
  for (let i = 0; i < toks.length; i++) {
    const tk = toks[i]; const t = text(tk);
    const nlOk = !(typeof tk === 'object' && tk.nl === false);
    if (typeof tk === 'object' && tk.asi && asi && r.p(asi)) {
      const nt = i + 1 < toks.length ? text(toks[i + 1]) : null;
      if (nt === null || nt === '}') { continue; }
      out += r.pick(['', ' ', '/**/']) + r.pick(NLS) ; prev = ' '; continue;
    }
    if (r.p(density)) {
      let s = trivia(r, nlOk && r.p(newline));
      // never glue '/' to a comment opener
      if (/\/$/.test(prev) && /^\//.test(s)) s = ' ' + s;
      out += s; if (s.length === 0 && needsSep(prev, t)) out += ' ';
    } else if (needsSep(prev, t)) out += ' ';
    out += t; prev = t;
  }
  if (r.p(density)) { let s = trivia(r, true); if (/\/$/.test(prev) && /^\//.test(s)) s = ' ' + s; out += s; }
  return out;
}
