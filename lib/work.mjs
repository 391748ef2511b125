// Workload pieces shared by the structural checks.
import fs from 'node:fs';
import { Gen, text } from './gen.mjs';
import { plain, decorate, spaced, needsSep } from './print.mjs';
import { nth } from './lex.mjs';
import { nodeTypes } from './oracle.mjs';

export const POOL = [...'( ) [ ] { } , ; : ? . ... = => += **= >>>= == !== + - * ** / % ++ -- ! ~ && || | ^ < >>> >= in of instanceof let const var function class async await yield get set static new this super null true if else for while do return break continue throw try catch finally switch case default with typeof delete void import export from as target x y 1 0x1F .5 "s" `t` `a${ }b` }c${ /r/ /=r/g \n ; ; eval arguments implements enum extends debugger interface x: => x=> ()=> (x) {} [] (){} /**/ \\u0061 \\u{62}b'.split(' ').map(x => x.replace('\\n', '\n')), '"use strict";', '`', '"', "'", '/*', '*/', '//', '@', '#', '\\'];
const OPENERS = '([{`', CLOSERS = ')]}`';
// one edit of a token list
export function mutate(t, r, pool = POOL) {
  if (!t.length) return;
  const p = r.int(t.length);
  switch (r.int(8)) {
    case 0: t.splice(p, 1); break;
    case 1: t.splice(p, 0, t[p]); break;
    case 2: { const q = r.int(t.length); [t[p], t[q]] = [t[q], t[p]]; break; }
    case 3: t[p] = r.pick(pool); break;
    case 4: t.splice(p, 0, r.pick(pool)); break;
    case 5: { const q = r.int(t.length); t.splice(p, 0, t[q]); break; }
    case 6: { const q = Math.min(t.length - 1, p + 1); [t[p], t[q]] = [t[q], t[p]]; break; }
    case 7: { const q = Math.min(t.length, p + r.range(1, 4)); if (r.p(0.5)) t.splice(p, q - p); else t.splice(q, 0, ...t.slice(p, q)); break; }
  }
}
export function glue(toks) {
  let out = '', prev = '';
  for (const t of toks) { if (needsSep(prev, t)) out += ' '; out += t; prev = t; }
  return out;
}
export function program(r, opts = {}) {
  const module = opts.module ?? r.p(opts.moduleRate ?? 0.3);
  return { toks: new Gen(r, { size: 20, depth: 4, stmts: [1, 3], ...opts, module }).program(), goal: module ? 'm' : 's' };
}
// programs printed with random trivia
export const programs = (opts, quick, thorough = quick * 12, name = 'programs') => ({
  name, n: { quick, thorough },
  make: (i, r) => {
    const o = typeof opts === 'function' ? opts(r, i) : opts;
    const { toks, goal } = program(r, { size: r.pick([8, 15, 25, 45]), ...o });
    return { src: r.w([[3, () => plain(toks)], [1, () => spaced(toks)], [3, () => decorate(toks, r, { density: r.pick([0.1, 0.3, 0.6]), asi: r.pick([0, 0.4, 0.9]) })]])(), goal };
  },
});
// programs with one to three token edits
export const mutants = (opts, quick, thorough = quick * 12, name = 'mutants', pool = POOL) => ({
  name, n: { quick, thorough },
  make: (i, r) => {
    const o = typeof opts === 'function' ? opts(r, i) : opts;
    const { toks, goal } = program(r, { size: r.pick([3, 6, 12, 20]), depth: 3, stmts: [1, 2], ...o });
    const t = toks.map(text);
    for (let k = r.w([[6, 1], [3, 2], [1, 3]]); k > 0; k--) mutate(t, r, pool);
    return { src: r.w([[3, () => t.join(' ')], [2, () => glue(t)], [1, () => t.join('\n')], [1, () => { let s = ''; for (const x of t) s += (needsSep(s.slice(-6), x) || r.p(0.5) ? r.pick([' ', '\n', ' ', '/**/']) : '') + x; return s; }]])(), goal };
  },
});
// every sequence of up to `max` symbols put into every wrap (@ is the sequence);
// longer ones than `full` are sampled, `sample` of each length in a quick run
export function seqs(name, alpha, wraps, { max, full, tfull = full, sample = 6000, sep = ' ', pre = '', min = 0 }) {
  if (typeof alpha === 'string') alpha = alpha.split(' ').map(x => x === '\\n' ? '\n' : x === '_' ? ' ' : x);
  const al = alpha.map(x => x + sep);
  wraps = wraps.map(w => typeof w === 'string' ? [w, 's'] : w);
  const out = [];
  for (let L = min; L <= max; L++) {
    const N = al.length ** L * wraps.length;
    out.push({
      name: `${name} of ${L}`, enum: true,
      n: { quick: L > full ? Math.min(N, sample * 3) : N, thorough: L > tfull ? Math.min(N, sample * 30) : N },
      make: (i, r, ctx) => {
        const total = ctx.quick ? (L > full ? sample * 3 : N) : (L > tfull ? sample * 30 : N);
        const k = total < N ? Math.floor(r.f() * N) : i;
        const [w, goal, opt] = wraps[k % wraps.length];
        const s = nth(al, L, Math.floor(k / wraps.length));
        return { src: w.replaceAll('@', () => pre + s), goal };
      },
    });
  }
  return out;
}
// template x fragment, exhaustively: every @ of the template becomes the fragment
export const cross = (name, tmpls, frags, modes = [['s', ''], ['s', '"use strict";'], ['m', '']]) => ({
  name, enum: true, n: { quick: tmpls.length * frags.length, thorough: tmpls.length * frags.length },
  make: i => { const t = tmpls[i % tmpls.length], f = frags[Math.floor(i / tmpls.length)]; return modes.map(([goal, p]) => ({ src: p + t.replaceAll('@', () => f), goal })); },
});
// template in template in ... fragment, sampled
export const nested = (name, tmpls, frags, quick, thorough = quick * 12, depth = [2, 4], modes = [['s', ''], ['s', '"use strict";'], ['m', '']]) => ({
  name, n: { quick, thorough },
  make: (i, r) => { let s = r.pick(frags); for (let d = r.range(...depth); d > 0; d--) { let t = r.pick(tmpls); const c = s; const cs = [c]; s = t.replaceAll('@', () => r.p(0.7) ? c : r.pick(frags)); } if (s.length > 4000) return null; const [goal, p] = r.pick(modes); return { src: p + s, goal }; },
});
// relevance: streams made for the property always count, general ones by the
// node types of the minimised source
const GENERAL = /^(programs|mutants|corpus)/;
export const about = (types, words) => v => {
  if (!GENERAL.test(v.stream)) return true;
  if (v.kind === 'crash') return true;
  if (words && words.test(v.min)) return true;
  if (!v.minRef.ok) return !words;
  if (v.kind === 'diff' && v.type && types.has(v.type)) return true;
  for (const t of nodeTypes(v.minRef.ast)) if (types.has(t) && !COMMON.has(t)) return true;
  return false;
};
const COMMON = new Set(['Program', 'ExpressionStatement', 'Identifier', 'Literal', 'BlockStatement']);
// fragments of the real-world sources the repository's own tests parse
let corpusCache = null;
export function corpus() {
  if (corpusCache) return corpusCache;
  const dir = '/repo/giron/tests/snippets/'; let out = [];
  try { for (const f of fs.readdirSync(dir).sort()) { const s = fs.readFileSync(dir + f, 'utf8'); if (s.length < 3000) out.push(s); } } catch {}
  try {
    for (const f of ['react.js', 'react-dom.js', 'angular.js']) {
      const s = fs.readFileSync('/repo/giron/tests/source/' + f, 'utf8');
      // function-sized pieces that stand alone
      const re = /^ {0,2}function \w+\([^]*?^ {0,2}\}$/gm; let m;
      while ((m = re.exec(s))) if (m[0].length < 3000) out.push(m[0]);
    }
  } catch {}
  return corpusCache = out;
}
export const tokenise = s => s.match(/\/\*[^]*?\*\/|\/\/[^\n]*|[\p{ID_Start}$_][\p{ID_Continue}$]*|"(?:[^"\\\n]|\\[^])*"|'(?:[^'\\\n]|\\[^])*'|\d[\w.]*|=>|\.\.\.|>>>=|[*<>&|]{2,3}=?|[-+*\/%&|^<>=!]=+|\+\+|--|\s+|[^]/gu) || [];
