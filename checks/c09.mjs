// C09 white space and comments.
import { program, programs, corpus, tokenise, POOL } from '../lib/work.mjs';
import { plain, decorate, spaced, trivia, WS, NLS, needsSep } from '../lib/print.mjs';
import { allStrings, randCp } from '../lib/lex.mjs';
import { text } from '../lib/gen.mjs';
import { borrowed } from '../lib/borrow.mjs';
import { relay } from '../lib/relay.mjs';
import { diffTree, CRASH, judgeTree } from '../lib/oracle.mjs';
import { refParse } from '../lib/ref.mjs';
import { longs } from '../lib/long.mjs';
const GAPS = ['@', 'a@b', 'a @ b', 'a+@b', 'a@+b', '@a', 'a@', 'var@a=1', 'var a@=@1', '"s"@', '1@', '1@;', '`t`@', '(@a@)', 'f@(@)', 'a\n@b', '{@}', '[1,@2]', 'if(a)@b', 'a@\nb', '/r/@', '/r/g@', '//@\nb', 'a//@', '/*@*/a', 'a/*@*/b', 'a/*@\n*/b', '/**@**/', 'return_@a', 'a.@b', 'a@.b', 'x@=>1', 'a@++', '"@"', "'@'", '`@`', '`${@a@}`', '/@/', 'a@in@b', 'typeof@a', 'new@X', '0x1@', '1.@', 'async@function f(){}', 'function@*g(){yield@1}', 'a?@b:@c', 'x={a@:@1@,@b}', 'class@A@{@}', 'for(@;@;@);', 'a@=@b@;@', 'let@a', 'a@,b', 'import@"m"', 'export@default@1'];
const CTEMPL = ['a@b', 'a/*@', 'a/*@*/b', '//@\nb', 'a//@', 'a@', '@', 'a+@b', 'x=@', '(@)', 'return_@'];
const TOK = POOL.filter(t => !/^\s*$|^["'`]$|\/\*|\*\/|^\/\/$/.test(t));
const SEP = [' ', '/**/', '\t', '\u00a0', '\ufeff', '\n', '//x\n', '/*\n*/', '\u2029', '\r\n', '/*a*/ ', ' \n ', '\v/***/\f', '//\r', '/*\u2028*/', '\u3000', '\u1680\u2000\u200a\u202f\u205f'];
// giron against itself: the tree may not depend on the trivia
const pair = (name, n, make) => ({
  name, n, min: false,
  make: (i, r, ctx) => { const c = make(i, r, ctx); return c && c.map(x => ({ ...x, flags: 0 })); },
  judge: (c, rec, ctx) => {
    if (c.first) { ctx.held = { c, rec }; return null; }
    const { c: fc, rec: fr } = ctx.held;
    if (fc.id !== c.id) throw new Error('pairs out of step');
    if (CRASH.has(rec.k) || CRASH.has(fr.k)) return judgeTree(c.src, c.goal, rec) || judgeTree(fc.src, c.goal, fr);
    if (rec.k === 'ok' && fr.k === 'ok') { const d = diffTree(fr.ast, rec.ast); if (!d) { ctx.bump('same tree for both layouts'); return null; } }
    else if (rec.k === 'err' && fr.k === 'err') { ctx.bump('both layouts rejected'); return judgeTree(c.src, c.goal, rec); }
    // differ: the reference says which layout is misread, or that the layouts really differ
    const a = refParse(fc.src, c.goal), b = refParse(c.src, c.goal);
    if (!a.ok || !b.ok || diffTree(a.ast, b.ast)) return judgeTree(c.src, c.goal, rec, b) || judgeTree(fc.src, c.goal, fr, a);
    const v = judgeTree(c.src, c.goal, rec, b) || judgeTree(fc.src, c.goal, fr, a);
    if (v && v.skip) return v;
    return { kind: 'layout', detail: `tree differs from that of ${JSON.stringify(fc.src.slice(0, 300))}: ` + (v ? v.detail : 'trees differ'), extra: { other: fc.src } };
  },
});
let serial = 0;
const layouts = (toks, goal, r) => { const id = serial++; return [{ src: plain(toks), goal, id, first: true }, ...Array.from({ length: 3 }, () => ({ src: decorate(toks, r, { density: r.pick([0.15, 0.4, 0.8, 1]), newline: r.pick([0, 0.5, 1]) }), goal, id }))]; };
const cpGap = (cp, i, all) => { const c = String.fromCodePoint(cp); const out = []; const k = all ? GAPS.length : 5; for (let j = 0; j < k; j++) { const t = GAPS[(i * 7 + j * 11) % GAPS.length]; out.push({ src: (all ? GAPS[j] : t).replaceAll('@', () => c), goal: /^(import|export)/.test(all ? GAPS[j] : t) ? 'm' : 's' }); } return out; };
export default {
  id: 'C09',
  rule: 'every BMP code point (sampled astral ones) in gaps and inside comments, strings and templates out of 55 positions (5 per code point; all 55 for ASCII and everything Unicode calls a separator, format or control character); all comment-like strings of up to 6 symbols (7 thorough) in 11 places; all pairs of 150 tokens with 17 separators; generated programs printed with four layouts each, which giron must read as one tree; new trivia between the tokens of the construct workloads of the other checks; random trivia between the tokens of real-world functions. Decided by comparing giron with itself across layouts and with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 as patched in /verif/vendor', 'HTML-like comments of Annex B are not part of the language giron reads'],
  relevant: v => v.kind === 'crash' || /\s|\/\*|\/\/|[^\x21-\x7e]/.test(v.src),
  streams: ctx => [
    ...longs(),
    pair('layouts of construct workloads', { quick: 40000, thorough: 500000 }, (i, r, k) => {
      const c = (k.borrowed ||= borrowed(k))(r, k); if (!c) return null;
      const id = serial++; const out = [{ src: c.src, goal: c.goal, id, first: true }];
      for (let n = 0; n < 3; n++) { const src = relay(c.src, c.goal, r, { density: r.pick([0.15, 0.5, 1]) }); if (src === null) return null; out.push({ src, goal: c.goal, id }); }
      return out;
    }),
    { name: 'separator-like code points', n: 0x3100, make: i => i < 0x100 || /[\p{Z}\p{C}]/u.test(String.fromCodePoint(i)) ? cpGap(i, i, true) : null },
    { name: 'other separator-like code points', n: 60, make: i => { const c = [0xfeff, 0xfffe, 0xffff, 0xe000, 0xfff9, 0xfffc, 0xfffd, 0xe0001, 0xe0020, 0x1d173, 0x10ffff, 0x110bd, 0x10000][i]; return c === undefined ? null : cpGap(c, i, true); } },
    { name: 'every BMP code point', n: 0x10000, make: i => i >= 0xd800 && i < 0xe000 ? null : cpGap(i, i, false) },
    { name: 'astral code points', n: { quick: 3000, thorough: 60000 }, make: (i, r) => cpGap(r.range(0x10000, 0x10ffff), i, false) },
    ...CTEMPL.flatMap(t => allStrings('comment-like in ' + t, ['/', '*', '\n', 'a', '\r', '\u2028'], 7, 5, 1500, s => ({ src: t.replace('@', () => s), goal: 's' }))),
    ...allStrings('white space mix', [' ', '\n', '\ufeff', '/**/', '//', 'a', '\u2029', '/*', '*/', ';', '\r'], 6, 4, 6000, s => ({ src: s, goal: 's' })),
    { name: 'pairs of tokens with separators', enum: true, n: { quick: 120000, thorough: TOK.length ** 2 * SEP.length }, make: (i, r, ctx) => { const n = TOK.length; const k = ctx.quick ? r.int(n * n * SEP.length) : i; const s = TOK[k % n] + SEP[Math.floor(k / n / n)] + TOK[Math.floor(k / n) % n]; const w = ['@', 'x=@', '(@)', 'async function*g(){@}', 'x=a@', 'a@1', 'class A{@(){}}', '({@(){}})', 'for(@;;);'][k % 9]; return { src: w.replace('@', () => s), goal: 's' }; } },
    { name: 'three tokens with separators', n: { quick: 40000, thorough: 500000 }, make: (i, r) => { let s = ''; for (let n = r.range(3, 5); n > 0; n--) s += r.pick(TOK) + (r.p(0.6) ? r.pick(SEP) : ' '); return { src: r.pick(['@', 'x=@', '(@)', 'function*g(){@}', 'async()=>{@}']).replace('@', () => s), goal: r.p(0.2) ? 'm' : 's' }; } },
    pair('layouts of programs', { quick: 12000, thorough: 150000 }, (i, r) => { const { toks, goal } = program(r, { size: r.pick([8, 20, 40]) }); return layouts(toks, goal, r); }),
    pair('layouts with all trivia', { quick: 6000, thorough: 80000 }, (i, r) => { const { toks, goal } = program(r, { size: r.pick([4, 10]) }); const id = serial++; const ws = [...WS, '/**/', '/*x*/', '/***/', '/*//*/', '/*"*/']; const all = [...ws, ...NLS, '//\n', '//x\r', '/*\n*/', '//\u2028', '/*\r\n*/']; let s = ''; let prev = ''; toks.forEach((t, j) => { const x = text(t); const nl = !(typeof t === 'object' && t.nl === false); let g = ''; for (let n = r.range(0, 3); n > 0; n--) g += r.pick(nl ? all : ws); if (prev.endsWith('/') && g.startsWith('/')) g = ' ' + g; if (g === '' && needsSep(prev, x)) g = r.pick(WS); s += g + x; prev = x; }); return [{ src: plain(toks), goal, id, first: true }, { src: s, goal, id }]; }),
    pair('layouts of real-world functions', { quick: 4000, thorough: 60000 }, (i, r) => { const c = corpus(); if (!c.length) return null; const s = r.pick(c); if (s.length > 2000) return null; const id = serial++; const t = s.match(/\/\*[^]*?\*\/|\/\/[^\n]*|\/(?![\/*])(?:[^\\\/\[\n]|\\.|\[(?:[^\]\\\n]|\\.)*\])+\/\w*|`(?:[^`\\]|\\[^])*`|"(?:[^"\\\n]|\\[^])*"|'(?:[^'\\\n]|\\[^])*'|\s+|[^\s"'`\/]+|\//g) || []; const x = t.map(k => /^[ \t]+$/.test(k) ? r.pick([k, '\t', '\u00a0', '/**/', '/* x */', '\ufeff ', ' /*"*/ ']) : /^\s*\n\s*$/.test(k) ? r.pick([k, '\n', '\r\n', '\r', '\u2028', '\u2029', ' //c\n', '/*\n*/', '\n\n//x\n']) : k); return [{ src: s, goal: 's', id, first: true }, { src: x.join(''), goal: 's', id }]; }),
    programs({}, 10000),
    { name: 'long trivia between tokens', n: { quick: 700, thorough: 12000 }, chunk: 100, make: (i, r) => {
      const { toks, goal } = program(r, { size: r.pick([3, 6, 12]), depth: 3, stmts: [1, 2] }), t = toks.map(text), p = r.int(t.length + 1), n = r.pick([20, 40, 70, 130, 260, 300, 520, 1030, 1100, 4100, 9000, 70000]);
      const u = r.pick([' ', '\t', '\n', '\r\n', '\u00a0', '\u2028', '\ufeff', '\u3000', '*', '/', 'a', '"', "'", '`', '${', '\\', '* /', '/ *', '//', '/*', '\u{1d4d0}', 'é', '- ', '\0', 'x\n', ' \n', '\n ', '**', '0']), body = u.repeat(Math.ceil(n / u.length));
      const space = /^\s+$/.test(u), form = space && r.p(0.6) ? body : r.pick([() => '/*' + body + '*/', () => '/*' + body.replace(/\*\//g, '') + '**/', () => '//' + body.replace(/[\n\r\u2028]/g, '') + r.pick(['\n', '\r\n', '\u2029', '\r', '']), () => '/**/'.repeat(n >> 2), () => '/*x*/ '.repeat(n / 6 | 0), () => '//\n'.repeat(n / 3 | 0), () => '/*' + body + '\n*/' + body.replace(/\S/g, ' ')])();
      return { src: t.slice(0, p).join(' ') + ' ' + form + ' ' + t.slice(p).join(' '), goal, key: `${t.join(' ')} ${p} ${JSON.stringify(form.slice(0, 20))} x ${form.length}` };
    } },
    { name: 'unterminated comments', n: { quick: 12000, thorough: 100000 }, make: (i, r) => { const { toks, goal } = program(r, { size: 6, stmts: [1, 2], depth: 2 }); const t = toks.map(text); const p = r.int(t.length + 1); return { src: t.slice(0, p).join(' ') + r.pick([' /*', '/*', ' /* x', '/*/', '/**', '/*\n', ' /* * /', '/*\u2028', '*/', ' */', '//', '/* */ */', '/* /* */', '// */', '/* // */', '/*\n//*/', '/*'.repeat(r.range(1, 3))]) + (r.p(0.6) ? t.slice(p).join(r.pick([' ', '\n'])) : ''), goal }; } },
  ],
};
