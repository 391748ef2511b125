// C05 string literals: value, raw, and rejection of malformed ones.
import { Gen, text } from '../lib/gen.mjs';
import { plain } from '../lib/print.mjs';
import { allStrings, randCp } from '../lib/lex.mjs';
import { longs } from '../lib/long.mjs';

const hex = (r, n) => { let s = ''; for (let i = 0; i < n; i++) s += '0123456789abcdefABCDEF'[r.int(22)]; return s; };
const noSur = h => { const v = parseInt(h, 16); return v >= 0xd800 && v <= 0xdfff ? '0041' : h; };
export function piece(r, q, strict = false) {
  return r.w([
    [6, () => { const c = String.fromCodePoint(randCp(r)); return c === q || c === '\\' || c === '\n' || c === '\r' ? 'x' : c; }],
    [3, () => r.pick(['a', ' ', q === '"' ? "'" : '"', '`', '/*', '//', '${', '}', '<', 'é', '😀', '\u2028', '\u2029', '\ufeff'])],
    [4, () => '\\' + r.pick([...'bfnrtv0\'"\\`/aABzZ$ {}()[];é', '\u2028', '\u2029', '\n', '\r', '\r\n', '😀', 'c', 'd', 's', 'w', 'N', 'T', '\0', '\t'])],
    [2, () => '\\x' + hex(r, 2)],
    [2, () => '\\u' + noSur(hex(r, 4))],
    [1, () => { const h = 0x10000 + r.int(0x100000) - 0x10000; return '\\u' + (0xd800 + (h >> 10)).toString(16) + '\\u' + (0xdc00 + (h & 0x3ff)).toString(16).toUpperCase(); }],
    [2, () => { const v = r.pick([r.int(0x80), r.int(0xd800), 0xe000 + r.int(0x2000), 0x10000 + r.int(0x100000), 0x10ffff]); return '\\u{' + '0'.repeat(r.p(0.3) ? r.int(12) : 0) + (r.p(0.5) ? v.toString(16) : v.toString(16).toUpperCase()) + '}'; }],
    [strict ? 0 : 2, () => '\\' + r.int(512).toString(8).padStart(r.range(1, 3), '0') + r.pick(['', '', '0', '7', '8', '9', 'a'])],
    [strict ? 0 : 0.5, () => '\\' + r.pick(['8', '9', '08', '09'])],
  ])();
}
export function str(r, strict, max = 6) {
  const q = r.pick(['"', "'"]); let s = '';
  for (let n = r.int(max); n > 0; n--) s += piece(r, q, strict);
  // a NUL escape must not run into a following digit in strict code
  if (strict) s = s.replace(/\\0(?=\d)/g, '\\x00');
  return q + s + q;
}
const CTX = ['@', '@;', 'x=@', 'f(@,@)', '({@:@})', '({get @(){}})', '({@(){}})', 'class A{@(){}}', 'class A{static @(){}}', '[@]', '`${@}`', 'a?@:@', 'x[@]', '@.length', 'switch(@){case @:}', 'throw @', 'var {@:a}=b', 'function f(){@;return @}', '@+@', '!@', 'for(x of @);', '/a/.test(@)', 'typeof @', '(@)', '@\n@', '"use strict";@', 'function f(){"use strict";@}', 'function f(){@;"use strict"}', '@;"use strict"', '()=>{@}', 'x/@', 'x=>@'];
const MODCTX = ['import @', 'import a from @', 'export * from @', 'export{a}from @', '@', 'import {b} from @; x=@', 'export default @'];
const CHARS = ['a', '0', '1', '7', '8', 'x', 'u', '{', '}', '\\', '"', "'", '\n', '\r', 'F', 'g', '\u2028', 'n'];
const BMP = 0x10000;
export default {
  id: 'C05',
  rule: 'every code point raw and after a backslash, every \\x, \\u and octal escape, every string of up to 4 symbols over 18 characters between quotes, and random pieces (raw characters, every escape form, line continuations) in 38 contexts with mutations; giron\'s value, raw and acceptance compared with the reference parse. Distinct by source text.',
  assumptions: ['acorn 8.19 (vendored) gives the string value of the standard'],
  relevant: v => /["']/.test(v.min),
  streams: () => [
    ...longs({ lists: 300, single: 600, deep: 2000 }),
    // every code point, raw and escaped, 16 of the neighbours per source
    { name: 'every BMP code point', enum: true, n: { quick: BMP / 4, thorough: BMP }, make: (i, r, ctx) => { const cp = ctx.quick ? (i < 0x300 ? i : r.int(BMP)) : i; if (cp >= 0xd800 && cp < 0xe000) return null; const c = String.fromCodePoint(cp); return [{ src: `"${c}"`, goal: 's' }, { src: `'\\${c}'`, goal: 's' }]; } },
    { name: 'astral code points', n: { quick: 4000, thorough: 100000 }, make: (i, r) => { const c = String.fromCodePoint(r.range(0x10000, 0x10ffff)); return [{ src: `'${c}x'`, goal: 's' }, { src: `"\\${c}"`, goal: 's' }]; } },
    { name: 'every hex escape', n: 256 * 4, make: i => { const h = (i >> 2).toString(16).padStart(2, '0'); return { src: `"\\x${i & 1 ? h.toUpperCase() : h}${i & 2 ? '9' : ''}"`, goal: i & 1 ? 'm' : 's' }; } },
    { name: 'every unicode escape', enum: true, n: { quick: BMP / 4, thorough: BMP }, make: (i, r, ctx) => { const cp = ctx.quick ? (i < 0x200 ? i : r.int(BMP)) : i; if (cp >= 0xd800 && cp < 0xe000) return null; const h = cp.toString(16); return { src: r.p(0.5) ? `'\\u${h.padStart(4, '0')}0'` : `'\\u{${h}}0'`, goal: 's' }; } },
    { name: 'every surrogate pair escape', n: { quick: 8000, thorough: 300000 }, make: (i, r, ctx) => { const v = r.range(0x10000, 0x10ffff) - 0x10000; const hi = (0xd800 + (v >> 10)).toString(16), lo = (0xdc00 + (v & 1023)).toString(16); return { src: `"${r.pick(['', 'a'])}\\u${r.p(0.5) ? hi.toUpperCase() : hi}\\u${lo}${r.pick(['', 'b', '\\u0041'])}"`, goal: 's' }; } },
    { name: 'every octal escape', n: 2 * 4096, make: i => { const o = (i >> 1) % 4096; return { src: `${i & 1 ? '"use strict";' : ''}"\\${o.toString(8).padStart(o < 64 ? 2 : 3, '0').slice(0, 4)}"`, goal: 's' }; } },
    { name: 'octal and digit escapes', n: 1200, make: i => ({ src: `'\\${['', '0', '00', '1', '3', '4', '7', '8', '9', '12'][i % 10]}${['', '0', '7', '8', '9', 'a', '00', '77', '78', '\\0', '\\1', "\\'"][Math.floor(i / 10) % 12]}'`, goal: Math.floor(i / 120) % 5 === 1 ? 'm' : 's' }) },
    ...allStrings('quoted', CHARS, 4, 3, 30000, (s, r) => ({ src: `"${s}"`, goal: 's' })),
    { name: 'well-formed', n: { quick: 120000, thorough: 2000000 }, make: (i, r) => { const m = r.p(0.2); return { src: r.pick(m ? MODCTX : CTX).replace(/@/g, () => str(r, m || r.p(0.3))), goal: m ? 'm' : 's' }; } },
    { name: 'mutated', n: { quick: 60000, thorough: 900000 }, make: (i, r) => { const s = [...str(r, r.p(0.5))]; for (let k = r.range(1, 2); k > 0; k--) { const p = r.int(s.length + 1); const m = r.int(3); if (m === 0) s.splice(p, 1); else if (m === 1) s.splice(p, 0, r.pick(CHARS)); else s[Math.min(p, s.length - 1)] = r.pick(CHARS); } return { src: r.pick(CTX).replace(/@/g, () => s.join('')), goal: 's' }; } },
    { name: 'programs', n: { quick: 12000, thorough: 150000 }, make: (i, r) => ({ src: plain(new Gen(r, { size: 20, depth: 3, module: i % 4 === 0, str: g => str(g.r, true), p: { str: 14, id: 4 } }).program()), goal: i % 4 === 0 ? 'm' : 's' }) },
  ],
};
