// C04 numeric literals: value, raw, and rejection of malformed ones.
import { Gen, text } from '../lib/gen.mjs';
import { plain } from '../lib/print.mjs';
import { longs } from '../lib/long.mjs';

const D = '0123456789', H = '0123456789abcdefABCDEF';
const digits = (r, n, alpha = D) => { let s = ''; for (let i = 0; i < n; i++) s += alpha[r.int(alpha.length)]; return s; };
const len = r => r.w([[6, r.range(1, 4)], [3, r.range(5, 18)], [2, r.range(15, 24)], [1, r.range(25, 80)], [0.4, r.range(300, 420)]]);
// decimal text of a double exactly half way between two neighbours, maybe nudged
function halfway(r) {
  const b = new DataView(new ArrayBuffer(8));
  b.setUint32(0, r.u32() & 0x7fffffff); b.setUint32(4, r.u32());
  let hi = b.getUint32(0);
  if (r.p(0.7)) { const e = r.w([[4, 1023 + r.range(-40, 90)], [1, r.range(0, 3)], [1, r.range(2040, 2046)], [2, r.range(1, 2046)]]); hi = (e << 20 | (hi & 0xfffff)) >>> 0; b.setUint32(0, hi); }
  const x = b.getFloat64(0);
  if (!Number.isFinite(x)) return '1';
  // exact decimal of x + half an ulp through BigInt
  const bits = (BigInt(hi) << 32n) | BigInt(b.getUint32(4));
  const ex = Number((bits >> 52n) & 0x7ffn); let m = bits & 0xfffffffffffffn;
  let e2; if (ex === 0) e2 = -1074; else { m |= 1n << 52n; e2 = ex - 1075; }
  m = m * 2n + 1n; e2 -= 1; // half way
  let s;
  if (e2 >= 0) s = String(m << BigInt(e2));
  else { const k = -e2; const t = String(m * 5n ** BigInt(k)).padStart(k + 1, '0'); s = t.slice(0, -k) + '.' + t.slice(-k); }
  const w = r.int(4);
  if (w === 1) s += (s.includes('.') ? '' : '.') + '0'.repeat(r.int(5)) + '1';
  if (w === 2) { // just below: decrement the last non-zero digit
    const a = s.split(''); for (let i = a.length - 1; i >= 0; i--) if (/[1-9]/.test(a[i])) { a[i] = String(+a[i] - 1); break; } s = a.join('') + (s.includes('.') ? '9999' : '');
  }
  if (w === 3 && s.length < 40) { const p = r.range(-20, 20); return s + 'e' + p; }
  return s;
}
export function wellFormed(r) {
  return r.w([
    [3, () => (r.p(0.2) ? '0' : digits(r, 1, '123456789') + digits(r, len(r) - 1))],
    [3, () => (r.p(0.3) ? '0' : digits(r, 1, '123456789') + digits(r, r.int(12))) + '.' + digits(r, r.int(20))],
    [2, () => '.' + digits(r, len(r))],
    [3, () => (r.p(0.3) ? '0' : digits(r, 1, '123456789') + digits(r, r.int(22))) + (r.p(0.5) ? '.' + digits(r, r.int(12)) : '') + r.pick(['e', 'E']) + r.pick(['', '+', '-']) + (r.p(0.85) ? digits(r, r.range(1, 3)) : digits(r, r.range(4, 12)))],
    [1, () => '.' + digits(r, r.range(1, 8)) + r.pick(['e', 'E']) + r.pick(['', '+', '-']) + digits(r, r.range(1, 3))],
    [2, () => '0' + r.pick(['x', 'X']) + digits(r, len(r), H)],
    [1.5, () => '0' + r.pick(['b', 'B']) + digits(r, len(r), '01')],
    [1.5, () => '0' + r.pick(['o', 'O']) + digits(r, len(r), '01234567')],
    [1.5, () => '0' + digits(r, len(r), '01234567')],
    [1.5, () => '0' + digits(r, r.int(8)) + r.pick(['8', '9']) + digits(r, r.int(8)) + r.pick(['', '', '.', '.5', 'e3', '.25E-2'])],
    [2, () => halfway(r)],
    // powers of two and their neighbours, in all radixes
    [2, () => { let v = (1n << BigInt(r.range(50, 140))) * BigInt(r.range(1, 3)) + BigInt(r.range(-3, 3)); if (r.p(0.5)) v = (v << BigInt(r.int(12))) + BigInt(r.range(-2, 2)); const k = r.pick([2, 8, 10, 16]); return ({ 2: '0b', 8: '0o', 10: '', 16: '0x' })[k] + v.toString(k); }],
    [0.5, () => r.pick(['0', '0.', '.0', '0.0', '0e0', '00', '000', '1e308', '1.7976931348623157e308', '1.7976931348623159e308', '1e309', '5e-324', '2e-324', '3e-324', '2.2250738585072011e-308', '4.9406564584124654e-324', '9007199254740992', '9007199254740993', '9007199254740995', '0x20000000000001', '0x20000000000002', '0x20000000000003', '0777', '0.1', '1e21', '1e22', '1e23', '123456789012345678901234567890', '1e-7', '1E+5', '4294967296', '4294967295', '2147483648', '18446744073709551615', '18446744073709551616', '0xffffffffffffffff', '0xFFFFFFFFFFFFFFFFF', '01777777777777777777777', '089', '08.5', '09e1', '0.5e+0', '1.e5', '0e-0', '0.e1', '1e00005'])],
  ])();
}
const CTX = ['@;', 'x=@;', '-@;', '[@];', 'f(@);', '@+1;', '1/@;', '({@:1});', '({a:@});', 'x[@];', '@ .a;', '(@).a;', '@[0];', 'var x=@,y;', '@?@:@;', 'class A{@(){}}', 'class A{static get @(){}}', '({get @(){}});', 'var {@:z}=o;', 'case0:@', 'switch(@){case @:}', '`${@}`', 'for(@;@;@)break;', '@\n@', 'a=>@', '@ instanceof a;', '...@', '"use strict";@;', 'function f(){"use strict";@}', '"use strict";({@:1});', 'typeof @', '@;', 'return_=@'];
const wrap = (r, lit) => { const c = r.pick(CTX); return c.replaceAll('@', lit); };
const ALPHA = [...'0123789', '.', 'e', 'E', '+', '-', 'x', 'X', 'o', 'O', 'b', 'B', 'a', 'f', 'g', 'n', '_', '$', '\\u0031', '\\u0061', ' ', ';', 'é', 'in', '..'];
const SMALL = [...'0178', '.', 'e', 'E', '+', '-', 'x', 'X', 'o', 'b', 'B', 'O', '9', 'a', 'n', '_', ';', 'g'];

export default {
  id: 'C04',
  rule: 'numeric literals of every form (random length, halfway and boundary values, all radixes) in 30 syntactic contexts, every string over 21 numeric characters up to length 3 (4 in the thorough run), longer ones sampled, and mutated literals; giron\'s value, raw and acceptance compared with the reference parse. Distinct by source text; sources of an out-of-scope early error do not count.',
  assumptions: ['acorn 8.19 (vendored) and V8 compute the double of a literal as the standard says'],
  relevant: v => /\d/.test(v.min),
  streams: () => [
    ...longs({ lists: 300, single: 600, deep: 2000 }),
    { name: 'well-formed', n: { quick: 80000, thorough: 1500000 }, make: (i, r) => ({ src: wrap(r, wellFormed(r)), goal: r.p(0.15) ? 'm' : 's' }) },
    {
      name: 'mutated', n: { quick: 40000, thorough: 600000 },
      make: (i, r) => {
        let s = [...wellFormed(r)]; if (s.length > 40) s = s.slice(0, 40);
        for (let k = r.range(1, 2); k > 0; k--) { const p = r.int(s.length + 1); r.p(0.6) ? s.splice(p, 0, r.pick(ALPHA)) : s.splice(p, 1, r.pick(ALPHA)); }
        const lit = s.join(''); return { src: wrap(r, lit), goal: r.p(0.1) ? 'm' : 's' };
      },
    },
    {
      name: 'programs', n: { quick: 6000, thorough: 120000 },
      make: (i, r) => ({ src: plain(new Gen(r, { size: 20, depth: 3, module: i % 4 === 0, num: g => { const s = wellFormed(g.r); return /^0\d/.test(s) ? '7' : s; }, p: { num: 14, id: 4 } }).program()), goal: i % 4 === 0 ? 'm' : 's' }),
    },
    ...short(),
  ],
};
function short() {
  const A = SMALL, out = [];
  const all = (L, name, n) => ({
    name, n,
    make: i => { let s = ''; let k = i; for (let j = 0; j < L; j++) { s += A[k % A.length]; k = Math.floor(k / A.length); } return { src: s, goal: 's' }; },
  });
  out.push(all(1, 'all strings of length 1', A.length), all(2, 'all strings of length 2', A.length ** 2), all(3, 'all strings of length 3', A.length ** 3));
  out.push({ enum: true, ...all(4, 'all strings of length 4', { quick: 120000, thorough: A.length ** 4 }), make: (i, r, ctx) => { let k = ctx.quick ? r.int(A.length ** 4) : i, s = ''; for (let j = 0; j < 4; j++) { s += A[k % A.length]; k = Math.floor(k / A.length); } return { src: s, goal: 's' }; } });
  out.push({ name: 'strings of length 5 to 7', n: { quick: 40000, thorough: 900000 }, make: (i, r) => { let s = ''; for (let j = r.range(5, 7); j > 0; j--) s += r.pick(A); return { src: s, goal: 's' }; } });
  return out;
}
