// Helpers shared by the lexical checks.
export function nth(alpha, len, i) { let s = ''; for (let j = 0; j < len; j++) { s += alpha[i % alpha.length]; i = Math.floor(i / alpha.length); } return s; }
// Streams over every string of 0..max symbols of an alphabet, put into `wrap`.
// Lengths above `full` are sampled in the quick tier.
export function allStrings(name, alpha, max, full, sample, wrap) {
  sample *= 3;
  const out = [];
  for (let L = 0; L <= max; L++) {
    const N = alpha.length ** L, big = L > full;
    out.push({
      name: `${name}: ${big ? 'strings' : 'all strings'} of ${L} symbols`,
      enum: true,
      n: { quick: big ? Math.min(N, sample) : N, thorough: Math.min(N, big ? sample * 30 : N) },
      make: (i, r, ctx) => {
        const lim = ctx.quick ? sample : sample * 30;
        return wrap(nth(alpha, L, big && N > lim ? Math.floor(r.f() * N) : i), r);
      },
    });
  }
  return out;
}
export const randCp = r => r.w([
  [6, () => r.range(0x20, 0x7e)], [1, () => r.int(0x20)], [2, () => r.range(0x7f, 0x2ff)], [2, () => r.range(0x300, 0xd7ff)],
  [1, () => r.range(0xe000, 0xffff)], [1, () => r.range(0x10000, 0x10ffff)],
  [2, () => r.pick([0, 8, 9, 10, 11, 12, 13, 0x85, 0xa0, 0x180e, 0x1680, 0x2000, 0x200b, 0x200c, 0x200d, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x3000, 0xfeff, 0xfffd, 0xffff, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x1f600])],
])();
