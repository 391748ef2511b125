// Seeded PRNG (sfc32 seeded through splitmix) so that every workload replays.
export class Rng {
  constructor(seed) {
    let s = seed >>> 0;
    const nx = () => { s = (s + 0x9e3779b9) >>> 0; let z = s; z = Math.imul(z ^ (z >>> 16), 0x85ebca6b); z = Math.imul(z ^ (z >>> 13), 0xc2b2ae35); return (z ^ (z >>> 16)) >>> 0; };
    this.a = nx(); this.b = nx(); this.c = nx(); this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() {
    const t = (this.a + this.b + this.d) >>> 0;
    this.d = (this.d + 1) >>> 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) >>> 0;
    this.c = ((this.c << 21) | (this.c >>> 11)) >>> 0;
    this.c = (this.c + t) >>> 0;
    return t;
  }
  f() { return this.u32() / 4294967296; }
  int(n) { return Math.floor(this.f() * n); }
  range(a, b) { return a + this.int(b - a + 1); }
  p(x) { return this.f() < x; }
  pick(a) { return a[this.int(a.length)]; }
  // pick from [[weight, value], ...]
  w(list) {
    let t = 0; for (const [k] of list) t += k;
    let r = this.f() * t;
    for (const [k, v] of list) { r -= k; if (r < 0) return v; }
    return list[list.length - 1][1];
  }
}
export function seedOf(...xs) {
  let h = 2166136261;
  for (const c of xs.join('\u0000')) { h ^= c.codePointAt(0); h = Math.imul(h, 16777619); }
  return h >>> 0;
}
