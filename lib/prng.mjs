// Deterministic PRNG (sfc32 seeded through a string hash) with generator helpers.
export function hashStr(s) {
  let h = 0x811c9dc5 >>> 0, g = 0x9e3779b9 >>> 0;
  for (let i = 0; i < s.length; i++) {
    h = Math.imul(h ^ s.charCodeAt(i), 0x01000193) >>> 0;
    g = Math.imul(g ^ (h >>> 7) ^ s.charCodeAt(i), 0x85ebca6b) >>> 0;
  }
  return [h, g];
}
export class Rng {
  constructor(seed) {
    const [a, b] = hashStr(String(seed));
    this.a = a; this.b = b; this.c = 0x12345678; this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() {
    const t = (this.a + this.b + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  f() { return this.u32() / 4294967296; }
  int(lo, hi) { return lo + Math.floor(this.f() * (hi - lo + 1)); }
  bool(p = 0.5) { return this.f() < p; }
  pick(a) { return a[Math.floor(this.f() * a.length)]; }
  weighted(pairs) {
    let tot = 0; for (const [w] of pairs) tot += w;
    let x = this.f() * tot;
    for (const [w, v] of pairs) { if ((x -= w) < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
  shuffle(a) { const r = a.slice(); for (let i = r.length - 1; i > 0; i--) { const j = this.int(0, i); [r[i], r[j]] = [r[j], r[i]]; } return r; }
  subset(a, p = 0.5) { return a.filter(() => this.bool(p)); }
  list(lo, hi, fn) { const n = this.int(lo, hi); const r = []; for (let i = 0; i < n; i++) r.push(fn(i)); return r; }
  str(lo = 0, hi = 12, alphabet = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_ ') {
    let s = ''; const n = this.int(lo, hi); for (let i = 0; i < n; i++) s += this.pick(alphabet); return s;
  }
  unicode(lo = 0, hi = 8) {
    let s = ''; const n = this.int(lo, hi);
    for (let i = 0; i < n; i++) s += this.weighted([[4, () => String.fromCharCode(this.int(32, 126))], [2, () => String.fromCharCode(this.int(0xa1, 0x7ff))], [2, () => String.fromCharCode(this.int(0x800, 0xd7ff))], [2, () => String.fromCodePoint(this.int(0x10000, 0x1f9ff))]])();
    return s;
  }
}
