/** Seeded PRNG (sfc32-ish) so every random choice comes from VERIF_SEED. */
export class Rng {
  private s: number;
  constructor(seed: number, salt = "") { let h = 2166136261 ^ seed; for (const c of salt) h = Math.imul(h ^ c.charCodeAt(0), 16777619); this.s = h >>> 0; for (let i = 0; i < 4; i++) this.next(); }
  next(): number { this.s = (this.s + 0x6d2b79f5) >>> 0; let t = this.s; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }
  int(lo: number, hi: number): number { return lo + Math.floor(this.next() * (hi - lo + 1)); }
  pick<T>(a: readonly T[]): T { return a[this.int(0, a.length - 1)]; }
  bool(p = 0.5): boolean { return this.next() < p; }
  shuffle<T>(a: T[]): T[] { const b = [...a]; for (let i = b.length - 1; i > 0; i--) { const j = this.int(0, i); [b[i], b[j]] = [b[j], b[i]]; } return b; }
}
