/** A08: scripted element animations, rendered by the real pipeline and read back over several scene loops. */
import { annotateAnimatedProperties } from "/repo/src/tree-ops/index.js";
import { elementTreeToSvgInner } from "/repo/src/render/element-tree-to-svg.js";
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc, timingFn } from "../lib/svgtime.js";
import { colour, el, rgb, type Node } from "../lib/tree.js";

const c = new Check("A08");
interface Track { prop: string; from: number; to: number; start: number; dur: number; curve: number }
interface El { par: number; tracks: Track[]; rep: number; alt: boolean; ox: number; oy: number; frame: number }
interface Plan { els: El[]; frames: { at: number; dur: number }[]; loop: number; curves: string[]; salt: number; hard?: boolean }
const POOL = ["linear", "ease-in", "ease", "ease-out", "ease-in-out", "cubic-bezier(0.3, -0.4, 0.7, 1.4)", "cubic-bezier(0.34, 1.56, 0.64, 1)", "steps(4, end)", "step-start", "steps(3, jump-both)"];
// curves of the caller's own, overshooting or not, some near-vertical
const bezier = (r: Rng): string => r.bool(0.3) ? r.pick(["cubic-bezier(1, 0, 0, 1)", "cubic-bezier(1, 0, 1, 0.1)", "cubic-bezier(0, 0.9, 0, 1)"]) : `cubic-bezier(${r.int(0, 100) / 100}, ${r.int(-40, 100) / 100}, ${r.int(0, 100) / 100}, ${r.int(0, 140) / 100})`;
// how far a polyline through 26 points of a curve may be from it
const chordCache = new Map<string, number>();
function chord(name: string): number {
  let e = chordCache.get(name); if (e != null) return e; const f = timingFn(name); e = 0;
  for (let k = 0; k < 25; k++) for (let q = 1; q < 8; q++) { const u = (k + q / 8) / 25; e = Math.max(e, Math.abs(f(u) - (f(k / 25) + (f((k + 1) / 25) - f(k / 25)) * q / 8))); }
  for (let k = 0; k < 100; k++) for (let q = 1; q < 4; q++) { const u = (k + q / 4) / 100; e = Math.max(e, Math.abs(f(u) - (f(k / 100) + (f((k + 1) / 100) - f(k / 100)) * q / 4))); }
  chordCache.set(name, e); return e;
}
const smoothCurve = (s: string): boolean => s.startsWith("cubic") || (POOL.indexOf(s) >= 0 && POOL.indexOf(s) < BAKE);
const BAKE = 7; // the first seven may be sampled into stops; a curve that jumps may not
const table = (name: string): number[] => { const f = timingFn(name); return Array.from({ length: 101 }, (_, i) => Math.round(f(i / 100) * 1000)); };
const val = (k: Track, v: number): string => k.prop.startsWith("translate") ? `${v / 10}px` : `${v / 1000}`;
const baked = (p: Plan, e: El): boolean => e.rep === 0 && e.tracks.some((k) => k.start !== e.tracks[0].start || k.dur !== e.tracks[0].dur || k.curve !== e.tracks[0].curve || k.start + k.dur > p.loop);
function render(p: Plan): string {
  const nodes: Node[] = []; const anims: any[][] = p.frames.map(() => []); const roots: Node[][] = p.frames.map(() => []);
  p.els.forEach((e, k) => {
    const f = p.frames[e.frame]; const animId = `f${e.frame}a${k}`; const [first, ...rest] = e.tracks;
    const n: Node = { x: 60 + 10 * k, y: 40 + 6 * k, width: 40, height: 30, animId, styles: { backgroundColor: colour(k + 1) } }; nodes.push(n);
    (e.par > 0 ? (nodes[e.par - 1].children ??= []) : roots[e.frame]).push(n);
    const own = e.rep === 0;
    anims[e.frame].push({ animId, property: first.prop, from: val(first, first.from), to: val(first, first.to), delay: first.start - f.at, duration: first.dur, ...(p.curves[first.curve - 1] === "linear" && p.salt % 2 ? {} : { easing: p.curves[first.curve - 1] }),
      ...(rest.length === 0 ? {} : { fuse: rest.map((k) => ({ property: k.prop, from: val(k, k.from), to: val(k, k.to), ...(own && k.start !== first.start ? { delay: k.start - f.at } : {}), ...(own && k.dur !== first.dur ? { duration: k.dur } : {}), ...(own && k.curve !== first.curve ? { easing: p.curves[k.curve - 1] } : {}) })) }),
      ...(e.rep === 0 ? {} : { repeat: e.rep < 0 ? "infinite" : e.rep, ...(e.alt ? { alternate: true } : {}) }),
      ...(e.ox !== 0 || e.oy !== 0 ? { transformOrigin: `${e.ox / 10}px ${e.oy / 10}px`, transformBox: "view-box" } : {}) });
  });
  const frames = p.frames.map((f, i) => { const tree = clone(roots[i]).map(el); annotateAnimatedProperties(tree, anims[i]); return { svgContent: elementTreeToSvgInner(tree, 200, 150, `f${i}-`, true, 2, false), duration: f.dur, transition: { type: "cut", duration: 0 }, animations: anims[i] }; });
  return generateAnimatedSvg({ width: 200, height: 150, frames } as any);
}
const clone = <T,>(x: T): T => JSON.parse(JSON.stringify(x));
function record(p: Plan): Trace {
  const ev: any[] = []; const r = new Rng(p.salt, "t"); const step = (k: Track): boolean => /step/.test(p.curves[k.curve - 1]);
  try {
    const d = new SvgDoc(render(p)); const cols = p.els.map((_, k) => rgb(colour(k + 1)));
    const times = new Set<number>();
    for (const f of p.frames) for (const L of [0, 1, 2]) for (let q = 0; q < 8; q++) times.add(L * p.loop + f.at + r.int(3, f.dur - 3));
    for (const e of p.els) for (const k of e.tracks) for (const o of [-8, 8, k.dur - 8, k.dur + 8]) times.add(k.start + o);
    for (const t of [...times].sort((a, b) => a - b)) {
      if (t < 1) continue; const here = t % p.loop; const fi = p.frames.findIndex((f) => here > f.at + 2 && here < f.at + f.dur - 2); if (fi < 0) continue;
      // a jumping curve is read away from its jumps
      const near = p.els.some((e) => e.frame === fi && e.tracks.some((k) => { if (!step(k)) return false; const u = e.rep === 0 ? (here - k.start) / k.dur : (t - k.start) / k.dur; return u > -0.03 && Math.abs(u * 12 - Math.round(u * 12)) < 0.4; }));
      // and a near-vertical stretch is not read at all: half a millisecond matters there
      const steep = p.els.some((e) => e.frame === fi && e.tracks.some((k) => { const f = timingFn(p.curves[k.curve - 1]); const u = ((e.rep === 0 ? here : t) - k.start) / k.dur; const v = e.rep === 0 ? u : u - Math.floor(u); const w = e.alt && Math.floor(u) % 2 ? 1 - v : v; return w > -0.02 && w < 1.02 && Math.abs(f(Math.min(1, w + 0.01)) - f(Math.max(0, w - 0.01))) > 0.08; }));
      const spin = p.els.some((e) => e.frame === fi && e.rep !== 0 && e.tracks.some((k) => { const u = (t - k.start) / k.dur; return u > -0.05 && Math.abs(u - Math.round(u)) < 0.04; }));
      if (near || spin || steep) continue;
      const items = d.items(t);
      p.els.forEach((e, k) => { if (e.frame !== fi) return; const it = items.find((i) => rgb(i.fill) === cols[k]); ev.push(it == null ? { e: "gone", k: k + 1, t } : { e: "see", k: k + 1, t, s: Math.round(it.m[0] * 1000), o: Math.round(it.alpha * 1000), x: Math.round(it.m[4] * 10), y: Math.round(it.m[5] * 10) }); });
    }
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 400) }); }
  const bk = p.els.some((e) => baked(p, e));
  const slack = (q: string): number => Math.round(1.5 * Math.max(0, ...p.els.map((e) => e.tracks.filter((k) => k.prop.startsWith(q) && !step(k)).reduce((n, k) => n + Math.abs(k.to - k.from) * chord(p.curves[k.curve - 1]), 0))));
  return { cfg: { els: p.els, tabs: p.curves.map(table), loop: p.loop, tolx: (bk ? 35 : 25) + slack("translate"), tols: (bk ? 40 : 30) + Math.max(slack("scale"), slack("opacity")) }, ev, meta: p };
}
const plans: Plan[] = []; const rng = c.rng;
const exported = c.model("AnimMC", undefined, { workers: 4, mustCover: ["Step"] });
exported.map((e: any) => JSON.stringify(e)).sort().forEach((s, n) => {
  const els: El[] = JSON.parse(s); for (const e of els) { e.frame = 0; for (const k of e.tracks) { k.start *= 100; k.dur *= 100; } }
  plans.push({ els, frames: [{ at: 0, dur: 2000 }], loop: 2000, curves: ["linear", "ease-in"], salt: n });
});
function track(r: Rng, start: number, dur: number, curve: number): Track {
  const prop = r.pick(["translateX", "translateY", "scale", "opacity"]); const v = (): number => prop === "scale" ? r.int(5, 16) * 100 : prop === "opacity" ? r.int(3, 10) * 100 : r.int(-60, 60) * 10;
  return { prop, from: v(), to: v(), start, dur, curve };
}
for (let n = 0; n < c.n(1500, 20000); n++) {
  const r = new Rng(rng.int(0, 2 ** 30), "a8"); const curves = r.bool(0.05) ? ["linear", "cubic-bezier(1, 0, 0, 1)"] : [...new Set(["linear", r.pick(POOL), r.pick(POOL), bezier(r)])]; let at = 0; const frames = Array.from({ length: r.int(1, 3) }, () => { const f = { at, dur: r.int(8, 18) * 100 + (r.bool(0.15) ? r.int(2, 30) * 1000 : 0) }; at += f.dur; return f; });
  const smooth = (): number => { for (;;) { const k = r.int(1, curves.length); if (smoothCurve(curves[k - 1])) return k; } };
  const els: El[] = [];
  frames.forEach((f, fi) => {
    const cnt = r.int(1, 2); const base = els.length;
    for (let q = 0; q < cnt; q++) {
      const rep = r.bool(0.3) ? r.pick([1, 2, 3, -1]) : 0; const start = f.at + (rep !== 0 && r.bool(0.3) ? -r.int(0, 500) : r.int(0, 12) * 50); const dur = rep !== 0 ? r.int(2, 6) * 100 : Math.max(200, r.int(3, 9) * 100);
      const room = f.at + f.dur; const over = r.bool(0.12); const d2 = over || rep !== 0 ? dur : Math.max(150, Math.min(dur, room - start));
      const cnt2 = r.pick([1, 1, 2, 3]); let curve = r.int(1, curves.length); const solo = r.bool(0.5);
      if (!solo && cnt2 > 1 && rep === 0 || start + d2 > at) curve = smooth();
      const tracks = [track(r, start, d2, curve)];
      while (tracks.length < cnt2) { const own = !solo && rep === 0; const s2 = own && r.bool() ? f.at + r.int(0, 10) * 50 : start; const dd = own && r.bool() ? Math.max(200, Math.min(r.int(2, 9) * 100, room - s2)) : d2; const t = track(r, s2, dd, own && r.bool() ? smooth() : curve); if (!(t.prop === "opacity" && tracks.some((x) => x.prop === "opacity"))) tracks.push(t); }
      const org = r.bool(0.3);
      els.push({ par: q > 0 && r.bool(0.6) ? base + q : 0, tracks, rep, alt: rep !== 0 && r.bool(), ox: org ? r.int(0, 150) * 10 : 0, oy: org ? r.int(0, 100) * 10 : 0, frame: fi });
    }
  });
  plans.push({ els, frames, loop: at, curves, salt: 1000 + n });
}
const traces = (await c.record(plans, record)) as Trace[];
c.validate("AnimTrace", traces.filter((t) => t.ev.length > 0), {
  corrupt: (t, r) => { const s = t.ev.filter((e) => e.e === "see"); if (s.length === 0) return null; const e = r.pick(s); const f = r.pick(["s", "o", "x", "y"]); e[f] += r.pick([-1, 1]) * (3 * (f === "s" || f === "o" ? (t.cfg as any).tols : (t.cfg as any).tolx) + 60); return t; },
  key: (t, ev) => ev?.e ?? "end", describe: (t, ev) => `element ${ev?.k} at ${ev?.t} ms is painted with scale ${ev?.s / 1000}, opacity ${ev?.o / 1000}, at ${ev?.x / 10},${ev?.y / 10} ${ev?.msg ?? ""}`,
});
c.finish({ documents: plans.length });
