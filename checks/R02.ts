/** R02: the same tree is rendered with and without the culling pass and both documents are played. */
import { cullElementsOutsideViewBox, annotateAnimatedProperties } from "/repo/src/tree-ops/index.js";
import { elementTreeToSvgInner } from "/repo/src/render/element-tree-to-svg.js";
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc } from "../lib/svgtime.js";
import { colour, el, rgb, type Node } from "../lib/tree.js";

const c = new Check("R02");
interface Frame { tree: Node[]; animations: any[]; duration: number; transition?: any }
interface Plan { frames: Frame[]; w: number; h: number; spec?: any; salt: number }
const clone = <T,>(x: T): T => JSON.parse(JSON.stringify(x));
function render(p: Plan, cull: boolean): string {
  let start = 0; const adv = (f: Frame): number => f.duration + (f.transition?.type === "cut" || f.transition == null ? 0 : f.transition.duration);
  const total = p.frames.reduce((s, f) => s + adv(f), 0);
  const frames = p.frames.map((f, i) => {
    const tree = clone(f.tree).map(el); annotateAnimatedProperties(tree, f.animations);
    const cullCss = cull ? cullElementsOutsideViewBox(tree, p.w, p.h, f.animations, start, total).css : undefined; start += adv(f);
    return { svgContent: elementTreeToSvgInner(tree, p.w, p.h, `f${i}-`, true, 2, false), duration: f.duration, transition: f.transition ?? { type: "cut", duration: 0 }, animations: f.animations, cullCss };
  });
  return generateAnimatedSvg({ width: p.w, height: p.h, frames } as any);
}
type Pt = [number, number];
function corners(it: any): Pt[] | null {
  const s = it.shape; if (s.kind === "any") return null; const loc: Pt[] = s.kind === "poly" ? s.pts : s.kind === "circle" ? [[s.cx - s.r, s.cy - s.ry], [s.cx + s.r, s.cy - s.ry], [s.cx + s.r, s.cy + s.ry], [s.cx - s.r, s.cy + s.ry]] : [[s.x, s.y], [s.x + s.w, s.y], [s.x + s.w, s.y + s.h], [s.x, s.y + s.h]];
  return loc.map(([x, y]) => [it.m[0] * x + it.m[2] * y + it.m[4], it.m[1] * x + it.m[3] * y + it.m[5]]);
}
/** What is painted at t: by colour and place; `visible` keeps only what really shows a pixel inside the viewport. */
function seen(d: SvgDoc, p: Plan, t: number, visible: boolean): { key: string; fill: string }[] {
  const out: { key: string; fill: string }[] = [];
  for (const it of d.items(t)) {
    if (it.alpha < 0.004) continue; const ps = corners(it); const outline = it.fill === "none"; const col = rgb(outline ? it.el.attrs.stroke : it.fill); if (outline && !col) continue;
    if (ps == null || ps.length === 0) { if (!visible) out.push({ key: `${it.tag}|${col}|${it.m.map((v) => Math.round(v * 4)).join()}`, fill: col }); continue; }
    const b = [Math.min(...ps.map((q) => q[0])), Math.min(...ps.map((q) => q[1])), Math.max(...ps.map((q) => q[0])), Math.max(...ps.map((q) => q[1]))]; const key = `${it.tag}|${col}|${b.map((v) => Math.round(v * 2)).join()}`;
    if (!visible) { out.push({ key, fill: col }); continue; }
    const lo = [Math.max(b[0], 0.75), Math.max(b[1], 0.75)]; const hi = [Math.min(b[2], p.w - 0.75), Math.min(b[3], p.h - 0.75)]; if (lo[0] >= hi[0] || lo[1] >= hi[1]) continue;
    const pts: Pt[] = outline ? ps.flatMap((q, k) => { const n = ps[(k + 1) % ps.length]; return [0, 0.2, 0.4, 0.6, 0.8].map((f): Pt => [q[0] + (n[0] - q[0]) * f, q[1] + (n[1] - q[1]) * f]); }).filter(([x, y]) => x > 0.75 && y > 0.75 && x < p.w - 0.75 && y < p.h - 0.75) : [0.02, 0.25, 0.5, 0.75, 0.98].flatMap((f) => [0.02, 0.25, 0.5, 0.75, 0.98].map((g): Pt => [lo[0] + (hi[0] - lo[0]) * f, lo[1] + (hi[1] - lo[1]) * g]));
    const probe = outline ? { ...it, shape: { kind: "rect", x: -1e6, y: -1e6, w: 2e6, h: 2e6 } } as any : it;
    if (pts.some(([x, y]) => SvgDoc.covered(probe, x, y))) out.push({ key, fill: col });
  }
  return out;
}
function record(p: Plan): Trace {
  const ev: any[] = []; const r = new Rng(p.salt, "t");
  try {
    const a = new SvgDoc(render(p, false)); const b = new SvgDoc(render(p, true));
    const loop = p.frames.reduce((s, f) => s + f.duration + (f.transition?.duration ?? 0), 0);
    const edges = new Set<number>(); let at = 0;
    for (const f of p.frames) { for (const q of f.animations) { for (const [d, u] of [[q.delay ?? 0, q.duration], ...(q.fuse ?? []).map((x: any) => [x.delay ?? q.delay ?? 0, x.duration ?? q.duration])]) for (const e of [d, d + u, d + u * 0.9, d + u * 0.1]) edges.add(at + e); } at += f.duration + (f.transition?.duration ?? 0); }
    const times = new Set<number>(); for (let q = 0; q < 16; q++) times.add(r.int(1, loop * 3)); for (const e of r.shuffle([...edges]).slice(0, 10)) for (const d of [-9, 9]) for (const k of [0, 1]) if (e + d > 0) times.add(Math.round(e + d + k * loop));
    const cols = p.spec?.els.map((_: any, k: number) => rgb(colour(k + 1)));
    for (const t of [...times].sort((x, y) => x - y)) {
      if (p.spec != null && (t % loop < 5 || loop - (t % loop) < 5)) continue;
      const got = seen(b, p, t, false); const need = seen(a, p, t, true);
      // the same place up to rounding: match loosely by rounding to the neighbouring half pixel
      const near = new Set(got.flatMap((g) => g.key)); const ok = (k: string): boolean => near.has(k) || got.some((g) => close(g.key, k));
      ev.push({ e: "paint", t, need: need.map((n) => n.key), got: need.filter((n) => ok(n.key)).map((n) => n.key) });
      const all = seen(a, p, t, false); const extra = seen(b, p, t, true).filter((g) => !all.some((n) => n.key === g.key || close(n.key, g.key))); if (extra.length > 0) ev.push({ e: "extra", t, got: extra.map((n) => n.key) });
      if (p.spec != null) ev.push({ e: "probe", t, got: cols.flatMap((f: string, k: number) => got.some((g) => g.fill === f) ? [k + 1] : []) });
    }
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 500) }); }
  return { cfg: p.spec ?? { els: [], loop: 1, view: 1 }, ev, meta: p };
}
function close(a: string, b: string): boolean { const [ta, fa, pa] = a.split("|"); const [tb, fb, pb] = b.split("|"); if (ta !== tb || fa !== fb) return false; const x = pa.split(",").map(Number); const y = pb.split(",").map(Number); return x.every((v, k) => Math.abs(v - y[k]) <= 2); }
// ---- scenarios of the model: unit = 20 px, tick = 100 ms
const U = 20; const T = 100;
function fromModel(els: any[], n: number): Plan {
  const axis = n % 2 === 0; const animations: any[] = []; const nodes: Node[] = els.map((e, k) => {
    const a = e.anim; let animId: string | undefined;
    if (a.kind !== "none") {
      animId = `f0a${k}`; const prop = n % 3 === 0 ? "transform" : axis ? "translateX" : "translateY"; const v = (q: number): string => prop === "transform" ? (axis ? `translate(${q * U}px, 0px)` : `translateY(${q * U}px)`) : `${q * U}px`;
      animations.push({ animId, property: prop, from: v(a.from), to: v(a.to), duration: a.dur * T, delay: a.start * T, ...(a.kind === "once" ? {} : { repeat: a.kind === "ever" ? "infinite" : a.n, ...(a.alt ? { alternate: true } : {}) }) });
    }
    const box = axis ? { x: e.x * U, y: 20, width: e.w * U, height: 60 } : { x: 20, y: e.x * U, width: 60, height: e.w * U };
    return { ...box, animId, styles: { backgroundColor: colour(k + 1) } };
  });
  const roots: Node[] = []; els.forEach((e, k) => { if (e.par === 0) roots.push(nodes[k]); else (nodes[e.par - 1].children ??= []).push(nodes[k]); });
  const spec = { loop: 20 * T, view: 10 * U, els: els.map((e) => ({ x: e.x * U, w: e.w * U, par: e.par, anim: { ...e.anim, from: e.anim.from * U, to: e.anim.to * U, start: e.anim.start * T, dur: e.anim.kind === "none" ? 1 : e.anim.dur * T } })) };
  return { frames: [{ tree: roots, animations, duration: 20 * T }], w: axis ? 200 : 100, h: axis ? 100 : 200, spec, salt: n };
}
const rng = c.rng; const plans: Plan[] = [];
const exported = c.model("CullMC", undefined, { workers: 4, mustCover: ["Step"] });
exported.map((e: any) => JSON.stringify(e)).sort().forEach((s, n) => { if (c.thorough || (n + c.seed) % 2 === 0) plans.push(fromModel(JSON.parse(s), n)); });
// ---- seeded: trees, transforms, fused tracks, easings, several frames
const EASE = [undefined, "linear", "ease", "ease-in-out", "cubic-bezier(0.3, -0.8, 0.7, 1.9)", "cubic-bezier(0.1, 1.6, 0.4, 1)", "steps(4, jump-both)", "step-start", "steps(3, start)", "steps(2)"];
function track(r: Rng, big: number): any {
  const px = (): number => r.pick([0, 0, r.int(-big, big), r.int(-big, big)]); const k = r.int(0, 6);
  if (k < 2) { const x = px(); return { property: r.bool() ? "translateX" : "translateY", from: `${x}px`, to: `${x === 0 ? r.int(-big, big) : px()}px` }; }
  if (k === 2) return { property: "scale", from: String(r.pick([0, 0.2, 1, 3, -1])), to: String(r.pick([1, 0.5, 2, -2])) };
  if (k === 3) { const f = r.pick(["rotate", "translate", "both"]); const one = (): string => f === "rotate" ? `rotate(${r.int(-400, 400)}deg)` : f === "translate" ? `translate(${px()}px, ${px()}px)` : `translate(${px()}px, ${px()}px) rotate(${r.int(-180, 180)}deg)`; const a = one(); const b = one(); return { property: "transform", from: r.bool(0.1) ? "none" : a, to: b }; }
  if (k === 4) return { property: "opacity", from: r.pick(["0", "1"]), to: r.pick(["0.5", "1"]) };
  return { property: r.bool() ? "translateX" : "translateY", from: `${r.pick([-1, 1]) * big}px`, to: "0px" };
}
function rTree(r: Rng, anims: any[], fi: number, dur: number, cnt: { n: number }, w: number, h: number, depth: number, ox: number, oy: number, hard = false): Node {
  const n: Node = { x: ox + r.pick([r.int(-60, w), r.int(w, w + 200), r.int(-300, -50)]), y: oy + r.pick([r.int(-60, h), r.int(h, h + 120), r.int(-200, -40), r.int(0, 40)]), width: r.int(10, 120), height: r.int(10, 90), styles: {} };
  const st = n.styles!; if (r.bool(0.85)) st.backgroundColor = colour(++cnt.n); 
  if (r.bool(0.15)) { for (const s of ["Top", "Right", "Bottom", "Left"]) { st[`border${s}Width`] = "4px"; st[`border${s}Style`] = "solid"; st[`border${s}Color`] = colour(++cnt.n); } }
  if (r.bool(0.1)) { st.outlineWidth = "6px"; st.outlineStyle = "solid"; st.outlineColor = colour(++cnt.n); st.outlineOffset = `${r.int(0, 20)}px`; }
  if (r.bool(0.12)) st.boxShadow = `${colour(++cnt.n)} ${r.int(-80, 80)}px ${r.int(-80, 80)}px 0px ${r.int(0, 20)}px`;
  if (r.bool(hard ? 0.4 : 0.12)) st.overflowX = st.overflowY = st.overflow = r.pick(["hidden", "clip", "visible"]);
  if (r.bool(0.12)) { st.transform = `matrix(${r.pick(["1, 0, 0, 1", "0, 1, -1, 0", "2, 0, 0, 2"])}, ${r.int(-250, 250)}, ${r.int(-150, 150)})`; st.transformOrigin = `${n.width / 2}px ${n.height / 2}px`; }
  if (r.bool(0.1)) st.opacity = r.pick(["0", "0.5"]); if (r.bool(hard ? 0.35 : 0.08)) st.position = r.pick(["relative", "absolute", "fixed"]); if (r.bool(0.05)) st.zIndex = String(r.int(-1, 2));
  if (r.bool(0.08)) st.visibility = "hidden";
  if (r.bool(0.4)) {
    n.animId = `f${fi}a${anims.length}`; const t = track(r, r.pick([100, 300, 500])); const delay = r.int(0, Math.floor(dur * 0.6)); const a: any = { animId: n.animId, ...t, delay: r.bool(0.8) ? delay : undefined, duration: Math.max(60, r.int(60, dur - (r.bool(0.9) ? delay : 0))) };
    const e = r.pick(EASE); if (e != null) a.easing = e;
    if (r.bool(0.25)) { a.repeat = r.pick([1, 2, 3, "infinite"]); if (r.bool()) a.alternate = true; a.duration = r.int(60, Math.floor(dur / 2)); if (r.bool(0.3)) a.delay = -r.int(0, 400); }
    if (r.bool(0.3)) { a.fuse = [track(r, 200)]; if (a.repeat == null && r.bool(0.5)) { if (r.bool()) a.fuse[0].duration = r.int(50, dur - (a.delay ?? 0)); if (r.bool()) a.fuse[0].delay = r.int(0, 300); if (r.bool()) { const fe = r.pick(EASE); if (fe) a.fuse[0].easing = fe; } } }
    if (r.bool(0.35)) { a.transformOrigin = r.pick(["center", "50% 50%", "0px 0px", "left top", "20px 10px", "right"]); if (r.bool()) a.transformBox = r.pick(["fill-box", "stroke-box", "view-box"]); }
    if (a.delay == null) delete a.delay; anims.push(a);
  }
  if (depth < 3) n.children = Array.from({ length: r.pick([0, 0, 1, 2]) }, () => rTree(r, anims, fi, dur, cnt, w, h, depth + 1, n.x, n.y, hard));
  return n;
}
for (let n = 0; n < c.n(900, 12000); n++) {
  const r = new Rng(rng.int(0, 2 ** 30), "tree"); const w = 240; const h = 160; const cnt = { n: 10 };
  const frames = Array.from({ length: r.pick([1, 1, 1, 2, 3]) }, (_, fi) => { const dur = r.int(8, 40) * 50; const animations: any[] = []; return { tree: Array.from({ length: r.int(1, 3) }, () => rTree(r, animations, fi, dur, cnt, w, h, 0, 0, 0, n % 3 === 0)), animations, duration: dur, ...(r.bool(0.5) ? { transition: r.pick([{ type: "crossfade", duration: 300 }, { type: "push-left", duration: 250 }, { type: "cut", duration: 0 }]) } : {}) }; });
  plans.push({ frames, w, h, salt: n });
}
const traces = (await c.record(plans, record)) as Trace[];
c.validate("CullTrace", traces, {
  corrupt: (t, r) => { const p = t.ev.filter((e) => (e.e === "probe" ? e.got.length : e.need?.length) > 0); if (p.length === 0) return null; const e = r.pick(p); if (e.e === "probe") { const q = t.ev.filter((x) => x.e === "paint" && x.t === e.t)[0]; const m = q.need[0]; if (m == null) return null; q.got = q.got.filter((x: string) => x !== m); } else e.got = e.got.filter((x: string) => x !== e.need[0]); return t; },
  key: (t, ev) => ev?.e ?? "end",
  describe: (t, ev) => ev?.e === "paint" ? `at ${ev.t} ms a visible shape disappears or moves with culling: ${ev.need.find((x: string) => !ev.got.includes(x))}` : `at ${ev?.t} ms only ${JSON.stringify(ev?.got)} of the elements are painted ${ev?.msg ?? ""}`,
});
c.finish({ scenes: plans.length });
