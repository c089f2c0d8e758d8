/** A07: pointer scripts are rendered by the real animator; where the pointer, its shape and its rings are at each moment is played back on Pointer.tla. */
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { cursorGlyphSvg } from "/repo/src/animation/cursor-glyphs.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc, type El } from "../lib/svgtime.js";

const c = new Check("A07");
interface PEv { k: "show" | "hide" | "move" | "click"; t: number; x: number; y: number; dur: number; rel: boolean; kind: string; sel?: boolean /* resolved in the frame it starts in */; btn?: string; style?: { pulseDurationMs?: number; pulseRadius?: number } }
interface Plan { frames: { d: number; tr: number | null; cut: boolean }[]; ev: PEv[]; world: { w: number; shapes: string[] }; scale: number; style?: { pulseDurationMs?: number; pulseRadius?: number }; shuffle: number }
const advance = (f: Plan["frames"][0]): number => f.d + (f.tr == null ? 300 : f.cut ? 0 : f.tr);
const KINDS = ["default", "pointer", "text", "grab", "none", "ew-resize", "wait"];
const inner = (s: string): string => s.replace(/\s+/g, "");
/** Which shape a glyph group draws: its path data, looked up in the catalogue. */
const sig = (e: El): string => { const out: string[] = []; const go = (x: El): void => { if (x.tag !== "g") out.push(x.tag + (x.attrs.d ?? "") + (x.attrs.points ?? "") + (x.attrs.cx ?? "") + (x.attrs.x1 ?? "")); if (x.attrs.transform?.includes("rotate")) out.push(x.attrs.transform); x.kids.forEach(go); }; e.kids.forEach(go); return inner(out.join("|")); };
const catalogue = new Map<string, string>(); for (const k of KINDS) { const g = cursorGlyphSvg(k, 0, 0, 22, "#000"); catalogue.set(g === "" ? "" : sig(new SvgDoc(`<svg>${g}</svg>`).all.find((e) => e.tag === "svg")!), k); }
function record(p: Plan): Trace {
  const total = p.frames.reduce((s, f) => s + advance(f), 0); const starts: number[] = []; let acc = 0; for (const f of p.frames) { starts.push(acc); acc += advance(f); }
  const evs = [...p.ev].sort((a, b) => a.t - b.t); const clicks = evs.filter((e) => e.k === "click");
  const st = (e: PEv): { len: number; r: number } => ({ len: e.style?.pulseDurationMs ?? p.style?.pulseDurationMs ?? 500, r: e.style?.pulseRadius ?? p.style?.pulseRadius ?? 32 });
  const cfg = { ev: evs.map(({ k, t, x, y, dur, rel, kind }) => ({ k, t, x, y, dur, rel, kind })), world: p.world, starts, total, slack: 12, tol: 40, clicks: clicks.map((e) => ({ i: evs.indexOf(e) + 1, t: e.t, ...st(e), half: e.btn === "secondary" })) };
  const out: any[] = [];
  try {
    const events = evs.map((e) => {
      if (e.k === "show") return { type: "show", t: e.t, x: e.x / 100, y: e.y / 100, ...(e.kind ? { cursor: e.kind } : {}) };
      if (e.k === "hide") return { type: "hide", t: e.t };
      if (e.k === "click") return { type: "click", t: e.t, ...(e.btn ? { button: e.btn } : {}), ...(e.style ? { style: e.style } : {}) };
      return { type: "move", t: e.t, ...(e.dur > 0 || e.sel ? { duration: e.dur } : {}), ...(e.rel ? { by: { dx: e.x / 100, dy: e.y / 100 } } : e.sel ? { selector: `#${e.x}_${e.y}`, offset: { dx: 3, dy: -2 } } : { to: { x: e.x / 100, y: e.y / 100 } }), ...(e.kind ? { cursor: e.kind } : {}) };
    });
    // ties keep their order, so only distinct moments may be handed over out of order
    const distinct = new Set(evs.map((e) => e.t)).size === evs.length; const given = p.shuffle && distinct ? new Rng(p.shuffle, "order").shuffle(events) : events;
    const selectors: number[] = [];
    const svg = generateAnimatedSvg({ width: 640, height: 400,
      frames: p.frames.map((f, i) => ({ svgContent: `<rect width="9" height="9" fill="rgb(1,2,${i})"/>`, duration: f.d, ...(f.tr == null ? {} : { transition: { type: f.cut ? "cut" : "crossfade", duration: f.tr } }) })),
      cursorOverlay: { events, ...(p.style ? { style: { ...p.style, cursorScale: p.scale } } : {}) } && { events: given, ...(p.style || p.scale !== 1 ? { style: { ...p.style, cursorScale: p.scale } } : {}) },
      resolveSelector: (sel: string, f: number) => { selectors.push(f); const m = /#(-?\d+)_(-?\d+)/.exec(sel)!; return { x: Number(m[1]) / 100 - 3 - 20, y: Number(m[2]) / 100 + 2 - 8, w: 40, h: 16 }; },
      ...(p.world.shapes.length ? { resolveCursorAt: (x: number, _y: number, f: number) => p.world.shapes[(((Math.floor((x * 100) / p.world.w) + f + 1) % p.world.shapes.length) + p.world.shapes.length) % p.world.shapes.length] } : {}),
    } as any);
    const d = new SvgDoc(svg); const grp = d.byClass("cursor-pointer")[0] ?? d.byClass("cursor-arrow")[0];
    if (evs.length === 0) return { cfg, ev: [], meta: p };
    const pulses = d.find((e) => /^cursor-click( |$)/.test(e.attrs.class ?? "")); const legacy = p.world.shapes.length === 0;
    const ts = new Set<number>(); const edges: number[] = [];
    for (const e of evs) { edges.push(e.t, e.t + e.dur); for (const o of [-9, -3, 3, 9, 20, 50]) ts.add(e.t + o); if (e.dur > 0) for (const q of [0.25, 0.5, 0.75]) ts.add(Math.round(e.t + e.dur * q)); for (const o of [-3, 3]) ts.add(e.t + e.dur + o); }
    for (const k of cfg.clicks) for (const q of [0.1, 0.3, 0.5, 0.8, 1.02]) ts.add(Math.round(k.t + Math.min(k.len, total - k.t) * q));
    for (let k = 0; k < 14; k++) ts.add(Math.round(((k + 0.37) / 14) * total));
    for (const t of [...ts].sort((a, b) => a - b)) {
      if (t < 1 || t > total - 2 || edges.some((x) => Math.abs(x - t) < 2)) continue;
      for (const T of t % 3 === 0 ? [t, t + total * (1 + (t % 2))] : [t]) {
        const m = grp ? d.matrix(grp, T) : [1, 0, 0, 1, 0, 0]; const shown: string[] = [];
        if (grp && legacy) { if (d.alpha(grp, T) > 0.01) shown.push("arrow"); }
        else if (grp) for (const g of grp.kids) if (g.tag === "g" && d.alpha(g, T) > 0.01) { const k = catalogue.get(sig(g)) ?? "?"; if (k !== "none") shown.push(k); }
        out.push({ e: "at", t: T, x: Math.round(m[4] * 100), y: Math.round(m[5] * 100), shown });
        const q: any[] = []; for (const g of pulses) {
          const i = Number(/cursor-click-(\d+)/.exec(g.attrs.class)![1]) + 1; const half = g.kids.some((x) => x.tag === "path" && d.alpha(x, T) > 0.02);
          for (const ring of g.kids.filter((x) => x.tag === "circle").slice(0, 1)) if (d.alpha(ring, T) > 0.02 || half) { const mm = d.matrix(ring, T); const cx = Number(ring.attrs.cx), cy = Number(ring.attrs.cy); q.push([i, Math.round((mm[0] * cx + mm[4]) * 100), Math.round((mm[3] * cy + mm[5]) * 100), Math.round(mm[0] * Number(ring.attrs.r) * 100), half]); }
        }
        if (cfg.clicks.length) out.push({ e: "rings", t: T, q });
      }
    }
    const asked = evs.filter((x) => x.sel && x.t <= total); if (selectors.length !== asked.length || selectors.some((f, i) => f !== starts.filter((s) => s <= asked[i].t).length - 1)) out.push({ e: "selector", frames: selectors });
  } catch (err) { out.push({ e: "threw", msg: String((err as Error).stack).slice(0, 400) }); }
  return { cfg, ev: out, meta: p };
}
const exported = c.model("PointerMC", undefined, { workers: 4, mustCover: ["Event", "Tick"] });
const rng = c.rng; const plans: Plan[] = [];
const small = exported.map((e: any) => JSON.stringify(e)).sort(); const stride = c.n(9, 2);
small.forEach((s, n) => {
  if ((n + c.seed) % stride !== 0) return; const ev = (JSON.parse(s) as PEv[]).map((e) => ({ ...e, t: e.t * 200, dur: e.dur * 200, x: e.x * 4000, y: e.x * 1500 }));
  plans.push({ frames: [{ d: 600, tr: 100, cut: false }, { d: 700, tr: 0, cut: true }], ev, world: n % 2 ? { w: 9000, shapes: ["default", "pointer", "text"] } : { w: 100, shapes: [] }, scale: 1, shuffle: n % 4 === 0 ? n + 1 : 0 });
});
for (let n = 0; n < c.n(500, 6000); n++) {
  const frames = Array.from({ length: rng.int(1, 4) }, () => ({ d: rng.int(2, 14) * 100 + rng.int(0, 3) * 7, tr: rng.pick([null, 0, 200, 350]), cut: rng.bool() })); const total = frames.reduce((s, f) => s + advance(f), 0);
  const N = rng.int(1, 9); let at = rng.pick([0, 0, 130]); const ev: PEv[] = []; const style = (): any => (rng.bool(0.3) ? { pulseDurationMs: rng.pick([120, 300, 900]), pulseRadius: rng.pick([12, 50]) } : undefined);
  for (let k = 0; k < N; k++) {
    const kk = rng.pick(["move", "move", "move", "click", "show", "hide"] as const); const sel = rng.bool(0.3); const rel = !sel && rng.bool(0.3); const x = rel ? rng.int(-12000, 12000) : rng.int(0, 60000), y = rel ? rng.int(-5000, 5000) : rng.int(0, 38000); const dur = kk === "move" ? rng.pick([0, 60, 200, 500, 1000, 1700]) : 0;
    ev.push({ k: kk, t: at, x: kk === "hide" || kk === "click" ? 0 : x, y: kk === "hide" || kk === "click" ? 0 : y, dur, rel: kk === "move" && rel, kind: (kk === "move" || kk === "show") && rng.bool(0.2) ? rng.pick(KINDS.slice(1)) : "", ...(kk === "move" && sel ? { sel } : {}), ...(kk === "click" ? { btn: rng.pick([undefined, "primary", "secondary", "middle"]) as any, style: style() } : {}) });
    at += rng.bool(0.15) ? 0 : rng.bool(0.5) ? dur + rng.int(0, 6) * 60 : rng.int(4, 500); if (rng.bool(0.1)) at = total - rng.pick([20, 100, 300]); if (rng.bool(0.15)) { const up = frames.reduce<number[]>((q, f) => [...q, q[q.length - 1] + advance(f)], [0]).filter((v) => v >= at && v < total); if (up.length) at = up[0]; } if (at < 0) at = 0;
    if (at > total + 500) break;
  }
  ev.sort((a, b) => a.t - b.t); const w = rng.int(3000, 15000);
  plans.push({ frames, ev, world: rng.bool(0.6) ? { w, shapes: rng.shuffle(KINDS).slice(0, rng.int(2, 4)) } : { w, shapes: [] }, scale: rng.pick([1, 1, 1.5]), style: style(), shuffle: rng.bool(0.2) ? rng.int(1, 1e6) : 0 });
}
for (const p of plans) { const total = p.frames.reduce((s, f) => s + advance(f), 0); p.ev = p.ev.filter((e) => Math.abs(e.t - total) > 3); }
const traces = ((await c.record(plans, record)) as Trace[]).filter((t) => t.ev.length > 0);
c.validate("PointerTrace", traces, {
  corrupt: (t, r) => { const e = r.pick(t.ev); if (e.e === "at") { if (e.shown.length) { if (r.bool()) e.x += 100; else e.shown.push("arrow"); } else e.shown = ["?"]; } else if (e.e === "rings") { if (e.q.length === 0) return null; e.q[0][1] += 100; if (t.cfg.clicks[e.q[0][0] - 1].t + 4 >= t.cfg.total) return null; } else return null; return t; },
  key: (t, ev) => `${ev?.e ?? "end"}-${t.cfg.world.shapes.length ? "shapes" : "arrow"}`,
  describe: (t, ev) => `a scene of ${t.cfg.total} ms with the script ${JSON.stringify(t.cfg.ev.map((e: any) => [e.k, e.t, e.x, e.y, e.dur]))}: ${JSON.stringify(ev)}`,
});
c.finish({ scripts: plans.length });
