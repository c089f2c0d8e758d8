/** A06: caret and selection scripts over captured text are resolved and rendered by the real code and played back on Caret.tla. */
import { resolveTextTrack } from "/repo/src/animation/caret-track.js";
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc, type El } from "../lib/svgtime.js";
import { el, rgb } from "../lib/tree.js";

const c = new Check("A06");
interface Run { x: number; y: number; w: number; asc: number; h: number; size: number; xs: number[]; end: number; dir: "l" | "r" | "v"; text: string; child: boolean }
interface CEv { e: "place" | "hide" | "select" | "clear"; t: number; k: number; off: number; a: number; b: number; sweep: number; c: number }
interface Track { evs: CEv[]; shape: "bar" | "block" | "underscore"; bar: number; blink: number; invert: boolean }
interface Plan { text: { runs: Run[]; rtl: boolean; input: boolean }[]; tracks: Track[]; frames: number[]; coarse: boolean; shuffle: number }
const COLOURS = ["", "rgb(10, 200, 30)", "rgb(200, 20, 90)", "rgb(20, 60, 220)"];
const CARET = "rgb(1, 2, 3)";
const units = (r: Run, vals: number[]): number[] => { const out: number[] = []; [...r.text].forEach((ch, i) => { for (let k = 0; k < ch.length; k++) out.push(vals[i] / 100); }); return out; };
function segment(r: Run): any {
  const s: any = { text: r.text, x: r.x / 100, y: r.y / 100, width: r.w / 100, height: r.h / 100, fontAscent: r.asc / 100, fontSize: r.size / 100 };
  if (r.dir === "v") { s.verticalWritingMode = "vertical-rl"; s.yOffsets = units(r, r.xs); s.verticalAdvances = units(r, r.xs.map((y, i) => (i + 1 < r.xs.length ? r.xs[i + 1] : r.end) - y)); s.height = (r.end - r.xs[0]) / 100; } else s.xOffsets = units(r, r.xs);
  return s;
}
function tree(p: Plan): any[] {
  return [el({ x: 0, y: 0, width: 900, height: 700, children: p.text.map((q, k) => {
    const styles = { fontSize: `${q.runs[0].size / 100}px`, fontFamily: "monospace", fontWeight: "400", fontStyle: "normal", direction: q.rtl ? "rtl" : "ltr", writingMode: q.runs[0].dir === "v" ? "vertical-rl" : "horizontal-tb", color: "rgb(9,9,9)" };
    const down = (q.runs[0].h - q.runs[0].asc) / 100; const own = q.runs.filter((r) => !r.child); const kids = q.runs.filter((r) => r.child);
    const e: any = { x: 10, y: q.runs[0].y / 100, width: 600, height: 80, animId: `t${k + 1}`, styles, fontDescent: down, children: kids.map((r) => ({ x: r.x / 100, y: r.y / 100, width: 50, height: 20, tag: "span", styles: { ...styles, fontSize: `${r.size / 100}px` }, fontDescent: down, textSegments: [segment(r)] })) };
    if (q.input) { const r = q.runs[0]; Object.assign(e, { tag: "input", text: r.text, textLeft: r.x / 100, textTop: r.y / 100, textWidth: r.w / 100, textHeight: r.h / 100, inputXOffsets: units(r, r.xs), fontAscent: r.asc / 100 }); } else if (own.length) e.textSegments = own.map(segment);
    return e;
  }) })];
}
const h100 = (v: number): number => Math.round(v * 100);
function box(doc: SvgDoc, e: El, t: number): any { const b = doc.bbox(e, t); if (b == null) return null; const m = doc.matrix(e, t); const xs = [b.x, b.x + b.w].map((x) => m[0] * x + m[4]); const ys = [b.y, b.y + b.h].map((y) => m[3] * y + m[5]); return { x: h100(Math.min(...xs)), y: h100(Math.min(...ys)), w: h100(Math.abs(xs[1] - xs[0])), h: h100(Math.abs(ys[1] - ys[0])) }; }
function record(p: Plan): Trace[] {
  const total = p.frames.reduce((s, d) => s + d, 0); const warn = console.warn; console.warn = () => {}; const outs: any[][] = p.tracks.map(() => []);
  const sorted = p.tracks.map((k) => [...k.evs].sort((a, b) => a.t - b.t));
  try {
    const roots = tree(p);
    const textTracks = p.tracks.map((k, i) => {
      const evs = sorted[i]; const distinct = new Set(evs.map((e) => e.t)).size === evs.length; const given = distinct && p.shuffle ? new Rng(p.shuffle, "o").shuffle([...evs]) : evs; const first = given.find((e) => e.k > 0)?.k ?? 1;
      return resolveTextTrack(roots, { target: { animId: `t${first}` }, shape: k.shape, color: CARET, barWidthPx: k.bar / 100, blinkMs: k.blink, invert: k.invert, events: given.map((e, n) => { const target = e.k === first && n % 2 ? {} : { target: { animId: `t${e.k}` } }; return e.e === "place" ? { type: n % 3 ? "move" : "park", t: e.t, charOffset: e.off, ...target } : e.e === "hide" ? { type: "hide", t: e.t } : e.e === "select" ? { type: "select", t: e.t, charStart: e.a, charEnd: e.b, ...(e.sweep > 0 ? { sweepMs: e.sweep } : {}), color: COLOURS[e.c], ...target } : { type: "clearSelection", t: e.t }; }) } as any);
    });
    const doc = new SvgDoc(generateAnimatedSvg({ width: 900, height: 700, frames: p.frames.map((d, i) => ({ svgContent: `<rect width="9" height="9" fill="rgb(7,7,${i})"/>`, duration: d, transition: { type: "cut", duration: 0 } })), textTracks } as any));
    const groups = doc.byClass("text-track"); let g = 0;
    p.tracks.forEach((k, i) => {
      const drawn = textTracks[i].waypoints.length + textTracks[i].selections.length > 0; const group = drawn ? groups[g++] : null;
      const under = (cls: string): El[] => (group == null ? [] : doc.find((e) => { if ((e.attrs.class ?? "") !== cls) return false; for (let q: El | null = e; q != null; q = q.parent) if (q === group) return true; return false; }));
      const carets = under("tt-caret"), marks = under("tt-sel"); const edges: number[] = [0, total]; const ts = new Set<number>();
      for (const e of sorted[i]) {
        edges.push(e.t); for (const o of [-20, -4, 4, 25]) ts.add(e.t + o);
        if (e.e === "select" && e.sweep > 0) { const n = Math.max(1, e.b - e.a); const all = p.text[e.k - 1].runs.reduce((s, r) => s + r.xs.length, 0); const m = Math.max(1, Math.min(e.b, all) - e.a); for (let q = 0; q <= m; q++) edges.push(e.t + (q * e.sweep) / m); for (const f of [0.13, 0.37, 0.62, 0.88, 1.04]) ts.add(Math.round(e.t + e.sweep * f)); for (const q of [1, n >> 1, n - 1]) for (const o of [-4, 4]) ts.add(Math.round(e.t + (q * e.sweep) / m) + o); }
      }
      for (let q = 0; q < 10; q++) ts.add(Math.round(((q + 0.43) / 10) * total));
      for (const t of [...ts].sort((a, b) => a - b)) {
        if (t < 1 || t > total - 2 || edges.some((x) => Math.abs(x - t) < 2.5)) continue; let at = t;
        if (t % 3 === 0) at += total * (1 + (t % 2)); const ph = at % k.blink; if (Math.min(ph, k.blink - ph, Math.abs(ph - k.blink / 2)) < 3) continue;
        outs[i].push({ e: "at", t: at, caret: carets.filter((x) => doc.alpha(x, at) > 0.02).map((x) => box(doc, x, at)).filter((b) => b), marks: marks.filter((x) => doc.alpha(x, at) > 0.02).map((x) => ({ ...box(doc, x, at), c: COLOURS.findIndex((s) => rgb(s) === rgb(x.attrs.fill)) })).filter((b) => b.w > 5 && b.h > 5) });
      }
      if (groups.length !== textTracks.filter((x) => x.waypoints.length + x.selections.length > 0).length) outs[i].push({ e: "groups", n: groups.length });
    });
  } catch (err) { outs[0].push({ e: "threw", msg: String((err as Error).stack).slice(0, 400) }); } finally { console.warn = warn; }
  return p.tracks.map((k, i) => ({ cfg: { text: p.text.map((q) => q.runs.map(({ text: _t, child: _c, ...r }) => r)), evs: sorted[i], shape: k.shape, bar: k.bar, blink: k.blink, total, coarse: p.coarse, cell: 800 }, ev: outs[i], meta: { invert: k.invert, tracks: p.tracks.length } }));
}
const exported = c.model("CaretMC", undefined, { workers: 4, mustCover: ["Event", "Tick"] });
const R = c.rng; const plans: Plan[] = []; const LATIN = "abcdefghij"; const HEB = "אבגדהוזח";
const line = (o: Partial<Run> & { xs: number[]; end: number; dir: "l" | "r" | "v"; text: string }): Run => ({ x: Math.min(...o.xs), y: 2000, w: o.end - Math.min(...o.xs), asc: 1200, h: 1600, size: 1600, child: false, ...o });
exported.map((e: any) => JSON.stringify(e)).sort().forEach((s: string, n: number) => {
  if ((n + c.seed) % c.n(120, 12) !== 0) return; const r = new Rng(c.seed * 7919 + n, "small");
  plans.push({ text: [{ runs: [line({ xs: [2000, 2500], end: 2900, dir: "l", text: "ab" }), line({ xs: [3600, 3200, 2900], end: 4000, dir: "r", text: "אבג" })], rtl: false, input: false }, { runs: [line({ x: 9000, w: 1000, y: 4000, xs: [4000, 4400], end: 5000, dir: "v", text: "xy" })], rtl: false, input: false }],
    tracks: [{ evs: (JSON.parse(s) as CEv[]).map((e) => ({ ...e, t: e.t * 250, sweep: e.sweep * 250 })), shape: r.pick(["bar", "block", "underscore"]), bar: 200, blink: 1060, invert: false }], frames: [1200, 800], coarse: false, shuffle: 0 });
});
for (let n = 0; n < c.n(380, 5000); n++) {
  const r = new Rng(R.int(0, 2 ** 30), "caret"); const coarse = r.bool(0.12); const text: Plan["text"] = [];
  for (let k = 0; k < r.int(1, 3); k++) {
    const kind = r.int(0, 9); const asc = r.int(9, 30) * 100; const h = asc + r.int(2, 9) * 100; const size = Math.round(((asc + 200) / 1) / 100) * 100; const input = !coarse && kind === 9; const vert = kind === 8; const bidi = !coarse && (kind === 6 || kind === 7); const rtl = bidi && r.bool(); const runs: Run[] = [];
    const lines = input ? 1 : r.int(1, 3); let col = 60000;
    for (let j = 0; j < lines; j++) {
      if (vert) { let y = 3000 + r.int(0, 500); const y0 = y; const m = coarse ? r.int(50, 90) : r.int(1, 7); const xs: number[] = []; for (let q = 0; q < m; q++) { xs.push(y); y += coarse ? 800 : r.int(6, 22) * 100 + r.int(0, 99); } runs.push({ x: col, y: y0, w: r.int(12, 30) * 100, asc, h, size, xs, end: y, dir: "v", text: Array.from({ length: m }, (_, i) => LATIN[i % 10]).join(""), child: false }); col -= 4000; continue; }
      const parts = input ? 1 : r.int(1, 3); const made: Run[] = []; let x = 3000 + r.int(0, 900);
      const y = 2000 + k * 20000 + j * 6000;
      for (let q = 0; q < parts; q++) {
        const m = coarse ? r.int(30, 90) : r.int(1, 8); const ws = Array.from({ length: m }, () => (coarse ? 800 : r.int(2, 18) * 100 + r.int(0, 99))); const heb = bidi && r.bool(); const w = ws.reduce((s, v) => s + v, 0); const xs: number[] = [];
        if (heb) { let at = x + w; for (const v of ws) { at -= v; xs.push(at); } } else { let at = x; for (const v of ws) { xs.push(at); at += v; } }
        const emoji = !bidi && !coarse && r.bool(0.25); made.push({ x, y, w, asc, h, size, xs, end: x + w, dir: heb ? "r" : "l", text: Array.from({ length: m }, (_, i) => (heb ? HEB[i % 8] : emoji && i % 2 ? "😀" : LATIN[i % 10])).join(""), child: false }); x += w + r.pick([0, 0, 300]);
      }
      runs.push(...(rtl ? made.reverse() : made));
    }
    if (!input && !vert && r.bool(0.3)) for (const q of runs) q.child = r.bool(0.5);
    text.push({ runs, rtl, input });
  }
  const frames = Array.from({ length: r.int(1, 3) }, () => r.int(60, 400) * 10); const total = frames.reduce((s, d) => s + d, 0); const count = (k: number): number => text[k - 1].runs.reduce((s, q) => s + q.xs.length, 0);
  const tracks: Track[] = Array.from({ length: r.pick([1, 1, 2]) }, () => {
    const evs: CEv[] = []; let t = r.pick([0, 0, r.int(1, 60) * 10]); const N = coarse ? r.int(1, 4) : r.int(1, 9); let marks = 0;
    for (let j = 0; j < N; j++) {
      const k = r.int(1, text.length); const len = count(k); const u = r.int(0, 99); const z = { k, off: 0, a: 0, b: 0, sweep: 0, c: 1 };
      if (u < 40 && !coarse) evs.push({ ...z, e: "place", t, off: r.bool(0.06) ? len + r.int(1, 3) : r.bool(0.2) ? len : r.int(0, len) });
      else if (u < 52) evs.push({ ...z, e: "hide", t });
      else if (u < 82 || coarse && marks === 0) { if (coarse && marks > 0) continue; marks++; const a = coarse ? 0 : r.int(0, len); evs.push({ ...z, e: "select", t, a, b: coarse ? len : r.bool(0.1) ? len + 5 : r.int(a, len), sweep: r.bool(0.35) && !coarse ? 0 : r.int(4, 150) * 10, c: r.int(1, 3) }); }
      else evs.push({ ...z, e: "clear", t });
      t += r.bool(0.15) ? 0 : r.int(1, 90) * 10;
    }
    const shape = r.pick(["bar", "bar", "block", "underscore"] as const); return { evs: evs.filter((e) => Math.abs(e.t - total) > 5), shape, bar: r.pick([200, 100, 350]), blink: r.pick([1060, 1060, 530, 800]), invert: shape === "block" && r.bool() };
  });
  plans.push({ text, tracks, frames, coarse: coarse && tracks.every((k) => k.evs.every((e) => e.e !== "select" || count(e.k) > 120)), shuffle: r.bool(0.3) ? r.int(1, 1e6) : 0 });
}
const traces = ((await c.record(plans, record)) as Trace[][]).flat().filter((t) => t.ev.length > 0);
c.validate("CaretTrace", traces, {
  corrupt: (t, r) => { const e: any = r.pick(t.ev); if (e.e !== "at") return null; if (e.caret.length && r.bool()) e.caret[0].x += 900; else if (e.marks.length) { if (r.bool()) e.marks.pop(); else e.marks[0].y += 100; if (t.cfg.coarse) return null; } else e.marks.push({ x: 100, y: 100, w: 900, h: 900, c: 1 }); return t; },
  key: (t, ev) => ev == null ? "end" : `${ev.e}${t.cfg.coarse ? "-coarse" : ""}${t.meta.invert ? "-invert" : ""}`,
  describe: (t, ev) => `a loop of ${t.cfg.total} ms, ${t.cfg.shape}, script ${JSON.stringify(t.cfg.evs.map((e: any) => [e.e, e.t, e.k, ...(e.e === "place" ? [e.off] : e.e === "select" ? [e.a, e.b, e.sweep] : [])]))}: ${JSON.stringify(ev)}`,
});
c.finish({ scripts: plans.length });
