/** X01: every document/span the model enumerates is written out, trimmed by the real code, and played next to the original. */
import { trimAnimatedSvg } from "/repo/src/scrubber/trim.js";
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc } from "../lib/svgtime.js";

const c = new Check("X01");
type Track = { kind: string; mode: string; dur: number; delay: number; fill: string; base: number; stops: [number, number][]; prop: string; tech: "css" | "smil"; timing?: string; group?: number; like?: number };
interface Plan { tracks: Track[]; t0: number; t1: number; period: number; salt: number; frames?: any; canon?: boolean }
const W = 100; const H = 60;
const val = (prop: string, v: number): string => prop === "opacity" ? String(v / 1000) : prop === "transform" ? `translate(${v / 10}px, 0px)` : prop === "x" ? String(v / 10) : v >= 500 ? "visible" : "hidden";
const pct = (f: number): string => `${Number((f * 100).toFixed(5))}%`;
const sec = (ms: number, r: Rng): string => r.bool(0.3) ? `${ms}ms` : `${Number((ms / 1000).toFixed(4))}s`;

/** Write the tracks as one SVG document. Tracks of one `group` share an element and an animation list. */
function write(p: Plan): string {
  const r = new Rng(p.salt, "trim"); const css: string[] = []; const body: string[] = [];
  const groups = new Map<number, number[]>(); p.tracks.forEach((t, k) => { const g = t.group ?? 100 + k; groups.set(g, [...(groups.get(g) ?? []), k]); });
  const shorthand = (t: Track, name: string): string => {
    const timing = t.timing ?? (t.mode === "step" ? "step-end" : "linear");
    return [name, sec(t.dur, r), ...(timing === "ease" && r.bool() ? [] : [timing]), ...(t.delay !== 0 ? [sec(t.delay, r)] : []), ...(t.kind === "loop" || t.kind === "free" ? ["infinite"] : []), ...(t.fill === "both" ? ["both"] : [])].join(" ");
  };
  for (const ks of groups.values()) {
    const anims: string[] = []; let smil = ""; let attrs = ""; const owner = ks[0]; const done = new Set<number>();
    for (const k of ks) {
      const t = p.tracks[k];
      if (t.tech === "css") {
        if (done.has(k)) continue;
        if (t.like != null) { done.add(k); anims.push(shorthand(t, `k${t.like}`)); if (t.prop !== "transform" || t.base !== 0) attrs += ` ${t.prop}="${t.prop === "transform" ? `translate(${t.base / 10},0)` : val(t.prop, t.base)}"`; continue; }
        // two tracks with the same clock may share one @keyframes rule
        const lent = p.tracks.some((x) => x.like === k);
        const mates = ks.filter((j) => j !== k && !lent && !p.tracks.some((x) => x.like === j) && p.tracks[j].like == null && !done.has(j) && p.tracks[j].tech === "css" && p.tracks[j].prop !== t.prop && ["kind", "mode", "dur", "delay", "fill", "timing"].every((q) => (p.tracks[j] as any)[q] === (t as any)[q]) && r.bool(0.6));
        const all = [k, ...mates.slice(0, 1)]; all.forEach((j) => done.add(j));
        const at = new Map<number, string[]>(); for (const j of all) for (const [a, v] of p.tracks[j].stops) at.set(a, [...(at.get(a) ?? []), `${p.tracks[j].prop}:${val(p.tracks[j].prop, v)}`]);
        css.push(`@keyframes k${k}${r.bool(0.5) ? " " : ""}{${[...at].sort((a, b) => a[0] - b[0]).map(([a, d]) => `${a === 0 && r.bool(0.2) ? "from" : a === t.dur && r.bool(0.2) ? "to" : pct(a / t.dur)}{${d.join(";")}}`).join("")}}`);
        anims.push(shorthand(t, `k${k}`));
      } else {
        const shape = (x: Track, vs: string, kts: string): string => {
          // key times may be left out when they are the default ones; a two-stop ramp may be a from/to pair
          const m = x.stops.length; const even = x.mode === "step" ? x.stops.every((s, i) => Math.abs(s[0] - i * x.dur / m) < 1e-6) : x.stops.every((s, i) => Math.abs(s[0] - i * x.dur / (m - 1)) < 1e-6);
          if (x.mode !== "step" && m === 2 && r.bool(0.3)) { const [a, b] = vs.split(";"); return `from="${a}" to="${b}"`; }
          return `values="${vs}"${even && r.bool(0.6) ? "" : ` keyTimes="${kts}"`}`;
        };
        const n = t.stops.map((s) => t.prop === "transform" ? `${s[1] / 10},0` : val(t.prop, s[1])).join(";"); const kt = t.stops.map((s) => Number((s[0] / t.dur).toFixed(6))).join(";");
        const cyc = t.kind === "loop" || t.kind === "free";
        smil += `<animate${t.prop === "transform" ? "Transform" : ""} attributeName="${t.prop}"${t.prop === "transform" ? ` type="translate"` : ""} ${shape(t, n, kt)}${t.mode === "step" ? ` calcMode="discrete"` : ""} dur="${sec(t.dur, r)}"${t.delay !== 0 || r.bool(0.3) ? ` begin="${sec(t.delay, r)}"` : ""}${cyc ? ` repeatCount="indefinite"` : ""}${t.fill === "freeze" ? ` fill="freeze"` : ""}/>`;
      }
      if (t.prop !== "transform" || t.base !== 0) attrs += ` ${t.prop}="${t.prop === "transform" ? `translate(${t.base / 10},0)` : val(t.prop, t.base)}"`;
    }
    const inline = r.bool(0.3); const a = anims.length > 0 ? `animation${r.bool(0.3) ? ": " : ":"}${anims.join(r.bool() ? "," : ", ")}` : "";
    if (a !== "" && !inline) css.push(`.e${owner}{${r.bool(0.3) ? "fill:red;" : ""}${a}}`);
    body.push(`<rect id="e${owner}" class="e${owner}" ${attrs.includes(" x=") ? "" : `x="0"`} width="10" height="10"${attrs}${a !== "" && inline ? ` style="${a}"` : ""}>${smil}</rect>`);
  }
  return `<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 ${W} ${H}" width="${W}" height="${H}"><style>${css.join("\n")}</style>${body.join("")}</svg>`;
}
const owner = (p: Plan, k: number): string => `e${p.tracks[k].group == null ? k : p.tracks.findIndex((t) => t.group === p.tracks[k].group)}`;
function read(d: SvgDoc, p: Plan, k: number, t: number): number {
  const el = d.ids.get(owner(p, k))!; const prop = p.tracks[k].prop;
  return prop === "opacity" ? Math.round(d.opacity(el, t) * 1000) : prop === "transform" ? Math.round(d.matrix(el, t)[4] * 10) : prop === "x" ? Math.round(parseFloat(d.own(el, "x", t) ?? "0") * 10) : d.computed(el, "visibility", t) === "visible" ? 1000 : 0;
}
function times(p: Plan, r: Rng): number[] {
  const win = p.t1 - p.t0; const out: number[] = [];
  const edges = p.tracks.flatMap((t) => t.stops.map((s) => s[0] + t.delay)); 
  for (let q = 0; q < 14; q++) { const t = r.int(0, Math.round(win * 2.4)); out.push(t); }
  for (const e of edges) for (const d of [-6, 6]) { const x = e + d - p.t0; if (x > 0 && x < win) { out.push(x); out.push(x + win); } }
  return [...new Set(out)].sort((a, b) => a - b).slice(0, 40);
}
/** Is x in an eased segment that a span edge cuts?  Its curve is the recorded finding "eased-cut". */
const cutEased = (p: Plan, tr: Track, x: number): boolean => tr.kind === "loop" && tr.timing != null && tr.stops.some((s, k) => { const n = tr.stops[k + 1]; return n != null && x >= s[0] && x <= n[0] && [p.t0, p.t1].some((e) => e > s[0] && e < n[0]); });
/** A probe closer than `eps` to a jump of any track (original or wrap) is not taken. */
function calm(p: Plan, t: number): boolean {
  const win = p.t1 - p.t0; const eps = Math.max(3, Math.ceil(p.period * 0.0006));
  if (t % win < eps || win - (t % win) < eps) return false;
  return p.tracks.every((tr) => {
    const src = tr.kind === "loop" || tr.kind === "sched" ? p.t0 + t % win : p.t0 + t; const lt = src - tr.delay;
    const near = (x: number): boolean => Math.abs(x) < eps;
    if (tr.kind === "loop" || tr.kind === "free") { const x = ((lt % tr.dur) + tr.dur) % tr.dur; if (near(x) || near(x - tr.dur)) return false; if (near(lt)) return false; if (cutEased(p, tr, x) && p.canon !== true) return false; return tr.stops.every((s) => !near(x - s[0])); }
    return !near(lt) && !near(lt - tr.dur) && tr.stops.every((s) => !near(lt - s[0]));
  });
}
function record(p: Plan): Trace {
  const ev: any[] = []; const r = new Rng(p.salt, "t"); let cfg: any;
  try {
    if (p.frames != null) return recordFrames(p);
    const src = write(p); const o = new SvgDoc(src); const res = trimAnimatedSvg(src, p.t0, p.t1, p.period); const d = new SvgDoc(res.svg);
    ev.push({ e: "doc", dups: d.dupIds.length + d.sheet.keyframeNames.length - new Set(d.sheet.keyframeNames).size });
    const win = p.t1 - p.t0;
    for (const t of times(p, r)) {
      if (!calm(p, t)) continue;
      const m = p.tracks.map((tr) => tr.kind === "loop" || tr.kind === "sched" ? p.t0 + t % win : p.t0 + t);
      const steep = Math.max(...p.tracks.map((tr) => tr.mode === "step" ? 0 : Math.max(...tr.stops.map((s, k) => k === 0 ? 0 : Math.abs(s[1] - tr.stops[k - 1][1]) / Math.max(1, s[0] - tr.stops[k - 1][0]))))); 
      ev.push({ e: "probe", t, m, v: p.tracks.map((_, k) => read(d, p, k, t)), o: p.tracks.map((_, k) => read(o, p, k, m[k])), tol: Math.ceil(2 + steep * 1.5 * (p.tracks.some((x) => x.timing) ? 3 : 1)) });
    }
    if (process.env.VERIF_DEBUG) console.error(src + "\n" + res.svg);
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 500) }); }
  cfg = { tracks: p.tracks.map((t) => ({ kind: t.kind, mode: t.timing && !/^(linear|step-end)$/.test(t.timing) ? "seen" : t.mode, dur: t.dur, delay: t.delay, fill: t.fill, base: t.base, stops: t.stops })), t0: p.t0, t1: p.t1, period: p.period };
  for (const e of ev) for (const q of ["v", "o"]) if (e[q]) e[q] = e[q].map((x: number) => Number.isFinite(x) ? x : q === "v" ? 99999 : -99999);
  return { cfg, ev, meta: p };
}
// ---- documents of the real animator, judged by what is painted
const PTS: [number, number][] = [[25, 15], [75, 15], [25, 45], [75, 45], [50, 30]];
function recordFrames(p: Plan): Trace {
  const f = p.frames; const ev: any[] = [];
  const frames = f.list.map((x: any, k: number) => ({ svgContent: [0, 1, 2, 3].map((q) => `<rect x="${(q & 1) * 50}" y="${(q >> 1) * 30}" width="50" height="30" fill="f${k * 4 + q}"/>`).join(""), duration: x.hold, transition: { type: x.kind, duration: x.tr }, ...(x.overlays ? { overlays: x.overlays } : {}) }));
  const svg = generateAnimatedSvg({ width: W, height: H, frames, ...(f.cursor ? { cursorOverlay: f.cursor } : {}) } as any);
  const o = new SvgDoc(svg); const per = o.periods(); const period = Math.max(...per);
  // span edges lie in holds: an edge inside an eased hand-over is the recorded finding "eased-cut"
  const holds: [number, number][] = []; { let b = 0; for (const x of f.list) { holds.push([b + 8, b + x.hold - 8]); b += x.hold + x.tr; } }
  const pos = (q: number): number => { const h = holds[Math.min(holds.length - 1, Math.floor(q * holds.length))]; return Math.round(h[0] + (h[1] - h[0]) * (q * holds.length % 1)); };
  const t0 = pos(f.a); const t1 = pos(f.b); if (t1 - t0 < 120) return { cfg: { tracks: [], t0: 0, t1: 1, period: 1 }, ev: [], meta: p };
  const d = new SvgDoc(trimAnimatedSvg(svg, t0, t1, period).svg); const r = new Rng(p.salt, "f"); const win = t1 - t0;
  const names = [...Array(frames.length * 4).keys()].map((k) => `f${k}`);
  const see = (doc: SvgDoc, t: number): number[] => { const items = doc.items(t).filter((it) => !it.fill.startsWith("url(")); return PTS.flatMap(([x, y]) => { const b = doc.blendAt(x, y, t, items); const fr = [...new Set(names.map((n) => Math.floor(Number(n.slice(1)) / 4)))]; return [...fr.map((k) => Math.round([0, 1, 2, 3].reduce((s, q) => s + (b.get(`f${k * 4 + q}`) ?? 0), 0) * 1000)), Math.round((b.get("") ?? 0) * 1000)]; }); };
  const cfgT = { kind: "loop", mode: "seen", dur: period, delay: 0, fill: "none", base: 0, stops: [[0, 0]] };
  let n = 0;
  for (let q = 0; q < 26; q++) {
    const t = r.int(4, Math.round(win * 2.2)); if (t % win < 6 || win - t % win < 6) continue; const m = t0 + t % win;
    // a probe is only taken where the picture is not jumping
    const a = see(o, m - 5); const b = see(o, m + 5); const mid = see(o, m); const slope = Math.max(...a.map((x, k) => Math.abs(x - b[k]))); if (slope > 120) continue;
    n++; const v = see(d, t); ev.push({ e: "probe", t, m: v.map(() => m), v, o: mid, tol: 6 + slope });
  }
  ev.sort((x, y) => x.t - y.t);
  return { cfg: { tracks: Array.from({ length: PTS.length * (frames.length + 1) }, () => cfgT), t0, t1, period }, ev, meta: p };
}
// ---- scenarios
const exported = c.model("TrimMC", undefined, { workers: 4, mustCover: ["Step"] });
const plans: Plan[] = []; const rng = c.rng;
const isVis = (t: any): boolean => t.mode === "step";
function dress(t: any, k: number, n: number): Track {
  const tech = t.kind === "sched" ? "smil" : t.kind === "once" ? "css" : (n + k) % 3 === 0 ? "smil" : "css";
  const prop = t.kind === "sched" || t.kind === "once" ? ["opacity", tech === "smil" ? "x" : "opacity"][n % 2] : ["opacity", "transform", tech === "smil" ? "x" : isVis(t) ? "visibility" : "opacity"][(n + 2 * k) % 3];
  const stops = prop === "visibility" ? t.stops.map((s: any) => [s[0], s[1] >= 500 ? 1000 : 0]) : t.stops;
  return { ...t, stops, prop, tech, fill: t.fill, base: prop === "visibility" ? 1000 : t.base };
}
exported.sort((a, b) => JSON.stringify(a) < JSON.stringify(b) ? -1 : 1).forEach((d: any, n) => plans.push({ t0: d.t0, t1: d.t1, period: d.period, salt: n, tracks: d.tracks.map((t: any, k: number) => dress(t, k, n)) }));
const TIM = ["ease", "ease-in", "ease-out", "ease-in-out", "cubic-bezier(0.2, 0, 0, 1.3)"];
for (let n = 0; n < c.n(500, 8000); n++) {
  const period = rng.pick([2400, 4000, 6530, 9870, 21000]); const tracks: Track[] = []; const nt = rng.int(1, 4);
  for (let k = 0; k < nt; k++) {
    const kind = rng.pick(["loop", "loop", "loop", "loop", "free", "once", "sched"]); const tech = kind === "sched" ? "smil" : kind === "once" ? "css" : rng.pick(["css", "css", "smil"]); const mode = rng.pick(["lin", "step"]);
    const prop = rng.pick(tech === "smil" ? ["opacity", "transform", "x"] : ["opacity", "transform", ...(mode === "step" ? ["visibility"] : [])]);
    const dur = kind === "loop" ? period : kind === "free" ? rng.pick([530, 1060, 700]) : rng.int(20, 120) * 10;
    const cuts = new Set<number>([0, dur]); for (let q = rng.int(0, 5); q > 0; q--) cuts.add(rng.int(1, Math.floor(dur / 10) - 1) * 10);
    const stops = [...cuts].sort((a, b) => a - b).map((a) => [a, prop === "visibility" ? rng.pick([0, 1000]) : rng.int(0, 20) * 50] as [number, number]);
    if (tech === "smil" && rng.bool(0.3)) { const m = mode === "step" ? rng.pick([2, 4, 5]) : rng.pick([2, 3, 5]); if (dur % (mode === "step" ? m : m - 1) === 0) stops.splice(0, stops.length, ...Array.from({ length: m }, (_, i): [number, number] => [mode === "step" ? i * dur / m : i * dur / (m - 1), rng.int(0, 20) * 50])); }
    const eased = tech === "css" && mode === "lin" && rng.bool(0.35) ? rng.pick(TIM) : undefined;
    const delay = kind === "once" || kind === "sched" ? rng.int(0, period / 10) * 10 : kind === "free" && tech === "css" && rng.bool(0.4) ? -rng.int(1, 50) * 10 : 0;
    const t: Track = { kind, mode, dur, delay, fill: kind === "once" ? rng.pick(["both", "none"]) : kind === "sched" ? rng.pick(["none", "freeze"]) : "none", base: prop === "visibility" ? 1000 : prop === "transform" ? 0 : rng.pick([0, 500, 1000]), stops, prop, tech, ...(eased ? { timing: eased } : {}) };
    // one element per property at most in a shared group
    const g = rng.int(0, 2); if (rng.bool(0.6) && !tracks.some((x) => x.group === g && (x.prop === prop || (tech === "css") !== (x.tech === "css"))) && (kind === "loop" || kind === "free")) t.group = g;
    // now and then two rules play the same @keyframes, each on its own clock
    const j = tracks.findIndex((x) => x.tech === "css" && x.like == null && x.group == null);
    if (t.tech === "css" && t.group == null && j >= 0 && rng.bool(0.4)) { const o = tracks[j]; t.like = j; t.prop = o.prop; t.mode = o.mode; t.timing = o.timing; t.base = o.base; if (t.timing == null) delete t.timing; t.stops = o.stops.map(([a, v]) => [Math.round(a * t.dur / o.dur), v]); }
    tracks.push(t);
  }
  // documented: an @keyframes rule that is not only played by loop-long animations is re-based, so its loop-long players run on
  for (const t of tracks) for (const o of tracks) if (t.kind === "loop" && o.kind !== "loop" && (t.like ?? tracks.indexOf(t)) === (o.like ?? tracks.indexOf(o)) && t !== o && t.tech === "css" && o.tech === "css") t.kind = "free";
  // documented: a rule mixing loop-long animations with others is only re-based, so its loop-long ones run on
  for (const t of tracks) if (t.tech === "css" && t.group != null && t.kind === "loop" && tracks.some((o) => o.group === t.group && o.tech === "css" && o.kind === "free")) t.kind = "free";
  // a third of the spans start and/or end exactly on a declared stop or start
  const marks = tracks.flatMap((t) => t.kind === "loop" ? t.stops.map((s) => s[0]) : [t.delay, t.delay + t.dur]).filter((x) => x >= 0 && x <= period);
  const t0 = rng.bool(0.35) ? rng.pick(marks.filter((x) => x <= period * 0.8).concat(0)) : rng.int(0, Math.floor(period * 0.8)); const after = marks.filter((x) => x >= t0 + 100);
  const t1 = after.length > 0 && rng.bool(0.35) ? rng.pick(after) : Math.min(period, t0 + rng.int(100, period)); if (t0 === 0 && t1 >= period) continue;
  plans.push({ tracks, t0, t1, period, salt: rng.int(0, 1e9) });
}
const KINDS = ["crossfade", "cut", "push-left", "push-up", "scroll", "wipe", "iris", "zoom-in", "zoom-out", "wipe-clock"];
for (let n = 0; n < c.n(120, 1500); n++) {
  const list = Array.from({ length: rng.int(2, 5) }, () => { const kind = rng.pick(KINDS); return { kind, hold: rng.int(200, 1800), tr: kind === "cut" ? 0 : rng.int(150, 700) }; });
  const a = rng.next() * 0.8; plans.push({ tracks: [], t0: 0, t1: 0, period: 0, salt: rng.int(0, 1e9), frames: { list, a, b: Math.min(1, a + 0.1 + rng.next() * 0.6) } });
}
plans.push({ canon: true, period: 4000, t0: 1000, t1: 3000, salt: 1, tracks: [{ kind: "loop", mode: "lin", dur: 4000, delay: 0, fill: "none", base: 0, stops: [[0, 0], [2000, 1000], [4000, 0]], prop: "opacity", tech: "css", timing: "ease" }] });
const traces = ((await c.record(plans, record)) as Trace[]).filter((t) => t.ev.length > 0);
c.validate("TrimTrace", traces, {
  corrupt: (t, r) => { const ps = t.ev.filter((e) => e.e === "probe"); if (ps.length === 0) return null; const e = r.pick(ps); if (r.bool()) { e.v[r.int(0, e.v.length - 1)] += e.tol + 3; } else e.m[0] += 1; return t; },
  key: (t, ev) => { if ((t.meta as Plan).canon) return "eased-cut"; const k = ev?.v?.findIndex((x: number, j: number) => Math.abs(x - ev.o[j]) > ev.tol) ?? -1; const tr = k >= 0 && (t.meta as Plan).frames == null ? (t.meta as Plan).tracks[k] : null; return tr == null ? "picture" : `${tr.tech}-${tr.kind}-${tr.timing ? "eased" : tr.mode}-${tr.fill}`; },
  describe: (t, ev) => `span [${t.cfg.t0},${t.cfg.t1}] of ${t.cfg.period}: at ${ev?.t} ms the trimmed document shows ${JSON.stringify(ev?.v)?.slice(0, 120)}, the original showed ${JSON.stringify(ev?.o)?.slice(0, 120)} at the owed moment ${JSON.stringify([...new Set(ev?.m ?? [])])}${ev?.msg ?? ""}`,
});
c.finish({ documents: plans.length });
