/** A03: animated documents are embedded by the real code; what they show at host moments is compared with what they show alone. */
import { composeAnimatedLayers } from "/repo/src/animation/composite.js";
import { offsetEmbeddedAnimatedSvgTimeline } from "/repo/src/animation/embed-timeline.js";
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { namespaceEmbeddedAnimatedSvg } from "/repo/src/animation/embed-namespace.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc } from "../lib/svgtime.js";

const c = new Check("A03");
interface Place { mode: "hold" | "stretch" | "loop"; start: number; period: number; window: number; master: number }
interface Plan { how: "direct" | "layers" | "frame"; parts: (Place & { salt: number; made: boolean })[]; master: number; salt: number }
const SEC = (ms: number, r: Rng): string => r.bool(0.8) ? `${ms / 1000}s` : `${ms}ms`;
const col = (p: number, k: number, free: boolean): string => `rgb(${free ? 200 : 20}, ${p * 20 + k}, ${30 + k})`;
/** A period of its own that is nearly, but not quite, the document's. */
const off = (P: number, r: Rng): number => { const d = Math.max(32, Math.round(P * r.pick([0.02, 0.03, 0.045]))); return r.bool() ? P + d : P - d; };
interface Doc { svg: string; stops: number[] }
/** A document of its own period; what runs on another period is coloured apart. */
function make(pl: Place & { salt: number; made: boolean }, p: number): Doc {
  const r = new Rng(pl.salt, "doc"); const P = pl.period; const stops: number[] = [0, P];
  if (pl.made) {
    const n = r.int(2, 4); const cut = Array.from({ length: n }, (_, k) => Math.round((P / n) * (k + 1)) - Math.round((P / n) * k)); let at = 0; const kinds = ["cut", "crossfade", "push-left", "push-up"];
    const frames = cut.map((d, k) => { const kind = r.pick(kinds); const tr = kind === "cut" ? 0 : Math.min(200, Math.floor(d / 3)); stops.push(at, at + d - tr); at += d; return { svgContent: `<rect x="${k * 7}" y="${p * 3}" width="20" height="12" fill="${col(p, k, false)}"/>`, duration: d - tr, transition: { type: kind as any, duration: tr } }; });
    return { svg: generateAnimatedSvg({ width: 100, height: 60, frames } as any), stops };
  }
  let css = ""; let body = ""; let n = 0; const kf: string[] = [];
  const track = (dur: number, isMain: boolean): string => {
    const name = `k${n++}`; const m = r.int(2, 4); const at = [0, ...Array.from({ length: m - 2 }, (_, i) => Math.round(((i + 1) / (m - 1)) * 20) * 5), 100]; const step = r.bool(0.3); const prop = r.pick(["opacity", "transform", "transform"]);
    const val = (): string => prop === "opacity" ? String(r.int(1, 10) / 10) : `translate(${r.int(-30, 60)}px, ${r.int(0, 20)}px)`; const vs = at.map(val); if (step) vs[m - 1] = vs[m - 2];
    if (isMain) for (const a of at) stops.push((a / 100) * P);
    const tf = !step && m > 2 && r.bool(0.25) ? r.pick(["animation-timing-function:ease-in;", "animation-timing-function:step-end;"]) : "";
    kf.push(`@keyframes ${name}{${r.bool(0.8) || step ? at.map((a, i) => `${a === 0 && r.bool(0.3) ? "from" : a === 100 && r.bool(0.3) ? "to" : a + "%"}{${prop}:${vs[i]};${i === 0 && !/step/.test(tf) ? tf : ""}}`).join(r.bool() ? "" : " ") : `0%,${at[1] === 100 ? 40 : at[1]}%{${prop}:${vs[0]}}100%{${prop}:${vs[1]}}`}}`); if (isMain) stops.push(0.4 * P);
    return `${name} ${SEC(dur, r)} ${step ? "step-end" : r.pick(["linear", "ease", "ease-in-out", "cubic-bezier(0.3, 0.1, 0.6, 1)"])} infinite`;
  };
  const FREE = [310, 530, 1060, 777].filter((f) => Math.abs(f - P) > P * 0.1); let k = 0;
  for (let i = r.int(2, 4); i > 0; i--) {
    const free = r.bool(0.3); const rect = (a: string): string => `<rect x="${10 + k * 9}" y="${p * 5}" width="9" height="8" fill="${col(p, k, free)}"${a}/>`; const a = track(free ? (r.bool(0.6) ? off(P, r) : r.pick(FREE)) : P, !free); const w = r.int(0, 5);
    if (w === 0) body += rect(` style="animation:${a}"`);
    else if (w === 1 && !free) { // one property on the document's own time, another on a period of its own, in one list
      const name = `k${n++}`; const f = r.pick(FREE); kf.push(`@keyframes ${name}{0%{visibility:visible}100%{visibility:visible}}`); css += `.r${p}-${k}{animation:${r.shuffle([a, `${name} ${SEC(f, r)} step-end infinite`]).join(", ")}}`; body += rect(` class="r${p}-${k}"`);
    } else if (w === 2) { css += `.r${p}-${k}{animation: ${a};transform-origin:0 0}`; body += `<g class="r${p}-${k}">${rect("")}</g>`; } else { css += `.r${p}-${k} { animation:${a}; }`; body += rect(` class="r${p}-${k}"`); }
    k++;
  }
  return { svg: `<svg xmlns="http://www.w3.org/2000/svg" width="100" height="60" viewBox="0 0 100 60"><style${r.bool(0.15) ? ` type="text/css"` : ""}>${r.bool() ? kf.join("\n") + css : css + kf.join("")}</style>${body}</svg>`, stops };
}
interface Look { main: number[][]; free: number[][] }
function look(d: SvgDoc, t: number, p: number): Look {
  const out: Look = { main: [], free: [] };
  for (const it of d.items(t)) {
    const m = /rgb\((\d+), ?(\d+), ?(\d+)\)/.exec(it.fill) ?? (() => { const q = it.fill.split(","); return q.length === 3 ? ["", ...q] as any : null; })(); if (m == null || !["20", "200"].includes(m[1])) continue; if (Math.floor(Number(m[2]) / 20) !== p) continue;
    const s = it.shape as any; const x = it.m[0] * s.x + it.m[2] * s.y + it.m[4]; const y = it.m[1] * s.x + it.m[3] * s.y + it.m[5]; let vis = 0; for (let i = 0; i < 5; i++) if (SvgDoc.covered(it, x + it.m[0] * s.w * (i + 0.5) / 5, y + it.m[3] * s.h * 0.5)) vis += 1 << i;
    if (it.alpha < 0.004) continue;
    out[m[1] === "20" ? "main" : "free"].push([Number(m[2]), x, y, it.m[0] * s.w, it.m[3] * s.h, it.alpha, vis]);
  }
  return out;
}
const near = (a: number[][], b: number[][]): boolean => a.length === b.length && a.every((x, i) => { const y = b[i]; return x[0] === y[0] && Math.abs(x[1] - y[1]) < 0.35 && Math.abs(x[2] - y[2]) < 0.35 && Math.abs(x[3] - y[3]) < 0.1 && Math.abs(x[4] - y[4]) < 0.1 && Math.abs(x[5] - y[5]) < 0.02; });
function record(p: Plan): Trace {
  const ev: any[] = []; const cfg = { parts: p.parts.map(({ mode, start, period, window, master }) => ({ mode, start, period, window, master })) };
  try {
    const docs = p.parts.map((x, i) => make(x, i)); let host: string; const r = new Rng(p.salt, "host"); let seen = p.parts.map(() => [0, p.master]);
    if (p.how === "layers") host = composeAnimatedLayers(p.parts.map((x, i) => ({ svg: docs[i].svg, periodMs: x.period, start: x.start, mode: x.mode, ...(x.mode === "stretch" ? { duration: x.window } : {}), ...(r.bool(0.3) ? { animations: [{ property: "opacity", from: 1, to: 1, duration: 100 } as any] } : {}) })), { width: 100, height: 60, durationMs: p.master }).svg;
    else if (p.how === "direct") { const x = p.parts[0]; host = offsetEmbeddedAnimatedSvgTimeline(r.bool() ? docs[0].svg : namespaceEmbeddedAnimatedSvg(docs[0].svg, "e1_"), { periodMs: x.period, startMs: x.start, masterMs: x.master, mode: x.mode, windowMs: x.window }); }
    else { // each part is the content of one frame, a plain frame in between
      let at = 0; const frames: any[] = []; seen = [];
      p.parts.forEach((x, i) => { const gap = x.start - at; if (gap > 0) frames.push({ svgContent: `<rect width="5" height="5" fill="red"/>`, duration: gap, transition: { type: "cut", duration: 0 } }); const end = i + 1 < p.parts.length ? p.parts[i + 1].start : p.master; const hold = Math.min(end - x.start, x.period + (end - x.start - x.period > 40 ? Math.floor((end - x.start - x.period) / 2) : 0)); const len = p.salt % 2 ? hold : end - x.start; frames.push({ svgContent: namespaceEmbeddedAnimatedSvg(docs[i].svg, `tf${i}_`), duration: len, embeddedAnimationPeriodMs: x.period, transition: { type: "cut", duration: 0 } }); seen.push([x.start, x.start + len]); at = x.start + len; });
      if (at < p.master) frames.push({ svgContent: `<rect width="5" height="5" fill="red"/>`, duration: p.master - at, transition: { type: "cut", duration: 0 } });
      host = generateAnimatedSvg({ width: 100, height: 60, frames } as any);
    }
    if (process.env.A03_SHOW) console.log(docs.map((d) => d.svg).join("\n\n") + "\n------\n" + host);
    const hd = new SvgDoc(host);
    p.parts.forEach((x, i) => {
      const alone = new SvgDoc(docs[i].svg); const P = x.period; const W = x.mode === "stretch" ? x.window : P; const bad = (L: number): boolean => docs[i].stops.some((s) => Math.abs(s - L) < P * 0.004 + 3);
      const Ls: number[] = []; for (let k = 1; k < 40; k++) { const L = Math.round((k * P) / 160) * 4; if (!bad(L) && L > 0 && L < P && !Ls.includes(L)) Ls.push(L); }
      const alook = new Map<number, number[][]>(); for (const L of [0, ...Ls, P]) alook.set(L, look(alone, L === P ? P - 0.02 : L, i).main);
      const ts: number[] = []; for (const L of Ls) { const t = x.start + (L * W) / P; if (Number.isInteger(t)) { ts.push(t); if (x.mode === "loop") for (let q = 1; q < 4; q++) ts.push(t + q * P); } }
      if (x.start > 8) ts.push(Math.floor(x.start / 2), x.start - 4); if (x.mode !== "loop") ts.push(x.start + W + 6, Math.floor((x.start + W + p.master) / 2));
      for (const t of ts) {
        if (t >= p.master - 4 || t < seen[i][0] + 4 || t > seen[i][1] - 4 || (t > x.start && t < x.start + 4)) continue; if (p.how === "frame" && t < x.start) continue; if (x.mode !== "loop" && Math.abs(t - x.start - W) < 4) continue;
        const got = look(hd, t, i); const want = look(alone, t, i);
        ev.push({ e: "at", p: i + 1, t, looks: [...alook].filter(([, v]) => near(got.main, v)).map(([L]) => L), free: near(got.free, want.free) });
      }
    });
    for (const f of [0.13, 0.52, 0.87]) { if (p.parts.some((x) => x.mode === "loop" || !x.made)) break; const show = (t: number): any => p.parts.map((_, i) => look(hd, t, i).main.map((v) => v.map((q) => Math.round(q * 10)))); ev.push({ e: "again", was: show(f * p.master), is: show((f + 2) * p.master) }); }
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 400) }); }
  return { cfg, ev, meta: p };
}
const exported = c.model("EmbedMC", undefined, { workers: 4, mustCover: ["Tick"] });
const rng = c.rng; const plans: Plan[] = []; const U = 400; // one model tick
exported.map((e: any) => JSON.stringify(e)).sort().forEach((s, n) => {
  const m = JSON.parse(s) as Place; const x = { ...m, start: m.start * U, period: m.period * U, window: m.window * U, master: m.master * U };
  for (let v = 0; v < c.n(2, 6); v++) plans.push({ how: (["direct", "layers"] as const)[(n + v) % 2], master: x.master, salt: n * 10 + v, parts: [{ ...x, salt: n * 100 + v, made: (n + v) % 3 === 0 }] });
});
for (let n = 0; n < c.n(260, 3000); n++) {
  const how = rng.pick(["layers", "layers", "direct", "frame", "frame"] as const); const per = (): number => rng.int(4, 40) * 80; const k = how === "direct" ? 1 : rng.int(1, 3); let at = rng.bool(0.4) ? 0 : rng.int(1, 30) * 40; const parts: Plan["parts"] = [];
  for (let i = 0; i < k; i++) { const period = per(); const mode = how === "frame" ? "hold" : rng.pick(["hold", "stretch", "loop"] as const); const window = mode === "stretch" ? (period / 4) * rng.int(1, 12) : period; parts.push({ mode, start: how === "frame" ? at : rng.bool(0.3) ? 0 : rng.int(1, 60) * 40, period, window, master: 0, salt: rng.int(0, 1e9), made: rng.bool(0.35) }); at += period + (rng.bool(0.5) ? 0 : rng.int(1, 20) * 40); }
  const need = Math.max(...parts.map((x) => x.start + (x.mode === "stretch" ? x.window : x.period))); const master = rng.bool(0.3) ? need : rng.bool(0.75) || how === "frame" ? need + rng.int(1, 50) * 40 : Math.max(400, ...parts.map((x) => x.start + 80), Math.round(need * 0.7 / 40) * 40);
  for (const x of parts) x.master = master; plans.push({ how, parts, master, salt: rng.int(0, 1e9) });
}
const traces = ((await c.record(plans, record)) as Trace[]).filter((t) => t.ev.length > 0);
c.validate("EmbedTrace", traces, {
  corrupt: (t, r) => { const e = r.pick(t.ev); if (e.e === "at") { const P = t.cfg.parts[e.p - 1]; e.looks = [e.t < P.start ? P.period : 0]; if (e.t > P.start && P.mode === "loop" && (e.t - P.start) % P.period === 0) return null; } else if (e.e === "again") e.is = [...e.is, []]; else return null; return t; },
  key: (t, ev) => `${t.meta.how}-${ev?.e === "at" ? t.cfg.parts[ev.p - 1].mode + (ev.free ? "" : "-free") + (t.cfg.parts[ev.p - 1].start + (t.cfg.parts[ev.p - 1].mode === "stretch" ? t.cfg.parts[ev.p - 1].window : t.cfg.parts[ev.p - 1].period) > t.cfg.parts[ev.p - 1].master ? "-over" : "") + (t.meta.parts[ev.p - 1].made ? "-made" : "") : ev?.e ?? "end"}`,
  describe: (t, ev) => `${t.meta.how}: at host moment ${ev?.t} ms the document placed ${JSON.stringify(t.cfg.parts[(ev?.p ?? 1) - 1])} looks like its own moments ${JSON.stringify(ev?.looks)}${ev?.free === false ? "; what runs on its own period is off" : ""}${ev?.msg ?? ""}`,
});
c.finish({ documents: plans.length });
