/** A01 frame timeline: every plan the model enumerates is generated by the real animator and probed in time. */
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { Check, type Trace } from "../lib/check.js";
import { SvgDoc } from "../lib/svgtime.js";

const c = new Check("A01");
const W = 100; const H = 60; const PTS: [number, number][] = [[25, 15], [75, 15], [25, 45], [75, 45]];
interface F { hold: number; tr: number; kind: string }
interface Plan { frames: F[]; loopFade: boolean; bg?: string; variant?: any[] }

const frameSvg = (k: number): string => [0, 1, 2, 3].map((q) => `<rect x="${(q & 1) * 50}" y="${(q >> 1) * 30}" width="50" height="30" fill="f${k}q${q + 1}"/>`).join("");

function transition(f: F, variant: any): any {
  if (f.kind === "none") return undefined;
  if (f.kind === "shinep") return { type: "shine", duration: f.tr, shine: variant };
  if (f.kind === "pushp") return { type: "push", duration: f.tr, push: variant };
  if (["push", "reveal", "zoom", "custom"].includes(f.kind)) return { type: f.kind, duration: f.tr, [f.kind]: variant };
  return { type: f.kind, duration: f.tr, ...(variant ?? {}) };
}

function record(p: Plan): Trace {
  const frames = p.frames.map((f, k) => { const t = transition(f, p.variant?.[k]); return { svgContent: frameSvg(k + 1), duration: f.hold, ...(t ? { transition: t } : {}) }; });
  const cfg = { frames: p.frames.map((f) => ({ hold: f.hold * 10, tr: (f.kind === "cut" ? 0 : f.kind === "none" ? 300 : f.tr) * 10, kind: f.kind === "none" ? "crossfade" : f.kind })), loopFade: p.loopFade };
  const ev: any[] = [];
  const trans = cfg.frames.map((f) => f.tr / 10);
  const total = p.frames.reduce((s, f, k) => s + f.hold + trans[k], 0);
  try {
    const svg = generateAnimatedSvg({ width: W, height: H, frames, ...(p.loopFade ? { loopFade: true } : {}), ...(p.bg ? { background: p.bg } : {}) } as any);
    const doc = new SvgDoc(svg);
    const per = doc.periods(); if (per.length > 0) for (const ms of per) ev.push({ e: "period", ms10: Math.round(ms * 10) });
    // the document's clock is printed to 10 ms; observe at the matching document time
    const scale = per.length > 0 && Math.abs(per[0] - total) <= 5.5 ? per[0] / total : 1;
    const obs = (t0: number): any[] => {
      const t = t0 * scale;
      const items = doc.items(t).filter((it) => !it.fill.startsWith("url("));
      return PTS.map(([x, y]) => [...doc.blendAt(x, y, t, items)].map(([fill, w]) => { const m = /^f(\d+)q(\d)$/.exec(fill); return m ? [Number(m[1]), Number(m[2]), Math.round(w * 1000)] : fill === "" || fill === p.bg ? [0, 0, Math.round(w * 1000)] : /^url\(|^#fff/.test(fill) ? [0, 0, 0] : [99, 0, Math.round(w * 1000)]; }));
    };
    const tol = Math.max(1, total * 0.0015);
    for (let cyc = 0; cyc < 2; cyc++) {
      let b = cyc * total;
      p.frames.forEach((f, k) => {
        const phases: [number, number, boolean][] = [[b, b + f.hold, true], [b + f.hold, b + f.hold + trans[k], false]];
        for (const [s, e, hold] of phases) {
          if (e - s > 2 * tol + 0.2) { const m = hold ? (cyc === 0 ? 6 : 3) : 5; for (let q = 0; q <= m; q++) { const t = s + tol + (e - s - 2 * tol) * q / m; const tt = Math.ceil(t * 10) / 10; if (tt < e - tol / 2) ev.push({ e: "probe", t: Math.round(tt * 10), q: obs(tt) }); } }
        }
        const end = b + f.hold + trans[k];
        if (trans[k] === 0 && !(k === p.frames.length - 1)) {
          const prev = k === 0 ? 0 : trans[k - 1]; void prev;
          for (const d of [-0.9, -0.4, -0.1, 0, 0.1, 0.4, 0.9]) { const t = Math.round((end + d * Math.min(tol, f.hold / 3)) * 10) / 10; if (t < end) ev.push({ e: "seam", t: Math.round(t * 10), a: k + 1, b: (k + 1) % p.frames.length + 1, q: obs(t) }); else pending.push({ e: "seam", t: Math.round(t * 10), a: k + 1, b: (k + 1) % p.frames.length + 1, q: obs(t) }); }
          ev.push(...pending.splice(0));
        }
        b = end;
      });
    }
  } catch (err) { ev.push({ e: "threw", t: 0, msg: String((err as Error).stack).slice(0, 600) }); }
  // probes must be time-ordered
  const head = ev.filter((e) => e.e === "period" || e.e === "threw"); const rest = ev.filter((e) => e.e === "probe" || e.e === "seam").sort((a, b) => a.t - b.t);
  return { cfg, ev: [...head, ...rest].map((e) => ({ t: 0, ...e })), meta: p };
}
const pending: any[] = [];

const exported: Plan[] = c.model("FramesMC", undefined, { mustCover: ["Tick", "DoBeginTransition", "DoCut", "DoEndTransition"] });
const HOLDS = [500, 730, 240, 1200]; const TRS = [300, 180, 450];
const plans: Plan[] = [];
exported.forEach((p, n) => plans.push({ ...p, frames: p.frames.map((f, k) => ({ ...f, hold: HOLDS[(n + k) % 4], tr: TRS[(n + 2 * k) % 3] })) }));
// seeded larger plans: more frames, defaulted transitions, zero-length transitions, parameterized families, long scenes
const LEG = ["crossfade", "cut", "push-left", "push-right", "push-up", "push-down", "scroll", "wipe", "iris", "zoom-in", "zoom-out", "shine", "wipe-radial", "wipe-clock", "none"];
const PAR: [string, () => any][] = [
  ["push", () => ({ direction: c.rng.pick(["left", "right", "up", "down"]), distance: 1 })], ["pushp", () => ({ angle: c.rng.int(-180, 180), distance: c.rng.pick([0.5, 1, 1.5]) })],
  ["reveal", () => c.rng.pick([{ shape: "linear", angle: c.rng.int(-180, 180) }, { shape: "radial", origin: { x: c.rng.next(), y: c.rng.next() }, radius: 1 + c.rng.next() }, { shape: "clock", origin: { x: 0.5, y: 0.5 }, startAngle: c.rng.int(-180, 180), direction: c.rng.pick(["clockwise", "counterclockwise"]) }])],
  ["zoom", () => ({ fromScale: c.rng.pick([0.5, 0.9, 1.2]), origin: { x: c.rng.next(), y: c.rng.next() } })], ["shinep", () => ({ angle: 10, bandWidth: 0.3, color: "#ffffff", opacity: 0.5 })],
  ["custom", () => ({ zOrder: "incoming-on-top", reducedMotion: "crossfade", loop: "hold-last", incoming: c.rng.pick([{ opacity: 0 }, { translate: { x: 1, y: 0 } }, { scale: { from: 0.5, origin: { x: 0.5, y: 0.5 } } }, { clip: { shape: "linear", angle: 0 } }]), outgoing: c.rng.pick([{ opacity: 0 }, { translate: { x: -1, y: 0 } }, { opacity: 0, scale: { to: 1.4, origin: { x: 0.5, y: 0.5 } } }]) })],
];
for (let n = 0; n < c.n(260, 4000); n++) {
  const len = c.rng.int(2, c.rng.bool(0.2) ? 12 : 6); const frames: F[] = []; const variant: any[] = []; const long = c.rng.bool(0.1);
  for (let k = 0; k < len; k++) {
    let kind: string; let v: any;
    if (c.rng.bool(0.25)) { const [q, mk] = c.rng.pick(PAR); kind = q; v = mk(); } else { kind = c.rng.pick(LEG); if (kind === "wipe" && c.rng.bool(0.3)) v = { wipeAngle: c.rng.int(-90, 180) }; if (kind === "wipe-clock" && c.rng.bool(0.3)) v = { wipeStartAngle: c.rng.int(0, 359), wipeCounterclockwise: c.rng.bool() }; }
    frames.push({ kind, tr: c.rng.bool(0.08) ? 0 : c.rng.int(60, 800), hold: c.rng.int(120, long ? 9000 : 2200) }); variant.push(v ?? null);
  }
  plans.push({ frames, loopFade: c.rng.bool(0.12) && !["custom"].includes(frames[len - 1].kind), variant, ...(c.rng.bool(0.3) ? { bg: "#0b0b0b" } : {}) });
}
const traces = plans.map(record);
c.validate("FramesTrace", traces, {
  corrupt: (t, r) => { const ps = t.ev.filter((e) => e.e === "probe"); if (ps.length === 0) return null; const k = r.int(0, 2);
    if (k === 0) { const h = t.ev.findIndex((e) => e.e === "probe"); t.ev[h].q[r.int(0, 3)] = [[0, 0, 1000]]; return t; }
    if (k === 1) { t.ev[0].e === "period" ? t.ev[0].ms10 += 110 : null; return t.ev[0].e === "period" ? t : null; }
    const e = ps[0]; e.q = e.q.map((pt: any[]) => pt.map((x) => [x[0] + 1, x[1], x[2]])); return t; },
  describe: (t, ev) => `plan ${JSON.stringify((t.meta as Plan).frames.map((f) => `${f.kind}:${f.hold}+${f.tr}`))} loopFade=${(t.meta as Plan).loopFade} shows the wrong picture: ${JSON.stringify(ev).slice(0, 300)}`,
});
c.finish({ plans: plans.length });
