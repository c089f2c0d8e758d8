/** A02: overlays are placed on frames by the real animator; what each of them shows at each moment is judged on Overlay.tla. */
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc, invert, apply, type El } from "../lib/svgtime.js";

const c = new Check("A02");
interface Move { from: "left" | "right" | "top" | "bottom"; duration: number; delay: number }
interface Ov { kind: "typing" | "tap" | "svg" | "blink" | "shine" | "interact"; delay?: number; endAt?: number; x: number; y: number; w: number; h: number;
  dur?: number; per?: number; rep?: number; held?: number; rel?: number; treat?: "hover" | "focus" | "press"; enter?: Move; exit?: Move; skew?: number; radius?: number;
  text?: string; speed?: number; size?: number; think?: number; wrap?: number; slips?: { at: number; wrong?: string }[] | number; jitter?: number; paste?: boolean; keep?: boolean; caret?: boolean; mask?: boolean }
interface Plan { frames: { hold: number; tr: number | null; cut: boolean; ovs: Ov[] }[]; laps: number }
const advance = (f: Plan["frames"][0]): number => f.hold + tms(f); const tms = (f: Plan["frames"][0]): number => (f.tr == null ? 300 : f.cut ? 0 : f.tr);
const DELAY = { typing: 300, tap: 50, svg: 0, blink: 0, shine: 200, interact: 200 }; const ADV = 1233 / 2048; const BIG = 300;
const shift = (m: Move | undefined, w: number, h: number): { dx: number; dy: number; delay: number; dur: number } => m == null ? { dx: 0, dy: 0, delay: 0, dur: 0 } : { dx: m.from === "left" ? -w : m.from === "right" ? w : 0, dy: m.from === "top" ? -h : m.from === "bottom" ? h : 0, delay: m.delay, dur: m.duration };
function overlay(o: Ov, n: number): any {
  const base = { kind: o.kind, x: o.x, y: o.y, ...(o.delay != null ? { delay: o.delay } : {}), ...(o.endAt != null ? { endAt: o.endAt } : {}) }; const box = { width: o.w, height: o.h };
  const rep = o.rep == null || o.rep === 0 ? {} : { repeat: o.rep < 0 ? "infinite" : o.rep, repeatPeriodMs: o.per };
  switch (o.kind) {
    case "typing": return { ...base, text: o.text, speed: o.speed, fontSize: o.size, ...(o.think != null ? { mistakeThinkMs: o.think } : {}), ...(o.wrap ? { wrapWidth: o.wrap } : {}), ...(o.slips != null ? { mistakes: o.slips } : {}), ...(o.jitter ? { jitter: o.jitter } : {}), ...(o.paste ? { mode: "paste" } : {}), ...(o.keep ? { holdToFrameEnd: true } : {}), ...(o.caret ? { caret: true } : {}), ...(o.mask ? { mask: { color: "#010203" } } : {}) };
    case "tap": return base;
    case "svg": return { ...base, ...box, animId: "card" + (n % 2), innerSvg: `<rect class="ov${n}" width="${o.w}" height="${o.h}" fill="rgb(9,9,${n})"/>`, ...(o.enter ? { enter: o.enter } : {}), ...(o.exit ? { exit: o.exit } : {}) };
    case "blink": return { ...base, ...box, ...(o.per != null ? { periodMs: o.per } : {}) };
    case "shine": return { ...base, ...box, ...(o.dur != null ? { duration: o.dur } : {}), ...(o.skew != null ? { skewDeg: o.skew } : {}), ...(o.radius ? { radius: o.radius } : {}), ...rep };
    default: return { ...base, ...box, treatment: o.treat, ...(o.dur != null ? { duration: o.dur } : {}), ...(o.held != null ? { holdMs: o.held } : {}), ...(o.rel != null ? { releaseMs: o.rel } : {}), ...rep };
  }
}
const kids = (e: El | undefined, f: (x: El) => boolean): El[] => { const out: El[] = []; const go = (x: El): void => { if (f(x)) out.push(x); x.kids.forEach(go); }; if (e) go(e); return out; };
const title = (g: El): string => kids(g, (x) => x.tag === "title")[0]?.ownText ?? "";
const codes = (s: string): number[] => [...s].map((ch) => ch.codePointAt(0)!);
function record(p: Plan): Trace {
  const total = p.frames.reduce((s, f) => s + advance(f), 0); const ev: any[] = []; const specs: any[] = []; let tight = 0;
  let cfg: any = { ovs: specs, total, slack: 0 };
  try {
    const d = new SvgDoc(generateAnimatedSvg({ width: 640, height: 400, frames: p.frames.map((f, i) => ({ svgContent: `<rect width="9" height="9" fill="rgb(1,2,${i})"/>`, duration: f.hold, ...(f.tr == null ? {} : { transition: { type: f.cut ? "cut" : "crossfade", duration: f.tr } }), ...(f.ovs.length ? { overlays: f.ovs.map((o, n) => overlay(o, i * 20 + n)) } : {}) })) } as any));
    const views: ((t: number) => any)[] = []; const ts = new Set<number>(); let at = 0;
    p.frames.forEach((f, i) => {
      const seq: Record<string, number> = {};
      f.ovs.forEach((o, n) => {
        const k = seq[o.kind] ?? 0; seq[o.kind] = k + 1; const id = k === 0 ? `${i}` : `${i}_${k}`; const last = i === p.frames.length - 1; const delay = o.delay ?? DELAY[o.kind]; const win = o.endAt == null ? f.hold : Math.min(f.hold, Math.max(1, o.endAt));
        const s: any = { kind: o.kind, at, hold: f.hold, tms: tms(f), last, delay, end: o.endAt ?? -1, dur: o.dur ?? (o.kind === "shine" ? 900 : 240), held: 0, rel: o.rel ?? 180, per: o.per ?? 1000, rep: o.rep ?? 0, ent: shift(o.enter, o.w, o.h), ext: shift(o.exit, o.w, o.h), pos: [], slips: [], speed: o.speed ?? 60, think: o.think ?? 400, keep: o.keep === true, paste: o.paste === true, loose: false, tight: false, mask: o.mask === true, caret: o.caret === true, wide: [] };
        const on = at + delay; const off = at + win;
        if (o.kind === "interact") s.held = o.held ?? (s.rep !== 0 ? 140 : o.treat === "press" ? 120 : Math.max(0, off - s.rel - Math.min(on + s.dur, off)));
        for (const x of [on, off, at, at + f.hold, on + s.dur, on + s.dur / 2, on + s.dur + s.held, at + f.hold + tms(f)]) for (const e of [-60, -14, 14, 45]) ts.add(Math.round(x + e));
        if (o.kind === "typing") {
          const tid = "t" + id; const size = o.size ?? 14; const adv = ADV * size; const groups = d.byClass(tid + "-text"); const revs = d.find((x) => new RegExp(`^${tid}-rev\\d+$`).test(x.attrs.class ?? "")); const lh = Math.round(size * 1.35);
          // lines as painted: each line's own clip says which of them it is
          const lines: string[] = revs.map(() => ""); const inkAt: { g: El; rev: El; li: number; x: number[]; chars: number[] }[] = [];
          for (const g of groups) { const cid = /url\(#(.*)\)/.exec(g.attrs["clip-path"] ?? "")?.[1]; const li = revs.findIndex((r) => r.parent?.attrs.id === cid); const txt = title(g); lines[li] = txt; const scale = kids(g, (x) => / scale\(/.test(x.attrs.transform ?? ""))[0]; const uses = kids(g, (x) => x.tag === "use"); const m = scale ? d.matrix(scale, 0) : [1, 0, 0, 1, 0, 0]; inkAt.push({ g, rev: revs[li], li, x: uses.map((u) => m[0] * Number(u.attrs.x) + m[4]), chars: [...txt].map((ch, q) => (ch === " " ? -1 : q)).filter((q) => q >= 0) }); }
          const flat = new Map<string, number>(); let np = 0; lines.forEach((t, li) => [...t].forEach((ch, q) => { flat.set(li + ":" + q, ++np); s.pos.push({ l: li, c: q, ink: ch !== " " }); }));
          const chars = lines.flatMap((t) => [...t]); const mis = d.find((x) => new RegExp(`^${tid}-mis\\d+$`).test(x.attrs.class ?? ""));
          const misAt = mis.map((g) => { const m = d.matrix(kids(g, (x) => x.tag === "g" && x !== g)[0], 0); return { g, l: Math.round((m[5] - o.y) / lh), c: Math.round((m[4] - o.x) / adv), off: Math.abs((m[4] - o.x) / adv - Math.round((m[4] - o.x) / adv)), ch: title(g) }; });
          s.wide = chars.map(() => 1);
          const discrete = !o.paste && np <= BIG; let fair = true;
          if (discrete && Array.isArray(o.slips)) { const by = new Map<number, string | undefined>(); for (const q of o.slips) if (q.at >= 0 && q.at < np) by.set(q.at, q.wrong); s.slips = [...by.keys()].map((q) => q + 1).sort((a, b) => a - b); for (const [q, w] of by) { s.wide[q] = w ? [...w].length : 1; const g = misAt.find((z) => flat.get(z.l + ":" + z.c) === q + 1); if (g == null || (w ? g.ch !== w : g.ch === chars[q])) fair = false; } }
          else if (discrete && o.slips != null) { s.slips = misAt.map((z) => flat.get(z.l + ":" + z.c) ?? 0).sort((a: number, b: number) => a - b); for (const z of misAt) { const q = flat.get(z.l + ":" + z.c) ?? 0; if (!/[A-Za-z0-9]/.test(chars[q - 1] ?? "") || chars[q - 1] === z.ch || q === np || s.slips.includes(q + 1)) fair = false; } if (o.slips === 1 && s.slips.length === 0 && chars.slice(0, -1).some((ch) => /[A-Za-z0-9]/.test(ch))) fair = false; if (o.slips === 0 && s.slips.length > 0) fair = false; }
          s.loose = (o.jitter ?? 0) > 0 || (!discrete && !o.paste);
          const raw = Math.max(1, np) * s.speed + s.slips.length * (2 * s.speed + s.think); const gap = win >= f.hold && last && !s.keep ? 150 : 0; const eff = Math.max(1, Math.min(raw, off - gap - on)); const strokes = np + 2 * s.slips.length; if (np > 0 && (eff * s.speed) / Math.max(1, raw) < Math.max(2, total / 8000)) { s.tight = true; tight = Math.max(tight, strokes); }
          if (delay < win) ev.push({ e: "laid", text: codes(o.text!), lines: lines.map(codes), cols: o.wrap ? Math.max(1, Math.floor((o.wrap - 4) / adv + 1e-6)) : -1 });
          const tt = Math.min(strokes, 24); for (let q = 0; q <= tt; q++) ts.add(Math.round(on + ((q + 0.5) / tt) * eff)); ts.add(Math.round(on + eff + 25)); for (const e of [60, 100, -130]) ts.add(Math.round(off - 150 + e)); ts.add(Math.round(on + 60)); ts.add(Math.round((on + eff + off) / 2)); ts.add(Math.round(off + tms(f) / 2)); ts.add(Math.round(off + tms(f) + 20));
          const caret = d.byClass(tid + "-caret")[0]; const bg = d.byClass(tid + "-bg")[0];
          views.push((t) => {
            const seen: number[] = []; let solid = true;
            for (const q of inkAt) { const a = d.alpha(q.g, t); if (a < 0.02) continue; if (a < 0.95) solid = false; const right = Number(q.rev.attrs.x) + parseFloat(d.own(q.rev, "width", t) ?? "0"); q.x.forEach((x, z) => { if (right > x + adv * 0.5) seen.push(flat.get(q.li + ":" + q.chars[z]) ?? 0); }); if (q.x.length !== q.chars.length) seen.push(0); }
            const wrong = misAt.filter((z) => d.alpha(z.g, t) > 0.02); let li = 0; let col = 0; let cOn = false;
            if (caret) { cOn = d.alpha(caret, t) > 0.02; const m = d.matrix(caret, t); li = Math.round(m[5] / lh); const q = m[4] / adv; col = Math.abs(q - Math.round(q)) < 0.03 ? Math.round(q) : -1; }
            return { seen: seen.sort((a, b) => a - b), solid, wrong: wrong.map((z) => [z.l, z.off < 0.03 ? z.c : -1]), apt: fair, caret: cOn, li, col, mask: bg != null && d.alpha(bg, t) > 0.02 };
          });
        } else if (o.kind === "svg") {
          const e = d.byClass("ov" + (i * 20 + n))[0]; for (const [m, from] of [[o.enter, on + (o.enter?.delay ?? 0)], [o.exit, off - (o.exit?.duration ?? 0) - (o.exit?.delay ?? 0)]] as any) if (m) for (const x of [-20, m.duration / 2, m.duration + 20]) ts.add(Math.round(from + x)); ts.add(Math.round((on + off) / 2));
          views.push((t) => { if (e == null) return { on: false, dx: 0, dy: 0 }; const m = d.matrix(e, t); return { on: d.alpha(e, t) > 0.02, dx: Math.round(m[4] - o.x), dy: Math.round(m[5] - o.y) }; });
        } else if (o.kind === "tap") {
          const e = d.byClass("tap" + id)[0]; const dot = d.byClass(`tap${id}-dot`)[0]; for (const x of [0, 60, 150, 290, 520, 600]) ts.add(Math.round(on + x));
          views.push((t) => ({ on: e != null && ((d.alpha(e, t) > 0.01 && parseFloat(d.own(e, "r", t) ?? "0") > 0.5) || d.alpha(dot, t) > 0.02) }));
        } else if (o.kind === "blink") {
          const e = d.byClass("blink" + id)[0]; for (let q = 0; q < 9 && s.per > 0; q++) ts.add(Math.round(on + (q + 0.5) * (s.per / 2))); ts.add(Math.round((on + off) / 2));
          views.push((t) => ({ on: e != null && d.alpha(e, t) > 0.02 }));
        } else if (o.kind === "shine") {
          const g = d.byClass("shine-sh" + id)[0]; const b = kids(g, (x) => x.tag === "rect")[0]; if (s.rep !== 0) { for (let q = 0; q < 6; q++) ts.add(Math.round(on + (q + 0.5) * s.per)); ts.add(Math.round(on + s.rep * s.per + 20)); } ts.add(Math.round((on + Math.min(off, on + s.dur)) / 2));
          views.push((t) => {
            if (b == null || d.alpha(b, t) < 0.02) return { on: false }; const inv = invert(d.matrix(b, t)); if (inv == null) return { on: false }; const [bx, by, bw, bh] = ["x", "y", "width", "height"].map((q) => Number(b.attrs[q]));
            for (let u = 0; u <= 16; u++) for (let v = 0; v <= 12; v++) { const [lx, ly] = apply(inv, o.x + 0.5 + ((o.w - 1) * u) / 16, o.y + 0.5 + ((o.h - 1) * v) / 12); if (lx > bx + bw * 0.05 && lx < bx + bw * 0.95 && ly > by && ly < by + bh) return { on: true }; } return { on: false };
          });
        } else {
          const g = d.byClass("ix" + id)[0]; if (s.rep !== 0) { for (let q = 0; q < 5; q++) ts.add(Math.round(on + q * s.per + s.dur + s.held / 2)); ts.add(Math.round(on + s.rep * s.per + 20)); }
          views.push((t) => ({ on: g != null && d.alpha(g, t) > 0.02 }));
        }
        specs.push(s);
      });
      at += advance(f);
    });
    const slack = 3 + Math.ceil(total / 5000) + Math.ceil((tight * total) / 9500); cfg.slack = slack;
    for (let q = 0; q < 12; q++) ts.add(Math.round(((q + 0.41) / 12) * total));
    const order = [...ts].filter((t) => t >= 1 && t < total - 1).sort((a, b) => a - b);
    for (let lap = 0; lap < p.laps; lap++) { if (lap > 0) ev.push({ e: "again" }); for (const t of order) if (lap === 0 || t % 3 === 0) ev.push({ e: "look", t, lap, vs: views.map((v) => v(t + lap * total)) }); }
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 500) }); }
  return { cfg, ev, meta: p };
}
// ---- plans
const exported = c.model("OverlayMC", undefined, { workers: 4, mustCover: ["Type", "Tick", "Again"] });
const plans: Plan[] = []; const r = c.rng; const DIRS = ["left", "right", "top", "bottom"] as const;
exported.map((e: any) => JSON.stringify(e)).sort().forEach((q, n) => {
  if ((n + c.seed) % c.n(6, 1) !== 0) return; const e = JSON.parse(q); const k = 2;
  const ov: Ov = { kind: e.kind, delay: e.delay * k, ...(e.end >= 0 ? { endAt: e.end * k } : {}), x: 40 + (n % 7) * 30, y: 60 + (n % 5) * 55, w: 120, h: 40, dur: e.dur * k, per: e.kind === "blink" ? e.per * k : e.per * k * 2, rep: e.rep, held: e.held * k, rel: e.rel * k, treat: (["hover", "focus", "press"] as const)[n % 3],
    ...(e.ent.dur ? { enter: { from: DIRS[n % 4], duration: e.ent.dur * k, delay: 0 } } : {}), ...(e.ext.dur ? { exit: { from: DIRS[(n >> 2) % 4], duration: e.ext.dur * k, delay: 0 } } : {}),
    text: "a b", speed: e.speed * k, size: 14, think: e.think * k, slips: e.slips.map((z: number) => ({ at: z - 1, ...(n % 2 ? { wrong: "q" } : {}) })), paste: e.paste, keep: e.keep, caret: n % 3 > 0, mask: n % 2 > 0 };
  if (e.paste) delete ov.slips; const f = { hold: 1200, tr: e.tms * k, cut: e.tms === 0, ovs: [ov] }; const bare = { hold: 1000, tr: 0, cut: true, ovs: [] };
  plans.push({ frames: e.last ? [bare, f] : [f, bare], laps: 2 });
});
const WORDS = ["go", "a", "the", "quick", "Brown", "x7", "lazy!", "incomprehensibilities", "é", "end.", "42", "(ok)"];
function random(r: Rng): Plan {
  const move = (): Move => ({ from: r.pick([...DIRS]), duration: r.pick([100, 250, 400]), delay: r.pick([0, 0, 150]) });
  const frames = Array.from({ length: r.int(1, 3) }, () => {
    const hold = r.bool(0.12) ? r.int(70, 400) * 100 : r.int(2, 40) * 100;
    const ovs = Array.from({ length: r.pick([0, 1, 1, 2, 3]) }, (): Ov => {
      const kind = r.pick(["typing", "typing", "typing", "svg", "svg", "tap", "blink", "shine", "interact"] as const);
      const o: Ov = { kind, x: r.int(5, 300), y: r.int(20, 340), w: r.int(20, 200), h: r.int(8, 120), ...(r.bool(0.7) ? { delay: r.pick([0, r.int(0, hold), r.int(0, hold), hold - 10, hold, hold + 200, 20]) } : {}), ...(r.bool(0.35) ? { endAt: r.pick([r.int(1, hold), r.int(1, hold), hold, hold + 300, 0]) } : {}) };
      if (kind === "typing") {
        const words = Array.from({ length: r.int(1, 6) }, () => r.pick(WORDS)); let text = words.join(" "); if (r.bool(0.2)) text = words.join("\n"); if (r.bool(0.1)) text = words.join("\n\n"); if (r.bool(0.03)) text = ""; if (r.bool(0.01)) text = Array.from({ length: 80 }, () => "word").join(" ");
        const many = text.length > BIG; Object.assign(o, { text, speed: r.pick([5, 20, 60, 60, 150]), size: r.pick([10, 14, 14, 24]), think: r.pick([undefined, 0, 120]), wrap: r.bool(0.35) && !many ? r.int(30, 200) : undefined, paste: r.bool(0.15), keep: r.bool(0.2), caret: r.bool(0.6) && !many, mask: r.bool(0.4), jitter: r.bool(0.2) ? r.pick([0.3, 1]) : undefined });
        if (r.bool(0.4)) o.slips = r.bool(0.3) ? r.pick([0, 0.3, 1]) : Array.from({ length: r.int(1, 3) }, () => ({ at: r.int(0, Math.min(text.length + 1, 25)), ...(r.bool() ? { wrong: r.pick(["z", "Q", "qz"]) } : {}) }));
      } else if (kind === "svg") { if (r.bool(0.6)) o.enter = move(); if (r.bool(0.6)) o.exit = move(); }
      else if (kind === "blink") o.per = r.pick([undefined, 200, 700, 90, 0, 4000]);
      else if (kind === "shine") Object.assign(o, { dur: r.pick([undefined, 200, 900, 3000]), skew: r.pick([undefined, 0, 30, -20]), radius: r.pick([0, 8]), rep: r.pick([0, 0, -1, 3, 1]), per: r.pick([300, 1100]) });
      else if (kind === "interact") Object.assign(o, { treat: r.pick(["hover", "focus", "press"]), dur: r.pick([undefined, 100, 700]), held: r.pick([undefined, 0, 200]), rel: r.pick([undefined, 60, 500]), rep: r.pick([0, 0, -1, 2]), per: r.pick([2000, 1600]) });
      return o;
    });
    return { hold, tr: r.pick([null, 0, 200, 500]), cut: r.bool(0.4), ovs };
  });
  // Scope: a window squeezed below what the loop's own percentages can tell apart (0.4 % of it) says nothing, nor does an entrance that outlives the loop.
  const total = frames.reduce((n, f) => n + advance(f), 0);
  for (const f of frames) for (const o of f.ovs) {
    const left = (): number => Math.min(f.hold, Math.max(1, o.endAt ?? f.hold)) - (o.delay ?? DELAY[o.kind]);
    if (total > 5000) { if (o.endAt != null && o.endAt < total / 200) delete o.endAt; if (left() > 0 && left() < total / 250) { delete o.endAt; o.delay = 0; } }
    if (o.exit && left() < o.exit.duration + (o.exit.delay ?? 0)) delete o.exit;
    if (o.enter && left() < o.enter.duration + (o.enter.delay ?? 0)) delete o.enter;
  }
  return { frames, laps: r.int(1, 2) };
}
for (let n = 0; n < c.n(550, 8000); n++) plans.push(random(r));
const traces = ((await c.record(plans, record)) as Trace[]).filter((t) => t.ev.some((e) => e.e === "threw") || t.cfg.ovs.length > 0);
c.validate("OverlayTrace", traces, {
  corrupt: (t, r) => {
    const looks = t.ev.filter((e) => e.e === "look"); if (looks.length === 0) return null; const s = t.cfg.ovs; const e = r.pick(looks) as any; const k = r.int(0, s.length - 1); const o = s[k]; const v = e.vs[k]; const on = o.at + o.delay; const off = o.at + (o.end < 0 ? o.hold : Math.min(o.hold, Math.max(1, o.end)));
    const out = e.t < on - 2 * t.cfg.slack - 3 || e.t > off + 700; if (!out || (o.kind === "tap" && e.t > on)) return null;
    if (o.kind === "typing") { if (o.pos.length === 0) return null; if (r.bool()) v.seen = [1]; else v.mask = true; } else v.on = true; return t;
  },
  key: (t, ev) => (ev?.e === "look" ? "look-" + [...new Set(t.cfg.ovs.map((o: any) => o.kind))].sort().join("+") : ev?.e ?? "end"),
  describe: (t, ev) => ev?.e === "look" ? `at ${ev.t} ms (loop of ${t.cfg.total}) overlays ${JSON.stringify(t.cfg.ovs.map((o: any) => [o.kind, o.at, o.hold, o.delay, o.end])).slice(0, 200)} show ${JSON.stringify(ev.vs).slice(0, 300)}` : `${JSON.stringify(ev).slice(0, 400)}`,
});
c.finish({ documents: plans.length });
