/** X02: export to video against a fake browser and encoder, with a failure at every step. */
import { chmodSync, existsSync, mkdtempSync, readFileSync, readdirSync, rmSync, writeFileSync, mkdirSync } from "node:fs";
import { tmpdir } from "node:os";
import { join } from "node:path";
import { runSvgToVideo } from "/repo/src/cli/svg-to-video-core.js";
import { Check, Rng, type Trace } from "../lib/check.js";

const c = new Check("X02", "fault_enumeration");
interface Anim { loops: boolean; per: number; end: number; odd?: "stuck" | "bare"; late?: number }
interface Plan { vb: [number, number] | null; attrs: boolean; mw: number; mh: number; fps: number; given: number; anims: Anim[]; smil: boolean; scale: number; format: string; transparent: boolean; enc: "ok" | "early" | "mid" | "late" | "absent" | "signal"; keep: boolean; fault: number; gone: boolean; pad: number; quiet: boolean; n: number }
const ALPHA = ["vp9", "prores", "gif", "apng"];
const scratch = mkdtempSync(join(tmpdir(), "vid-")); process.on("exit", () => rmSync(scratch, { recursive: true, force: true }));
let loud = 0; const heard = (): void => { loud++; };
const sleep = (ms: number): Promise<void> => new Promise((ok) => setTimeout(ok, ms)); let serial = 0;
function encoder(dir: string, p: Plan): string {
  const f = join(dir, "ff"); if (p.enc === "absent") return join(dir, "missing");
  writeFileSync(f, `#!/bin/bash\n[ "$1" = -version ] && exit 0\necho $$ > ${dir}/pid\nprintf '%s\\n' "$@" > ${dir}/args.new\nmv ${dir}/args.new ${dir}/args\nout="\${@: -1}"\n` + ({ ok: `exec cat > "$out"\n`, early: "exit 7\n", mid: `head -c 40 > "$out"\nexit 9\n`, late: `cat > "$out"\necho broken >&2\nexit 3\n`, signal: `head -c 40 > "$out"\nkill -9 $$\n` } as any)[p.enc]); chmodSync(f, 0o755); return f;
}
async function record(p: Plan): Promise<Trace> {
  const dir = join(scratch, `v${process.pid}-${++serial}`); mkdirSync(dir); const ev: any[] = []; loud = 0; process.on("unhandledRejection", heard); process.on("uncaughtException", heard);
  const svg = `<svg xmlns="http://www.w3.org/2000/svg"${p.vb && !p.attrs ? ` viewBox="0 0 ${p.vb[0]} ${p.vb[1]}"` : p.vb ? ` width="${p.vb[0]}px" height='${p.vb[1]}'` : ""}><rect id="a" width="9" height="9"/>${p.smil ? `<animate attributeName="x" dur="1s"/>` : ""}</svg>`;
  writeFileSync(join(dir, "in.svg"), svg); let ops = 0; let live = 0; let dead = false; let shots = 0; let rafs = 0; let atSeek = 0; let enced = false; let size = [0, 0, 0]; let smilAt = -1;
  const op = async (f?: () => void): Promise<void> => { const k = ++ops; noteEnc(); await new Promise((ok) => setImmediate(ok)); if (dead || k === p.fault) { if (k === p.fault) { ev.push({ e: "fault" }); if (p.gone) dead = true; } throw new Error(dead ? "Target page, context or browser has been closed" : "Protocol error: timeout"); } f?.(); };
  const noteEnc = (): void => { if (!enced && existsSync(join(dir, "args"))) { const a = readFileSync(join(dir, "args"), "utf8").split("\n").slice(0, -1); enced = true; encEvent(a); } };
  const encEvent = (a: string[]): void => { const after = (k: string): string => a[a.indexOf(k) + 1] ?? ""; const m = /scale=(\d+):(\d+)/.exec(a.join(" ")); const rate = Math.round(Number(after("-framerate")) * 100); ev.push({ e: "enc", rate: Math.round(Number(after("-r")) * 100) === rate ? rate : -1, out: after("-i") === "-", last: a[a.length - 1] === join(dir, "out.bin"), sw: m ? Number(m[1]) : 0, sh: m ? Number(m[2]) : 0, w: size[0], h: size[1] }); };
  const anims = p.anims.map((a) => ({ t: -1, paused: false, a })); const half = (t: number): number => Math.round((t * p.fps * 2) / 100);
  (globalThis as any).document = {
    documentElement: {}, getAnimations: () => anims.filter((x) => (x.a.late ?? 0) <= shots).map((x) => ({ effect: x.a.odd === "bare" ? null : { getComputedTiming: () => ({ duration: x.a.per, iterations: x.a.loops ? Infinity : 1, endTime: x.a.loops ? Infinity : x.a.end }), getKeyframes: () => [{ offset: 0, opacity: "1" }, { offset: 0.001, opacity: 1 }, { offset: 1 }] }, pause() { x.paused = true; }, set currentTime(v: number) { if (x.a.odd === "stuck") throw new Error("InvalidStateError"); x.t = v; atSeek = rafs; }, get currentTime() { return x.t; } })),
    querySelectorAll: (q: string) => q !== "svg" ? [] : [{ pauseAnimations() { /* */ }, setCurrentTime(s: number) { smilAt = s * 1000; atSeek = rafs; }, querySelector: () => (p.smil ? {} : null) }],
  };
  (globalThis as any).requestAnimationFrame = (f: () => void) => setImmediate(() => { rafs++; f(); });
  const page = {
    async setContent(h: string) { await op(() => ev.push({ e: "set", what: "loaded", w: 0, h: 0, scale: 0, whole: h.includes(svg) && /animation-play-state:\s*paused/.test(h) })); },
    async evaluate(fn: any, arg: any) { const timing = ev.length > 0 && ev[ev.length - 1].what === "loaded"; await op(() => { if (timing) ev.push({ e: "time" }); }); return fn(arg); },
    async screenshot(o: any) {
      let buf: Buffer | null = null; await op(() => {
        const set = anims.filter((x) => x.a.odd !== "stuck" && (x.a.late ?? 0) <= shots); const ts = [...set.map((x) => half(x.t)), half(smilAt)]; shots++;
        ev.push({ e: "shot", lo: Math.min(...ts), hi: Math.max(...ts), paused: set.every((x) => x.paused), settled: rafs - atSeek >= 2, omit: o?.omitBackground === true }); buf = Buffer.from(`F${shots};` + "x".repeat(p.pad) + "\n");
      });
      return buf!;
    },
    async close() { /* */ },
  };
  const launch = async (): Promise<any> => { await op(() => { live++; ev.push({ e: "open" }); }); let closed = false; return {
    async newContext(o: any) { await op(() => { size = [o.viewport.width, o.viewport.height, o.deviceScaleFactor]; ev.push({ e: "set", what: "context", w: size[0], h: size[1], scale: Math.round(o.deviceScaleFactor * 100), whole: true }); }); return { async newPage() { await op(() => ev.push({ e: "set", what: "page", w: 0, h: 0, scale: 0, whole: true })); return page; } }; },
    async close() { if (!closed) { closed = true; live--; noteEnc(); ev.push({ e: "close" }); } },
  }; };
  const keep = p.keep ? join(dir, "frames") : undefined; let ok = true; let msg = ""; const out = join(dir, "out.bin");
  try {
    const run = runSvgToVideo({ input: join(dir, "in.svg"), output: out, ...(p.mw ? { width: p.mw } : {}), ...(p.mh ? { height: p.mh } : {}), fps: p.fps / 100, ...(p.given ? { durationSec: p.given / 1000 } : {}), format: p.format, scale: p.scale / 100, background: p.transparent ? "transparent" : "#fff", burnCaptions: false, ...(keep ? { keepFrames: keep } : {}), ffmpegPath: encoder(dir, p), quiet: p.quiet, log: () => {}, launchBrowser: launch } as any);
    await Promise.race([run, sleep(20000).then(() => { throw new Error("STUCK"); })]);
  } catch (e) { ok = false; msg = String(e).slice(0, 160); }
  if (msg.includes("STUCK")) ev.push({ e: "stuck" });
  ev.push({ e: "done", ok, msg }); const pid = existsSync(join(dir, "pid")) ? Number(readFileSync(join(dir, "pid"), "utf8")) : 0;
  const runs = (): boolean => { try { return pid > 0 && !/^State:\s+Z/m.test(readFileSync(`/proc/${pid}/status`, "utf8")); } catch { return false; } };
  for (let i = 0; i < 30 && (i < 3 || runs()); i++) await sleep(10);
  if (!enced && existsSync(join(dir, "args"))) { enced = true; /* it started after the last browser step: only its death can follow */ }
  const raw = existsSync(out) ? readFileSync(out, "utf8") : ""; const parts = raw.split("\n"); const torn = parts.pop() !== ""; const num = (s: string): number => Number(/^F(\d+);x*$/.exec(s)?.[1] ?? 0) || -1;
  const kept = keep && existsSync(keep) ? readdirSync(keep).sort().map((f) => num(readFileSync(join(keep, f), "utf8").trimEnd())) : [];
  ev.push({ e: "end", loud, browsers: live, encoders: runs() ? 1 : 0, frames: parts.map(num), torn, kept });
  if (runs()) try { process.kill(pid, 9); } catch { /* gone */ }
  process.off("unhandledRejection", heard); process.off("uncaughtException", heard); rmSync(dir, { recursive: true, force: true });
  const cfg = { nw: p.vb ? Math.round(p.vb[0] * 100) : 0, nh: p.vb ? Math.round(p.vb[1] * 100) : 0, mw: p.mw, mh: p.mh, fps: p.fps, given: p.given, anims: p.anims.filter((a) => a.odd !== "bare" && !a.late).map((a) => ({ loops: a.loops, per: a.per, end: a.end })), enc: p.enc, keep: p.keep, scale: p.scale, unsized: p.enc === "absent" || (!p.vb && !(p.mw && p.mh)), alpha: p.transparent && ALPHA.includes(p.format), most: 400 };
  return { cfg, ev, meta: p };
}
// ---- plans
const exported = c.model("VideoMC", undefined, { mustCover: ["Work", "Trouble", "Death", "Release"] });
const R = c.rng; const plans: Plan[] = []; let n = 0;
function base(r: Rng): Plan {
  const fps = r.pick([1000, 2400, 2500, 3000, 5000, 6000, 2997, 1250, 100, 700]); const frames = r.pick([1, 2, 3, 5, 8, 13, 30]); const want = Math.max(1, Math.round((frames * 100000) / fps)); const mk = r.int(0, 9);
  const loop = (per: number): Anim => ({ loops: true, per, end: 0 }); const once = (end: number): Anim => ({ loops: false, per: end, end });
  let anims: Anim[]; let given = 0;
  if (mk < 2) { anims = r.bool(0.3) ? [] : [loop(r.int(1, 3) * 1000)]; given = want; }
  else if (mk < 4) anims = [loop(want), loop(want)];
  else if (mk < 6) { const u = Math.max(1, Math.round(want / 6)); anims = r.shuffle([loop(u * 2), loop(u * 3), ...(r.bool() ? [loop(u)] : []), ...(r.bool() ? [once(r.int(1, want))] : [])]); }
  else if (mk < 8) anims = [once(want), ...(r.bool() ? [once(r.int(1, want))] : []), ...(r.bool(0.4) ? [loop(Math.max(1, Math.round(want / r.int(1, 4))))] : [])];
  else if (mk === 8) anims = r.pick([[], [once(0)], [loop(7919), loop(9973)], [loop(400000), loop(300001)], [{ loops: true, per: 0, end: 0 }]]);
  else anims = [loop(want), { ...loop(want), odd: "stuck" }, { loops: true, per: 3, end: 0, odd: "bare" }, { ...loop(want * 2), late: r.int(1, 3) }];
  const box = r.int(0, 3); const px = (): number => r.pick([100, 641, 320, 1080, 17, 64, 333]);
  const vb: [number, number] | null = r.bool(0.92) ? [r.pick([640, 1280, 333, 101.5, 100.25, 3, 1999, 720]), r.pick([400, 720, 777, 99.5, 64, 5, 1280])] : null;
  return { vb, attrs: r.bool(0.25), mw: box & 1 || !vb ? px() : 0, mh: box & 2 || (!vb && r.bool(0.8)) ? px() : 0, fps, given, anims, smil: r.bool(0.2), scale: r.pick([100, 100, 100, 200, 150]), format: r.pick(["h264", "hevc", "vp9", "vp8", "prores", "gif", "apng", "av1"]), transparent: r.bool(0.3), enc: "ok", keep: r.bool(0.3), fault: 0, gone: false, pad: r.pick([3, 3, 200, 30000, 200000]), quiet: r.bool(), n: ++n };
}
// a failure at each step of the model: the step's number is counted in browser calls (launch 1, context 2, page 3, content 4, timings 5, then 3 a frame)
const AT: Record<string, number> = { new: 1, browser: 2, context: 3, page: 4, loaded: 5 };
for (const e of exported.map((x: any) => JSON.stringify(x)).sort().map((s: string) => JSON.parse(s))) {
  const q = base(new Rng(R.int(0, 2 ** 30), "model")); Object.assign(q, { vb: [640, 400], fps: 2500, given: (e.total || 3) * 40, anims: [{ loops: true, per: 1000, end: 0 }], pad: R.pick([3, 30000]) });
  if (e.at === "encoder") q.enc = R.pick(["early", "mid", "late", "signal"]); else if (e.at === "timed") { q.fault = 6 + 3 * e.shot + R.int(0, 2); q.gone = R.bool(); } else if (e.at !== "") { q.fault = AT[e.at]; q.gone = R.bool(0.3); }
  plans.push(q);
}
for (let i = 0; i < c.n(420, 6000); i++) {
  const r = new Rng(R.int(0, 2 ** 30), "video"); const p = base(r); const u = r.int(0, 99);
  if (u < 18) { p.fault = r.int(1, 30); p.gone = r.bool(0.4); } else if (u < 32) p.enc = r.pick(["early", "mid", "late", "signal", "absent"]); else if (u < 36) { p.enc = r.pick(["mid", "late"]); p.fault = r.int(6, 20); }
  plans.push(p);
}
const traces = (await c.record(plans, record)) as Trace[];
c.validate("VideoTrace", traces, {
  corrupt: (t, r) => { const e: any = r.pick(t.ev); if (e.e === "shot") { if (r.bool()) e.lo += 1000; else e.settled = false; } else if (e.e === "done") { e.ok = !e.ok; } else if (e.e === "end") { if (e.frames.length > 1 && r.bool()) e.frames.reverse(); else e.browsers = 1; } else return null; return t; },
  key: (t, ev) => ev == null ? "end" : ev.e + (ev.e === "end" ? (ev.loud ? "-loud" : ev.encoders ? "-encoder" : ev.browsers ? "-browser" : "-frames") : ""),
  describe: (t, ev) => `${JSON.stringify(ev)} with ${JSON.stringify(t.cfg).slice(0, 260)} fault ${t.meta.fault} encoder ${t.meta.enc} after ${JSON.stringify(t.ev.slice(Math.max(0, t.ev.indexOf(ev) - 3), t.ev.indexOf(ev))).slice(0, 260)}`,
});
c.finish({ exports: plans.length, with_fault: plans.filter((p) => p.fault > 0).length, with_encoder_failure: plans.filter((p) => p.enc !== "ok").length });
