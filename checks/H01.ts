/** H01: acquisition of the downloaded helpers, driven through model schedules of steps, faults and deaths. */
import { createHash } from "node:crypto";
import { copyFileSync, chmodSync, existsSync, mkdirSync, mkdtempSync, readFileSync, readdirSync, rmSync, statSync, writeFileSync } from "node:fs";
import { tmpdir } from "node:os";
import { basename, dirname, join } from "node:path";
import { Worker } from "node:worker_threads";
import { execFileSync } from "node:child_process";
import { Check, Rng, VERIF, type Trace } from "../lib/check.js";

const c = new Check("H01");
type Served = "good" | "404" | "gone" | "err" | "cut" | "short" | "badsha" | "nosha" | "shacut" | "swap" | "shashort" | "html" | "empty" | "flip";
interface Plan { which: "glyph" | "icu"; platform: string; arch: string; disk: string[]; served: Served; hit: number; sched: [number, string][]; np: number; sha: string; calls?: any[]; n: number }
const EXT: Record<string, string[]> = {};
const scratch = mkdtempSync(join(tmpdir(), "acq-")); process.on("exit", () => rmSync(scratch, { recursive: true, force: true }));
const bundle: Record<string, string> = {};
for (const [w, f] of [["glyph", "helper-acquire"], ["icu", "icu-helper-acquire"]]) {
  const out = join(scratch, "a", "b", f + ".mjs"); mkdirSync(dirname(out), { recursive: true }); copyFileSync("/repo/package.json", join(scratch, "package.json"));
  execFileSync("/opt/veriftools/node/node_modules/.bin/esbuild", [`/repo/src/render/${f}.ts`, "--bundle", "--platform=node", "--format=esm", `--outfile=${out}`, "--log-level=error"]); bundle[w] = out;
}
/** the files of one acquisition at their final names, the program last, with the asset each is published as */
async function target(p: Plan, dir: string): Promise<{ path: string; asset: string; body: string; exec: boolean }[]> {
  const body = (s: string): string => `#!bin ${s} `.repeat(60 + s.length);
  if (p.which === "glyph") { const m: any = await import("/repo/src/render/helper-acquire.js"); const a = m.assetNameFor(p.platform, p.arch); return [{ path: join(dir, a), asset: a, body: body(a), exec: true }]; }
  const m: any = await import("/repo/src/render/icu-helper-acquire.js"); const t = m.resolveIcuCompanionTarget({ platform: p.platform, arch: p.arch, cacheDir: dir });
  return [{ path: t.dataPath, asset: t.dataAsset, body: body(t.dataAsset), exec: false }, ...t.runtimeAssets.map((r: any) => ({ path: r.path, asset: r.asset, body: body(r.asset), exec: false })), { path: t.executablePath, asset: t.executableAsset, body: body(t.executableAsset), exec: true }];
}
function serveOf(files: { asset: string; body: string }[], p: { served: Served; hit: number; sha: string; n: number }): Record<string, any> {
  const s: Record<string, any> = {}; const hex = (b: string): string => createHash("sha256").update(Buffer.from(b, "latin1")).digest("hex");
  const line = (f: { asset: string; body: string }): string => { const h = hex(f.body); return p.sha === "bare" ? h : p.sha === "upper" ? `${h.toUpperCase()}  ${f.asset}\n` : p.sha === "star" ? `${h} *${f.asset}\r\n` : `${h}  ${f.asset}\n`; };
  files.forEach((f) => { s[f.asset] = { status: 200, body: f.body }; s[f.asset + ".sha256"] = { status: 200, body: line(f) }; });
  const f = files[p.hit % files.length]; const o = files[(p.hit + 1) % files.length]; const a = s[f.asset], h = s[f.asset + ".sha256"];
  switch (p.served) {
    case "404": a.status = 404; break; case "gone": h.status = 404; h.body = "Not Found"; break; case "err": a.err = true; break; case "cut": a.cut = true; break; case "shacut": h.cut = true; break;
    case "short": a.body = f.body.slice(0, 500); break; case "badsha": h.body = `${hex(f.body + "x")}  ${f.asset}\n`; break; case "nosha": h.body = "\n"; break;
    case "shashort": h.body = hex(f.body).slice(0, [1, 4, 16, 63][p.n % 4]); break; case "html": h.body = `<html>${hex(f.body)}</html>`; break;
    case "empty": a.body = ""; break; case "flip": a.body = f.body.slice(0, 300) + (f.body[300] === "x" ? "y" : "x") + f.body.slice(301); break;
    case "swap": if (files.length > 1) { const t = a.body; a.body = o.body; void t; } else a.body = f.body.slice(1) + "#"; break;
  }
  return s;
}
function state(f: { path: string; body: string; exec: boolean }): string { try { const b = readFileSync(f.path, "latin1"); return b === "OLD" ? "old" : b !== f.body ? "bad" : f.exec && (statSync(f.path).mode & 0o111) !== 0o111 ? "noexec" : "good"; } catch { return "none"; } }
interface W { w: Worker; cell: Int32Array; next: () => Promise<any> }
const pool: W[] = [];
async function worker(i: number): Promise<W> {
  if (pool[i] != null) return pool[i];
  const sab = new SharedArrayBuffer(4); const w = new Worker(join(VERIF, "lib", "acqworker.mjs"), { workerData: { sab }, execArgv: [] });
  const q: any[] = []; let wake: ((m: any) => void) | null = null; w.on("message", (m) => { if (wake != null) { const f = wake; wake = null; f(m); } else q.push(m); });
  w.on("error", (e) => { console.error(e); process.exit(3); }); w.unref();
  const next = (): Promise<any> => q.length > 0 ? Promise.resolve(q.shift()) : new Promise((ok) => { w.ref(); wake = (m) => { w.unref(); ok(m); }; });
  pool[i] = { w, cell: new Int32Array(sab), next }; await next(); return pool[i];
}
let serial = 0, imports = 0;
async function record(p: Plan): Promise<Trace> {
  const dir = join(scratch, `d${process.pid}-${++serial}`, "bin"); const files = await target(p, dir); const ev: any[] = [];
  const d0 = files.map((_, i) => p.disk[files.length === 1 ? p.disk.length - 1 : Math.min(i, p.disk.length - (i === files.length - 1 ? 1 : Math.min(2, p.disk.length)))] ?? "none"); d0[files.length - 1] = p.disk[p.disk.length - 1];
  if (d0.some((s) => s !== "none")) { mkdirSync(dir, { recursive: true }); files.forEach((f, i) => { if (d0[i] !== "none") { writeFileSync(f.path, d0[i] === "old" ? "OLD" : f.body); chmodSync(f.path, 0o755); } }); }
  const msg = (n: number): any => ({ n: `${p.n}-${serial}-${n}-${++imports}`, which: p.which, bundle: bundle[p.which], dir, files, pid: 4000 + n, serve: serveOf(files, p), opts: { platform: p.platform, arch: p.arch, cacheDir: dir } });
  let last = JSON.stringify(d0); const look = (): void => { const d = files.map(state); const s = JSON.stringify(d); if (s !== last) { last = s; ev.push({ e: "disk", d }); } };
  const cfg = { nf: files.length, disk: d0, np: p.np, served: p.served };
  if (p.calls != null) {
    const kinds = [...new Set(p.calls.filter((q) => q.real != null).map((q) => q.real))]; const serve: any = {}; for (const s of kinds) serve[s] = serveOf(files, { ...p, served: s });
    const w = await worker(0);
    // one process after another over the same directory; the latch lives as long as the process
    for (let at = 0; at < p.calls.length;) {
      let to = at; while (to < p.calls.length && (to === at || !p.calls[to].fresh)) to++;
      ev.push({ e: "fresh", d: files.map(state) });
      w.w.postMessage({ ...msg(1), calls: p.calls.slice(at, to), childEnv: { NODE_OPTIONS: `--import ${join(VERIF, "lib", "acqfetch.mjs")}`, ACQ_SERVE: JSON.stringify(serve) } });
      const m = await w.next(); if (m.out == null) throw new Error(JSON.stringify([m, p])); const part = p.calls.slice(at, to);
      m.out.forEach((o: any, i: number) => { if (part[i].remove) ev.push({ e: "gone", d: files.map(() => "none") }); ev.push({ e: "call", r: o.r, tried: o.tried, warned: o.warned, d: o.disk, failed: part[i].status !== 0 && part[i].real == null, bad: part[i].real != null && part[i].real !== "good" }); });
      at = to;
    }
    rmSync(dirname(dir), { recursive: true, force: true });
    return { cfg, ev, meta: p };
  }
  const ws = await Promise.all(Array.from({ length: p.np }, (_, i) => worker(i))); const wait: (any | null)[] = []; let dead = 0; let anyHurt = false;
  for (let i = 0; i < p.np; i++) ws[i].w.postMessage(msg(i + 1));
  const live = new Set<number>();
  const settle = async (i: number): Promise<void> => { let m = await ws[i].next(); if (m.dead) { dead++; while (m.ret == null) m = await ws[i].next(); live.delete(i); wait[i] = null; look(); return; }
    look(); if (m.op != null) { wait[i] = m; return; } live.delete(i); wait[i] = null; anyHurt ||= m.hurt; ev.push({ e: "ret", p: i + 1, r: m.ret, faulty: m.hurt }); };
  for (let i = 0; i < p.np; i++) { live.add(i); await settle(i); }
  const grant = async (i: number, g: number): Promise<void> => { Atomics.store(ws[i].cell, 0, g); Atomics.notify(ws[i].cell, 0); await settle(i); };
  for (const [q, k] of p.sched) { const i = q - 1; if (!live.has(i)) continue; await grant(i, k === "ok" ? 1 : k === "fault" ? 2 : 3); }
  while (live.size > 0) for (const i of [...live]) await grant(i, 1);
  const names = new Set(files.map((f) => basename(f.path)));
  ev.push({ e: "end", dead, stray: existsSync(dir) ? readdirSync(dir).filter((n) => !names.has(n)).length : 0, faulty: anyHurt || dead > 0 });
  rmSync(dirname(dir), { recursive: true, force: true });
  return { cfg, ev, meta: p };
}
const plans: Plan[] = []; const rng = c.rng; let n = 0;
const BAD: Served[] = ["404", "gone", "err", "cut", "short", "badsha", "nosha", "shacut", "swap", "shashort", "html", "empty", "flip"]; const SHA = ["line", "line", "bare", "upper", "star"];
const HOSTS: [("glyph" | "icu"), string, string][] = [["glyph", "linux", "x64"], ["glyph", "darwin", "arm64"], ["glyph", "win32", "x64"], ["icu", "linux", "x64"], ["icu", "win32", "arm64"], ["icu", "darwin", "x64"]];
// real steps per model step differ (a download is two requests a file), so a schedule is stretched to the implementation's step count
function stretch(h: [number, string][], r: Rng): [number, string][] { return h.flatMap(([p, k]) => { const m = k === "ok" ? r.int(1, 3) : 1; return Array.from({ length: m }, () => [p, k] as [number, string]); }); }
const exp = [...c.model("AcquireMC", undefined, { mustCover: ["Go", "Fail", "Die"] }), ...c.model("AcquireMC", "AcquireMC2.cfg")].map((e: any) => JSON.stringify(e)).sort();
c.model("AcquireMC", "AcquireMC3.cfg");
const pick = c.thorough ? exp : rng.shuffle(exp).slice(0, 1400);
for (const s of pick) {
  const [disk, served, ...sched] = JSON.parse(s); const icu = disk.length > 1; const [which, platform, arch] = rng.pick(HOSTS.filter((h) => (h[0] === "icu") === icu));
  plans.push({ which, platform, arch, disk, served: served === "good" ? "good" : rng.pick(BAD), hit: rng.int(0, 5), sched: stretch(sched, rng), np: 2, sha: rng.pick(SHA), n: ++n });
}
for (let i = 0; i < c.n(500, 6000); i++) {
  const r = new Rng(rng.int(0, 2 ** 30), "acq"); const [which, platform, arch] = r.pick(HOSTS); const np = r.int(1, 3); const sched: [number, string][] = []; const faults = r.pick([0, 0, 1, 1, 2]); const len = r.int(3, 14 * np);
  for (let q = 0; q < len; q++) { const who = r.int(1, np); const rep = r.int(1, 6); for (let z = 0; z < rep; z++) sched.push([who, "ok"]); }
  for (let q = 0; q < faults; q++) sched[r.int(0, sched.length - 1)][1] = r.pick(["fault", "crash"]);
  const disk = which === "glyph" ? [r.pick(["none", "none", "none", "old", "good"])] : r.pick([["none", "none"], ["none", "none"], ["none", "old"], ["old", "none"], ["old", "old"], ["good", "none"]]);
  plans.push({ which, platform, arch, disk, served: r.bool(0.6) ? "good" : r.pick(BAD), hit: r.int(0, 5), sched, np, sha: r.pick(SHA), n: ++n });
}
for (let i = 0; i < c.n(250, 2500); i++) {
  const r = new Rng(rng.int(0, 2 ** 30), "sync"); const [which, platform, arch] = r.pick(HOSTS); const real = i % 6 === 0;
  const calls = Array.from({ length: r.int(1, 5) }, (_, q) => ({ fresh: q > 0 && r.bool(0.3), remove: q > 0 && r.bool(0.25), ...(real ? { real: r.bool() ? "good" : r.pick(BAD) } : r.pick([{ status: 0, installs: true }, { status: 1, installs: false }, { status: null, installs: false }, { status: 0, installs: false }, { status: null, installs: true }])) }));
  plans.push({ which, platform, arch, disk: which === "glyph" ? [r.pick(["none", "none", "old"])] : r.pick([["none", "none"], ["old", "old"], ["none", "old"]]), served: "good", hit: r.int(0, 5), sched: [], np: 1, sha: r.pick(SHA), calls, n: ++n });
}
const traces = (await c.record(plans, record)) as Trace[];
c.validate("AcquireTrace", traces.filter((t) => t.ev.length > 0), {
  corrupt: (t, r) => { const e: any = r.pick(t.ev); if (e.e === "disk") { const i = e.d.findIndex((s: string) => s === "good"); if (i < 0) return null; e.d[i] = r.pick(["bad", "noexec"]); } else if (e.e === "ret") e.r = e.faulty ? "threw" : e.r === "path" ? "null" : "path"; else if (e.e === "end") { if (e.dead > 0) return null; e.stray++; } else if (e.e === "call") { e.tried = !e.tried; } else return null;
    return e.e === "ret" && !e.faulty && t.cfg.served !== "good" && e.r === "null" ? null : t; },
  key: (t, ev) => ev?.e ?? "end", describe: (t, ev) => `${t.meta.which} helper on ${t.meta.platform}, served ${t.cfg.served}: ${JSON.stringify(ev)} cannot follow ${JSON.stringify(t.ev[t.ev.indexOf(ev) - 1] ?? t.cfg.disk)}`,
});
c.finish({ schedules: plans.length, real_child_downloads: plans.filter((p) => p.calls?.some((q) => q.real != null)).length });
