// One acquirer: runs the real module with every file-system step and download gated by the scheduler in the parent thread.
import { parentPort, workerData } from "node:worker_threads";
import fs from "node:fs";
import cp from "node:child_process";
import { syncBuiltinESMExports } from "node:module";
import { pathToFileURL } from "node:url";
import path from "node:path";
const cell = new Int32Array(workerData.sab); let plan = null, dead = false, hurt = false, k = 0;
let inner = 0; // node's own functions call one another; only the outermost call is a step
const R = {}; for (const n of Object.keys(fs)) if (typeof fs[n] === "function") { const f = fs[n]; R[n] = n.endsWith("Sync") ? (...a) => { inner++; try { return f.apply(fs, a); } finally { inner--; } } : f; }
const RP = {}; for (const n of Object.keys(fs.promises)) if (typeof fs.promises[n] === "function") RP[n] = fs.promises[n];
const mine = (p) => { if (inner > 0) return false; try { p = p instanceof URL ? p.pathname : Buffer.isBuffer(p) ? p.toString() : p; return typeof p === "number" ? fds.has(p) : typeof p === "string" && plan != null && path.resolve(p).startsWith(plan.dir); } catch { return false; } };
const fds = new Set();
function boom(code) { const e = new Error(code + ": injected"); e.code = code; e.errno = -5; return e; }
// wait for the scheduler's word: 1 go on, 2 the step fails, 3 the process dies here
function gate(op) {
  if (dead) throw boom("EDEAD");
  parentPort.postMessage({ op }); Atomics.wait(cell, 0, 0); const g = Atomics.exchange(cell, 0, 0);
  if (g === 2) { hurt = true; throw boom("ENOSPC"); }
  if (g === 3) { dead = true; parentPort.postMessage({ dead: true }); throw boom("EDEAD"); }
}
function write2(p, data, o, flag) {
  const buf = Buffer.isBuffer(data) ? data : data instanceof Uint8Array ? Buffer.from(data) : Buffer.from(String(data)); const half = buf.length >> 1;
  gate("write"); const fd = R.openSync(p, (o && o.flag) || flag, (o && o.mode) || 0o666);
  try { R.writeSync(fd, buf, 0, half); gate("write2"); R.writeSync(fd, buf, half, buf.length - half); } finally { R.closeSync(fd); }
}
const over = {
  writeFileSync: (p, d, o) => mine(p) ? write2(p, d, typeof o === "string" ? undefined : o, "w") : R.writeFileSync(p, d, o),
  appendFileSync: (p, d, o) => mine(p) ? write2(p, d, o, "a") : R.appendFileSync(p, d, o),
  openSync: (p, fl, m) => { if (!mine(p)) return R.openSync(p, fl, m); if (fl != null && fl !== "r") gate("open"); const fd = R.openSync(p, fl, m); fds.add(fd); return fd; },
  closeSync: (fd) => { fds.delete(fd); return R.closeSync(fd); },
  writeSync: (fd, ...a) => { if (fds.has(fd)) gate("write"); return R.writeSync(fd, ...a); },
};
for (const n of ["chmodSync", "renameSync", "copyFileSync", "mkdirSync", "linkSync", "symlinkSync", "truncateSync", "cpSync", "fchmodSync", "fsyncSync"]) over[n] = (p, ...a) => { if (mine(p)) gate(n); return R[n](p, ...a); };
// tidying up is never refused, but a dead process does not do it
for (const n of ["unlinkSync", "rmSync", "rmdirSync"]) over[n] = (p, ...a) => { if (mine(p)) { if (dead) throw boom("EDEAD"); if (!hurt) gate(n); } return R[n](p, ...a); };
Object.assign(fs, over);
const P = fs.promises;
const pover = { writeFile: async (p, d, o) => mine(p) ? write2(p, d, typeof o === "string" ? undefined : o, "w") : RP.writeFile(p, d, o) };
for (const n of ["chmod", "rename", "copyFile", "mkdir", "link"]) pover[n] = async (p, ...a) => { if (mine(p)) gate(n); return RP[n](p, ...a); };
for (const n of ["unlink", "rm"]) pover[n] = async (p, ...a) => { if (mine(p)) { if (dead) throw boom("EDEAD"); if (!hurt) gate(n); } return RP[n](p, ...a); };
Object.assign(P, pover);
const realSpawn = cp.spawnSync; let spawns = 0;
cp.spawnSync = (cmd, args, o) => {
  const s = plan?.calls?.[k]; if (s == null) return realSpawn(cmd, args, o);
  spawns++; if (s.real != null) return realSpawn(cmd, args, { ...o, env: { ...process.env, ...plan.childEnv, ACQ_SERVED: s.real } });
  if (s.installs) for (const f of plan.files) { R.mkdirSync(path.dirname(f.path), { recursive: true }); R.writeFileSync(f.path, f.body); R.chmodSync(f.path, 0o755); }
  return { status: s.status, signal: s.status === null ? "SIGTERM" : null, stdout: "", stderr: "", error: s.status === null ? boom("ETIMEDOUT") : undefined };
};
syncBuiltinESMExports();
globalThis.fetch = async (url) => {
  gate("fetch"); const r = plan.serve[path.basename(new URL(url).pathname)];
  if (r == null) return { ok: false, status: 404, arrayBuffer: async () => new ArrayBuffer(0), text: async () => "not found" };
  if (r.err) throw new TypeError("fetch failed");
  const body = Buffer.from(r.body, "latin1");
  return { ok: r.status < 400, status: r.status, headers: new Headers(), arrayBuffer: async () => { if (r.cut) throw new TypeError("terminated"); return body.buffer.slice(body.byteOffset, body.byteOffset + body.length); }, bytes: async () => { if (r.cut) throw new TypeError("terminated"); return new Uint8Array(body); }, text: async () => { if (r.cut) throw new TypeError("terminated"); return body.toString("latin1"); } };
};
const realErr = process.stderr.write.bind(process.stderr); let warned = 0;
process.stderr.write = (s, ...a) => { if (plan != null) { if (/WARNING|warn/i.test(String(s))) warned++; return true; } return realErr(s, ...a); };
parentPort.on("message", async (m) => {
  plan = m; dead = false; hurt = false; k = 0; spawns = 0; warned = 0; fds.clear();
  Object.defineProperty(process, "pid", { value: m.pid, configurable: true });
  const mod = await import(pathToFileURL(m.bundle).href + "?" + m.n);
  const acquire = m.which === "icu" ? mod.acquireIcuCompanion : mod.acquireGlyphHelper, sync = m.which === "icu" ? mod.acquireIcuCompanionSync : mod.acquireGlyphHelperSync;
  if (m.calls != null) {
    const out = [];
    for (k = 0; k < m.calls.length; k++) {
      const before = spawns; let r; if (m.calls[k].remove) for (const f of m.files) R.rmSync(f.path, { force: true });
      try { const v = sync(m.opts); r = v === m.files[m.files.length - 1].path ? "path" : v === undefined ? "null" : "odd"; } catch { r = "threw"; }
      out.push({ r, tried: spawns > before, warned, disk: m.files.map((f) => state(f)) });
    }
    plan = null; parentPort.postMessage({ out }); return;
  }
  let r; try { const v = await acquire(m.opts); r = v === m.files[m.files.length - 1].path ? "path" : v === null ? "null" : "odd"; } catch { r = "threw"; }
  parentPort.postMessage({ ret: dead ? "dead" : r, hurt });
});
function state(f) { try { const b = R.readFileSync(f.path, "latin1"); return b === "OLD" ? "old" : b !== f.body ? "bad" : f.exec && (R.statSync(f.path).mode & 0o111) !== 0o111 ? "noexec" : "good"; } catch { return "none"; } }
parentPort.postMessage({ ready: true });
