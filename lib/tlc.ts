/** TLC runner: exhaustive model checking, scenario export and batch trace validation. */
import { spawnSync } from "node:child_process";
import { mkdtempSync, writeFileSync, rmSync, cpSync, readdirSync, existsSync } from "node:fs";
import { tmpdir } from "node:os";
import { join, dirname } from "node:path";
import { fileURLToPath } from "node:url";

export const VERIF = join(dirname(fileURLToPath(import.meta.url)), "..");
const SPEC = join(VERIF, "spec");
const JAR_DIR = "/opt/veriftools/tla";

export interface TlcResult { ok: boolean; states: number; distinct: number; depth: number; out: string; json: any[]; coverage: Record<string, number> }

function classpath(): string { return readdirSync(JAR_DIR).filter((f) => f.endsWith(".jar")).map((f) => join(JAR_DIR, f)).join(":"); }

export function runTlc(module: string, cfg: string, o: { env?: Record<string, string>; workers?: number | "auto"; timeoutMs?: number; args?: string[]; heap?: string; allowFail?: boolean; deadlock?: boolean } = {}): TlcResult {
  const dir = mkdtempSync(join(tmpdir(), "vtlc-"));
  try {
    for (const f of readdirSync(SPEC)) if (f.endsWith(".tla")) cpSync(join(SPEC, f), join(dir, f));
    const cfgPath = join(dir, module + ".run.cfg");
    writeFileSync(cfgPath, existsSync(join(SPEC, cfg)) ? (awaitRead(join(SPEC, cfg))) : cfg);
    const r = spawnSync("java", ["-XX:+UseParallelGC", "-Xss16m", "-Xmx" + (o.heap ?? "3g"), "-Djava.io.tmpdir=" + dir, "-cp", classpath(), "tlc2.TLC",
      "-metadir", join(dir, "states"), "-workers", String(o.workers ?? 1), "-coverage", "1", ...(o.deadlock ? [] : ["-deadlock"]), "-config", cfgPath, ...(o.args ?? []), join(dir, module + ".tla")],
      { cwd: dir, encoding: "utf8", env: { ...process.env, ...o.env }, timeout: o.timeoutMs ?? 600_000, maxBuffer: 1 << 30 });
    const out = (r.stdout ?? "") + (r.stderr ?? "");
    if (r.error != null || r.signal != null) throw new Error(`TLC ${module}: ${r.error?.message ?? r.signal}\n${out.slice(-2000)}`);
    const m = /(\d+) states generated, (\d+) distinct states found/.exec(out.split("\n").reverse().find((l) => / states generated, \d+ distinct/.test(l)) ?? "");
    const d = /depth of the complete state graph search is (\d+)/.exec(out);
    const json: any[] = [];
    for (const l of out.split("\n")) { const k = l.indexOf("@@"); if (k >= 0) { const s = l.slice(k + 2).trim().replace(/"$/, ""); try { json.push(JSON.parse(s.startsWith("{\\\"") || s.includes("\\\"") ? JSON.parse("\"" + s + "\"") : s)); } catch { throw new Error("TLC: unparsable export line: " + l.slice(0, 300)); } } }
    const coverage: Record<string, number> = {};
    for (const c of out.matchAll(/^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)/gm)) coverage[c[1]] = Math.max(coverage[c[1]] ?? 0, Number(c[4]));
    const ok = /No error has been found/.test(out) && r.status === 0;
    if (!ok && !o.allowFail) throw new Error(`TLC ${module} failed (status ${r.status}):\n${out.split("\n").filter((l) => !l.includes("@@")).slice(-60).join("\n")}`);
    return { ok, states: Number(m?.[1] ?? 0), distinct: Number(m?.[2] ?? 0), depth: Number(d?.[1] ?? 0), out, json, coverage };
  } finally { rmSync(dir, { recursive: true, force: true }); }
}
import { readFileSync } from "node:fs";
function awaitRead(p: string): string { return readFileSync(p, "utf8"); }

export interface Trace { cfg: any; ev: any[]; meta?: any }
export interface TraceVerdict { accepted: boolean[]; reached: number[]; states: number; transitions: number }
/**
 * Validate a batch of traces with spec/<module>.tla. Each trace is a TLC initial state; the trace spec advances `l`
 * through the events; the POSTCONDITION prints the furthest event reached per trace.
 */
export function validateTraces(module: string, traces: Trace[], o: { timeoutMs?: number; chunk?: number; cfg?: string } = {}): TraceVerdict {
  const res: TraceVerdict = { accepted: [], reached: [], states: 0, transitions: 0 };
  const chunk = o.chunk ?? 4000;
  for (let s = 0; s < traces.length; s += chunk) {
    const part = traces.slice(s, s + chunk).map((t) => ({ cfg: t.cfg, ev: t.ev }));
    const dir = mkdtempSync(join(tmpdir(), "vtrace-"));
    try {
      const f = join(dir, "traces.json"); writeFileSync(f, JSON.stringify(part));
      const r = runTlc(module, o.cfg ?? module + ".cfg", { env: { TRACEFILE: f }, workers: 1, timeoutMs: o.timeoutMs });
      const reg = r.json.find((x) => Array.isArray(x)) as number[] | undefined;
      if (reg == null || reg.length !== part.length) throw new Error(`TLC ${module}: no verdict registers\n${r.out.slice(-1500)}`);
      reg.forEach((n, i) => { res.reached.push(n); res.accepted.push(n === part[i].ev.length + 1); });
      res.states += r.distinct; res.transitions += r.states;
    } finally { rmSync(dir, { recursive: true, force: true }); }
  }
  return res;
}
