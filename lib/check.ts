/** Shared driver: scenarios -> real code -> recorded traces -> TLC verdict -> evidence / VIOLATION lines. */
import { appendFileSync, mkdirSync, mkdtempSync, rmSync, writeFileSync, readFileSync, existsSync } from "node:fs";
import { join } from "node:path";
import { tmpdir } from "node:os";
import { spawn } from "node:child_process";
import { VERIF, runTlc, validateTraces, type Trace, type TlcResult } from "./tlc.js";
import { Rng } from "./rng.js";
export { Rng, runTlc, validateTraces, VERIF };
export type { Trace };

export interface Rejected { trace: Trace; reached: number; key: string; what: string }
export class Check {
  readonly t0 = Date.now(); readonly seed: number; readonly tier: "quick" | "thorough"; readonly rng: Rng;
  private known: { key: string; text: string }[] = []; private hitKnown = new Set<string>(); private nViol = 0;
  states = 0; transitions = 0; validated = 0; samples: any[] = []; extra: Record<string, any> = {}; evaluations = 0; corruptRejected = 0; corruptTried = 0;
  readonly replayArg: string | undefined;
  constructor(readonly id: string, readonly level: "model_checking" | "exploration" | "fault_enumeration" = "model_checking") {
    this.seed = Number(process.env.VERIF_SEED ?? "1") | 0; this.tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick"; this.rng = new Rng(this.seed, id);
    const f = join(VERIF, "known-findings.txt");
    if (existsSync(f)) for (const l of readFileSync(f, "utf8").split("\n")) { const m = /^finding: property=(\S+) key=(\S+) (.*)$/.exec(l); if (m && m[1] === id) this.known.push({ key: m[2], text: m[3] }); }
    const ri = process.argv.indexOf("--replay"); if (ri > 0) this.replayArg = process.argv[ri + 1];
  }
  get thorough(): boolean { return this.tier === "thorough"; }
  n(quick: number, thorough: number): number { return this.thorough ? thorough : quick; }
  log(s: string): void { if (process.env.VERIF_SHARD == null) console.log(`[${this.id} +${((Date.now() - this.t0) / 1000).toFixed(1)}s] ${s}`); }
  /** Model-check a bounded configuration; returns exported scenarios. */
  private modelCache: any[][] = []; private modelN = 0; private recN = 0; private shard = process.env.VERIF_SHARD ? JSON.parse(readFileSync(process.env.VERIF_SHARD, "utf8")) : null;
  model(module: string, cfg = module + ".cfg", o: { timeoutMs?: number; workers?: number; mustCover?: string[] } = {}): any[] {
    const mi = this.modelN++;
    if (this.shard != null) return this.shard.models[mi] ?? [];
    const r: TlcResult = runTlc(module, cfg, { workers: o.workers ?? 4, timeoutMs: o.timeoutMs ?? 800_000 });
    this.states += r.distinct; this.transitions += r.states;
    for (const a of o.mustCover ?? []) if (!(r.coverage[a] > 0)) throw new Error(`model ${module}: action ${a} never taken (vacuous)`);
    this.extra["model_" + module] = { distinct: r.distinct, generated: r.states, depth: r.depth, actions: r.coverage };
    this.log(`model ${module}: ${r.distinct} distinct states, ${r.json.length} scenarios exported`);
    this.modelCache[mi] = r.json;
    return r.json;
  }
  /** Run `fn` on every plan, spread over worker processes (each re-runs this script up to here, deterministically). */
  async record<P>(plans: P[], fn: (p: P, k: number) => any | Promise<any>, workers = 7): Promise<any[]> {
    const ri = this.recN++;
    if (this.shard != null) {
      if (this.shard.ri !== ri) return [];
      const out: any[] = []; for (let k = this.shard.i; k < plans.length; k += this.shard.n) out.push([k, await fn(plans[k], k)]);
      writeFileSync(this.shard.out, JSON.stringify(out)); process.exit(0);
    }
    if (workers <= 1 || plans.length < 24) { const out: any[] = []; for (let k = 0; k < plans.length; k++) out.push(await fn(plans[k], k)); return out; }
    const dir = mkdtempSync(join(tmpdir(), "vshard-"));
    try {
      const res: any[] = new Array(plans.length);
      await Promise.all(Array.from({ length: workers }, (_, i) => new Promise<void>((ok, bad) => {
        const cf = join(dir, i + ".cfg"); const out = join(dir, i + ".out"); writeFileSync(cf, JSON.stringify({ i, n: workers, ri, out, models: this.modelCache }));
        const ch = spawn(join(VERIF, "bin", "tsx"), [process.argv[1]], { env: { ...process.env, VERIF_SHARD: cf }, stdio: ["ignore", "ignore", "pipe"] });
        let err = ""; ch.stderr.on("data", (d) => { err = (err + d).slice(-4000); });
        ch.on("close", (code) => { if (code !== 0 || !existsSync(out)) bad(new Error(`worker ${i} failed (${code}): ${err}`)); else { for (const [k, v] of JSON.parse(readFileSync(out, "utf8"))) res[k] = v; ok(); } });
      })));
      this.log(`recorded ${plans.length} executions of the real code`);
      return res;
    } finally { rmSync(dir, { recursive: true, force: true }); }
  }
  violation(key: string, what: string, detail: any): void {
    const k = this.known.find((x) => x.key === key);
    if (k != null) { if (!this.hitKnown.has(key)) { this.hitKnown.add(key); console.log(`KNOWN-FINDING: property=${this.id} ${k.text}`); } return; }
    this.nViol++; if (process.env.VERIF_DUMP) { appendFileSync(process.env.VERIF_DUMP, JSON.stringify({ key, what, d: detail }) + "\n"); }
    if (this.nViol > 5) return;
    const dir = join(VERIF, "evidence", "replay"); mkdirSync(dir, { recursive: true });
    const p = join(dir, `${this.id}-${this.nViol}.json`); writeFileSync(p, JSON.stringify({ property: this.id, key, what, seed: this.seed, ...detail }, null, 1));
    console.log(`${this.id}: ${what}`);
    console.log(`VIOLATION property=${this.id} replay=${p}`);
  }
  /** Validate traces against spec/<module>.tla; report each rejected one. */
  validate(module: string, traces: Trace[], o: { corrupt?: (t: Trace, r: Rng) => Trace | null; corruptN?: number; key?: (t: Trace, ev: any, reached: number) => string; describe?: (t: Trace, ev: any) => string; chunk?: number; timeoutMs?: number } = {}): void {
    if (this.replayArg != null) { const j = JSON.parse(readFileSync(this.replayArg, "utf8")); if (j.scenario != null) traces = traces.filter((t) => JSON.stringify(t.meta ?? t.cfg) === JSON.stringify(j.scenario)); this.log(`replaying ${traces.length} trace(s)`); }
    if (traces.length === 0) { if (this.replayArg != null) return; throw new Error("no traces recorded for " + module); }
    const v = validateTraces(module, traces, { timeoutMs: o.timeoutMs ?? 800_000, chunk: o.chunk });
    this.states += v.states; this.transitions += v.transitions;
    let bad = 0;
    traces.forEach((t, k) => {
      if (v.accepted[k]) { this.validated++; return; }
      bad++; const ev = t.ev[v.reached[k] - 1];
      const key = o.key?.(t, ev, v.reached[k]) ?? "rejected"; const what = o.describe?.(t, ev) ?? `trace rejected at event ${v.reached[k]}/${t.ev.length}: ${JSON.stringify(ev)?.slice(0, 400)}`;
      this.violation(key, what, { spec: module, scenario: t.meta ?? t.cfg, cfg: t.cfg, rejected_event_index: v.reached[k], rejected_event: ev, previous_event: t.ev[v.reached[k] - 2], trace: t.ev });
    });
    this.log(`${module}: ${traces.length} traces (${traces.reduce((s, t) => s + t.ev.length, 0)} events), ${bad} rejected`);
    this.extra["events_" + module] = (this.extra["events_" + module] ?? 0) + traces.reduce((s, t) => s + t.ev.length, 0);
    const ok = traces.filter((_, k) => v.accepted[k]);
    if (this.samples.length < 4) for (const t of ok.slice(0, 2)) this.samples.push({ spec: module, scenario: t.meta ?? t.cfg, events: t.ev.slice(0, 3) });
    // binding self-test: corrupted observations must be rejected
    if (o.corrupt != null && ok.length > 0 && this.replayArg == null) {
      const r = new Rng(this.seed, module + "corrupt"); const cs: Trace[] = [];
      for (let k = 0; k < (o.corruptN ?? 25) * 4 && cs.length < (o.corruptN ?? 25); k++) { const t = r.pick(ok); const c = o.corrupt(JSON.parse(JSON.stringify(t)), r); if (c != null) cs.push(c); }
      if (cs.length > 0) {
        const cv = validateTraces(module, cs, { timeoutMs: o.timeoutMs ?? 800_000 });
        const missed = cv.accepted.findIndex((a) => a); this.corruptTried += cs.length; this.corruptRejected += cv.accepted.filter((a) => !a).length;
        if (missed >= 0) throw new Error(`${module}: binding self-test failed, a corrupted trace was accepted: ${JSON.stringify(cs[missed]).slice(0, 1500)}`);
      }
    }
  }
  finish(cov: Record<string, any> = {}): never {
    const known = this.known.filter((k) => this.hitKnown.has(k.key)).map((k) => k.text);
    const coverage: Record<string, any> = { samples: this.samples, ...this.extra, ...cov, binding_selftest: { corrupted: this.corruptTried, rejected: this.corruptRejected }, known_findings_seen: known, violations: this.nViol };
    if (this.level === "model_checking") Object.assign(coverage, { states: this.states, transitions: this.transitions, traces_validated_against_impl: this.validated });
    mkdirSync(join(VERIF, "evidence"), { recursive: true });
    writeFileSync(join(VERIF, "evidence", this.id + ".json"), JSON.stringify({ property: this.id, tier: this.tier, seed: this.seed, level: this.level, coverage, wall_s: (Date.now() - this.t0) / 1000 }, null, 1));
    this.log(this.nViol === 0 ? `held on everything explored (${this.validated} traces validated, ${this.states} states)` : `${this.nViol} violation(s)`);
    process.exit(this.nViol === 0 ? 0 : 1);
  }
}
