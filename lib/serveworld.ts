/** A world for the local servers: a gated fake browser, a fake encoder, raw HTTP requests, a fenced scratch disk. */
import { chmodSync, existsSync, mkdirSync, mkdtempSync, readFileSync, readdirSync, rmSync, statSync, writeFileSync } from "node:fs";
import { request } from "node:http";
import { connect } from "node:net";
import { tmpdir } from "node:os";
import { join, relative } from "node:path";

export const tick = (): Promise<void> => new Promise((ok) => setImmediate(ok));
export const sleep = (ms: number): Promise<void> => new Promise((ok) => setTimeout(ok, ms));
type Gate = { op: string; go: (fault: string) => void };
export class World {
  ev: any[] = []; pending: Gate[] = []; auto = false; live = 0; shots: Record<number, string[]> = {}; anims: Record<number, number> = {};
  launch = async (): Promise<any> => { const f = await this.gate("launch"); this.ev.push({ e: "launch", bad: f === "" ? "" : "plain" }); if (f !== "") throw new Error("spawn chromium ENOMEM"); this.live++; return this.br = new Browser(this); };
  br: Browser | null = null;
  gate(op: string): Promise<string> { if (this.auto) return tick().then(() => ""); return new Promise((ok) => this.pending.push({ op, go: ok })); }
  /** let the oldest waiting call go on, failing it if told to; false when none comes */
  async step(fault: string): Promise<boolean> { for (let i = 0; i < 60 && this.pending.length === 0; i++) { if (i < 40) await tick(); else await sleep(1); } const g = this.pending.shift(); if (g == null) return false; g.go(fault); for (let i = 0; i < 6; i++) await tick(); return true; }
  release(): void { this.auto = true; for (const g of this.pending.splice(0)) g.go(""); }
}
const CLOSED = "Target page, context or browser has been closed";
class Browser {
  dead = false; closed = false; pages: Page[] = []; constructor(readonly w: World) { (this as any).kind = "browser"; }
  isConnected(): boolean { return !this.dead && !this.closed; }
  on(): this { return this; }
  async newContext(): Promise<any> {
    let f = await this.w.gate("context"); if (f === "bgone") { this.die(); } const bad = this.dead || this.closed ? "closed" : f !== "" ? "plain" : "";
    this.w.ev.push({ e: "context", bad }); if (bad !== "") throw new Error(bad === "closed" ? `browser.newContext: ${CLOSED}` : "browser.newContext: Protocol error (Target.createBrowserContext): out of memory");
    return { newPage: async () => { let g = await this.w.gate("page"); if (g === "bgone") this.die(); const b2 = this.dead || this.closed ? "closed" : g !== "" ? "plain" : ""; this.w.ev.push({ e: "page", bad: b2 }); if (b2 !== "") throw new Error(b2 === "closed" ? `browserContext.newPage: ${CLOSED}` : "browserContext.newPage: Protocol error (Target.createTarget)"); const p = new Page(this.w, this); this.pages.push(p); return p; }, close: async () => {} };
  }
  die(): void { if (!this.dead && !this.closed) this.w.live--; this.dead = true; for (const p of this.pages) p.dead ||= "gone"; }
  async close(): Promise<void> { if (!this.closed) { this.closed = true; if (!this.dead) this.w.live--; for (const p of this.pages) p.dead ||= "gone"; } }
}
class Page {
  dead: "" | "gone" | "crash" = ""; id = 0; private sought = false; private size = [0, 0]; constructor(readonly w: World, readonly b: Browser) {}
  isClosed(): boolean { return this.dead === "gone"; } on(): this { return this; }
  private async call<T>(name: string, op: string, a: any[], i: number, f: () => T): Promise<T> {
    const g = await this.w.gate(op); let bad = ""; let msg = "";
    if (this.dead !== "") { bad = this.dead === "crash" ? "page" : this.b.dead ? "browser" : "closed"; msg = this.dead === "crash" ? "Target crashed" : CLOSED; }
    else if (g === "crash") { this.dead = "crash"; bad = "page"; msg = "Page crashed"; } else if (g === "gone") { this.dead = "gone"; bad = "closed"; msg = CLOSED; }
    else if (g === "bgone") { this.b.die(); bad = "browser"; msg = this.w.ev.length % 2 ? CLOSED : "browser has been closed"; } else if (g !== "") { bad = "plain"; msg = "Timeout 30000ms exceeded."; }
    this.w.ev.push({ e: "call", op, a, i, bad }); if (bad !== "") throw new Error(`page.${name}: ${msg}`);
    return f();
  }
  setViewportSize(s: any): Promise<void> { return this.call("setViewportSize", "size", [s.width, s.height], 0, () => { this.size = [s.width, s.height]; }); }
  setContent(h: string): Promise<void> { const i = Number(/data-req="(\d+)"/.exec(h)?.[1] ?? 0); return this.call("setContent", "content", [], i, () => { this.id = i; this.sought = false; }); }
  evaluate(_f: any, t?: any): Promise<any> { if (typeof t !== "number" && this.sought) return tick() as any; if (typeof t !== "number") return this.call("evaluate", "anims", [], 0, () => [{ duration: this.w.anims[this.id], iterations: Infinity, endTime: Infinity }]); return this.call("evaluate", "seek", [Math.round(t * 3)], 0, () => { this.sought = true; return undefined; }); }
  screenshot(o: any): Promise<Buffer> { const c = o?.clip; const a = c == null ? [] : [c.x, c.y, c.width, c.height].map((v: number) => Math.round(v * 10)); return this.call("screenshot", "shot", a, 0, () => { const s = `PNG(${this.id}:${this.size}:${a}:${this.w.ev.length})`; (this.w.shots[this.id] ??= []).push(s); return Buffer.from(s); }); }
  async waitForTimeout(): Promise<void> {} async close(): Promise<void> { this.dead = "gone"; }
}
export interface Reply { status: number; body: Buffer; type: string }
export function ask(port: number, method: string, path: string, body: string | Buffer | null, o: { chunks?: number; cutAt?: number } = {}): Promise<Reply> {
  return new Promise((ok) => {
    const none = (): void => ok({ status: 0, body: Buffer.alloc(0), type: "" });
    const buf = body == null ? null : Buffer.isBuffer(body) ? body : Buffer.from(body, "utf8");
    const r = request({ host: "127.0.0.1", port, method, path, agent: false, headers: buf == null ? {} : { "content-length": buf.length, "content-type": "application/json" } }, (res) => { const cs: Buffer[] = []; res.on("data", (d) => cs.push(d)); res.on("end", () => ok({ status: res.statusCode ?? 0, body: Buffer.concat(cs), type: String(res.headers["content-type"] ?? "") })); res.on("error", none); });
    r.on("error", none);
    if (buf == null) { r.end(); return; }
    if (o.cutAt != null) { r.write(buf.subarray(0, o.cutAt)); setTimeout(() => r.destroy(), 3); return; }
    const n = o.chunks ?? 1; if (n <= 1) { r.end(buf); return; }
    (async () => { for (let k = 0; k < n; k++) { r.write(buf.subarray(Math.floor(buf.length * k / n), Math.floor(buf.length * (k + 1) / n))); await tick(); } r.end(); })();
  });
}
/** whether anything answers on another local address at that port */
export function elsewhere(port: number): Promise<boolean> { return new Promise((ok) => { const s = connect({ host: "127.0.0.2", port }); s.on("connect", () => { s.destroy(); ok(true); }); s.on("error", () => ok(false)); setTimeout(() => { s.destroy(); ok(false); }, 300).unref(); }); }
export function tree(dir: string): Record<string, string> { const out: Record<string, string> = {}; const go = (d: string): void => { for (const n of readdirSync(d)) { const p = join(d, n); if (statSync(p).isDirectory()) { out[relative(dir, p) + "/"] = ""; go(p); } else out[relative(dir, p)] = readFileSync(p, "latin1"); } }; go(dir); return out; }
export class Disk {
  readonly root = mkdtempSync(join(tmpdir(), "serve-")); readonly home = join(this.root, "a/b/c/home"); readonly tmp = join(this.root, "tmp"); readonly pids = join(this.root, "pids");
  constructor() { for (const d of [this.home, this.tmp, this.pids]) mkdirSync(d, { recursive: true }); writeFileSync(join(this.root, "a/b/secret.txt"), "SECRET"); writeFileSync(join(this.home, "mine.svg"), "<svg/>"); }
  encoder(mode: "ok" | "early" | "mid" | "absent" | "late"): string {
    if (mode === "absent") return join(this.root, "no-such-ffmpeg"); const p = join(this.root, "ff-" + mode);
    if (!existsSync(p)) { writeFileSync(p, `#!/bin/bash\n[ "$1" = -version ] && exit 0\necho $$ > ${this.pids}/$$\nout="\${@: -1}"\n` + ({ ok: `exec cat > "$out"\n`, early: "exit 7\n", mid: `head -c 30 >/dev/null\nexit 9\n`, late: `cat > /dev/null\necho broken >&2\nexit 3\n` } as any)[mode]); chmodSync(p, 0o755); }
    return p;
  }
  running(): number { return readdirSync(this.pids).filter((n) => { try { return !/^State:\s+Z/m.test(readFileSync(`/proc/${n}/status`, "utf8")); } catch { return false; } }).length; }
  drop(): void { for (const n of readdirSync(this.pids)) { try { if (readFileSync(`/proc/${n}/cmdline`, "utf8").includes(this.root) || /^Name:\s+cat$/m.test(readFileSync(`/proc/${n}/status`, "utf8"))) process.kill(Number(n), 9); } catch { /* gone */ } } rmSync(this.root, { recursive: true, force: true }); }
}
/** what an HTML parser would take as the text of the first script element after `from` */
export function scriptText(html: string, from = 0): string {
  const at = html.indexOf("<script>", from) + 8; let i = at, esc = 0; // 0 plain, 1 after <!--, 2 after <!-- <script
  while (i < html.length) {
    if (esc === 0 && html.startsWith("<!--", i)) { esc = 1; i += 4; if (html[i] === ">" ) esc = 0; continue; }
    if (esc > 0 && html.startsWith("-->", i)) { esc = 0; i += 3; continue; }
    if (/^<\/script[\s/>]/i.test(html.slice(i, i + 9))) { if (esc === 2) { esc = 1; i += 8; continue; } return html.slice(at, i); }
    if (esc === 1 && /^<script[\s/>]/i.test(html.slice(i, i + 8))) { esc = 2; i += 7; continue; }
    i++;
  }
  return html.slice(at);
}
