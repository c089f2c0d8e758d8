/** S01: every script the model enumerates is written in the grammar, parsed and executed by the real executor on a fake page. */
import { parseScrollPattern } from "/repo/src/scroll/pattern.js";
import { executeScrollPattern } from "/repo/src/scroll/executor.js";
import { diffTrees } from "/repo/src/tree-ops/tree-diff.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { FakePage } from "../lib/fakepage.js";

const c = new Check("S01");
interface Plan { page: any; prog: any[]; speed: number; salt: number; vis?: boolean; inner?: boolean; prescroll?: boolean }

// ---- independent writer for the documented grammar (docs/37)
const num = (n: number): string => String(n);
function dur(ms: number, r: Rng): string { return ms % 100 === 0 && r.bool() ? `${ms / 1000}s` : `${ms}ms`; }
function target(t: any, r: Rng): string {
  if (t.k === "delta") return (t.sign < 0 ? "-" : "") + num(t.v) + t.unit;
  const sp = r.bool() ? " " : "";
  return (/^(top|bottom|left|right|start|end)$/.test(t.anchor) ? t.anchor : `selector("#${t.anchor}")`) + (t.sfx ? "." + t.sfx : "") + t.offs.map((o: any) => `${o.sign < 0 ? " " : sp}${o.sign < 0 ? "-" : "+"}${sp}${num(o.v)}${o.unit}`).join("");
}
function action(a: any, r: Rng): string {
  if (a.k === "pause") return (r.bool(0.3) ? "pause:" : "") + dur(a.ms, r);
  return (a.dir ? a.dir + ":" : "") + target(a.target, r) + (a.ms >= 0 ? "/" + dur(a.ms, r) : a.pps > 0 ? `@${a.pps}pxps` : "") + (a.ease ? `[${a.ease}]` : "");
}
const until = (u: any, r: Rng): string => u.k === "none" ? "" : u.k === "count" ? ` until ${u.n} times` : ` until ${target(u.target, r)}`;
function write(nodes: any[], r: Rng): string {
  const out: string[] = []; let flat = true;        // may the next group be written without parentheses?
  nodes.forEach((n, i) => {
    if (n.k !== "group") { out.push(action(n, r)); flat = false; return; }
    const bare = flat && n.body.every((b: any) => b.k !== "group") && (n.until.k !== "none" || nodes.slice(i + 1).every((m) => m.k === "group")) && r.bool();
    // a bare group without a repeat must not absorb what follows
    if (bare && n.until.k === "none" && i + 1 < nodes.length) { out.push(n.body.map((b: any) => action(b, r)).join(",")); flat = false; return; }
    out.push(bare ? n.body.map((b: any) => action(b, r)).join(r.bool() ? "," : ", ") + until(n.until, r) : `(${write(n.body, r)})${until(n.until, r)}`); flat = true;
  });
  return out.join(r.bool() ? "," : ", ");
}
const r6 = (v: number): number => Math.round(v * 1e6) / 1e6; // percentages of a page size are exact here up to float error
// ---- the page
function fake(p: Plan): { page: FakePage; st: any } {
  const st = { x: 0, y: 0, mx: p.page.mx, my: p.page.my, left: 0, ver: 0 };
  const page = new FakePage({ width: p.page.vw, height: p.page.vh, html: `<div id="sc"></div>` + Object.keys(p.page.sel).map((s) => `<i id="${s}"></i>`).join(""),
    captureScript: () => ({ tree: [{ tag: "div", x: 0, y: 0, width: p.page.vw, height: p.page.vh, styles: {}, children: [], text: `${st.x},${st.y},${st.ver}` }], warnings: [] }) });
  const w = page.win; const d = w.document; const def = (o: any, k: string, get: () => any, set?: (v: any) => void): void => { Object.defineProperty(o, k, { configurable: true, get, set: set ?? (() => {}) }); };
  const land = (x: number, y: number): void => { st.x = Math.max(0, Math.min(st.mx, x)); st.y = Math.max(0, Math.min(st.my, y)); if (st.left > 0 && st.y === st.my) { st.my += p.page.grow; st.left--; } };
  const box = p.inner ? d.getElementById("sc") : d.documentElement;
  def(box, "scrollWidth", () => st.mx + p.page.vw); def(box, "clientWidth", () => p.page.vw); def(box, "scrollHeight", () => st.my + p.page.vh); def(box, "clientHeight", () => p.page.vh);
  def(box, "scrollLeft", () => st.x, (v) => land(v, st.y)); def(box, "scrollTop", () => st.y, (v) => land(st.x, v));
  const OX = p.inner ? 37 : 0; const OY = p.inner ? 53 : 0;
  const to = (a: any, b?: any): void => { const o = typeof a === "object" ? a : { left: a, top: b }; land(o.left ?? st.x, o.top ?? st.y); };
  const by = (a: any, b?: any): void => { const o = typeof a === "object" ? a : { left: a, top: b }; land(st.x + (o.left ?? 0), st.y + (o.top ?? 0)); };
  if (p.inner) { box.scrollTo = to; box.scroll = to; box.scrollBy = by; box.getBoundingClientRect = () => ({ x: OX, y: OY, left: OX, top: OY, width: p.page.vw, height: p.page.vh, right: OX + p.page.vw, bottom: OY + p.page.vh }); }
  else { for (const k of ["scrollX", "pageXOffset"]) def(w, k, () => st.x); for (const k of ["scrollY", "pageYOffset"]) def(w, k, () => st.y); w.scrollTo = to; w.scroll = to; w.scrollBy = by; }
  for (const [s, b] of Object.entries(p.page.sel) as any) d.getElementById(s).getBoundingClientRect = () => { const left = OX + b.x - st.x; const top = OY + b.y - st.y; return { x: left, y: top, left, top, width: 20, height: 10, right: left + 20, bottom: top + 10 }; };
  page.o.fault = (call) => { if (call.op === "wait" && p.vis) st.ver++; };
  return { page, st };
}
async function record(p: Plan): Promise<Trace> {
  const r = new Rng(p.salt, "write"); const src = write(p.prog, r); const ev: any[] = [];
  const { page, st } = fake(p); if (p.prescroll !== true) st.left = p.page.left;
  try {
    const pattern = parseScrollPattern(src); let first = true; let nw = 0;
    const opts: any = { viewportW: p.page.vw, viewportH: p.page.vh, prescroll: p.prescroll === true, embedImages: p.salt % 2 === 0, ...(p.inner ? { selector: "#sc" } : {}), ...(p.speed !== 1500 || r.bool() ? { defaultSpeed: p.speed } : {}), maxTimeoutMs: 600_000 };
    const cap = page.o.captureScript!; let ncap = 0;
    page.o.captureScript = (q) => { if (first && p.prescroll) { first = false; st.left = p.page.left; nw = page.waits.length; } if (++ncap > 150) throw new Error("too long"); page.calls.length = 0; return cap(q); };
    const segs = await executeScrollPattern(page as any, pattern, opts);
    void nw;
    segs.forEach((s, k) => {
      const [sx, sy, ver] = String((s.tree[0] as any).text).split(",").map(Number);
      const e = s.easing as any; const ease = e == null ? "" : e.kind === "named" ? e.name : e.kind === "steps" ? `steps(${e.count}${e.position ? `, ${e.position}` : ""})` : `cubic-bezier(${e.values.join(", ")})`;
      const want = k === 0 ? null : diffTrees(segs[k - 1].tree, s.tree);
      ev.push({ e: k === 0 ? "first" : "seg", x: r6(s.scrollX), y: r6(s.scrollY), start: s.segmentStartMs, end: s.segmentEndMs, seenx: r6(sx), seeny: r6(sy), ver, ease, diffok: JSON.stringify(want) === JSON.stringify(s.diffFromPrev ?? null) });
    });
    ev.push({ e: "end", x: r6(st.x), y: r6(st.y), waited: page.waits.reduce((a, b) => a + b, 0) - (p.prescroll ? page.waits.slice(0, 2).reduce((a, b) => a + b, 0) : 0) });
  } catch (err) { ev.push({ e: "error", kind: (err as Error).name, msg: String((err as Error).message).slice(0, 200) }); if (process.env.VERIF_DEBUG) console.error(src, (err as Error).stack); }
  return { cfg: { page: p.page, prog: p.prog, speed: p.speed, vis: p.vis === true }, ev, meta: { script: src, ...p } };
}
// ---- scenarios
const exported = c.model("ScrollMC", undefined, { workers: 8, mustCover: ["DoEnter", "DoOnce", "DoCount", "DoUntil", "DoBegin", "DoLand", "DoPause", "DoFinish"] });
const plans: Plan[] = []; const seen = new Set<string>();
for (const [n, p] of exported.sort((a, b) => JSON.stringify(a) < JSON.stringify(b) ? -1 : 1).entries()) { const k = JSON.stringify(p); if (seen.has(k)) continue; seen.add(k); if (!c.thorough && (n + c.seed) % 5 !== 0) continue; plans.push({ ...p, salt: n, vis: n % 3 === 0, inner: n % 4 === 1, prescroll: n % 11 === 0 }); }
const nEnum = plans.length; const rng = c.rng; const EASE = ["linear", "ease-in", "ease-out", "step-end", "cubic-bezier(0.4, -0.5, 0.2, 1)", "steps(3)", "steps(4, jump-none)"];
function rTarget(maxes: any, forUntil: boolean): any {
  if (!forUntil && rng.bool(0.55)) return rng.bool(0.75) ? { k: "delta", sign: rng.pick([1, 1, -1]), v: rng.int(1, 90) * 10 + rng.int(0, 9), unit: "px" } : { k: "delta", sign: rng.pick([1, 1, -1]), v: rng.int(0, 130), unit: "%" };
  const anchor = rng.pick(["top", "bottom", "left", "right", "start", "end", "s1", "s2", "s3", ...(rng.bool(0.03) ? ["gone"] : [])]);
  const offs = Array.from({ length: rng.pick([0, 0, 1, 1, 2]) }, () => ({ sign: rng.pick([1, -1]), v: rng.bool(0.7) ? rng.int(0, 600) : rng.int(0, 60), unit: "px" as string }));
  for (const o of offs) if (rng.bool(0.3)) { o.unit = "%"; o.v = o.v % 100; }
  return { k: "abs", anchor, sfx: /^(start|end|s\d)$/.test(anchor) ? rng.pick(["", "", "x", "y"]) : "", offs };
}
function rAct(m: any): any {
  if (rng.bool(0.22)) return { k: "pause", ms: rng.pick([1000, 250, 700, 2000, 0, 33]) };
  const t = rTarget(m, false); let dir = rng.bool(0.5) ? rng.pick(["up", "down", "left", "right"]) : "";
  if (t.k === "abs" && dir !== "" && t.sfx !== "") { const ax = /up|down/.test(dir) ? "y" : "x"; if (t.sfx !== ax) t.sfx = ""; }
  const mode = rng.int(0, 3);
  return { k: "scroll", dir, target: t, ms: mode === 0 ? rng.pick([0, 1000, 333, 1700, 57, 5000]) : -1, pps: mode === 1 ? rng.pick([300, 800, 1333, 2500]) : 0, ease: rng.bool(0.25) ? rng.pick(EASE) : "" };
}
function rUntil(m: any): any { const k = rng.int(0, 9); return k < 2 ? { k: "none" } : k < 5 ? { k: "count", n: rng.int(1, 4) } : { k: "pos", target: rTarget(m, true) }; }
function rNodes(m: any, depth: number): any[] {
  const n = rng.int(1, depth === 0 ? 4 : 3); const out: any[] = [];
  for (let i = 0; i < n; i++) out.push(depth < 3 && rng.bool(depth === 0 ? 0.7 : 0.3) ? { k: "group", body: rNodes(m, depth + 1), until: rUntil(m) } : rAct(m));
  return out;
}
// the grammar needs a run of plain actions before a bracketed group to be a flat segment: always wrap as groups at top level
const norm = (ns: any[]): any[] => ns.map((n) => n.k === "group" ? { ...n, body: norm(n.body) } : n);
for (let n = 0; n < c.n(350, 6000); n++) {
  const page = { mx: rng.pick([0, 500, 1200]), my: rng.pick([0, 300, 1200, 2600, 5100]), vw: rng.pick([400, 333]), vh: rng.pick([300, 700]), grow: 0, left: 0, sel: { s1: { x: 100, y: 800 }, s2: { x: 650, y: 150 }, s3: { x: 0, y: 3000 } } as any };
  if (rng.bool(0.25)) { page.grow = rng.pick([100, 700]); page.left = rng.int(1, 3); }
  plans.push({ page, prog: norm(rNodes(page, 0)), speed: rng.pick([1500, 1500, 600, 777]), salt: rng.int(0, 1e9), vis: rng.bool(0.4), inner: rng.bool(0.3), prescroll: rng.bool(0.15) });
}
const all = (await c.record(plans, record)) as Trace[];
// random scripts that legitimately run for hundreds of stops are dropped (enumerated ones never do)
const traces = all.filter((t, k) => !(k >= nEnum && t.ev[0]?.msg === "too long"));
c.validate("ScrollTrace", traces, {
  corrupt: (t, r) => { const ss = t.ev.filter((e) => e.e === "seg"); if (ss.length === 0) return null; const e = r.pick(ss); const k = r.int(0, 3); if (k === 0) e.y += 7; else if (k === 1) e.end += 5; else if (k === 2) t.ev.splice(t.ev.indexOf(e), 1); else e.seenx += 1; return t; },
  describe: (t, ev) => `script "${(t.meta as any).script}" on page ${JSON.stringify(t.cfg.page)}: executor did ${JSON.stringify(ev)}, which the script does not call for`,
});
c.finish({ scripts: plans.length, dropped_too_long: all.length - traces.length });
