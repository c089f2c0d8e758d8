/** R01: trees of overlapping boxes are painted and pointed at by the real code; both orders are judged on Paint.tla. */
import { elementTreeToSvgInner } from "/repo/src/render/element-tree-to-svg.js";
import { hitTestTopmost } from "/repo/src/render/paint-order.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc } from "../lib/svgtime.js";
import { el, rgb } from "../lib/tree.js";

const c = new Check("R01");
interface N { par: number; pos: boolean; z: number; fl: boolean; disp: "block" | "inline" | "flex"; iso: boolean; txt: boolean; ord: number; x: number; y: number; w: number; h: number; point: boolean }
interface Plan { nodes: N[]; salt: number; wrap: boolean }
const W = 400; const H = 300; const AUTO = 99;
const ISO: Record<string, any>[] = [{ opacity: "0.9" }, { isolation: "isolate" }, { transformCreatesSc: true }, { filter: "blur(0px)" }, { mixBlendMode: "multiply" }, { willChange: "opacity" }, { contain: "paint" }, { perspective: "400px" }, { transformStyle: "preserve-3d" }, { clipPath: "inset(0px)" }];
const fill = (k: number, text: boolean): string => `rgb(${text ? 200 : 10}, ${k % 251}, ${40 + (k >> 8)})`;
function grow(p: Plan): any[] {
  const r = new Rng(p.salt, "grow"); const made: any[] = []; const kids: any[][] = [[]]; const roots = kids[0];
  p.nodes.forEach((n, i) => {
    const styles: any = { backgroundColor: fill(i + 1, false), color: fill(i + 1, true), fontSize: "16px", fontFamily: "monospace", position: n.pos ? r.pick(["relative", "absolute", "sticky", "relative"]) : "static", zIndex: n.z === AUTO ? "auto" : String(n.z), float: n.fl ? r.pick(["left", "right"]) : "none", display: n.disp === "flex" ? r.pick(["flex", "grid"]) : n.disp === "inline" ? r.pick(["inline-block", "inline-flex", "inline-block"]) : "block", order: "0", ...(n.point ? {} : { pointerEvents: "none" }) };
    if (styles.position === "sticky" && n.z === AUTO) styles.position = "absolute"; if (styles.display === "inline-flex" && p.nodes.some((m) => m.par === i + 1)) styles.display = "inline-block";
    if (n.iso) { const q = { ...r.pick(ISO) }; if (q.transformStyle && p.nodes.some((m) => m.par === i + 1)) q.transformStyle = "flat", q.opacity = "0.8"; Object.assign(styles, q); }
    const e: any = el({ x: n.x, y: n.y, width: n.w, height: n.h, styles }); if (n.txt) { e.textSegments = [{ text: "MMMM", x: n.x, y: n.y, width: 40, height: 18, fontAscent: 14, xOffsets: [0, 10, 20, 30].map((v) => n.x + v) }]; e.fontDescent = 4; e.text = "MMMM"; }
    made.push(e); kids.push(e.children); (n.par === 0 ? roots : made[n.par - 1].children).push(e);
  });
  // the given order is the one after `order` is applied: scatter the items and number them
  p.nodes.forEach((n, i) => { if (n.disp === "flex" && made[i].children.length > 1 && r.bool(0.4)) { made[i].children.forEach((e: any, k: number) => { e.styles.order = String(k - 1); }); r.shuffle(made[i].children as any[]).forEach((e, k) => { made[i].children[k] = e; }); } });
  return roots;
}
function record(p: Plan): Trace {
  const ev: any[] = [];
  if (p.wrap) p = { ...p, nodes: [{ par: 0, pos: false, z: AUTO, fl: false, disp: "block", iso: false, txt: false, ord: 0, x: 0, y: 0, w: W, h: H, point: true }, ...p.nodes.map((q) => ({ ...q, par: q.par + 1 }))] }; const cfg = { nodes: p.nodes };
  try {
    const doc = new SvgDoc(`<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 ${W} ${H}" width="${W}" height="${H}">${elementTreeToSvgInner(grow(p), W, H, "p-", true, 2, false)}</svg>`);
    const code = new Map<string, number>(); p.nodes.forEach((_, i) => { code.set(rgb(fill(i + 1, false)), 2 * (i + 1)); code.set(rgb(fill(i + 1, true)), 2 * (i + 1) + 1); });
    const seen: number[] = []; for (const it of doc.items(0)) { const k = code.get(rgb(it.fill)); if (k != null && it.alpha > 0.02 && seen[seen.length - 1] !== k) seen.push(k); }
    ev.push({ e: "paint", order: seen });
    const roots = grow(p); const at = new Map<any, number>(); const fills = new Map(p.nodes.map((_, i) => [fill(i + 1, false), i + 1])); const walk = (e: any): void => { const k = fills.get(e.styles.backgroundColor); if (k) at.set(e, k); e.children.forEach(walk); }; roots.forEach(walk);
    const pts = new Set<string>(); for (const a of p.nodes) for (const b of p.nodes) pts.add(`${Math.max(a.x, b.x) + 1},${Math.max(a.y, b.y) + 1}`); let n = 0;
    for (const s of [...pts].sort()) { if (n++ > 14) break; const [x, y] = s.split(",").map(Number); const h = hitTestTopmost(roots, x, y); ev.push({ e: "hit", x, y, k: h == null ? 0 : at.get(h) ?? 0 }); }
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 400) }); }
  return { cfg, ev, meta: {} };
}
const R = c.rng; const plans: Plan[] = [];
const exported = c.model("PaintMC", c.tier === "quick" ? undefined : undefined, { workers: 4, mustCover: ["Grow"] });
exported.map((e: any) => JSON.stringify(e)).sort().forEach((s: string, n: number) => {
  if ((n + c.seed) % c.n(6, 1) !== 0) return;
  const nodes = (JSON.parse(s) as N[]).map((q, i) => ({ ...q, x: 20 + 7 * i, y: 20 + 5 * i, w: 120, h: 90, point: true })); nodes.forEach((q, i) => { q.txt = !nodes.some((m) => m.par === i + 1) && q.disp !== "flex" && (n + i) % 2 === 0; });
  plans.push({ nodes, salt: n, wrap: n % 2 === 0 });
});
for (let n = 0; n < c.n(700, 8000); n++) {
  const r = new Rng(R.int(0, 2 ** 30), "paint"); const nodes: N[] = []; const depth: number[] = [];
  for (let i = 0; i < r.int(3, 11); i++) {
    let par = i; while (par > 0 && r.bool(depth[par - 1] > 3 ? 0.7 : 0.45)) par = nodes[par - 1].par; depth.push(par === 0 ? 0 : depth[par - 1] + 1);
    const pos = r.bool(0.3); const disp = r.pick(["block", "block", "block", "inline", "flex"] as const);
    nodes.push({ par, pos, z: r.bool(pos ? 0.5 : 0.15) ? r.pick([-2, -1, 0, 1, 1, 2]) : AUTO, fl: !pos && r.bool(0.2), disp, iso: r.bool(0.15), txt: false, ord: 0, x: 20 + r.int(0, 12) * 10, y: 20 + r.int(0, 8) * 10, w: r.int(5, 14) * 10, h: r.int(5, 12) * 10, point: r.bool(0.9) });
  }
  nodes.forEach((q, i) => { q.txt = !nodes.some((m) => m.par === i + 1) && q.disp !== "flex" && r.bool(0.5); if (q.disp === "inline" && q.fl) q.disp = "block"; if (q.disp === "inline" && q.pos) q.disp = "block"; });
  plans.push({ nodes, salt: R.int(0, 2 ** 30), wrap: r.bool() });
}
const traces = (await c.record(plans, record)) as Trace[];
c.validate("PaintTrace", traces, {
  corrupt: (t, r) => { const e: any = r.pick(t.ev); if (e.e === "paint") { e.order.pop(); } else if (e.e === "hit") e.k = e.k === 0 ? 1 : 0; else return null; return t; },
  key: (t, ev) => ev == null ? "end" : ev.e,
  describe: (t, ev) => `boxes ${JSON.stringify(t.cfg.nodes.map((q: any, i: number) => `${i + 1}<${q.par}${q.pos ? " pos" : ""}${q.z === AUTO ? "" : ` z${q.z}`}${q.fl ? " float" : ""}${q.disp === "block" ? "" : " " + q.disp}${q.iso ? " iso" : ""}${q.txt ? " text" : ""} @${q.x},${q.y},${q.w},${q.h}`))}: ${JSON.stringify(ev)}`,
});
c.finish({ trees: plans.length });
