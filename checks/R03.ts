/** R03: pairs of captured trees are compared by the real code and played as a morph; both are judged on Differ.tla. */
import { diffTrees, dominantTranslate, entriesOfKind } from "/repo/src/tree-ops/tree-diff.js";
import { buildMagicMove } from "/repo/src/animation/magic-move.js";
import { elementTreeToSvgInner } from "/repo/src/render/element-tree-to-svg.js";
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc } from "../lib/svgtime.js";
import { colour, el, rgb } from "../lib/tree.js";

const c = new Check("R03");
interface N { par: number; tag: number; text: number; id: number; key: number; c: number; al: number; x: number; y: number; w: number; h: number }
interface Plan { old: N[]; new: N[]; hold: number; tr: number; bare: boolean }
const TAGS = ["", "div", "p", "li"]; const TEXTS = ["", "a", "b", "a:[]|p:b", "Row", "a:[]", "b:[]|div:"]; const IDS = ["", "hero", "x:a", "card"];
const W = 400; const H = 300; const KEYS = ["", "k1", "k2", "a,b"];
const byColour = new Map<string, number>(); for (let k = 1; k < 400; k++) byColour.set(rgb(colour(k)), k);
/** The tree, frozen, and each element's place in the list. */
function grow(list: N[]): { roots: any[]; at: Map<any, number>; paths: string[] } {
  const at = new Map<any, number>(); const made: any[] = []; const roots: any[] = []; const paths: string[] = [];
  list.forEach((n, i) => {
    const e = el({ tag: TAGS[n.tag], text: TEXTS[n.text], x: n.x / 10, y: n.y / 10, width: n.w / 10, height: n.h / 10, styles: { backgroundColor: colour(n.c), opacity: String(n.al / 1000) } });
    if (n.id) e.animId = IDS[n.id]; if (n.key) e.magicKey = KEYS[n.key];
    const home = n.par === 0 ? roots : made[n.par - 1].children; paths.push((n.par === 0 ? "" : paths[n.par - 1] + ".") + home.length); home.push(e); made.push(e); at.set(e, i + 1);
  });
  const freeze = (x: any): void => { if (x != null && typeof x === "object" && !Object.isFrozen(x)) { Object.freeze(x); Object.values(x).forEach(freeze); } }; freeze(roots);
  return { roots, at, paths };
}
const T = (v: number): number => Math.round(v * 10);
function boxes(doc: SvgDoc, t: number): any[] {
  const out: any[] = [];
  for (const it of doc.items(t)) {
    const k = byColour.get(rgb(it.fill)); if (k == null || it.shape.kind !== "rect" || it.alpha < 0.02) continue; const s = it.shape; const m = it.m;
    const x0 = m[0] * s.x + m[2] * s.y + m[4]; const y0 = m[1] * s.x + m[3] * s.y + m[5];
    out.push({ c: k, al: Math.round(it.alpha * 1000), x: T(x0), y: T(y0), w: T(m[0] * s.w), h: T(m[3] * s.h) });
  }
  return out;
}
function record(p: Plan): Trace {
  const ev: any[] = []; const a = grow(p.old); const b = grow(p.new); const before = JSON.stringify([a.roots, b.roots]);
  try {
    const one = p.bare && a.roots.length === 1 && b.roots.length === 1;
    const d = one ? diffTrees(a.roots[0], b.roots[0]) : diffTrees(a.roots, b.roots); const pathOf = (q: number[] | undefined): string => (q ?? []).join(".");
    const of = (k: string): any[] => d.entries.filter((e) => e.kind === k);
    ev.push({ e: "diff", intact: JSON.stringify([a.roots, b.roots]) === before,
      pairs: d.entries.filter((e) => e.kind !== "added" && e.kind !== "removed").map((e) => ({ o: a.at.get(e.prev) ?? 0, n: b.at.get(e.next) ?? 0, k: e.kind, dx: T(e.dx ?? 0), dy: T(e.dy ?? 0) })),
      removed: of("removed").map((e) => a.at.get(e.prev) ?? 0), added: of("added").map((e) => b.at.get(e.next) ?? 0),
      named: d.entries.every((e) => (e.prev == null ? e.prevPath == null : pathOf(e.prevPath) === a.paths[a.at.get(e.prev)! - 1]) && (e.next == null ? e.nextPath == null : pathOf(e.nextPath) === b.paths[b.at.get(e.next)! - 1])),
      filtered: ["static", "translated", "modified", "added", "removed"].every((k) => entriesOfKind(d, k as any).join() === of(k).join() && entriesOfKind(d, k as any).length === of(k).length) && entriesOfKind(d, "added", "removed").length === of("added").length + of("removed").length });
    const dom = dominantTranslate(d); ev.push({ e: "dominant", any: dom != null, dx: T(dom?.dx ?? 0), dy: T(dom?.dy ?? 0), share: Math.floor((dom?.fraction ?? 0) * 1000 + 1e-6) });
    const render = (roots: any[], pre: string): string => elementTreeToSvgInner(roots, W, H, pre, true, 2, false);
    const mm = buildMagicMove(one ? a.roots[0] : a.roots, one ? b.roots[0] : b.roots, render, "mm0-");
    ev.push({ e: "built", any: mm != null, intact: JSON.stringify([a.roots, b.roots]) === before });
    if (mm != null) {
      const plain = (r: any[]): any[] => structuredClone(r);
      const doc = new SvgDoc(generateAnimatedSvg({ width: W, height: H, frames: [
        { svgContent: render(plain(a.roots), "f0-"), duration: p.hold, transition: { type: "magic-move", duration: p.tr }, magicMove: mm },
        { svgContent: render(plain(b.roots), "f1-"), duration: p.hold, transition: { type: "cut", duration: 0 } }] } as any));
      for (const f of [0.3, 0.6, 0.9]) { const u = f * p.tr; ev.push({ e: "runs", boxes: boxes(doc, p.hold + u) }); }
      ev.push({ e: "opens", boxes: boxes(doc, p.hold + 0.12) }); ev.push({ e: "closes", boxes: boxes(doc, p.hold + p.tr - 0.12) });
    }
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 500) }); }
  return { cfg: { old: p.old, new: p.new }, ev, meta: p };
}
// ---- plans
const exported = c.model("DifferMC", c.thorough ? "DifferMC2.cfg" : undefined, { workers: 6, mustCover: ["Take", "Adopt", "Leave"] });
const plans: Plan[] = [];
exported.map((e: any) => JSON.stringify(e)).sort().forEach((s, n) => { if ((n + c.seed) % c.n(101, 61) !== 0) return; const e = JSON.parse(s); plans.push({ old: e.old, new: e.new.map((x: N) => ({ ...x, c: x.c })), hold: 1000, tr: 500, bare: false }); });
type Tree = { n: Omit<N, "par">; kids: Tree[] };
const flat = (ts: Tree[]): N[] => { const out: N[] = []; const go = (t: Tree, par: number): void => { out.push({ par, ...t.n, al: t.kids.length > 0 ? 1000 : t.n.al }); const me = out.length; t.kids.forEach((k) => go(k, me)); }; ts.forEach((t) => go(t, 0)); return out; };
function random(r: Rng): Plan {
  let n = 0; const box = (): any => ({ x: r.int(0, 60) * 50, y: r.int(0, 40) * 50, w: r.int(2, 30) * 40, h: r.int(2, 20) * 40 });
  const leaf = (): Tree => ({ n: { tag: r.int(1, 3), text: r.pick([0, 0, 1, 2, 4, 4]), id: r.bool(0.1) ? r.int(1, 3) : 0, key: r.bool(0.1) ? r.int(1, 3) : 0, c: ++n, al: r.bool(0.1) ? 500 : 1000, ...box() }, kids: [] });
  const tree = (d: number): Tree => { const t = leaf(); if (d > 0) { t.n.tag = r.bool(0.8) ? 1 : t.n.tag; if (r.bool(0.7)) t.n.text = 0; for (let k = r.int(0, 3); k > 0; k--) t.kids.push(tree(d - 1)); } return t; };
  const a: Tree[] = Array.from({ length: r.pick([1, 1, 1, 2]) }, () => tree(r.int(1, 3)));
  const all = (ts: Tree[]): { t: Tree; home: Tree[] }[] => ts.flatMap((t) => [{ t, home: ts }, ...all(t.kids)]);
  const listA = flat(a); const b: Tree[] = JSON.parse(JSON.stringify(a)); const shift = (t: Tree, dx: number, dy: number): void => { t.n.x += dx; t.n.y += dy; t.kids.forEach((k) => shift(k, dx, dy)); };
  const delta = (): number => r.pick([0, 3, 5, 6, 30, -40, 200, 415, -120, 77]);
  for (let k = r.int(0, 5); k > 0; k--) {
    const every = all(b); if (every.length === 0) break; const { t, home } = r.pick(every);
    switch (r.int(0, 11)) {
      case 0: case 1: shift(t, delta(), delta()); break;
      case 2: t.n.x += delta(); t.n.y += delta(); break;
      case 3: t.n.w = r.int(2, 30) * 40; t.n.h = r.int(2, 20) * 40; break;
      case 4: if (every.length > 1 && home.length > 0) home.splice(home.indexOf(t), 1); break;
      case 5: { const l = tree(r.int(0, 1)); home.splice(r.int(0, home.length), 0, l); break; }
      case 6: t.n.text = r.int(0, 6); break;
      case 7: t.n.c = ++n; break;
      case 8: { home.splice(home.indexOf(t), 1); const rest = all(b); const to = rest.length > 0 && r.bool(0.8) ? r.pick(rest).t.kids : b; to.splice(r.int(0, to.length), 0, t); if (r.bool()) shift(t, delta(), delta()); break; }
      case 9: home.splice(home.indexOf(t), 1); home.splice(r.int(0, home.length), 0, t); break;
      case 10: t.n.id = r.int(0, 3); t.n.key = r.int(0, 3); break;
      case 11: { const w: Tree = leaf(); w.kids = [t]; home[home.indexOf(t)] = w; break; }
    }
  }
  // texts that read like a list of elements
  if (r.bool(0.1)) { const two = (s: number, e: number): Tree => ({ ...leaf(), n: { ...leaf().n, tag: s, text: e, id: 0 } }); const host = (): Tree => ({ n: { ...leaf().n, tag: 1, text: 0, id: 0 }, kids: [] }); const h1 = host(); h1.kids = [two(2, 1), two(2, 2)]; const h2 = host(); h2.kids = [two(2, 3)]; const [p, q] = r.bool() ? [h1, h2] : [h2, h1]; listA.splice(0, listA.length, ...flat([...a, p])); b.push(q); }
  return { old: listA, new: flat(b).length > 0 ? flat(b) : listA, hold: 10 * r.int(20, 150), tr: 10 * r.int(20, 90), bare: r.bool() };
}
for (let n = 0; n < c.n(1800, 20000); n++) { const p = random(c.rng); if (p.old.length <= 14 && p.new.length <= 16) plans.push(p); }
const traces = (await c.record(plans, record)) as Trace[];
c.validate("DifferTrace", traces, {
  corrupt: (t, r) => {
    const e = r.pick(t.ev); if (e.e === "diff") { if (r.bool() && e.pairs.length > 0) { const q = r.pick(e.pairs) as any; if (r.bool()) q.k = q.k === "static" ? "translated" : "static"; else e.pairs.splice(e.pairs.indexOf(q), 1); } else e.added.push(1); }
    else if (e.e === "dominant") e.any = !e.any; else if (e.e === "built") e.any = !e.any;
    else if (e.e === "closes" || e.e === "opens") { const b = r.pick(e.boxes) as any; if (b == null) return null; b.x += 40000; } else return null; return t;
  },
  key: (t, ev) => ev?.e ?? "end",
  describe: (t, ev) => ev?.e === "opens" ? `the morph does not open as the old page: ${JSON.stringify(ev.boxes).slice(0, 300)}` : ev?.e === "closes" ? `the morph does not close as the new page: ${JSON.stringify(ev.boxes).slice(0, 300)}` : ev?.e === "runs" ? "something that does not move is missing or a moving element is off its way during the morph" : `comparison: ${JSON.stringify(ev).slice(0, 400)}`,
});
c.finish({ pairs: plans.length });
