/** R04: documents written from the model's image lists (plus seeded decorations) go through the real sharing pass. */
import { hoistDuplicateImagePayloads } from "/repo/src/post-processing/hoist-image-payloads.js";
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc, parseXml, type El } from "../lib/svgtime.js";

const c = new Check("R04");
interface Img { p: number; w: number; h: number; par: number; x: number; y: number; clip: number; tr: number; big: boolean; plain: boolean }
interface Plan { images: Img[]; salt: number; deco: boolean; frames?: boolean }
const payload = (p: number, big: boolean): string => `data:image/png;base64,${String.fromCharCode(64 + p).repeat(big ? 300 : 20)}`;
const W = 200; const H = 120; const MIN = 256;
function write(p: Plan): string {
  const r = new Rng(p.salt, "img"); let defs = `<clipPath id="cl1"><rect x="10" y="8" width="22" height="9"/></clipPath><clipPath id="cl2"><circle cx="50" cy="20" r="12"/></clipPath><mask id="mk"><rect width="100" height="100" fill="white"/></mask><filter id="fl"><feGaussianBlur stdDeviation="1"/></filter>`;
  let css = `@keyframes va{0%{visibility:visible}50%{visibility:hidden}100%{visibility:hidden}}.va{animation:va 1s step-end infinite}@keyframes ta{0%{transform:translate(0px,0px)}100%{transform:translate(20px,0px)}}.ta{animation:ta 1s linear infinite}@keyframes oa{0%{opacity:0}100%{opacity:1}}.oa{animation:oa 1s linear infinite}`;
  let body = "";
  p.images.forEach((i, k) => {
    const a: string[] = []; let kids = ""; const put = (s: string): void => { a.push(s); };
    put(`href="${payload(i.p, i.big)}"`); const size = (v: number): string => p.deco && r.bool(0.12) ? `${v}${r.pick(["%", "px", ".0"])}` : String(v);
    put(`width="${size(i.w)}"`); put(`height="${size(i.h)}"`);
    if (i.x !== 0 || r.bool()) put(`x="${i.x}"`); put(`y="${i.y}"`);
    if (i.par) put(`preserveAspectRatio="none"`); if (i.clip) put(`clip-path="url(#cl${i.clip})"`); if (i.tr) put(`transform="translate(3,${i.tr}) scale(1.5)"`);
    if (p.deco) {
      if (r.bool(0.25)) put(`opacity="0.${r.int(2, 8)}"`); if (r.bool(0.15)) put(`class="${r.pick(["va", "ta", "oa"])}"`); else if (r.bool(0.15)) put(`style="${r.pick(["opacity:0.5", "transform:translate(5px,6px)", "visibility:hidden", "animation:va 1s step-end infinite"])}"`);
      if (r.bool(0.1)) put(`mask="url(#mk)"`); if (r.bool(0.1)) put(`filter="url(#fl)"`); if (r.bool(0.15)) put(`id="im${k}"`); if (r.bool(0.1)) put(`visibility="${r.pick(["hidden", "visible"])}"`); if (r.bool(0.1)) put(`image-rendering="pixelated"`);
      if (r.bool(0.15)) kids = `<title>a${r.bool() ? " &gt; b" : ""}</title>`; if (r.bool(0.1)) kids += `<animate attributeName="opacity" values="0;1" dur="1s" repeatCount="indefinite"/>`; if (r.bool(0.04)) kids += `<animate attributeName="x" values="0;30" dur="1s" repeatCount="indefinite"/>`;
      if (r.bool(0.1)) put(`data-x="1 &gt; 0"`);
    }
    const order = p.deco ? r.shuffle(a) : a; const sp = r.bool(0.2) ? "\n  " : " ";
    if (!i.plain) order[0] = order[0].replace(/="([^"]*)"/, "='$1'");
    let el = `<image ${order.join(sp)}${kids || r.bool(0.1) ? `>${kids}</image>` : "/>"}`;
    if (p.deco) { const w = r.int(0, 9); if (w === 0) el = `<g transform="translate(${r.int(1, 9)},0)">${el}</g>`; else if (w === 1) el = `<g class="va">${el}</g>`; else if (w === 2) el = `<g clip-path="url(#cl2)" opacity="0.9">${el}</g>`; else if (w === 3) { defs += `<g id="sym${k}">${el}</g>`; el = `<use href="#sym${k}" x="5"/><use href="#sym${k}" y="50"/>`; } else if (w === 4) el = `<svg x="10" y="5" width="60" height="40" viewBox="0 0 60 40">${el}</svg>`; }
    body += el + (r.bool(0.3) ? `<rect x="${r.int(0, 50)}" y="0" width="10" height="10" fill="blue"/>` : "");
  });
  if (p.deco) { if (r.bool(0.3)) defs += `<path id="dmi${r.int(0, 1)}" d="M0 0h1v1z"/>`; if (r.bool(0.1)) defs += `<path id='dmi0q' d="M0 0h1v1z"/>`; }
  const head = r.bool(0.3) ? `<title>pic &amp; more</title>${r.bool() ? "<desc>d</desc>" : ""}` : "";
  return `${r.bool(0.3) ? `<?xml version="1.0" encoding="UTF-8"?>\n` : ""}<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 ${W} ${H}" width="${W}" height="${H}">${head}<style>${css}</style><defs>${defs}</defs>${body}</svg>`;
}
/** Painted images (and other shapes, for order) at t: payload, box on the page, opacity, effects in their own space, clip coverage. */
function painted(d: SvgDoc, t: number): any[] {
  return d.items(t).map((it) => {
    const s = it.shape as any; const q = (v: number): number => Math.round(v * 100); const [x0, y0] = [it.m[0] * (s.x ?? 0) + it.m[2] * (s.y ?? 0) + it.m[4], it.m[1] * (s.x ?? 0) + it.m[3] * (s.y ?? 0) + it.m[5]];
    const eff: any[] = []; let m: any = null;
    for (const e of it.chain) { for (const n of ["mask", "filter"]) { const v = d.own(e, n, t) ?? e.attrs[n]; if (v != null) eff.push([n, v, ...d.matrix(e, t).map(q)]); } const ir = e.attrs["image-rendering"]; if (ir != null) m = ir; }
    if (m != null) eff.push(m);
    let cover = ""; for (let a = 0; a < 6; a++) for (let b = 0; b < 4; b++) { const px = x0 + it.m[0] * (s.w ?? 0) * (a + 0.5) / 6; const py = y0 + it.m[3] * (s.h ?? 0) * (b + 0.5) / 4; cover += SvgDoc.covered(it, px, py) ? "1" : "0"; }
    const title = [...it.chain].reverse().map((e) => e.kids.find((k) => k.tag === "title")?.text).find((x, n, arr) => x != null && arr.length - n > 1) ?? "";
    return [it.tag, it.href != null ? `${it.href.slice(-3)}${it.href.length}` : it.fill, q(x0), q(y0), q(it.m[0] * (s.w ?? 0)), q(it.m[3] * (s.h ?? 0)), it.el.attrs.preserveAspectRatio ?? "", Math.round(it.alpha * 1000), cover, eff, title].map((v) => JSON.stringify(v)).join("|");
  });
}
function record(p: Plan): Trace {
  const ev: any[] = [];
  try {
    let src: string; let min: number | undefined;
    if (p.frames) {
      const r = new Rng(p.salt, "fr"); const plates = [1, 2, 3].map((q) => `data:image/png;base64,${String.fromCharCode(64 + q).repeat(60)}`);
      const frames = Array.from({ length: r.int(2, 5) }, (_, k) => ({ svgContent: Array.from({ length: r.int(1, 4) }, () => `<image href="${r.pick(plates)}" x="${r.pick([0, 20, 60])}" y="${r.pick([0, 30])}" width="${r.pick([40, 60])}" height="40"${r.bool(0.5) ? ` preserveAspectRatio="none"` : ""}${r.bool(0.3) ? ` clip-path="url(#c${k})"` : ""}/>`).join("") + `<clipPath id="c${k}"><rect x="5" y="5" width="30" height="50"/></clipPath>`, duration: r.int(200, 900), transition: { type: r.pick(["crossfade", "cut", "push-left", "iris"]), duration: 300 } }));
      src = generateAnimatedSvg({ width: W, height: H, frames } as any); min = 20;
    } else src = write(p);
    const out = hoistDuplicateImagePayloads(src, min != null ? { minPayloadChars: min } : p.salt % 3 === 0 ? { minPayloadChars: MIN } : undefined);
    const a = new SvgDoc(src); const b = new SvgDoc(out);
    const imgs = b.find((e) => e.tag === "image"); const uses = b.find((e) => e.tag === "use").length - a.find((e) => e.tag === "use").length;
    const dangling = b.find((e) => e.tag === "use").filter((e) => !b.ids.has((e.attrs.href ?? e.attrs["xlink:href"] ?? "").slice(1))).length;
    ev.push({ e: "result", dups: Math.max(0, b.dupIds.length - a.dupIds.length), dangling, again: hoistDuplicateImagePayloads(out, min != null ? { minPayloadChars: min } : {}) === out, images: imgs.length, uses, same: out === src });
    const per = a.periods()[0] ?? 1000;
    for (const f of p.frames ? [0.02, 0.2, 0.4, 0.55, 0.7, 0.9] : [0.1, 0.6, 0.9]) ev.push({ e: "painted", before: painted(a, f * per), after: painted(b, f * per) });
    // the accessible name stays first
    const name = (e: El): string => e.kids[0]?.tag === "title" ? e.kids[0].text : ""; ev.push({ e: "painted", before: [name(a.root)], after: [name(b.root)] });
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 500) }); }
  if (p.deco || p.frames) for (const e of ev) if (e.before) { /* compared item by item */ }
  return { cfg: { images: p.deco || p.frames ? [] : p.images }, ev, meta: p };
}
void parseXml;
const exported = c.model("ShareMC", undefined, { workers: 4, mustCover: ["Keep", "Define", "Refer"] });
const plans: Plan[] = []; const rng = c.rng;
exported.map((e: any) => JSON.stringify(e)).sort().forEach((s, n) => { if (!c.thorough && (n + c.seed) % 4 !== 0) return; plans.push({ images: JSON.parse(s), salt: n, deco: false }); });
for (let n = 0; n < c.n(600, 6000); n++) plans.push({ deco: true, salt: rng.int(0, 1e9), images: Array.from({ length: rng.int(2, 7) }, () => ({ p: rng.int(1, 3), w: rng.pick([20, 20, 30]), h: 20, par: rng.int(0, 1), x: rng.pick([0, 4, 40]), y: rng.pick([5, 12]), clip: rng.pick([0, 0, 1, 2]), tr: rng.pick([0, 0, 4]), big: rng.bool(0.9), plain: rng.bool(0.93) })) });
for (let n = 0; n < c.n(60, 600); n++) plans.push({ images: [], salt: rng.int(0, 1e9), deco: false, frames: true });
const traces = (await c.record(plans, record)) as Trace[];
c.validate("ShareTrace", traces, {
  corrupt: (t, r) => { const e = r.pick(t.ev); if (e.e === "painted") { if (e.after.length === 0) return null; const j = r.int(0, e.after.length - 1); if (r.bool()) e.after.splice(j, 1); else e.after[j] += "x"; } else if (e.e === "result") { if (r.bool() && t.cfg.images.length > 0) e.images++; else e.again = false; } return t; },
  key: (t, ev) => ev?.e === "painted" ? "picture" : ev?.e ?? "end",
  describe: (t, ev) => ev?.e === "painted" ? `sharing changed the picture: ${JSON.stringify(ev.before.find((x: string, k: number) => x !== ev.after[k]) ?? ev.after)} became ${JSON.stringify(ev.after.find((x: string, k: number) => x !== ev.before[k]) ?? "nothing")}` : `sharing: ${JSON.stringify(ev)}`,
});
c.finish({ documents: plans.length });
