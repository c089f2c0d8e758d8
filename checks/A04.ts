/** A04: documents with overlapping names, put together by each of the real combiners, are read back and every reference followed. */
import { composeAnimatedLayers } from "/repo/src/animation/composite.js";
import { namespaceEmbeddedAnimatedSvg } from "/repo/src/animation/embed-namespace.js";
import { generateAnimatedSvg } from "/repo/src/animation/animator.js";
import { elementTreeToSvg, elementTreeToSvgInner } from "/repo/src/render/element-tree-to-svg.js";
import { inlineImgSvg } from "/repo/src/render/svg-inline.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { SvgDoc, matches, parseAnimShorthand, parseDecls, type El } from "../lib/svgtime.js";
import { el } from "../lib/tree.js";

const c = new Check("A04");
interface Part { k?: string; defs?: string[]; uses?: string[]; both?: boolean; salt: number }
interface Plan { how: "alone" | "layers" | "embed" | "inline" | "icons" | "pictures" | "frames" | "rawframes"; parts: Part[]; salt: number; frames?: boolean }
const POOL = ["a", "a-1", "ab", "b", "rotate", "fade", "opacity", "x1", "f", "f-0", "cls-1", "t0", "clip", "a0", "layer", "st0", "url", "c0_a", "c1_a", "c0_clip", "fv-0", "d1-a", "d1-b", "scale", "g"];
const SAFE = POOL.filter((n) => !/^(c\d_|d\d-)/.test(n));
interface MDoc { ids: [string, string][]; kfs: [string, string][]; rules: { r: string; ids: string[]; cls: string[]; anims: string[] }[]; els: { l: string; id: string; cls: string[]; refs: [string, string][] }[] }
interface Built { src: string; doc: MDoc; plain: string[] }

function build(p: Part, d: number, pool: string[], o: { ids?: boolean; style?: boolean; root?: boolean } = {}): Built {
  const r = new Rng(p.salt, "doc" + d); const doc: MDoc = { ids: [], kfs: [], rules: [], els: [] };
  const small = p.k != null; const rootNamed = o.root === true && !small && r.bool(); const names = r.shuffle(pool).slice(0, r.int(2, 5)); const nm = (): string => r.pick(names);
  let n = d * 1000; const num = (): number => ++n; const q = (v: string): string => r.bool(0.8) ? `"${v}"` : `'${v}'`;
  // ---- style sheet
  const css: string[] = []; const withStyle = o.style !== false && (small ? p.k !== "id" || r.bool() : r.bool(0.75));
  const kfNames = small ? (p.k === "kf" ? p.defs! : []) : r.shuffle(names).slice(0, r.int(0, 3)); if (!small && kfNames.length > 0 && r.bool(0.1)) kfNames.push(kfNames[0]);
  const sp = (): string => r.pick(["", " ", "\n  "]);
  const add = (ids: string[], cls: string[], anims: string[], ref: string | null): void => {
    const k = num(); const lab = String(k); const sels: string[] = [[ids, cls] as [string[], string[]]].map(([i, cl]) => r.pick(rootNamed ? ["", "", "*"] : ["", "*", "svg ", ".w ", "svg > .w "]) + i.map((x) => "#" + x).join("") + cl.map((x) => "." + x).join(""));
    doc.rules.push({ r: lab, ids, cls, anims });
    if (!small && r.bool(0.2)) { const more = nm(); sels.push("." + more); doc.rules.push({ r: lab, ids: [], cls: [more], anims }); }
    const decl = [`stroke-dashoffset:${sp()}${k}`, ...(r.bool(0.4) ? [r.pick(["transform:rotate(45deg)", "opacity:.5", "stroke-width: 1.5", "transition:opacity 0.2s", "transform: translate(1.5px,2px) scale(1.25)", "font-family:\"fade\""])] : [])];
    if (anims.length > 0) decl.push(r.bool(0.7) ? `animation:${sp()}${anims.map((a) => r.bool() ? `${a} 1s linear infinite` : `1.5s ease-in 0s infinite ${a}`).join(", ")}` : `animation-duration:1s;animation-name:${anims.join(",")}`);
    if (ref != null) { decl.push(`fill:url(${r.pick(["#" + ref, `"#${ref}"`, `'#${ref}'`])})`); doc.els.push({ l: "rule" + lab, id: "", cls: [], refs: [["fill", ref]] }); }
    let rule = `${sels.join(`,${sp()}`)}${sp()}{${decl.join(`;${sp()}`)}${r.bool() ? ";" : ""}}`; if (!small && r.bool(0.1)) rule = `@media screen{${rule}}`; css.push(rule);
  };
  // ---- elements
  const idNames = small ? (p.k === "id" ? p.defs! : []) : r.shuffle(names).slice(0, r.int(0, names.length)); const pick2 = (): string => r.bool(0.93) && idNames.length > 0 ? r.pick(idNames) : "zz";
  if (withStyle) {
    for (const [i, k] of kfNames.entries()) { const v = `${d}k${i}`; doc.kfs.push([k, v]); css.push(`@keyframes ${k}${sp()}{${r.pick(["0%", "from"])}{stroke-dasharray:${d}k${i}}${r.bool() ? "12.5%{opacity:.25}" : ""}100%{stroke-dasharray:${d}k${i};transform:rotate(90deg)}}`); }
    if (small && p.k === "kf") add([], ["w"], p.uses!.filter((u) => p.defs!.includes(u)), null);
    else if (small && p.k === "id") p.uses!.forEach((u) => add([u], [], [], null));
    else if (small) { if (p.uses!.length > 0) add([], p.uses!, [], null); p.uses!.forEach((u) => add([], [u], [], null)); }
    else for (let i = r.int(1, 4); i > 0; i--) { const w = r.int(0, 9); add(w < 2 ? [nm()] : w === 2 ? [nm()] : [], w < 2 ? [] : w === 3 ? [...new Set([nm(), nm()])] : [nm()], r.bool(0.4) && kfNames.length > 0 ? Array.from({ length: r.int(1, 2) }, () => r.pick(kfNames)).filter((x, j, a) => a.indexOf(x) === j) : [], o.ids !== false && r.bool(0.3) ? pick2() : null); }
  }
  const plain: string[] = []; let k = 0; let defs = ""; let body = "";
  const attrsFor = (id: string, cls: string[], refs: [string, string][]): string => {
    const l = `e${k++}`; const a: string[] = [`data-l="${d}:${l}"`]; doc.els.push({ l, id, cls, refs });
    if (id !== "") { a.push(`id=${q(id)}`); doc.ids.push([id, l]); } if (cls.length > 0) a.push(`class=${q(cls.join(r.bool(0.8) ? " " : "  "))}`);
    for (const [s, v] of refs) {
      if (s === "fill") a.push(r.pick([`fill=${q(`url(#${v})`)}`, `fill="url('#${v}')"`, `fill="url( #${v} )"`, `fill="url(&quot;#${v}&quot;)"`]));
      else if (s === "style") a.push(`style=${r.pick([`"stroke:url(#${v});stroke-width:1.5"`, `"opacity:.5; stroke: url('#${v}')"`, `"stroke: url(&quot;#${v}&quot;); opacity: .5;"`])}`);
      else if (s === "href") a.push(`${r.bool(0.7) ? "href" : "xlink:href"}=${q("#" + v)}`);
      else if (s === "begin") a.push(`begin=${q(r.bool() ? `${v}.end` : `${v}.begin+0.5s`)}`);
      else if (s === "clip-path") a.push(`clip-path=${q(`url(#${v})`)}`);
    }
    const ar = refs.filter((x) => x[0].startsWith("aria")); if (ar.length > 0) a.push(`aria-labelledby="${ar.map((x) => x[1]).join(" ")}"`);
    if (r.bool(0.25)) { const v = r.pick([`transform="rotate(${r.int(1, 80)})"`, `data-id="${nm()}"`, `data-name='${nm()}'`, `data-class="${nm()}"`, `opacity="0.5"`, `aria-label="${nm()} of ${nm()}"`]); a.push(v); }
    return r.shuffle(a).join(" ");
  };
  const cls = (): string[] => small || o.style === false ? [] : r.bool(0.5) ? [...new Set([nm(), ...(r.bool(0.3) ? [nm()] : [])])] : [];
  const refs = (): [string, string][] => { if (o.ids === false) return []; if (small) return p.k === "id" ? p.uses!.filter((u) => p.defs!.includes(u)).map((u, i) => /* a name a source only uses is its host's (shared definitions) */ [["fill", "style", "clip-path"][i % 3], u] as [string, string]) : []; const out: [string, string][] = []; for (const s of ["fill", "style", "clip-path"]) if (r.bool(0.3)) out.push([s, pick2()]); if (r.bool(0.2)) { out.push(["aria0", pick2()]); if (r.bool()) out.push(["aria1", pick2()]); } return out; };
  const TEXT = ["rotate", "plain", `file.${nm()}`, `.${nm()} { }`, `#${nm()}`, `url(#${nm()})`, `@keyframes ${nm()}`, `class="${nm()}" id="${nm()}"`, `${nm()}.end`, `begin="${nm()}.end"`, `${nm()}`, `href="#${nm()}"`, "0.5"];
  const text = (): string => r.bool(0.4) ? r.pick(TEXT) : "";
  if (o.ids !== false) for (const id of idNames) { const w = r.int(0, 3); const a = attrsFor(id, cls(), []); if (w === 0) defs += `<linearGradient ${a}><stop offset="0" stop-color="red"/></linearGradient>`; else if (w === 1) defs += `<clipPath ${a}><rect width="5" height="5"/></clipPath>`; else if (w === 2) body += `<title ${a}>${text()}</title>`; else body += `<g ${a}><rect width="2" height="2"/></g>`; }
  const m = small ? (p.k === "cls" ? p.defs!.length : 1) : r.int(1, 4);
  for (let i = 0; i < m; i++) {
    const cl = small ? (p.k === "cls" ? (p.both ? p.defs! : [p.defs![i]]) : ["w"]) : cls(); const w = small ? 0 : r.int(0, 3);
    if (w === 1 && o.ids !== false) body += `<use ${attrsFor("", cl, [["href", pick2()]])}/>`;
    else if (w === 2) body += `<text ${attrsFor("", cl, refs())}>${text()}</text>`;
    else body += `<g ${attrsFor("", cl, refs())}><rect width="3" height="3"/>${!small && o.ids !== false && r.bool(0.3) ? `<animate ${attrsFor("", [], [["begin", pick2()]])} attributeName="opacity" values="0;1" dur="1s"/>` : ""}</g>`;
  }
  let rootAttrs = ""; if (rootNamed) rootAttrs = " " + attrsFor("", cls(), r.bool(0.6) ? [["aria0", pick2()]] : refs().filter((x) => x[0] !== "clip-path"));
  const sheet = css.join(r.bool() ? "\n" : ""); const comment = r.bool(0.15) ? `/* .${nm()} rotate */` : "";
  const style = css.length === 0 ? "" : `<style${r.bool(0.3) ? ` type="text/css"` : ""}>${r.bool(0.12) ? `<![CDATA[${comment}${sheet}]]>` : comment + sheet}</style>`;
  const src = `<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="40" height="30" viewBox="0 0 40 30"${rootAttrs}>${r.bool() ? style : ""}<g class="w">${defs === "" ? "" : `<defs>${defs}</defs>`}${body}</g></svg>`;
  const full = style !== "" && !src.includes("<style") ? src.replace(/<g class="w">/, style + `<g class="w">`) : src;
  // a document never refers to its own wrapper by anything but the class w
  return { src: full, doc, plain };
}
const NAMEATTR = new Set(["id", "class", "fill", "style", "href", "xlink:href", "begin", "clip-path", "aria-labelledby"]);
/** What a read-back document says: for every labelled element and rule. */
function meaning(s: SvgDoc, d: number): { el(l: string, refs: [string, string][]): any; rules: Map<string, string[]>; els: number; same: string[] } {
  const all = s.find(() => true); const root = s.root;
  const first = (id: string): string => { const e = all.find((x) => x.attrs.id === id); return e == null ? "none" : (e.attrs["data-l"] ?? "someone else's").replace(new RegExp(`^${d}:`), ""); };
  const mine = all.filter((e) => (e.attrs["data-l"] ?? "").startsWith(d + ":"));
  const label = (decls: Map<string, { v: string }>): string | null => { const v = decls.get("stroke-dashoffset")?.v; return v == null ? null : v; };
  const kf = (n: string): string => { const st = s.sheet.keyframes.get(n); if (st == null) return "none"; return st[0].decls.get("stroke-dasharray") ?? "someone else's"; };
  const animsOf = (decls: Map<string, { v: string }>): string[] => { const v = decls.get("animation")?.v; const nm = decls.get("animation-name")?.v; return (v != null ? parseAnimShorthand(v).map((x) => x.name) : nm != null ? nm.split(",").map((x) => x.trim()) : []).map(kf); };
  const urlOf = (v: string | undefined): string | null => { const m = /url\(\s*['"]?#([^'")\s]+)['"]?\s*\)/.exec(v ?? ""); return m == null ? null : m[1]; };
  const rules = new Map<string, string[]>(); const refOfRule = new Map<string, string>(); const same: string[] = [];
  for (const ru of s.sheet.rules) { const l = label(ru.decls); if (l == null || Math.floor(Number(l) / 1000) !== d) continue; rules.set(l, animsOf(ru.decls)); const u = urlOf(ru.decls.get("fill")?.v); if (u != null) refOfRule.set(l, u); same.push(l + "{" + [...ru.decls].filter(([k]) => !/^animation/.test(k) && k !== "fill").map(([k, v]) => `${k}:${v.v}`).sort().join(";") + "}"); }
  for (const e of mine) { same.push(e.attrs["data-l"] + "<" + Object.entries(e.attrs).filter(([k]) => !NAMEATTR.has(k) && k !== "data-l" && !(e.tag === "svg")).map(([k, v]) => `${k}=${v}`).sort().join(" ") + ">" + (e.tag === "title" || e.tag === "text" ? e.ownText : "")); const st = e.attrs.style; if (st != null) same.push([...parseDecls(st)].filter(([k]) => k !== "stroke").map(([k, v]) => k + v.v).join(";")); }
  return { rules, els: mine.length, same: [...new Set(same)].sort(),
    el(l, refs) {
      if (l.startsWith("rule")) return { rules: [], refs: refs.map(([s2]) => [s2, refOfRule.has(l.slice(4)) ? first(refOfRule.get(l.slice(4))!) : "no reference"]) };
      const e = mine.find((x) => x.attrs["data-l"] === `${d}:${l}`); if (e == null) return { rules: ["missing"], refs: [] };
      const out = new Set<string>(); for (const ru of s.sheet.rules) { if (!/[.#]/.test(ru.sel)) continue; if (matches(e, ru.sel, root)) out.add(label(ru.decls) ?? "host " + ru.sel); }
      const get = (site: string): string | null => { const a = e.attrs; switch (site) { case "fill": return urlOf(a.fill); case "style": return urlOf(a.style); case "clip-path": return urlOf(a["clip-path"]); case "href": return (a.href ?? a["xlink:href"] ?? "").replace(/^#/, ""); case "begin": return /^([\w-]+)\.(end|begin)/.exec(a.begin ?? "")?.[1] ?? null; case "aria0": return (a["aria-labelledby"] ?? "").split(/\s+/)[0]; case "aria1": return (a["aria-labelledby"] ?? "").split(/\s+/)[1]; } return null; };
      return { rules: [...out].sort(), refs: refs.map(([site]) => { const g = get(site); return [site, g == null ? "no reference" : first(g)]; }) };
    } };
}
function combine(p: Plan, parts: Built[]): string {
  const r = new Rng(p.salt, "how"); const srcs = parts.map((x) => x.src);
  switch (p.how) {
    case "alone": return srcs[0];
    case "layers": {
      const lay = (svg: string): any => ({ svg, periodMs: r.pick([0, 1000]), x: r.int(0, 9), y: 3, width: 40, height: 30, start: r.pick([0, 0, 200]), mode: r.pick(["hold", "loop", "stretch"]), ...(r.bool(0.5) ? { clip: true } : {}), ...(r.bool(0.5) ? { animations: [{ property: "opacity", from: 0, to: 1, duration: 300 }, ...(r.bool() ? [{ property: "clipScaleX", from: 0.5, to: 1, duration: 300 }] : [])] } : {}) });
      const nest = srcs.length > 2 && r.bool(0.5); const base = nest ? [composeAnimatedLayers(srcs.slice(0, 2).map(lay), { width: 60, height: 50 }).svg, ...srcs.slice(2)] : srcs;
      return composeAnimatedLayers(base.map(lay), { width: 60, height: 50, durationMs: 2000 }).svg;
    }
    case "embed": return srcs[0].replace(/<\/svg>$/, srcs.slice(1).map((s, i) => namespaceEmbeddedAnimatedSvg(s, `tf${i}_`, r.bool() ? {} : { namespaceFonts: false })).join("") + "</svg>");
    case "inline": return `<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" viewBox="0 0 60 50">${srcs.map((s, i) => inlineImgSvg((r.bool(0.2) ? `<?xml version="1.0"?>\n<!-- icon -->\n` : "") + s, { x: 0, y: 0, w: 20, h: 10, par: "xMidYMid meet", intrinsic: null, idPrefix: `svgimg${i}` })).join("")}</svg>`;
    case "icons": case "pictures": return elementTreeToSvg(tree(p, srcs, r), 200, 150);
    case "frames": return generateAnimatedSvg({ width: 200, height: 150, frames: srcs.map((s, i) => ({ svgContent: elementTreeToSvgInner(tree({ ...p, frames: true, how: r.pick(["icons", "pictures"]) }, [s], r), 200, 150, `f${i}-`), duration: r.int(300, 900), transition: { type: r.pick(["crossfade", "cut", "push-left"]), duration: 200 } })) } as any);
    case "rawframes": return generateAnimatedSvg({ width: 200, height: 150, frames: srcs.map((s) => ({ svgContent: s, duration: r.int(300, 900), transition: { type: r.pick(["crossfade", "cut", "push-left"]), duration: 200 } })) } as any);
  }
}
function tree(p: Plan, srcs: string[], r: Rng): any[] {
  return [el({ x: 0, y: 0, width: 200, height: 150, styles: { backgroundColor: "rgb(9,9,9)" }, children: srcs.map((s, i) => p.how === "icons"
    ? { tag: "svg", x: 10 + i * 30, y: 10, width: 24, height: 20, svgContent: s, ...(p.salt % 3 > 0 || p.frames ? { svgReferenceScope: i } : {}) }
    : { tag: "img", x: 10 + i * 30, y: 60, width: 24, height: 20, imageSrc: `data:image/svg+xml;base64,${Buffer.from(s).toString("base64")}`, imageIntrinsic: { w: 40, h: 30 }, ...(r.bool(0.2) ? { styles: { objectFit: "none" } } : {}) }) })];
}
function record(p: Plan): Trace {
  const host = p.how === "embed"; const pool = host ? SAFE : p.how === "rawframes" || p.how === "layers" ? POOL : SAFE;
  const parts = p.parts.map((x, d) => build(x, d, pool, { style: p.how !== "rawframes", root: p.how === "inline" || p.how === "icons" || p.how === "pictures" || p.how === "embed" }));
  const ev: any[] = []; const cfg = { docs: parts.map((x) => x.doc) }; let twice = -1; let out = "";
  try {
    out = combine(p, parts); const s = new SvgDoc(out); twice = s.dupIds.length; const els: number[] = [];
    parts.forEach((x, d) => {
      const alone = meaning(new SvgDoc(x.src), d); const m = meaning(s, d); const pseudo = x.doc.els.filter((e) => e.l.startsWith("rule")).length; els.push(m.els + pseudo);
      for (const e of x.doc.els) ev.push({ e: "el", d: d + 1, l: e.l, ...m.el(e.l, e.refs) });
      for (const ru of x.doc.rules) ev.push({ e: "run", d: d + 1, r: ru.r, anims: m.rules.get(ru.r) ?? ["missing"] });
      ev.push({ e: "same", d: d + 1, was: alone.same, is: m.same });
    });
    ev.push({ e: "end", twice, els });
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 400) }); }
  if (process.env.A04_SHOW) { console.log(parts.map((x) => x.src).join("\n\n")); console.log("----\n" + out); }
  return { cfg, ev, meta: p };
}
const exported = c.model("NamesMC", undefined, { workers: 4, mustCover: ["Add", "Join"] });
const rng = c.rng; const plans: Plan[] = []; const HOWS: Plan["how"][] = ["layers", "embed", "inline", "icons", "pictures", "frames", "rawframes"];
const small = exported.map((e: any) => JSON.stringify(e)).sort(); const stride = c.n(150, 25);
small.forEach((s, n) => { if ((n + c.seed) % stride !== 0) return; const two = JSON.parse(s) as Part[]; const hows = two[0].k === "id" ? HOWS : HOWS.filter((h) => h !== "rawframes"); plans.push({ how: hows[Math.floor(n / stride) % hows.length], salt: n, parts: two.map((x, i) => ({ ...x, salt: n * 2 + i })) }); });
for (let n = 0; n < 60; n++) plans.push({ how: "alone", salt: rng.int(0, 1e9), parts: [{ salt: rng.int(0, 1e9) }] }); // the reader on the sources themselves
for (let n = 0; n < c.n(900, 9000); n++) plans.push({ how: HOWS[n % HOWS.length], salt: rng.int(0, 1e9), parts: Array.from({ length: rng.int(2, 4) }, () => ({ salt: rng.int(0, 1e9) })) });
const traces = (await c.record(plans, record)) as Trace[];
c.validate("NamesTrace", traces, {
  corrupt: (t, r) => { const e = r.pick(t.ev); if (e.e === "el") { if (e.refs.length > 0 && r.bool()) e.refs[0][1] = e.refs[0][1] === "none" ? "e0" : "none"; else e.rules = e.rules.length > 0 ? e.rules.slice(1) : ["9"]; if (e.rules.length > 0 && new Set(e.rules).size !== e.rules.length) return null; } else if (e.e === "run") e.anims = [...e.anims, "none"]; else if (e.e === "same") e.is = [...e.is, "x"]; else if (e.e === "end") e.twice = 1; return t; },
  key: (t, ev) => `${t.meta.how}-${ev?.e ?? "end"}`,
  describe: (t, ev) => ev?.e === "el" ? `${t.meta.how}: element ${ev.l} of document ${ev.d} means ${JSON.stringify([ev.rules, ev.refs]).slice(0, 300)} in the combined document` : ev?.e === "same" ? `${t.meta.how}: what is not a name changed: ${JSON.stringify(ev.was.filter((x: string) => !ev.is.includes(x))).slice(0, 300)} became ${JSON.stringify(ev.is.filter((x: string) => !ev.was.includes(x))).slice(0, 300)}` : `${t.meta.how}: ${JSON.stringify(ev).slice(0, 400)}`,
});
c.finish({ documents: plans.length });
