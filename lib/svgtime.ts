/**
 * Independent evaluator for the animated SVGs domotion emits: parses the SVG and its CSS from scratch and answers
 * "what is painted at time t". It shares no code with /repo. It is the observer of the conformance checks: it turns
 * an output document into the (time, what is visible where) events that the TLA+ trace specs validate.
 */
export interface El { tag: string; attrs: Record<string, string>; kids: El[]; parent: El | null; text: string; idx: number; ownText: string }

// ---------------------------------------------------------------- XML
function decodeEnt(s: string): string {
  return s.replace(/&(#x[0-9a-fA-F]+|#\d+|amp|lt|gt|quot|apos|nbsp);/g, (_, e: string) => {
    if (e[0] === "#") return String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
    return ({ amp: "&", lt: "<", gt: ">", quot: "\"", apos: "'", nbsp: "\u00a0" } as Record<string, string>)[e]!;
  });
}
/** Strict parser: throws on unbalanced tags, duplicate attributes, stray `<`. */
export function parseXml(src: string): El {
  let i = 0; let idx = 0;
  const root: El = { tag: "#doc", attrs: {}, kids: [], parent: null, text: "", idx: idx++, ownText: "" };
  let cur = root;
  while (i < src.length) {
    const lt = src.indexOf("<", i);
    if (lt < 0) { cur.text += src.slice(i); break; }
    if (lt > i) { const tx = decodeEnt(src.slice(i, lt)); cur.text += tx; cur.ownText += tx; }
    if (src.startsWith("<!--", lt)) { const e = src.indexOf("-->", lt); if (e < 0) throw new Error("xml: unterminated comment"); i = e + 3; continue; }
    if (src.startsWith("<![CDATA[", lt)) { const e = src.indexOf("]]>", lt); if (e < 0) throw new Error("xml: unterminated cdata"); cur.text += src.slice(lt + 9, e); cur.ownText += src.slice(lt + 9, e); i = e + 3; continue; }
    if (src.startsWith("<?", lt)) { const e = src.indexOf("?>", lt); if (e < 0) throw new Error("xml: unterminated pi"); i = e + 2; continue; }
    if (src.startsWith("<!", lt)) { const e = src.indexOf(">", lt); i = e + 1; continue; }
    if (src[lt + 1] === "/") {
      const e = src.indexOf(">", lt); const name = src.slice(lt + 2, e).trim();
      if (cur.tag !== name) throw new Error(`xml: </${name}> closes <${cur.tag}> at ${lt}`);
      cur = cur.parent!; i = e + 1; continue;
    }
    const m = /^<([A-Za-z_][\w:.-]*)/.exec(src.slice(lt, lt + 128));
    if (m == null) throw new Error(`xml: stray < at ${lt}: ${src.slice(lt, lt + 40)}`);
    const el: El = { tag: m[1], attrs: {}, kids: [], parent: cur, text: "", idx: idx++, ownText: "" };
    let p = lt + m[0].length;
    for (;;) {
      while (p < src.length && /\s/.test(src[p])) p++;
      if (src[p] === ">") { p++; cur.kids.push(el); cur = el; break; }
      if (src[p] === "/" && src[p + 1] === ">") { p += 2; cur.kids.push(el); break; }
      const eq = src.indexOf("=", p);
      if (eq < 0) throw new Error(`xml: bad attribute at ${p}`);
      const name = src.slice(p, eq).trim();
      if (!/^[A-Za-z_:][\w:.-]*$/.test(name)) throw new Error(`xml: bad attribute name ${JSON.stringify(name.slice(0, 60))}`);
      let q = eq + 1; while (/\s/.test(src[q])) q++;
      const quote = src[q]; if (quote !== "\"" && quote !== "'") throw new Error(`xml: unquoted attribute ${name}`);
      const end = src.indexOf(quote, q + 1); if (end < 0) throw new Error("xml: unterminated attribute");
      if (name in el.attrs) throw new Error(`xml: duplicate attribute ${name}`);
      const raw = src.slice(q + 1, end); if (raw.includes("<")) throw new Error(`xml: < in attribute ${name}`);
      el.attrs[name] = decodeEnt(raw); p = end + 1;
    }
    i = p;
  }
  if (cur !== root) throw new Error(`xml: unclosed <${cur.tag}>`);
  const r = root.kids[0]; if (r == null) throw new Error("xml: empty");
  return r;
}

// ---------------------------------------------------------------- CSS
export type Decls = Map<string, { v: string; imp: boolean }>;
export interface Stop { off: number; decls: Map<string, string>; timing?: string }
export interface Rule { sel: string; spec: number; order: number; decls: Decls }
export interface Sheet { keyframes: Map<string, Stop[]>; rules: Rule[]; keyframeNames: string[]; fontFaces: string[] }

function stripComments(s: string): string { return s.replace(/\/\*[\s\S]*?\*\//g, " "); }
function splitTop(s: string, sep: string): string[] {
  const out: string[] = []; let depth = 0; let q = ""; let last = 0;
  for (let i = 0; i < s.length; i++) {
    const c = s[i];
    if (q) { if (c === "\\") i++; else if (c === q) q = ""; continue; }
    if (c === "\"" || c === "'") q = c;
    else if (c === "(" || c === "[") depth++;
    else if (c === ")" || c === "]") depth--;
    else if (c === sep && depth === 0) { out.push(s.slice(last, i)); last = i + 1; }
  }
  out.push(s.slice(last));
  return out.map((x) => x.trim()).filter((x) => x !== "");
}
export function parseDecls(body: string): Decls {
  const m: Decls = new Map();
  for (const d of splitTop(body, ";")) {
    const c = d.indexOf(":"); if (c < 0) continue;
    const k0 = d.slice(0, c).trim(); const k = k0.startsWith("--") ? k0 : k0.toLowerCase();
    let v = d.slice(c + 1).trim(); let imp = false;
    if (/!\s*important$/i.test(v)) { imp = true; v = v.replace(/\s*!\s*important$/i, ""); }
    m.delete(k); m.set(k, { v, imp });
  }
  return m;
}
function matchBrace(s: string, open: number): number {
  let d = 0; let q = "";
  for (let i = open; i < s.length; i++) {
    const c = s[i];
    if (q) { if (c === "\\") i++; else if (c === q) q = ""; continue; }
    if (c === "\"" || c === "'") q = c; else if (c === "{") d++; else if (c === "}") { d--; if (d === 0) return i; }
  }
  throw new Error("css: unbalanced {");
}
function specificity(sel: string): number {
  const ids = (sel.match(/#[\w-]+/g) ?? []).length;
  const cls = (sel.match(/\.[\w-]+|\[[^\]]*\]|:(?!:)[\w-]+/g) ?? []).length;
  const tags = (sel.match(/(^|[\s>+~])[A-Za-z][\w-]*/g) ?? []).length;
  return ids * 10000 + cls * 100 + tags;
}
let ruleOrder = 0;
export function parseCss(src: string, sheet?: Sheet, opts: { reducedMotion?: boolean } = {}): Sheet {
  const s = stripComments(src);
  const out: Sheet = sheet ?? { keyframes: new Map(), rules: [], keyframeNames: [], fontFaces: [] };
  let i = 0;
  while (i < s.length) {
    while (i < s.length && /[\s;]/.test(s[i])) i++;
    if (i >= s.length) break;
    const open = s.indexOf("{", i);
    if (open < 0) { if (s.slice(i).trim() !== "" && !s.slice(i).trim().startsWith("@")) throw new Error("css: trailing garbage " + s.slice(i, i + 60)); break; }
    const prelude = s.slice(i, open).trim(); const close = matchBrace(s, open); const body = s.slice(open + 1, close); i = close + 1;
    if (prelude.startsWith("@keyframes") || prelude.startsWith("@-webkit-keyframes")) {
      const name = prelude.replace(/^@(-webkit-)?keyframes\s+/, "").trim().replace(/^["']|["']$/g, ""); const stops: Stop[] = [];
      let j = 0;
      while (j < body.length) {
        const o = body.indexOf("{", j); if (o < 0) break; const c = matchBrace(body, o);
        const decls = parseDecls(body.slice(o + 1, c));
        for (const part of body.slice(j, o).split(",")) {
          const p = part.trim(); const off = p === "from" ? 0 : p === "to" ? 100 : parseFloat(p);
          if (!Number.isFinite(off) || off < 0 || off > 100) { if (Number.isFinite(off)) continue; throw new Error(`css: bad keyframe selector ${p} in ${name}`); }
          const dm = new Map<string, string>(); let timing: string | undefined;
          for (const [k, v] of decls) { if (k === "animation-timing-function") timing = v.v; else if (!v.imp) dm.set(k, v.v); }
          stops.push({ off: off / 100, decls: dm, timing });
        }
        j = c + 1;
      }
      out.keyframes.set(name, stops); out.keyframeNames.push(name);
    } else if (prelude.startsWith("@media")) {
      const on = /prefers-reduced-motion/.test(prelude) ? opts.reducedMotion === true && /reduce/.test(prelude) && !/no-preference/.test(prelude) || (opts.reducedMotion !== true && /no-preference/.test(prelude)) : /print/.test(prelude) ? false : /prefers-color-scheme/.test(prelude) ? false : true;
      if (on) parseCss(body, out, opts);
    } else if (prelude.startsWith("@supports")) parseCss(body, out, opts);
    else if (prelude.startsWith("@font-face")) out.fontFaces.push(body);
    else if (prelude.startsWith("@")) { /* ignored at-rule */ }
    else {
      const decls = parseDecls(body);
      for (const sel of splitTop(prelude, ",")) out.rules.push({ sel, spec: specificity(sel), order: ruleOrder++, decls });
    }
  }
  return out;
}

// ---------------------------------------------------------------- selectors
function matchCompound(el: El, c: string, root: El): boolean {
  const re = /([.#]?[A-Za-z_*][\w-]*|\.[\w-]+|#[\w-]+|\[[^\]]+\]|:[:\w-]+(\([^)]*\))?)/gy;
  let pos = 0;
  while (pos < c.length) {
    re.lastIndex = pos; const m = re.exec(c); if (m == null) return false; pos = re.lastIndex; const t = m[0];
    if (t === "*") continue;
    if (t[0] === ".") { if (!(el.attrs.class ?? "").split(/\s+/).includes(t.slice(1))) return false; }
    else if (t[0] === "#") { if (el.attrs.id !== t.slice(1)) return false; }
    else if (t[0] === "[") {
      const am = /^\[([\w:-]+)(?:([~^$*|]?=)["']?([^"'\]]*)["']?)?\]$/.exec(t); if (am == null) return false;
      const v = el.attrs[am[1]]; if (v == null) return false;
      if (am[2] === "=" && v !== am[3]) return false;
      if (am[2] === "^=" && !v.startsWith(am[3])) return false;
      if (am[2] === "*=" && !v.includes(am[3])) return false;
      if (am[2] === "$=" && !v.endsWith(am[3])) return false;
      if (am[2] === "~=" && !v.split(/\s+/).includes(am[3])) return false;
    } else if (t[0] === ":") { if (t === ":root") { if (el !== root) return false; } else return false; }
    else if (el.tag.toLowerCase() !== t.toLowerCase()) return false;
  }
  return true;
}
export function matches(el: El, sel: string, root: El): boolean {
  const toks = sel.replace(/\s*>\s*/g, " > ").trim().split(/\s+/);
  const go = (e: El | null, i: number): boolean => {
    if (e == null || e.tag === "#doc") return false;
    if (!matchCompound(e, toks[i], root)) return false;
    if (i === 0) return true;
    if (toks[i - 1] === ">") return go(e.parent, i - 2);
    for (let a = e.parent; a != null; a = a.parent) if (go(a, i - 1)) return true;
    return false;
  };
  return go(el, toks.length - 1);
}

// ---------------------------------------------------------------- timing functions
function cubic(x1: number, y1: number, x2: number, y2: number): (x: number) => number {
  const bx = (t: number) => 3 * x1 * t * (1 - t) ** 2 + 3 * x2 * t * t * (1 - t) + t ** 3;
  const by = (t: number) => 3 * y1 * t * (1 - t) ** 2 + 3 * y2 * t * t * (1 - t) + t ** 3;
  return (x) => { if (x <= 0) return 0; if (x >= 1) return 1; let lo = 0; let hi = 1; for (let i = 0; i < 60; i++) { const m = (lo + hi) / 2; if (bx(m) < x) lo = m; else hi = m; } return by((lo + hi) / 2); };
}
export function timingFn(s: string | undefined): (x: number) => number {
  const v = (s ?? "ease").trim();
  if (v === "linear") return (x) => x;
  if (v === "ease") return cubic(0.25, 0.1, 0.25, 1);
  if (v === "ease-in") return cubic(0.42, 0, 1, 1);
  if (v === "ease-out") return cubic(0, 0, 0.58, 1);
  if (v === "ease-in-out") return cubic(0.42, 0, 0.58, 1);
  if (v === "step-end") return (x) => (x >= 1 ? 1 : 0);
  if (v === "step-start") return (x) => (x > 0 || x === 0 ? 1 : 0);
  let m = /^cubic-bezier\(([^)]+)\)$/.exec(v); if (m) { const n = m[1].split(",").map(Number); return cubic(n[0], n[1], n[2], n[3]); }
  m = /^steps\((\d+)\s*(?:,\s*([\w-]+))?\)$/.exec(v);
  if (m) { const n = +m[1]; const st = m[2] === "start" || m[2] === "jump-start" || m[2] === "jump-both"; const jumps = m[2] === "jump-both" ? n + 1 : m[2] === "jump-none" ? n - 1 : n; return (x) => Math.min(1, (Math.floor(x * n + 1e-9) + (st ? 1 : 0)) / jumps); }
  m = /^linear\(/.exec(v); if (m) return (x) => x;
  throw new Error("css: unknown timing function " + v);
}

// ---------------------------------------------------------------- animations
export interface Anim { name: string; dur: number; delay: number; iter: number; dir: string; fill: string; timing: string; paused: boolean }
const timeMs = (s: string): number => s.endsWith("ms") ? parseFloat(s) : parseFloat(s) * 1000;
export function parseAnimShorthand(v: string): Anim[] {
  if (v.trim() === "none") return [];
  return splitTop(v, ",").map((one) => {
    const a: Anim = { name: "none", dur: 0, delay: 0, iter: 1, dir: "normal", fill: "none", timing: "ease", paused: false };
    let times = 0;
    for (const tok of splitTop(one.replace(/\s+/g, " "), " ")) {
      if (/^[+-]?[\d.]+(e[+-]?\d+)?m?s$/i.test(tok)) { if (times++ === 0) a.dur = timeMs(tok); else a.delay = timeMs(tok); }
      else if (/^(linear|ease|ease-in|ease-out|ease-in-out|step-end|step-start)$/.test(tok) || /^(cubic-bezier|steps|linear)\(/.test(tok)) a.timing = tok;
      else if (tok === "infinite") a.iter = Infinity;
      else if (/^[\d.]+$/.test(tok)) a.iter = parseFloat(tok);
      else if (/^(normal|reverse|alternate|alternate-reverse)$/.test(tok)) a.dir = tok;
      else if (/^(forwards|backwards|both)$/.test(tok)) a.fill = tok;
      else if (tok === "running" || tok === "paused") a.paused = tok === "paused";
      else a.name = tok;
    }
    return a;
  });
}

const NUM = /[+-]?(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?/gi;
function interp(prop: string, a: string, b: string, p: number): string {
  if (a === b) return a;
  if (prop === "visibility") { // visible wins strictly between
    if (a === "visible" || b === "visible") return p <= 0 ? a : p >= 1 ? b : "visible";
    return p < 0.5 ? a : b;
  }
  if (prop === "display") { if (a === "none" || b === "none") { const nn = a === "none" ? b : a; return p <= 0 ? a : p >= 1 ? b : nn; } return p < 0.5 ? a : b; }
  if (p <= 0 && p === 0) return a; if (p === 1) return b;
  const ident = (s: string) => s.replace(/(\w+)\(([^)]*)\)/g, (_, f: string, args: string) => `${f}(${args.replace(NUM, f.startsWith("scale") ? "1" : "0")})`);
  if (prop === "transform") { if (a === "none") a = ident(b); else if (b === "none") b = ident(a); }
  const shape = (s: string) => s.replace(NUM, "#").replace(/#(px|%|deg)?/g, "#").replace(/\s+/g, " ").replace(/\s*,\s*/g, ",");
  if (shape(a) === shape(b)) {
    const na = a.match(NUM) ?? []; const nb = b.match(NUM) ?? []; let k = 0;
    // keep the unit of whichever side is non-zero
    const tmpl = /px|%|deg/.test(b) ? b : a;
    return tmpl.replace(NUM, () => { const x = parseFloat(na[k]); const y = parseFloat(nb[k]); k++; return String(x + (y - x) * p); });
  }
  return p < 0.5 ? a : b;
}

const INHERITED = new Set(["visibility", "fill", "stroke", "color", "font-size", "font-family", "pointer-events", "fill-opacity"]);
const PRESENTATION = new Set(["opacity", "visibility", "display", "fill", "stroke", "transform", "clip-path", "fill-opacity", "color", "font-size", "font-family", "mask", "filter", "stop-color", "stroke-width", "stroke-dashoffset", "stroke-dasharray"]);
const GEOM = new Set(["width", "height", "x", "y", "r", "cx", "cy", "rx", "ry"]);

export type Mat = [number, number, number, number, number, number];
export const IDENT: Mat = [1, 0, 0, 1, 0, 0];
export const mul = (m: Mat, n: Mat): Mat => [m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3], m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5]];
export const apply = (m: Mat, x: number, y: number): [number, number] => [m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]];
export function invert(m: Mat): Mat | null { const d = m[0] * m[3] - m[1] * m[2]; if (Math.abs(d) < 1e-12) return null; return [m[3] / d, -m[1] / d, -m[2] / d, m[0] / d, (m[2] * m[5] - m[3] * m[4]) / d, (m[1] * m[4] - m[0] * m[5]) / d]; }
export function parseTransform(s: string, pctW = 0, pctH = 0): Mat {
  let m: Mat = IDENT; if (s === "none" || s.trim() === "") return m;
  const re = /([\w]+)\(([^)]*)\)/g; let x: RegExpExecArray | null;
  while ((x = re.exec(s)) != null) {
    const raw = x[2].trim().split(/[\s,]+/).filter((q) => q !== "");
    const n = raw.map((q, k) => q.endsWith("%") ? parseFloat(q) / 100 * (x![1] === "translateY" || k === 1 ? pctH : pctW) : q.endsWith("rad") ? parseFloat(q) * 180 / Math.PI : parseFloat(q));
    let t: Mat = IDENT;
    switch (x[1]) {
      case "translate": case "translate3d": t = [1, 0, 0, 1, n[0], n[1] ?? 0]; break;
      case "translateX": t = [1, 0, 0, 1, n[0], 0]; break;
      case "translateY": t = [1, 0, 0, 1, 0, n[0]]; break;
      case "scale": t = [n[0], 0, 0, n[1] ?? n[0], 0, 0]; break;
      case "scaleX": t = [n[0], 0, 0, 1, 0, 0]; break;
      case "scaleY": t = [1, 0, 0, n[0], 0, 0]; break;
      case "rotate": { const c = Math.cos(n[0] * Math.PI / 180); const sn = Math.sin(n[0] * Math.PI / 180); t = [c, sn, -sn, c, 0, 0]; if (n.length >= 3) t = mul(mul([1, 0, 0, 1, n[1], n[2]], t), [1, 0, 0, 1, -n[1], -n[2]]); break; }
      case "skewX": t = [1, 0, Math.tan(n[0] * Math.PI / 180), 1, 0, 0]; break;
      case "skewY": t = [1, Math.tan(n[0] * Math.PI / 180), 0, 1, 0, 0]; break;
      case "matrix": t = [n[0], n[1], n[2], n[3], n[4], n[5]]; break;
      case "translateZ": break;
      default: throw new Error("transform: unsupported " + x[1]);
    }
    m = mul(m, t);
  }
  return m;
}

interface Shape { kind: "rect" | "circle" | "poly" | "any"; x?: number; y?: number; w?: number; h?: number; cx?: number; cy?: number; r?: number; ry?: number; pts?: [number, number][] }
export interface Clip { inv: Mat | null; shapes: { inv: Mat | null; s: Shape }[] }
export interface Item { el: El; tag: string; fill: string; alpha: number; m: Mat; clips: Clip[]; shape: Shape; chain: El[]; href?: string }

export class SvgDoc {
  root: El; sheet: Sheet; ids = new Map<string, El>(); dupIds: string[] = []; all: El[] = [];
  private statics = new Map<El, { decls: Map<string, { v: string; imp: boolean }>; anims: Anim[] }>();
  width: number; height: number;
  private vars = new Map<string, string>();
  constructor(public src: string, public opts: { reducedMotion?: boolean } = {}) {
    this.root = parseXml(src);
    this.sheet = { keyframes: new Map(), rules: [], keyframeNames: [], fontFaces: [] };
    const walk = (e: El): void => {
      this.all.push(e);
      if (e.attrs.id != null) { if (this.ids.has(e.attrs.id)) this.dupIds.push(e.attrs.id); else this.ids.set(e.attrs.id, e); }
      if (e.tag === "style") parseCss(e.text, this.sheet, opts);
      e.kids.forEach(walk);
    };
    walk(this.root);
    for (const r of this.sheet.rules) if (r.sel === ":root" || r.sel === "svg") for (const [k, v] of r.decls) if (k.startsWith("--")) this.vars.set(k, v.v);
    this.width = parseFloat(this.root.attrs.width ?? "0"); this.height = parseFloat(this.root.attrs.height ?? "0");
  }
  find(pred: (e: El) => boolean): El[] { return this.all.filter(pred); }
  byClass(c: string): El[] { return this.all.filter((e) => (e.attrs.class ?? "").split(/\s+/).includes(c)); }
  private sub(v: string): string { return v.replace(/var\((--[\w-]+)(?:,([^)]*))?\)/g, (_, n: string, d?: string) => this.vars.get(n) ?? d ?? ""); }
  static_(el: El): { decls: Map<string, { v: string; imp: boolean }>; anims: Anim[] } {
    const c = this.statics.get(el); if (c) return c;
    const decls = new Map<string, { v: string; imp: boolean }>();
    for (const [k, v] of Object.entries(el.attrs)) if (PRESENTATION.has(k) || GEOM.has(k)) decls.set(k, { v, imp: false });
    const ms = this.sheet.rules.filter((r) => matches(el, r.sel, this.root)).sort((a, b) => a.spec - b.spec || a.order - b.order);
    const anim: [string, string][] = [];
    const put = (k: string, v: { v: string; imp: boolean }): void => { const o = decls.get(k); if (o?.imp && !v.imp) return; decls.set(k, { v: this.sub(v.v), imp: v.imp }); };
    const layers: Decls[] = [...ms.map((r) => r.decls)]; if (el.attrs.style != null) layers.push(parseDecls(el.attrs.style));
    const impAnim: [string, string][] = [];
    for (const d of layers) for (const [k, v] of d) { if (k.startsWith("animation")) (v.imp ? impAnim : anim).push([k, this.sub(v.v)]); else put(k, v); }
    let list: Anim[] = []; const long: Record<string, string[]> = {};
    for (const [k, v] of [...anim, ...impAnim]) { if (k === "animation") { list = parseAnimShorthand(v); for (const q of Object.keys(long)) delete long[q]; } else long[k] = splitTop(v, ","); }
    if (list.length === 0 && long["animation-name"]) list = long["animation-name"].filter((n) => n !== "none").map((n) => ({ ...parseAnimShorthand("x 0s")[0], name: n }));
    else if (long["animation-name"]) list = long["animation-name"].filter((n) => n !== "none").map((n, i) => ({ ...list[i % list.length], name: n }));
    list.forEach((a, i) => {
      const g = (k: string): string | undefined => { const l = long[k]; return l ? l[i % l.length] : undefined; };
      const d = g("animation-delay"); if (d != null) a.delay = timeMs(d);
      const du = g("animation-duration"); if (du != null) a.dur = timeMs(du);
      const f = g("animation-fill-mode"); if (f != null) a.fill = f;
      const it = g("animation-iteration-count"); if (it != null) a.iter = it === "infinite" ? Infinity : parseFloat(it);
      const tf = g("animation-timing-function"); if (tf != null) a.timing = tf;
      const di = g("animation-direction"); if (di != null) a.dir = di;
    });
    const r = { decls, anims: list }; this.statics.set(el, r); return r;
  }
  // ---- SMIL: <animate>/<animateTransform>/<set> children (and href targets)
  private smilMap: Map<El, El[]> | null = null;
  private smil(el: El, prop: string, t: number): string | null {
    if (this.smilMap == null) {
      this.smilMap = new Map();
      for (const a of this.all) if (/^(animate|animateTransform|set)$/.test(a.tag)) { const h = a.attrs.href ?? a.attrs["xlink:href"]; const tgt = h ? this.ids.get(h.slice(1)) : a.parent; if (tgt != null) this.smilMap.set(tgt, [...(this.smilMap.get(tgt) ?? []), a]); }
    }
    let v: string | null = null;
    for (const a of this.smilMap.get(el) ?? []) if ((a.attrs.attributeName ?? (a.tag === "animateTransform" ? "transform" : "")) === prop) { const w = this.smilValue(a, t); if (w != null) v = w; }
    return v;
  }
  /** Active intervals of a SMIL animation up to time t. */
  smilIntervals(a: El, t: number): [number, number][] {
    const clock = (s: string): number | null => { const m = /^([+-]?[\d.]+)(ms|s)?$/.exec(s.trim()); return m ? parseFloat(m[1]) * (m[2] === "ms" ? 1 : 1000) : null; };
    const begins: number[] = []; const ends: number[] = []; const rb: number[] = []; const re: number[] = [];
    const read = (src: string, out: number[], self: number[]): void => { for (const q of src.split(";")) { const c = clock(q); if (c != null) { out.push(c); continue; } const m = /^\s*([\w-]+)\.(begin|end)\s*\+\s*([\d.]+m?s)\s*$/.exec(q); if (m && m[1] === a.attrs.id) self.push(clock(m[3])!); } };
    read(a.attrs.begin ?? "0s", begins, rb); if (a.attrs.end != null) read(a.attrs.end, ends, re);
    const dur = a.attrs.dur == null || a.attrs.dur === "indefinite" ? Infinity : clock(a.attrs.dur)!;
    const rc = a.attrs.repeatCount === "indefinite" ? Infinity : parseFloat(a.attrs.repeatCount ?? "1"); const ad = dur * rc;
    const out: [number, number][] = []; let prevB = -Infinity; let prevE = -Infinity;
    for (let n = 0; n < 5000; n++) {
      const b = Math.min(...begins.filter((x) => x > prevB && x >= prevE)); if (!(b <= t)) break;
      const nb = Math.min(Infinity, ...begins.filter((x) => x > b)); const ne = Math.min(Infinity, ...ends.filter((x) => x > b));
      const e = Math.min(b + ad, nb, ne); out.push([b, e]); prevB = b; prevE = e;
      for (const d of rb) begins.push(b + d); for (const d of re) ends.push(e + d);
    }
    return out;
  }
  private smilValue(a: El, t: number): string | null {
    const iv = this.smilIntervals(a, t); if (iv.length === 0) return null;
    const [b, e] = iv[iv.length - 1]; const dur = a.attrs.dur == null || a.attrs.dur === "indefinite" ? Infinity : a.attrs.dur.endsWith("ms") ? parseFloat(a.attrs.dur) : parseFloat(a.attrs.dur) * 1000;
    let lt = t - b; let frozen = false; if (t >= e) { if (a.attrs.fill !== "freeze") return null; lt = e - b; frozen = true; }
    let f = dur === Infinity ? 0 : (lt % dur) / dur; if (frozen && lt > 0 && dur !== Infinity && Math.abs(lt / dur - Math.round(lt / dur)) < 1e-9) f = 1;
    const wrap = (s: string): string => a.tag === "animateTransform" ? `${a.attrs.type ?? "translate"}(${s})` : s;
    if (a.tag === "set") return a.attrs.to ?? null;
    const vals = (a.attrs.values != null ? a.attrs.values.split(";").map((s) => s.trim()).filter((s) => s !== "") : [a.attrs.from ?? "0", a.attrs.to ?? "0"]);
    const mode = a.attrs.calcMode ?? "linear"; const n = vals.length;
    const kt = a.attrs.keyTimes != null ? a.attrs.keyTimes.split(";").map(Number) : vals.map((_, k) => mode === "discrete" ? k / n : n === 1 ? 0 : k / (n - 1));
    if (kt.length !== n || kt[0] !== 0 || (mode !== "discrete" && n > 1 && kt[n - 1] !== 1) || kt.some((x, k) => k > 0 && x < kt[k - 1])) return null; // invalid: animation has no effect
    if (n === 1) return wrap(vals[0]);
    let k = 0; while (k < n - 1 && f >= kt[k + 1]) k++;
    if (mode === "discrete" || k === n - 1) return wrap(vals[k]);
    let p = (f - kt[k]) / (kt[k + 1] - kt[k]);
    if (mode === "spline") { const ks = (a.attrs.keySplines ?? "").split(";").map((s) => s.trim().split(/[\s,]+/).map(Number)); const q = ks[k]; if (q?.length === 4) p = cubic(q[0], q[1], q[2], q[3])(p); }
    const A = vals[k].match(NUM) ?? []; const B = vals[k + 1].match(NUM) ?? []; if (A.length !== B.length) return wrap(p < 0.5 ? vals[k] : vals[k + 1]);
    let i = 0; return wrap(vals[k + 1].replace(NUM, () => { const x = parseFloat(A[i]); const y = parseFloat(B[i]); i++; return String(x + (y - x) * p); }));
  }
  animsOf(el: El): Anim[] { return this.static_(el).anims; }
  /** Progress of an animation at t: null = no effect; else [0,1] directed progress. */
  private progress(a: Anim, t: number): number | null {
    if (a.dur <= 0) { if (a.fill === "forwards" || a.fill === "both") return 1; return null; }
    const lt = t - a.delay;
    if (lt < 0) { if (a.fill === "backwards" || a.fill === "both") return a.dir.endsWith("reverse") && a.dir === "reverse" ? 1 : 0; return null; }
    let it = Math.floor(lt / a.dur); let f = (lt - it * a.dur) / a.dur;
    if (lt >= a.dur * a.iter) { if (!(a.fill === "forwards" || a.fill === "both")) return null; const w = a.iter; it = Math.ceil(w) - 1; f = w - it; }
    const rev = a.dir === "reverse" || (a.dir === "alternate" && it % 2 === 1) || (a.dir === "alternate-reverse" && it % 2 === 0);
    return rev ? 1 - f : f;
  }
  private kfCache = new Map<string, { off: number; v: string; timing?: string }[]>();
  private kfProps(name: string, prop: string): { off: number; v: string; timing?: string }[] {
    const key = name + "|" + prop; const c = this.kfCache.get(key); if (c) return c;
    const stops = this.sheet.keyframes.get(name) ?? []; const at = new Map<number, { off: number; v: string; timing?: string }>();
    for (const s of stops) { const v = s.decls.get(prop); if (v != null) at.set(s.off, { off: s.off, v: this.sub(v), timing: s.timing }); }
    const l = [...at.values()].sort((a, b) => a.off - b.off); this.kfCache.set(key, l); return l;
  }
  /** Computed value of prop on el at t (before inheritance). */
  own(el: El, prop: string, t: number): string | undefined {
    const st = this.static_(el); const base = st.decls.get(prop); let v = base?.v;
    if (base?.imp) return v;
    const sm = this.smil(el, prop, t); if (sm != null) v = sm;
    for (const a of st.anims) {
      const ks = this.kfProps(a.name, prop); if (ks.length === 0) continue;
      const p = this.progress(a, t); if (p == null) continue;
      const dflt = v ?? this.dflt(prop);
      const pts = [...ks]; if (pts[0].off > 0) pts.unshift({ off: 0, v: dflt }); if (pts[pts.length - 1].off < 1) pts.push({ off: 1, v: dflt });
      let k = 0; while (k < pts.length - 2 && p >= pts[k + 1].off) k++;
      const A = pts[k]; const B = pts[k + 1] ?? A;
      const span = B.off - A.off; const f = span <= 0 ? 1 : (p - A.off) / span;
      const fn = timingFn(A.timing ?? a.timing);
      v = f >= 1 ? B.v : interp(prop, A.v, B.v, fn(Math.max(0, f)));
    }
    return v;
  }
  private dflt(prop: string): string { return prop === "opacity" || prop === "fill-opacity" ? "1" : prop === "visibility" ? "visible" : prop === "display" ? "inline" : prop === "transform" || prop === "clip-path" ? "none" : "0"; }
  computed(el: El, prop: string, t: number): string {
    for (let e: El | null = el; e != null && e.tag !== "#doc"; e = e.parent) {
      const v = this.own(e, prop, t);
      if (v != null && v !== "inherit" && !(v === "currentColor")) return v;
      if (!INHERITED.has(prop)) break;
    }
    return this.dflt(prop);
  }
  opacity(el: El, t: number): number { const v = this.own(el, "opacity", t); if (v == null) return 1; const n = v.endsWith("%") ? parseFloat(v) / 100 : parseFloat(v); return Math.min(1, Math.max(0, n)); }
  /** Product of opacities root..el, 0 when hidden. */
  alpha(el: El, t: number): number {
    if (this.computed(el, "visibility", t) !== "visible") return 0;
    let a = 1;
    for (let e: El | null = el; e != null && e.tag !== "#doc"; e = e.parent) { if ((this.own(e, "display", t) ?? "inline") === "none") return 0; a *= this.opacity(e, t); if (a === 0) return 0; }
    return a;
  }
  len(v: string | undefined, rel = 0): number { if (v == null) return 0; return v.endsWith("%") ? parseFloat(v) / 100 * rel : parseFloat(v); }
  localMatrix(el: El, t: number): Mat {
    let m: Mat = IDENT;
    const tv = this.own(el, "transform", t);
    if (tv != null && tv !== "none") {
      let ox = 0; let oy = 0;
      const org = this.own(el, "transform-origin", t); const box = this.own(el, "transform-box", t);
      let bx = 0; let by = 0; let bw = this.width; let bh = this.height;
      if (box === "fill-box" || box === "stroke-box") { const b = this.bbox(el, t, box === "stroke-box"); if (b) { bx = b.x; by = b.y; bw = b.w; bh = b.h; } }
      if (org != null) {
        const kw: Record<string, string> = { left: "0%", top: "0%", center: "50%", right: "100%", bottom: "100%" };
        const ps = org.split(/\s+/).map((q) => kw[q] ?? q); ox = bx + this.len(ps[0], bw); oy = by + this.len(ps[1] ?? "50%", bh);
      }
      // transform attribute never has an origin; the CSS property takes transform-origin
      m = mul(mul([1, 0, 0, 1, ox, oy], parseTransform(tv, bw, bh)), [1, 0, 0, 1, -ox, -oy]);
    }
    if (el.tag === "svg" && el.parent != null && el.parent.tag !== "#doc") {
      const x = this.len(this.own(el, "x", t), this.width); const y = this.len(this.own(el, "y", t), this.height);
      m = mul(m, [1, 0, 0, 1, x, y]);
      const vb = el.attrs.viewBox;
      if (vb != null) {
        const [vx, vy, vw, vh] = vb.split(/[\s,]+/).map(Number); const w = this.len(this.own(el, "width", t), this.width) || vw; const h = this.len(this.own(el, "height", t), this.height) || vh;
        const par = el.attrs.preserveAspectRatio ?? "xMidYMid meet";
        let sx = w / vw; let sy = h / vh; let tx = 0; let ty = 0;
        if (par !== "none") { const s = /slice/.test(par) ? Math.max(sx, sy) : Math.min(sx, sy); tx = /xMin/.test(par) ? 0 : /xMax/.test(par) ? w - vw * s : (w - vw * s) / 2; ty = /YMin/.test(par) ? 0 : /YMax/.test(par) ? h - vh * s : (h - vh * s) / 2; sx = sy = s; }
        m = mul(m, [sx, 0, 0, sy, tx - vx * sx, ty - vy * sy]);
      }
    }
    if (el.tag === "use") m = mul(m, [1, 0, 0, 1, this.len(this.own(el, "x", t), this.width), this.len(this.own(el, "y", t), this.height)]);
    return m;
  }
  bbox(el: El, t: number, stroke = false): { x: number; y: number; w: number; h: number } | null {
    const g = (k: string) => this.len(this.own(el, k, t), k === "width" || k === "x" ? this.width : this.height);
    if (["defs", "style", "clipPath", "mask", "title", "desc", "symbol", "linearGradient", "radialGradient", "pattern", "filter", "marker", "script", "metadata"].includes(el.tag) || this.own(el, "display", t) === "none") return null;
    let b: { x: number; y: number; w: number; h: number } | null = null;
    if (el.tag === "svg") return { x: g("x"), y: g("y"), w: g("width"), h: g("height") };
    const s = this.shapeOf(el, t);
    if (s.kind === "rect") b = { x: s.x!, y: s.y!, w: s.w!, h: s.h! };
    else if (s.kind === "circle") b = { x: s.cx! - s.r!, y: s.cy! - s.ry!, w: 2 * s.r!, h: 2 * s.ry! };
    else if (s.kind === "poly") { const xs = s.pts!.map((q) => q[0]); const ys = s.pts!.map((q) => q[1]); b = { x: Math.min(...xs), y: Math.min(...ys), w: Math.max(...xs) - Math.min(...xs), h: Math.max(...ys) - Math.min(...ys) }; }
    if (b != null) { const st = this.own(el, "stroke", t); if (stroke && st != null && st !== "none") { const w = this.len(this.own(el, "stroke-width", t) ?? "1", this.width) / 2; b = { x: b.x - w, y: b.y - w, w: b.w + 2 * w, h: b.h + 2 * w }; } return b; }
    for (const k of el.kids) { const c = this.bbox(k, t, stroke); if (c == null) continue; const m = this.localMatrix(k, t); const cs = [apply(m, c.x, c.y), apply(m, c.x + c.w, c.y), apply(m, c.x, c.y + c.h), apply(m, c.x + c.w, c.y + c.h)]; const x0 = Math.min(...cs.map((q) => q[0])); const x1 = Math.max(...cs.map((q) => q[0])); const y0 = Math.min(...cs.map((q) => q[1])); const y1 = Math.max(...cs.map((q) => q[1])); if (b == null) b = { x: x0, y: y0, w: x1 - x0, h: y1 - y0 }; else { const X0 = Math.min(b.x, x0); const Y0 = Math.min(b.y, y0); b = { x: X0, y: Y0, w: Math.max(b.x + b.w, x1) - X0, h: Math.max(b.y + b.h, y1) - Y0 }; } }
    return b;
  }
  matrix(el: El, t: number): Mat { const chain: El[] = []; for (let e: El | null = el; e != null && e.tag !== "#doc"; e = e.parent) chain.unshift(e); let m: Mat = IDENT; for (const e of chain) m = mul(m, this.localMatrix(e, t)); return m; }
  shapeOf(el: El, t: number): Shape {
    const W = this.width; const H = this.height; const g = (k: string, rel: number) => this.len(this.own(el, k, t), rel);
    switch (el.tag) {
      case "rect": case "image": case "foreignObject": return { kind: "rect", x: g("x", W), y: g("y", H), w: g("width", W), h: g("height", H) };
      case "circle": return { kind: "circle", cx: g("cx", W), cy: g("cy", H), r: g("r", W), ry: g("r", W) };
      case "ellipse": return { kind: "circle", cx: g("cx", W), cy: g("cy", H), r: g("rx", W), ry: g("ry", H) };
      case "polygon": { const n = (el.attrs.points ?? "").trim().split(/[\s,]+/).map(Number); const pts: [number, number][] = []; for (let i = 0; i + 1 < n.length; i += 2) pts.push([n[i], n[i + 1]]); return { kind: "poly", pts }; }
      case "path": { const p = this.pathPoly(this.own(el, "d", t) ?? el.attrs.d ?? ""); return p ?? { kind: "any" }; }
      default: return { kind: "any" };
    }
  }
  /** Flatten simple (M/L/H/V/Z, plus curve endpoints) paths to one polygon. */
  private pathPoly(d: string): Shape | null {
    const toks = d.match(/[a-zA-Z]|[+-]?(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?/g); if (toks == null) return null;
    const pts: [number, number][] = []; let i = 0; let x = 0; let y = 0; let sx = 0; let sy = 0; let c = "";
    const n = () => parseFloat(toks[i++]);
    while (i < toks.length) {
      if (/[a-zA-Z]/.test(toks[i])) c = toks[i++];
      const rel = c === c.toLowerCase(); const u = c.toUpperCase();
      if (u === "Z") { x = sx; y = sy; continue; }
      if (u === "H") { const v = n(); x = rel ? x + v : v; } else if (u === "V") { const v = n(); y = rel ? y + v : v; }
      else { const skip = { M: 0, L: 0, T: 0, Q: 2, S: 2, C: 4, A: 5 }[u]; if (skip == null) return null; for (let k = 0; k < skip; k++) n(); const a = n(); const b = n(); x = rel ? x + a : a; y = rel ? y + b : b; if (u === "M") { sx = x; sy = y; c = rel ? "l" : "L"; } }
      pts.push([x, y]);
    }
    return pts.length >= 3 ? { kind: "poly", pts } : null;
  }
  private clipsFor(el: El, m: Mat, t: number): Clip[] {
    const out: Clip[] = [];
    const v = this.own(el, "clip-path", t);
    if (v != null && v !== "none") {
      const um = /url\(["']?#([^"')]+)["']?\)/.exec(v);
      if (um) {
        const cp = this.ids.get(um[1]);
        if (cp != null) {
          const shapes: { inv: Mat | null; s: Shape }[] = []; const cpM = mul(m, this.localMatrix(cp, t));
          const add = (k: El, mm: Mat): void => {
            if ((this.own(k, "display", t) ?? "inline") === "none" || this.computed(k, "visibility", t) !== "visible") return;
            const lm = mul(mm, this.localMatrix(k, t));
            if (k.tag === "use") { const tgt = this.ids.get((k.attrs.href ?? k.attrs["xlink:href"] ?? "").slice(1)); if (tgt) add(tgt, lm); return; }
            if (k.tag === "g") { k.kids.forEach((q) => add(q, lm)); return; }
            if (k.tag === "title" || k.tag === "desc") return;
            shapes.push({ inv: invert(lm), s: this.shapeOf(k, t) });
          };
          cp.kids.forEach((k) => add(k, cpM)); out.push({ inv: null, shapes });
          const nested = this.clipsFor(cp, m, t); out.push(...nested);
        }
      } else {
        const b = this.bbox(el, t) ?? { x: 0, y: 0, w: this.width, h: this.height };
        let im = /^inset\(([^)]*)\)/.exec(v);
        if (im) { const ps = im[1].split(/\bround\b/)[0].trim().split(/\s+/); const q = [ps[0], ps[1] ?? ps[0], ps[2] ?? ps[0], ps[3] ?? ps[1] ?? ps[0]]; const vb = / view-box/.test(v) ? { x: 0, y: 0, w: this.width, h: this.height } : b; const tp = this.len(q[0], vb.h); const rt = this.len(q[1], vb.w); const bt = this.len(q[2], vb.h); const lf = this.len(q[3], vb.w); out.push({ inv: null, shapes: [{ inv: invert(m), s: { kind: "rect", x: vb.x + lf, y: vb.y + tp, w: vb.w - lf - rt, h: vb.h - tp - bt } }] }); }
        else if ((im = /^polygon\(([^)]*)\)/.exec(v))) { const pts = im[1].replace(/^(nonzero|evenodd)\s*,/, "").split(",").map((p) => { const [px, py] = p.trim().split(/\s+/); return [b.x * 0 + this.len(px, this.width), this.len(py, this.height)] as [number, number]; }); out.push({ inv: null, shapes: [{ inv: invert(m), s: { kind: "poly", pts } }] }); }
        else if ((im = /^circle\(([^)]*)\)/.exec(v))) { const [rs, at] = im[1].split(/\bat\b/); const c = (at ?? "50% 50%").trim().split(/\s+/); const r = this.len(rs.trim(), Math.hypot(this.width, this.height) / Math.SQRT2); out.push({ inv: null, shapes: [{ inv: invert(m), s: { kind: "circle", cx: this.len(c[0], this.width), cy: this.len(c[1], this.height), r, ry: r } }] }); }
      }
    }
    if (el.tag === "svg" && el.parent != null && el.parent.tag !== "#doc" && (this.own(el, "overflow", t) ?? el.attrs.overflow ?? "hidden") !== "visible") {
      const vb = el.attrs.viewBox?.split(/[\s,]+/).map(Number); const par = this.localMatrix(el, t); void par;
      const w = this.len(this.own(el, "width", t), this.width); const h = this.len(this.own(el, "height", t), this.height);
      if (vb != null || (w > 0 && h > 0)) { // viewport rect in the parent's user space
        const inv = invert(mul(m, this.localMatrix(el, t)));
        // clip tested in inner user space: outer viewport maps to a rect there
        const lm = this.localMatrix(el, t); const il = invert(lm); const x = this.len(this.own(el, "x", t), this.width); const y = this.len(this.own(el, "y", t), this.height);
        if (il != null) { const a = apply(il, x, y); const b2 = apply(il, x + (w || vb?.[2] || 0), y + (h || vb?.[3] || 0)); out.push({ inv: null, shapes: [{ inv, s: { kind: "rect", x: Math.min(a[0], b2[0]), y: Math.min(a[1], b2[1]), w: Math.abs(b2[0] - a[0]), h: Math.abs(b2[1] - a[1]) } }] }); }
      }
    }
    return out;
  }
  /** Painted leaf items in paint order at t (alpha > eps). */
  items(t: number, opts: { eps?: number; rootEl?: El } = {}): Item[] {
    const eps = opts.eps ?? 0; const out: Item[] = [];
    const visit = (el: El, m: Mat, a: number, clips: Clip[], chain: El[], depth: number): void => {
      if (depth > 60) throw new Error("use cycle");
      if (["defs", "style", "clipPath", "mask", "title", "desc", "symbol", "linearGradient", "radialGradient", "pattern", "filter", "marker", "script", "metadata", "animate", "animateTransform", "animateMotion", "set"].includes(el.tag)) return;
      if ((this.own(el, "display", t) ?? "inline") === "none") return;
      const al = a * this.opacity(el, t); if (al <= eps) return;
      // clip-path (not the inner viewport clip) applies in the element's own user space incl. its transform
      const tm = el.tag === "svg" && el.parent != null && el.parent.tag !== "#doc" ? m : mul(m, this.localMatrix(el, t));
      const cl = [...clips, ...this.clipsFor(el, tm, t)];
      const lm = mul(m, this.localMatrix(el, t)); const ch = [...chain, el];
      if (el.tag === "use") { const tgt = this.ids.get((el.attrs.href ?? el.attrs["xlink:href"] ?? "").slice(1)); if (tgt) { if (tgt.tag === "symbol") tgt.kids.forEach((k) => visit(k, lm, al, cl, [...ch, tgt], depth + 1)); else visit(tgt, lm, al, cl, ch, depth + 1); } return; }
      if (["g", "svg", "a", "switch"].includes(el.tag)) { el.kids.forEach((k) => visit(k, lm, al, cl, ch, depth + 1)); return; }
      // visibility inherits along the rendered chain
      let vis = "visible"; for (let i = ch.length - 1; i >= 0; i--) { const v = this.own(ch[i], "visibility", t); if (v != null && v !== "inherit") { vis = v; break; } }
      if (vis !== "visible") return;
      let fill = ""; for (let i = ch.length - 1; i >= 0; i--) { const v = this.own(ch[i], "fill", t); if (v != null && v !== "inherit") { fill = v; break; } }
      out.push({ el, tag: el.tag, fill, alpha: al, m: lm, clips: cl, shape: this.shapeOf(el, t), chain: ch, href: el.attrs.href ?? el.attrs["xlink:href"] });
    };
    visit(opts.rootEl ?? this.root, IDENT, 1, [], [], 0);
    return out;
  }
  static inShape(s: Shape, x: number, y: number): boolean {
    switch (s.kind) {
      case "rect": return s.w! > 0 && s.h! > 0 && x >= s.x! && x < s.x! + s.w! && y >= s.y! && y < s.y! + s.h!;
      case "circle": return s.r! > 0 && ((x - s.cx!) / s.r!) ** 2 + ((y - s.cy!) / s.ry!) ** 2 <= 1;
      case "poly": { let c = false; const p = s.pts!; for (let i = 0, j = p.length - 1; i < p.length; j = i++) if ((p[i][1] > y) !== (p[j][1] > y) && x < (p[j][0] - p[i][0]) * (y - p[i][1]) / (p[j][1] - p[i][1]) + p[i][0]) c = !c; return c; }
      case "any": return true;
    }
  }
  static covered(it: Item, x: number, y: number): boolean {
    for (const c of it.clips) if (!c.shapes.some((q) => { if (q.inv == null) return false; const [u, v] = apply(q.inv, x, y); return SvgDoc.inShape(q.s, u, v); })) return false;
    const inv = invert(it.m); if (inv == null) return false;
    const [u, v] = apply(inv, x, y); return it.shape.kind === "any" ? false : SvgDoc.inShape(it.shape, u, v);
  }
  /** Filled shapes covering the point, top first, with alpha. Clipped by the outer viewport. */
  stackAt(x: number, y: number, t: number, items?: Item[]): { fill: string; alpha: number; el: El }[] {
    if (x < 0 || y < 0 || x >= this.width || y >= this.height) return [];
    return (items ?? this.items(t)).filter((it) => it.fill !== "none" && it.fill !== "transparent" && SvgDoc.covered(it, x, y)).map((it) => ({ fill: it.fill, alpha: it.alpha, el: it.el })).reverse();
  }
  /** Which fills contribute at a point, as fraction weights after compositing. */
  blendAt(x: number, y: number, t: number, items?: Item[]): Map<string, number> {
    let rem = 1; const out = new Map<string, number>();
    for (const s of this.stackAt(x, y, t, items)) { const w = rem * s.alpha; if (w > 0) out.set(s.fill, (out.get(s.fill) ?? 0) + w); rem -= w; if (rem < 1e-9) break; }
    if (rem > 1e-9) out.set("", (out.get("") ?? 0) + rem);
    return out;
  }
  periods(): number[] { const s = new Set<number>(); for (const e of this.all) for (const a of this.animsOf(e)) if (a.iter === Infinity) s.add(Math.round(a.dur)); return [...s].sort((a, b) => a - b); }
}
