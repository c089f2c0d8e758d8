/** T01: recordings are written from the model's control functions, turned into films by the real code (on a fake browser that lays the rows out), and the films read back. */
import { castToAnimatedSvg } from "/repo/src/terminal/index.js";
import { Check, Rng, type Trace } from "../lib/check.js";
import { FakePage } from "../lib/fakepage.js";
import { SvgDoc } from "../lib/svgtime.js";
import { colour, el, rgb } from "../lib/tree.js";

const c = new Check("T01");
type Op = { o: string; n: number; m: number };
interface Seg { ops: Op[]; gap: number; resize?: [number, number] }
interface Plan { cols: number; rows: number; segs: Seg[]; salt: number; full?: boolean; c: { settle: number; min: number; max: number; tail: number }; shape: string }
const O = (o: string, n = 0, m = 0): Op => ({ o, n, m });
const WIDE = ["你", "好", "日", "本"];
const ANSI = ["#000001", "#aa0001", "#00aa02", "#aaaa03", "#0000a4", "#aa00a5", "#00aaa6", "#aaaaa7", ...Array.from({ length: 8 }, (_, k) => `#ff00f${k}`)];
const BG = "#101011"; const FG = "#e0e0e1"; const CARET = "#12fe34";
const PAD = 8; const FS = 10; const LH = 14; const CW = 6;
function sgr(a: number, r: Rng): string {
  const p: string[] = ["0"]; const fg = a % 10; const bg = Math.floor(a / 10) % 10; const f = (m: number): boolean => Math.floor(a / m) % 2 === 1;
  const col = (k: number, base: number): string => r.bool(0.15) ? `${base + 8};2;${[1, 3, 5].map((i) => parseInt(ANSI[k].slice(i, i + 2), 16)).join(";")}` : r.bool(0.15) ? `${base + 8};5;${k}` : String(base + k);
  if (fg > 0) p.push(col(fg, 30)); if (bg > 0) p.push(col(bg, 40));
  if (f(100)) p.push("1"); if (f(200)) p.push("4"); if (f(400)) p.push("7"); if (f(800)) p.push("8"); if (f(1600)) p.push("3"); if (f(3200)) p.push("2");
  return r.bool(0.3) && p.length > 1 ? p.map((x) => `\x1b[${x}m`).join("") : `\x1b[${(p.length > 1 && r.bool() ? p : p.length === 1 && r.bool() ? [""] : p).join(";")}m`;
}
function bytes(o: Op, r: Rng): string {
  const n1 = (k: string): string => `\x1b[${o.n === 1 && r.bool() ? "" : o.n}${k}`;
  switch (o.o) {
    case "put": return o.n >= 200 ? WIDE[o.n - 200] : String.fromCharCode(o.n);
    case "cr": return "\r"; case "lf": return r.bool(0.8) ? "\n" : "\x1bD"; case "bs": return "\b"; case "tab": return "\t";
    case "cup": return o.n === 1 && o.m === 1 && r.bool() ? "\x1b[H" : `\x1b[${o.n};${o.m}${r.bool() ? "H" : "f"}`;
    case "up": return n1("A"); case "down": return n1("B"); case "fwd": return n1("C"); case "back": return n1("D"); case "col": return n1("G");
    case "el": return `\x1b[${o.n === 0 && r.bool() ? "" : o.n}K`; case "ed": return `\x1b[${o.n === 0 && r.bool() ? "" : o.n}J`;
    case "il": return n1("L"); case "dl": return n1("M"); case "ich": return n1("@"); case "dch": return n1("P"); case "ech": return n1("X"); case "su": return n1("S"); case "sd": return n1("T"); case "ri": return "\x1bM";
    case "region": return `\x1b[${o.n};${o.m}r`; case "attr": return sgr(o.n, r);
    case "save": return r.bool() ? "\x1b7" : "\x1b[s"; case "rest": return r.bool() ? "\x1b8" : "\x1b[u";
    case "vis": return `\x1b[?25${o.n ? "h" : "l"}`; case "wrap": return `\x1b[?7${o.n ? "h" : "l"}`; case "alt": return o.n ? "\x1b[?1049h\x1b7" : "\x1b[?1049l";
  }
  throw new Error("no such op " + o.o);
}
// ---- row markup -> cells
const unesc = (s: string): string => s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&nbsp;|&#160;/g, " ").replace(/&amp;/g, "&");
const hex = (s: string): string => rgb(s.trim());
const PAL = new Map<string, number>([...ANSI.slice(1, 8).map((h, k): [string, number] => [hex(h), k + 1]), [hex(BG), 8], [hex(FG), 9]]);
function cells(node: any, st: Record<string, string> = {}): number[] {
  const out: number[] = [];
  for (const k of [...node.childNodes]) {
    if (k.nodeType === 1) { const own: Record<string, string> = { ...st }; for (const d of (k.getAttribute("style") ?? "").split(";")) { const i = d.indexOf(":"); if (i > 0) own[d.slice(0, i).trim()] = d.slice(i + 1).trim(); } out.push(...cells(k, own)); continue; }
    for (const ch of unesc(k.textContent ?? "")) {
      const fg = st.color ? PAL.get(hex(st.color)) ?? 7.5 : 0; const b = st["background-color"] ?? st.background; const bg = b ? PAL.get(hex(b)) ?? 7.5 : 0;
      const code = ch === "\u00a0" ? 32 : WIDE.includes(ch) ? 200 + WIDE.indexOf(ch) : ch.charCodeAt(0) > 190 ? 191 : ch.charCodeAt(0);
      const a = Math.round(fg) + 10 * Math.round(bg) + (/^(7|bold)/.test(st["font-weight"] ?? "") ? 100 : 0) + (/underline/.test(st["text-decoration"] ?? st["text-decoration-line"] ?? "") ? 200 : 0) + (/italic/.test(st["font-style"] ?? "") ? 1600 : 0) + (Number(st.opacity ?? 1) < 1 ? 3200 : 0);
      out.push(code + 1000 * a);
    }
  }
  return out;
}
/** A browser whose only page lays monospace rows out and answers the capture with one box per row. */
function stage(table: number[][]): any {
  const key = new Map<string, number>();
  const mk = (): FakePage => {
    const page: any = new FakePage({ width: 1280, height: 800, captureScript: (pg) => {
      const doc = pg.win.document; const rows = [...doc.querySelectorAll(".r")]; const kids: any[] = [];
      rows.forEach((r: any, i: number) => {
        const cs = cells(r); while (cs.length > 0 && cs[cs.length - 1] === 32) cs.pop(); if (cs.length === 0) return;
        const s = JSON.stringify(cs); if (!key.has(s)) { key.set(s, table.length); table.push(cs); }
        const top = /top:\s*([-\d.]+)px/.exec(r.getAttribute("style") ?? ""); const anim = r.getAttribute("data-domotion-anim");
        kids.push(el({ x: PAD, y: top ? Number(top[1]) : PAD + i * LH, width: 40, height: LH - 2, styles: { backgroundColor: colour(key.get(s)!) }, ...(anim ? { animId: anim } : {}) }));
      });
      return { tree: [el({ x: 0, y: 0, width: 1280, height: 800, tag: "body", children: kids })], warnings: [] };
    } });
    const w = page.win;
    page.setContent = async (html: string): Promise<void> => {
      w.document.body.innerHTML = /<body>([\s\S]*)<\/body>/.exec(html)![1];
      const t = w.document.querySelector(".term"); const rs = [...w.document.querySelectorAll(".r")] as any[]; const W = Math.max(0, ...rs.map((r) => r.textContent.length)) * CW + 2 * PAD; const H = rs.length * LH + 2 * PAD;
      t.getBoundingClientRect = () => ({ x: 0, y: 0, left: 0, top: 0, width: W, height: H, right: W, bottom: H }); Object.defineProperty(t, "offsetWidth", { value: W, configurable: true }); Object.defineProperty(t, "offsetHeight", { value: H, configurable: true });
    };
    page.setDefaultTimeout = () => {}; Object.defineProperty(w.document, "fonts", { configurable: true, value: { ready: Promise.resolve(), status: "loaded", forEach() {}, [Symbol.iterator]: () => [][Symbol.iterator]() } });
    return page;
  };
  return { newContext: async () => { let pg: FakePage | null = null; return { newPage: async () => (pg = mk()), close: async () => { pg?.win.happyDOM?.abort?.(); } }; } };
}
async function record(p: Plan): Promise<Trace> {
  const r = new Rng(p.salt, "cast"); const ev: any[] = []; let most = p.rows; let mostCols = p.cols;
  const cfg = (): any => ({ cols: p.cols, rows: p.rows, c: p.c, most, most_cols: mostCols, slides: p.full !== true, caret: p.full !== true && p.shape !== "none" });
  try {
    const lines: string[] = [JSON.stringify({ version: 2, width: p.cols, height: p.rows })]; let t = r.int(0, 900);
    p.segs.forEach((s, k) => {
      if (s.resize) { most = Math.max(most, s.resize[1]); mostCols = Math.max(mostCols, s.resize[0]); lines.push(JSON.stringify([t / 1000, "r", `${s.resize[0]}x${s.resize[1]}`])); ev.push({ e: "resize", cols: s.resize[0], rows: s.resize[1] }); t += 1; }
      let data = s.ops.map((o) => bytes(o, r)).join(""); const last = k === p.segs.length - 1;
      if (s.resize) data = "\x1b[?1049l\x1b[0m\x1b[r\x1b[2J\x1b[H\x1b7" + data;
      const ops = s.resize ? [O("alt", 0), O("attr", 0), O("region", 1, 99), O("ed", 2), O("cup", 1, 1), O("save"), ...s.ops] : s.ops;
      ev.push({ e: "out", ops, gap: last ? p.c.tail : s.gap + (p.segs[k + 1].resize ? 1 : 0), final: last });
      // a recorder may split its output anywhere
      const pts = r.bool(0.6) ? Array.from({ length: r.int(1, 4) }, () => r.int(0, data.length)).sort((a, b) => a - b) : []; let from = 0;
      for (const q of [...pts, data.length]) { if (q > from || q === data.length) { lines.push(JSON.stringify([t / 1000, "o", data.slice(from, q)])); from = q; } if (r.bool(0.1)) lines.push(JSON.stringify([t / 1000, r.pick(["i", "m"]), "x"])); }
      t += last ? 0 : s.gap;
    });
    const table: number[][] = [];
    const res = await castToAnimatedSvg(lines.join("\n") + "\n", stage(table), { settleMs: p.c.settle, minFrameMs: p.c.min, maxFrameMs: p.c.max, tailMs: p.c.tail, fontSize: FS, padding: PAD, mode: p.full ? "full" : r.bool() ? "incremental" : undefined, cursor: p.shape as any, cursorColor: CARET, theme: { bg: BG, fg: FG, ansi: ANSI } } as any);
    const d = new SvgDoc(res.svg); const per = d.periods().filter((x) => x !== 1060);
    ev.push({ e: "film", total: res.totalDurationMs });
    const total = res.totalDurationMs; const of = new Map(table.map((_, k) => [rgb(colour(k)), k])); const STEP = 47; let cur: any = null; const H = most;
    const one = per.length === 0 || per.every((x) => Math.abs(x - total) <= 10);
    // look at the film through one whole loop and into the next
    for (let q = 5; q < (p.salt % 3 === 0 ? total * 1.4 : total); q += STEP) {
      const tm = q % total; const rows: number[][] = Array.from({ length: H }, () => []); let odd = one ? 0 : 1; let caret: number[] = []; let lit = false;
      for (const it of d.items(q)) {
        const k = of.get(rgb(it.fill)); const y = it.m[5] + ((it.shape as any).y ?? 0); const x = it.m[4] + ((it.shape as any).x ?? 0);
        if (rgb(it.fill) === rgb(CARET)) { if (it.alpha > 0.3) { const cy = (y - PAD) / LH; caret = [Math.round((x - PAD) / CW * 100) / 100, p.shape === "underline" ? Math.floor(cy) : Math.round(cy * 100) / 100]; } continue; }
        if (k == null || it.alpha < 0.02) continue;
        const ry = (y - PAD) / LH; const i = Math.round(ry);
        if (Math.abs(ry - i) > 0.01 || Math.abs(x - PAD) > 0.01 || it.alpha < 0.98 || i < 0 || i >= H || rows[i].length > 0) odd++; else rows[i] = table[k];
      }
      if (odd > 0) rows[0] = [99 + odd];
      caret = caret.map((v) => Number.isInteger(v) ? v : -9); lit = q % 1060 > 20 && q % 1060 < 510;
      const key = JSON.stringify([rows, caret, lit]);
      if (cur != null && cur.key === key && tm > cur.e.b) cur.e.b = tm; else { if (cur) ev.push(cur.e); cur = { key, e: { e: "span", a: Math.round(tm), b: Math.round(tm), step: STEP, rows, caret, lit } }; }
    }
    if (cur) ev.push(cur.e);
    if (process.env.VERIF_DEBUG) console.error(lines.map((x) => JSON.stringify(x)).join("\n") + "\n" + res.svg);
  } catch (err) { ev.push({ e: "threw", msg: String((err as Error).stack).slice(0, 600) }); }
  return { cfg: cfg(), ev, meta: p };
}
// ---- scenarios
const exported: Op[][] = c.model("TermMC", undefined, { workers: 4, mustCover: ["Do"] });
const C0 = { settle: 90, min: 300, max: 900, tail: 500 };
const PRE = [O("put", 120), O("put", 121), O("put", 122), O("put", 119), O("lf"), O("put", 118)];
const plans: Plan[] = []; const rng = c.rng;
exported.sort((a, b) => JSON.stringify(a) < JSON.stringify(b) ? -1 : 1).forEach((h, n) => { if (!c.thorough && n % 3 !== c.seed % 3) return; plans.push({ cols: 3, rows: 3, salt: n, c: C0, shape: "block", full: n % 5 === 0, segs: h.map((o, k) => ({ ops: k === 0 ? [...PRE, o] : [o, O("put", 99)], gap: 200 })) }); });
const WORDS = ["build ", "ok", "test: 12 <passed> & done", "$ ls", "a.txt  b.txt", "error!", "[####   ]", "->", "npm i"];
function text(s: string): Op[] { return [...s].map((ch) => O("put", ch.charCodeAt(0))); }
function burst(r: Rng, p: { cols: number; rows: number }, wide: boolean): Op[] {
  const out: Op[] = []; let look = 0;
  // the next attribute often differs from the last one in a single aspect, with text on both sides
  const flip = (): Op[] => { const f = r.pick([100, 200, 400, 800, 1600, 3200, 1, 10]); look = f === 1 ? look - look % 10 + r.int(0, 7) : f === 10 ? look - Math.floor(look / 10) % 10 * 10 + 10 * r.int(0, 7) : Math.floor(look / f) % 2 ? look - f : look + f; return [O("attr", look), ...text(r.pick(["k", "ab", "x y", " z "]))]; };
  const at = (): Op => O("attr", r.bool(0.3) ? 0 : r.int(0, 7) + 10 * (r.bool(0.4) ? r.int(1, 7) : 0) + 100 * r.int(0, 1) + (r.bool(0.3) ? 200 : 0) + (r.bool(0.25) ? 400 : 0) + (r.bool(0.1) ? 800 : 0) + (r.bool(0.15) ? 1600 : 0) + (r.bool(0.15) ? 3200 : 0));
  for (let k = r.int(1, 7); k > 0; k--) {
    const x = r.int(0, 29); const few = (): number => r.int(1, 3);
    if (x < 9) out.push(...text(r.pick(WORDS)));
    else if (x < 13) out.push(O("cr"), O("lf"));
    else if (x === 13) { if (wide) out.push(O("put", 200 + r.int(0, 3)), ...text("k")); else out.push(O("tab")); }
    else if (x < 17) { if (r.bool(0.6)) { out.push(...flip()); if (r.bool()) out.push(...flip()); } else { const a = at(); look = a.n; out.push(a); } }
    else if (x === 17) out.push(O("cr"));
    else if (x === 18) out.push(O("cup", r.int(1, p.rows + 1), r.int(1, p.cols + 1)));
    else if (x === 19) out.push(O(r.pick(["up", "down", "fwd", "back"]), few()));
    else if (x === 20) out.push(O("el", r.int(0, 2)));
    else if (x === 21) out.push(O("ed", r.int(0, 2)));
    else if (x === 22) out.push(O("vis", r.int(0, 1)));
    else if (x === 23) out.push(O(r.pick(["su", "sd", "il", "dl"]), few()));
    else if (x === 24) out.push(wide ? O("cr") : O(r.pick(["ich", "dch", "ech"]), few()));
    else if (x === 25) { const a = r.int(1, p.rows - 1); out.push(O("region", a, r.int(a + 1, p.rows))); }
    else if (x === 26) out.push(O(r.pick(["save", "rest"])));
    else if (x === 27) out.push(O("alt", r.int(0, 1)));
    else if (x === 28) out.push(O("ri"));
    else out.push(O(r.pick(["bs", "lf", "col"]), r.int(1, p.cols)));
  }
  return out;
}
for (let n = 0; n < c.n(380, 6000); n++) {
  const r = rng; const cols = r.int(6, 24); const rows = r.int(3, 8); const segs: Seg[] = []; const wide = r.bool(0.25); const size = { cols, rows };
  const k = r.int(2, 9); const style = r.int(0, 4);
  for (let i = 0; i < k; i++) {
    const gap = r.bool(0.35) ? r.int(1, 8) * 10 : r.bool(0.15) ? r.int(90, 400) * 10 : r.int(10, 90) * 10;
    let ops: Op[];
    // a session: typing at a prompt, a scrolling log, a progress bar, or anything at all
    if (style === 0) ops = i % 3 === 0 ? [O("cr"), O("lf"), ...text("$ ")] : text(r.pick(["l", "s", " -", "ab", "x"]));
    else if (style === 1) ops = Array.from({ length: r.int(1, 5) }, (_, q) => [...text(r.bool(0.3) ? "same" : `line ${i}.${q}`), O("cr"), O("lf")]).flat();
    else if (style === 2) ops = [O("cr"), ...text("#".repeat(Math.min(cols - 1, i + 1))), ...(r.bool() ? [O("el", 0)] : [])];
    else ops = burst(r, size, wide);
    const seg: Seg = { ops, gap };
    if (i > 0 && r.bool(0.08)) { size.cols = r.int(5, 26); size.rows = r.int(3, 9); seg.resize = [size.cols, size.rows]; }
    segs.push(seg);
  }
  // (the emulator library restores a cursor saved in the alternate screen to the wrong row once the terminal has shrunk)
  if (segs.some((s) => s.resize) && segs.some((s) => s.ops.some((o) => o.o === "alt"))) for (const s of segs) s.ops = s.ops.filter((o) => o.o !== "rest");
  plans.push({ cols, rows, segs, salt: n, full: r.bool(0.3), c: { settle: r.pick([85, 95, 155]), min: r.pick([300, 450]), max: r.pick([900, 1500, 2500]), tail: r.pick([500, 1200]) }, shape: r.pick(["block", "bar", "underline", "none"]) });
}
const traces = await c.record(plans, record);
c.validate("TermTrace", traces, {
  chunk: 60,
  key: (t, e) => e == null ? "short" : e.e === "threw" ? "threw" : e.e,
  describe: (t, e) => e?.e === "threw" ? `the recording could not be made into a film: ${e.msg}` : e?.e === "film" ? `the film lasts ${e.total} ms, not as long as the screens it is made of` : `between ${e?.a} and ${e?.b} ms the film shows ${JSON.stringify(e?.rows)} with the caret at ${JSON.stringify(e?.caret)}, which is not the screen the terminal had`,
  corrupt: (t, r) => {
    const spans = t.ev.filter((e) => e.e === "span" && e.b - e.a > 300); if (spans.length === 0) { const f = t.ev.find((e) => e.e === "film"); if (!f) return null; f.total += 10; return t; }
    const e = r.pick(spans); if (r.bool(0.2)) { t.ev.find((x) => x.e === "film").total += 10; return t; }
    const i = e.rows.findIndex((q: number[]) => q.length > 0); if (i < 0) { e.rows[0] = [97]; return t; }
    if (r.bool()) { e.rows[i] = [...e.rows[i], 97]; } else { e.rows[i] = [e.rows[i][0] % 1000 === 97 ? 98 : 97, ...e.rows[i].slice(1)]; } return t;
  },
});
c.finish({ recordings: plans.length, full_frame: plans.filter((p) => p.full).length, with_resize: plans.filter((p) => p.segs.some((s) => s.resize)).length });
