/** H02: the renderer's channel to the native text helper, against a helper that misbehaves as the request tells it to. */
import cp from "node:child_process";
import { syncBuiltinESMExports } from "node:module";
import { existsSync, mkdtempSync, readFileSync, rmSync } from "node:fs";
import { tmpdir } from "node:os";
import { join } from "node:path";
import { Check, Rng, VERIF, type Trace } from "../lib/check.js";

const c = new Check("H02", "fault_enumeration");
const KINDS = ["installed", "fallback", "fc", "bold", "italic", "linux", "meta", "glyph", "gid", "shape"] as const; type Kind = (typeof KINDS)[number];
interface Plan { can: boolean; steps: { s: string; o: string; kind: Kind }[]; n: number }
/** how each treatment counts: on the channel, and in a one-shot process */
const CLASS: Record<string, string> = { k: "ok", d: "ok", p: "ok", x: "ok", t: "twice", b: "bye", c: "broken", h: "broken", j: "broken", w: "broken", n: "hollow", e: "hollow", r: "hollow", f: "hollow", g: "hollow", v: "hollow" };
const OF = (k: string): string[] => Object.keys(CLASS).filter((l) => CLASS[l] === k); const LETTERS = "kbchjwtnerfgdpxv";
// ---- time runs twenty times faster for the code's own deadlines
const FAST = 20; const now = Date.now.bind(Date); const t0 = now(); const fast = (): number => t0 + (now() - t0) * FAST;
let hung = false; const spawnSync = cp.spawnSync as any;
(cp as any).spawnSync = (bin: string, args: any, o: any) => { const r = spawnSync(bin, args, { ...o, timeout: o?.timeout > 0 ? Math.max(1200, o.timeout / FAST) : 4000, killSignal: "SIGKILL" }); if (!(o?.timeout > 0) && r.error?.code === "ETIMEDOUT") hung = true; return r; };
syncBuiltinESMExports();
process.setMaxListeners(0);
const scratch = mkdtempSync(join(tmpdir(), "hlp-")); process.on("exit", () => rmSync(scratch, { recursive: true, force: true }));
process.env.DOMOTION_HELPER_PATH = join(VERIF, "lib", "fakehelper.pl"); delete process.env.DOMOTION_HELPER_NO_SERVE; delete process.env.DOMOTION_DISABLE_HELPER;
let serial = 0;
const starts = (log: string, m: string): number[] => existsSync(log) ? readFileSync(log, "utf8").split("\n").filter((l) => l.startsWith(m + " ")).map((l) => Number(l.split(" ")[1])) : [];
const alive = (pid: number): boolean => { try { process.kill(pid, 0); return !/^State:\s+Z/m.test(readFileSync(`/proc/${pid}/status`, "utf8")); } catch { return false; } };
const sleep = (ms: number): Promise<void> => new Promise((ok) => setTimeout(ok, ms));
async function record(p: Plan): Promise<Trace> {
  const log = join(scratch, `log${process.pid}-${++serial}`); process.env.FAKE_LOG = log; if (p.can) delete process.env.FAKE_NOSERVE; else process.env.FAKE_NOSERVE = "1";
  Date.now = fast; const m: any = await import(`/repo/src/render/glyph-helper.ts?h=${process.pid}-${serial}`); const ev: any[] = []; let font: any = null;
  const ask = (s: string, o: string, kind: string, f: () => string): void => {
    let got: string; let msg = ""; hung = false; try { got = f(); } catch (e) { got = "threw"; msg = String(e).slice(0, 200); } if (hung) got = "hung";
    ev.push({ e: "ask", s: CLASS[s], o: CLASS[o] === "ok" ? "ok" : "fail", got, serves: starts(log, "serve").length, ones: starts(log, "once").length, kind, treat: s + o, msg });
  };
  const is = (v: any, own: boolean): string => v == null ? "none" : own ? "own" : "other";
  try {
    for (let i = 0; i < p.steps.length; i++) {
      const { s, o, kind } = p.steps[i]; const id = i + 1;
      if (s === "clear") { m.clearGlyphHelperCache(); ev.push({ e: "clear" }); font = null; continue; }
      if (s === "turn") { await sleep(25); ev.push({ e: "turn" }); continue; }
      if (["glyph", "gid", "shape"].includes(kind) && font == null) {
        ask("k", "k", "open", () => { font = m.createGlyphHelperFont({ postscriptName: "Plain" }); return is(font, font?.unitsPerEm === 1000 && font?.ascent === 500); });
        if (font == null) break;
        ask("k", "k", "warm", () => { font.warmGlyphs([...Array(75).keys()].map((q) => q + 48)); const q = font.glyphForCodePoint(65); return q.advanceWidth === 0 ? "none" : q.advanceWidth === 65 ? "own" : "other"; });
      }
      const T = `T${id}s${s}o${o}`; const num = 4096 + 256 * id + 16 * LETTERS.indexOf(s) + LETTERS.indexOf(o); const uni = `F\u00e9\u6f22\u{1f600}-${T}`;
      ask(s, o, kind, () => {
        switch (kind) {
          case "installed": { const r = m.resolveInstalledFont(T); return is(r, r?.postscriptName === "PS-" + T && r?.familyName === uni && r?.path === "/f/" + T); }
          case "fallback": { const a = 0x5000 + 2 * id; const r = m.resolveSystemFallbackFonts([a, a + 1], T); const x = r.get(a); const y = r.get(a + 1); if ((x == null) !== (y == null) || r.size > 2) return "other"; return is(x, x?.postscriptName === `PS-${T}-${a}` && y?.postscriptName === `PS-${T}-${a + 1}` && x?.familyName === uni); }
          case "fc": { const a = 0x5000 + 2 * id; const r = m.resolveFcFallbackFonts([a, a + 1], T); const x = r.get(a); const y = r.get(a + 1); if ((x == null) !== (y == null) || r.size > 2) return "other"; return is(x, x?.family === `PS-${T}-${a}` && y?.path === `/f/${T}-${a + 1}`); }
          case "bold": return is(m.resolveFaceTraitBold(T), true);
          case "italic": return is(m.resolveFaceTraitItalic(T), true);
          case "linux": { const r = m.resolveLinuxFamilyMatch(T); return is(r, r?.postscriptName === "PS-" + T && r?.family === uni && r?.path === "/f/" + T); }
          case "meta": { const r = m.__helperMetaForTest(T); return is(r, r?.postscriptName === T && r?.ascent === id); }
          case "glyph": { const r = font.glyphForCodePoint(num); return r.advanceWidth === 0 ? "none" : is(r, r.advanceWidth === num && r.id === num); }
          case "gid": { const r = font.getGlyph(num); return r.advanceWidth === 0 ? "none" : is(r, r.advanceWidth === num && r.id === num); }
          default: { const r = font.layout(T); if (r.positions.length === 1 && r.positions[0].xAdvance === id) return "own"; return r.positions.length === T.length && r.positions.every((q: any, z: number) => q.xAdvance === T.charCodeAt(z)) ? "none" : "other"; }
        }
      });
      if (ev[ev.length - 1].got === "hung") break;
    }
    await sleep(20); const live = (): number => starts(log, "serve").filter(alive).length; let left = live(); for (let i = 0; i < 25 && left > 1; i++) { await sleep(20); left = live(); } ev.push({ e: "rest", left });
  } finally { Date.now = now; m.clearGlyphHelperCache(); for (const pid of starts(log, "serve")) if (alive(pid)) try { process.kill(pid, "SIGKILL"); } catch { /* gone */ } rmSync(log, { force: true }); }
  return { cfg: { can: p.can }, ev, meta: p };
}
// ---- plans
const exported = [...new Set(c.model("HelperMC", undefined, { mustCover: ["Request", "Forget", "Loop"] }).map((e: any) => JSON.stringify(e)))].sort();
const r0 = c.rng; const plans: Plan[] = []; let n = 0;
const letter = (r: Rng, k: string): string => k === "broken" ? r.pick(["c", "c", "h", "h", "j", "j", "j", "w"].slice(0, r.bool(0.15) ? 8 : 7)) : k === "ok" ? r.pick(["k", "k", "k", "k", "d", "p", "x"]) : r.pick(OF(k));
const once = (r: Rng, ok: boolean): string => ok ? r.pick(["k", "k", "k", "p", "x"]) : r.bool(0.03) ? "w" : r.pick([..."bchjntergfv"]);
for (const s of c.thorough ? exported : r0.shuffle(exported).slice(0, 320)) {
  const e = JSON.parse(s); plans.push({ can: e.can, n: ++n, steps: e.h.map(([a, b]: [string, string]) => ({ s: a === "clear" || a === "turn" ? a : letter(r0, a), o: once(r0, b === "ok"), kind: r0.pick([...KINDS]) })) });
}
// every treatment of every kind of request on a fresh and on a proven channel
for (const kind of KINDS) for (const s of LETTERS) for (const warm of [false, true]) {
  if (s === "w" && !c.thorough && kind !== "shape" && kind !== "installed") continue;
  plans.push({ can: true, n: ++n, steps: [...(warm ? [{ s: "k", o: "k", kind: "meta" as Kind }] : []), { s, o: once(r0, r0.bool()), kind }, { s: "k", o: "k", kind: r0.pick([...KINDS]) }, ...(r0.bool(0.4) ? [{ s: "turn", o: "", kind }, { s: "k", o: "c", kind: r0.pick([...KINDS]) }] : [])] });
}
for (let i = 0; i < c.n(120, 1500); i++) {
  const r = new Rng(r0.int(0, 2 ** 30), "help"); const calm = r.bool(0.6);
  plans.push({ can: r.bool(0.93), n: ++n, steps: Array.from({ length: r.int(3, 12) }, () => { const u = r.int(0, 99); const s = u < 5 ? "clear" : u < 20 ? "turn" : letter(r, r.pick(calm ? ["ok", "ok", "ok", "ok", "twice", "bye", "broken", "hollow"] : ["ok", "twice", "bye", "broken", "broken", "hollow"])); return { s, o: once(r, r.bool(0.6)), kind: r.pick([...KINDS]) }; }) });
}
const traces = (await c.record(plans, record)) as Trace[];
c.validate("HelperTrace", traces, {
  corrupt: (t, r) => { const e: any = r.pick(t.ev); if (e.e !== "ask") return null; if (r.bool()) e.got = e.got === "own" ? "other" : "threw"; else e.ones += 1; return t; },
  key: (t, ev) => ev?.e === "ask" ? `${ev.got}-${ev.kind}-${ev.treat[0]}` : ev?.e ?? "end",
  describe: (t, ev) => ev?.e === "ask" ? `request ${ev.kind} treated ${ev.s}/${ev.o} (${ev.treat}) received ${ev.got} ${ev.msg} with ${ev.serves} long-lived and ${ev.ones} one-shot helpers started, after ${JSON.stringify(t.ev.slice(0, t.ev.indexOf(ev)).map((x: any) => x.e === "ask" ? [x.treat, x.got, x.serves, x.ones] : x.e)).slice(0, 300)}` : `${JSON.stringify(ev)} in ${JSON.stringify(t.ev.map((x: any) => x.e === "ask" ? [x.treat, x.got, x.serves, x.ones] : x.e)).slice(0, 300)}`,
});
c.finish({ histories: plans.length, treatments: LETTERS.length, kinds: KINDS.length });
