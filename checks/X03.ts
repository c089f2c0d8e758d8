/** X03: the two local servers, driven through model schedules of requests, failures and deaths. */
import { existsSync, readFileSync, rmSync, writeFileSync } from "node:fs";
import { dirname, join } from "node:path";
import { Check, Rng, type Trace } from "../lib/check.js";
import { Disk, World, ask, elsewhere, scriptText, sleep, tick, tree } from "../lib/serveworld.js";
import { startScrubberServer } from "/repo/src/scrubber/server.js";
import { startReviewServer } from "/repo/src/review/server.js";
import { SCRUBBER_CLIENT_JS } from "/repo/src/scrubber/client.bundle.generated.js";
import { REVIEW_CLIENT_JS } from "/repo/src/review/client.bundle.generated.js";

const c = new Check("X03");
type Req = Record<string, any>;
interface Plan { srv: "scrubber" | "review"; review: boolean; boot: { svg: string | null; name: string | null; path: string | null }; label: string; reqs: Req[]; sched: any[]; nodir: boolean; spoil: boolean }
const crashes: string[] = []; let driving = false;
for (const n of ["uncaughtException", "unhandledRejection"]) process.on(n, (e: any) => { if (!driving) { console.error(e); process.exit(3); } crashes.push(String(e)); });
const svgOf = (r: Req, i: number): string => `<svg xmlns="http://www.w3.org/2000/svg" data-req="${i}" viewBox="0 0 ${r.iw} ${r.ih}"><rect width="5" height="5"/></svg>`;
function bodyOf(r: Req, i: number): { path: string; body: string | Buffer } {
  const svg = svgOf(r, i); const crop = r.crop.length ? { crop: { x: r.crop[0] / 10, y: r.crop[1] / 10, w: r.crop[2] / 10, h: r.crop[3] / 10 } } : {};
  const whole: Record<string, any> = { frame: { svg, timeMs: r.t0, width: r.w / 10, height: r.h / 10, ...crop }, timing: { svg }, video: { svg, startMs: r.t0, endMs: r.t1, width: r.w / 10, height: r.h / 10, ...crop }, trim: { svg, startMs: r.t0, endMs: r.t1, periodMs: r.period, ...crop },
    ticket: { title: `title ${i}`, note: `note ${i}`, svgName: r.name, frameTimeMs: r.t0, rangeStartMs: r.t0, rangeEndMs: r.t1, attachFrame: r.attach, svg, regions: [] } };
  const path = { frame: "/export-frame", timing: "/timing", video: "/export-range-video", trim: "/trim", ticket: "/ticket" }[r.k as string] ?? "/timing";
  if (r.k === "huge") return { path: "/timing", body: Buffer.alloc(65 * 1024 * 1024, 120) };
  let b: any = whole[r.k] ?? whole.timing; if (r.bad) { const s = r.spoil as string; if (s === "json") return { path, body: "{" }; if (s === "empty") return { path, body: "" }; b = { ...b }; const [key, v] = JSON.parse(s); if (v === null) delete b[key]; else b[key] = v; }
  return { path, body: JSON.stringify(b) };
}
async function record(p: Plan): Promise<Trace> {
  const d = new Disk(); const w = new World(); const ev = w.ev; crashes.length = 0; driving = true; const envs = { TMPDIR: process.env.TMPDIR, FFMPEG_PATH: process.env.FFMPEG_PATH, pwd: process.cwd() }; process.env.TMPDIR = d.tmp;
  try {
    let port = 0, close: () => Promise<void>; const files: Record<string, string> = {};
    if (p.srv === "scrubber") {
      if (p.nodir) rmSync(d.home, { recursive: true });
      const s = await startScrubberServer({ initialSvg: p.boot.svg ?? undefined, initialName: p.boot.name ?? undefined, initialPath: p.boot.path ?? undefined, review: p.review, ticketDir: d.home, launchBrowser: w.launch as any }); port = s.port; close = s.close;
    } else {
      const f: any = {}; for (const [k, n] of [["expectedPng", "e.png"], ["actualPng", "a.png"], ["actualSvg", "a.svg"], ["diffPng", "d.png"]]) { f[k] = join(d.home, n); writeFileSync(f[k], `bytes of ${n} \u0000\u00ff`); }
      ["/expected.png", "/actual.png", "/actual.svg", "/diff.png"].forEach((r, i) => { files[r] = readFileSync(Object.values(f)[i] as string, "latin1"); });
      const s = await startReviewServer({ ...f, label: p.label } as any); port = s.port; close = s.close; if (p.spoil) { rmSync(f.diffPng); writeFileSync(f.actualPng, "changed"); }
    }
    const before = tree(join(d.root, "a")); const back: Promise<void>[] = []; const own: Record<number, string> = {}; const encoder = p.reqs.find((r) => r.k === "video")?.ff ?? "ok"; process.env.FFMPEG_PATH = d.encoder(encoder); let answered = 0;
    const send = (i: number): void => {
      const r = p.reqs[i - 1]; w.anims[i] = r.period ?? 0; ev.push({ e: "send", i });
      back.push((async () => {
        if (r.k === "raw") {
          const a = await ask(port, r.m, r.path + (r.query ?? ""), ["POST", "PUT"].includes(r.m) ? r.raw ?? "{}" : null); const s = a.body.toString("latin1"); let body = "other";
          if (s === "") body = "empty"; else if (s === Buffer.from(p.srv === "scrubber" ? SCRUBBER_CLIENT_JS : REVIEW_CLIENT_JS, "utf8").toString("latin1")) body = "client"; else if (files[r.path] === s) body = r.path; else if (a.status === 404 && !s.includes("SECRET") && s.length < 200) body = "nothing";
          else if (a.type.startsWith("text/html")) { try { const win: any = {}; new Function("window", scriptText(a.body.toString("utf8")))(win); const got = p.srv === "scrubber" ? win.__SCRUBBER_BOOTSTRAP__ : win.__SVG_REVIEW__.label; const want = p.srv === "scrubber" ? { ...p.boot, review: p.review } : p.label; body = JSON.stringify(got) === JSON.stringify(want) && s.includes(`<script src="/client.js"></script>`) ? "shell" : "harmed"; } catch { body = "harmed"; } }
          ev.push({ e: "resp", i, status: a.status, body }); return;
        }
        const { path, body } = bodyOf(r, i); const a = await ask(port, "POST", path, body, { chunks: r.chunks, ...(r.k === "cutoff" ? { cutAt: Math.floor(body.length / 2) } : {}) });
        const e: any = { e: "resp", i, status: a.status }; let j: any = null; try { j = JSON.parse(a.body.toString("utf8")); } catch { /* not json */ }
        if (r.k === "frame") e.own = a.type === "image/png" && a.body.toString() === (w.shots[i] ?? []).slice(-1)[0];
        if (r.k === "video") e.own = a.type === "video/mp4" && a.body.toString() === (w.shots[i] ?? []).join("");
        if (r.k === "timing") e.d = j == null || a.status !== 200 ? [] : [Math.round(j.durationMs), j.width, j.height];
        if (r.k === "trim") { const m = /viewBox="([^"]*)"/.exec(j?.svg ?? ""); e.box = m == null ? [] : m[1].split(" ").map((v) => Math.round(Number(v) * 10)); }
        if (r.k === "ticket" && a.status === 200) { const t = holds(j?.path, i); own[i] = j?.path; e.png = j?.framePng != null; e.own = t && dirname(j.path) === d.home && (!e.png || (dirname(j.framePng) === d.home && read(j.framePng) === (w.shots[i] ?? []).slice(-1)[0])); }
        ev.push(e);
      })().finally(() => { answered++; }));
    };
    const read = (f: string): string => { try { return readFileSync(f, "utf8"); } catch { return ""; } };
    const holds = (f: string, i: number): boolean => { try { const t = JSON.parse(readFileSync(f, "utf8")); return t.title === `title ${i}` && t.note === `note ${i}` && (t.framePng == null || read(t.framePng) === (w.shots[i] ?? []).slice(-1)[0]); } catch { return false; } };
    let next = 1; if (p.srv === "review") w.auto = true;
    for (const [what, arg] of p.sched) {
      if (what === "send") { if (next <= p.reqs.length) { send(next++); for (let k = 0; k < 4; k++) await tick(); } }
      else if (what === "idle") { const was = answered; for (let k = 0; k < 10; k++) await tick(); if (w.pending.length > 0 || answered < back.length || was !== answered || w.br == null || w.br.dead || w.br.closed) continue; const pg = w.br.pages.slice(-1)[0]; if (arg === "browser") { w.br.die(); ev.push({ e: "death", what: "browser" }); } else if (pg != null && pg.dead === "") { pg.dead = "crash"; ev.push({ e: "death", what: "page" }); } }
      else await w.step(what === "ok" ? "" : what === "getfail" ? "plain" : what);
    }
    while (next <= p.reqs.length) send(next++);
    w.release(); const all = Promise.all(back); const timer = { t: null as any }; const late = await Promise.race([all.then(() => false), new Promise<boolean>((ok) => { timer.t = setTimeout(() => ok(true), 8000); })]); clearTimeout(timer.t);
    if (late) { ev.push({ e: "unanswered", n: back.length - answered }); }
    const out = p.srv === "scrubber" || !p.spoil ? await elsewhere(port) : false;
    await Promise.race([close(), sleep(2000)]); for (let k = 0; k < 200 && d.running() > 0; k++) await sleep(5);
    const after = tree(join(d.root, "a")); let tickets = 0, stray = 0, lost = 0; for (const [n, s] of Object.entries(after)) { if (before[n] === s) continue; if (/^b\/c\/home\/[A-Za-z0-9._-]+\.ticket$/.test(n) && before[n] == null) tickets++; else if (/^b\/c\/home\/[A-Za-z0-9._-]+\.png$/.test(n) && before[n] == null && after[n.replace(/png$/, "ticket")] != null) { /* a ticket's picture */ } else stray++; } for (const n of Object.keys(before)) if (after[n] == null) stray++;
    for (const [i, f] of Object.entries(own)) if (!holds(f, Number(i))) lost++;
    for (const x of crashes) ev.push({ e: "crash", what: x.slice(0, 200) });
    ev.push({ e: "end", tickets, lost, stray, temps: Object.keys(tree(d.tmp)).length, procs: d.running(), live: w.live, elsewhere: out });
    const req = p.reqs.map((r) => ({ iw: 0, ih: 0, w: 0, h: 0, t0: 0, t1: 0, period: 0, crop: [], attach: false, bad: false, ff: encoder, nodir: p.nodir, m: "", path: "", ...r }));
    return { cfg: { srv: p.srv, review: p.review, req }, ev, meta: p };
  } finally { if (envs.TMPDIR == null) delete process.env.TMPDIR; else process.env.TMPDIR = envs.TMPDIR; if (envs.FFMPEG_PATH == null) delete process.env.FFMPEG_PATH; else process.env.FFMPEG_PATH = envs.FFMPEG_PATH; d.drop(); driving = false; }
}
// ---- plans
const NAMES = ["demo.svg", "animation", "../up", "../../up2.svg", "a/b\\c.svg", "..", ".", "", "x".repeat(150), "日本.svg", "a b c", "-lead-", "demo.SVG", "....//....//x", "nul\u0000byte", "con:aux|?*", "%2e%2e%2fx", "\n"];
const ROUTES = ["/", "/index.html", "/client.js", "/expected.png", "/actual.svg", "/diff.png", "/actual.png", "/favicon.ico", "/../secret.txt", "/%2e%2e/secret.txt", "/..%2f..%2fsecret.txt", "//secret.txt", "/mine.svg", "/index.html/", "/client.js/../../secret.txt", "/CLIENT.JS", "/timing", "/ticket", "/expected.png/", "/constructor", "/__proto__", "/toString", "*", "/a/b/secret.txt", "/./client.js", "/home/../secret.txt", "/hasOwnProperty"];
const BOOTS = ["<svg/>", "<svg><style>a{}</style></svg>", `<svg><script>/* </script> */</script></svg>`, `<svg><!-- c --><text>&amp; "q" 'a' \\ \u2028</text></svg>`, `<svg><!-- <script> --></svg>`, "<svg><text>$& $1 $$</text></svg>", `<svg><!--<script>`];
const BAD: Record<string, string[]> = { any: ["json", "empty", '["svg",""]', '["svg",null]', '["svg",7]', '["svg",{}]'], frame: ['["timeMs",-1]', '["width",0]', '["width",-3]', '["height",10001]', '["height",null]', '["timeMs","5"]', '["crop",{"x":-1,"y":0,"w":5,"h":5}]', '["crop",{"x":0,"y":0,"w":0,"h":5}]', '["crop",7]'], video: ['["startMs",-1]', '["endMs",null]', '["width",0]', '["height",20000]', '["crop",{"x":0,"y":-0.5,"w":5,"h":5}]'], trim: ['["periodMs",0]', '["periodMs",-5]', '["endMs","9"]', '["startMs",-2]', '["crop",{"x":0,"y":0,"w":5}]'], ticket: ['["title",""]', '["title",null]', '["category","nonsense"]', '["frameTimeMs",-1]', '["regions",[{"x":0,"y":0,"w":0,"h":1}]]', '["svgName",7]', '["rangeStartMs",null]', '["attachFrame","yes"]'] };
const plans: Plan[] = []; const rng = c.rng;
function reqOf(k: string, r: Rng, ff = "ok"): Req {
  const iw = r.int(1, 300), ih = r.int(1, 300); const crop = r.bool(0.5) ? [] : [r.int(0, 2600), r.int(0, 2600), r.int(1, 3000), r.int(1, 3000)];
  const t0 = r.pick([0, 33, 100, 500, 777, 1999]); const q: Req = { k, iw, ih, w: 10 * iw, h: 10 * ih, t0, t1: t0, period: r.pick([400, 1000, 2500, 4000]), crop, attach: false, bad: false, chunks: r.pick([1, 1, 2, 5]) };
  if (k === "frame" && r.bool(0.3)) { q.w = r.pick([1, 4, 5, 6, 994, 99995, 100000]); q.h = r.pick([3, 15, 505]); }
  if (k === "video") { q.t1 = r.pick([0, 1, 20, 50, 100, 150, 233, 300]) * r.pick([1, 1, -1]) + t0; if (q.t1 < 0) q.t1 = 0; q.ff = ff; if (r.bool(0.3)) { q.w = r.pick([10, 15, 25, 34, 1234]); q.h = r.pick([10, 15, 2001]); } }
  if (k === "trim") { q.t0 = r.int(0, q.period / 2); q.t1 = q.t0 + r.int(10, q.period / 2); }
  if (k === "ticket") { q.attach = r.bool(0.4); q.name = r.pick(NAMES); q.t1 = q.t0 + 10; }
  if (k === "raw") { q.m = r.pick(["GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"]); q.path = r.pick(ROUTES); if (q.path === "*") q.path = "/x"; q.query = r.pick(["", "", "?a=1", "?/../secret.txt"]); if (q.m === "POST" && ["/timing", "/ticket"].includes(q.path)) q.m = "GET"; q.chunks = 1; }
  if (["frame", "video", "trim", "ticket", "timing"].includes(k) && r.bool(0.2)) { q.bad = true; q.spoil = r.pick(k === "ticket" ? ["json", "empty", ...BAD.ticket] : [...BAD.any, ...(BAD[k] ?? [])]); }
  if (k === "video" && !q.bad && q.t0 === q.t1) q.t1 = q.t0;
  return q;
}
const base = { srv: "scrubber" as const, review: true, label: "x", nodir: false, spoil: false };
const exp = [...c.model("ServeMC", undefined, { mustCover: ["Arrive", "Get", "GetFails", "Do", "Refused", "Notice", "Dies", "Reply"] }), ...c.model("ServeMC", "ServeMC2.cfg", { mustCover: ["NoticeB"] })].map((e: any) => JSON.stringify(e)).sort();
for (const s of c.thorough ? rng.shuffle(exp).slice(0, 9000) : rng.shuffle(exp).slice(0, 500)) {
  const h = JSON.parse(s) as any[]; const ks = h.filter((x) => x[0] === "send").map((x) => x[1] as string);
  plans.push({ ...base, boot: { svg: null, name: null, path: null }, reqs: ks.map((k) => { const q = reqOf(k, rng); q.bad = false; q.chunks = 1; return q; }), sched: h.map((x) => (x[0] === "crash" && rng.bool(0.4) ? ["gone"] : x)) });
}
for (let i = 0; i < c.n(500, 6000); i++) {
  const r = new Rng(rng.int(0, 2 ** 30), "srv"); const srv = r.bool(0.85) ? "scrubber" : "review"; const n = r.int(1, 6); const ff = r.pick(["ok", "ok", "ok", "early", "mid", "late", "absent"]);
  const kinds = srv === "review" ? ["raw"] : r.pick([["frame", "timing", "video", "trim", "ticket", "raw"], ["ticket"], ["ticket", "frame"], ["video"], ["raw", "ticket"], ["frame", "timing", "cutoff"], ["trim", "raw"]]);
  const one = r.pick(NAMES); const reqs = Array.from({ length: n }, () => reqOf(r.pick(kinds), r, ff)); if (r.bool(0.5)) for (const q of reqs) if (q.k === "ticket") q.name = one;
  const sched: any[] = []; const crazy = r.bool(0.6); for (let q = 0; q < n * 6; q++) sched.push(q % 6 === 0 || r.bool(0.2) ? ["send"] : r.bool(crazy ? 0.9 : 1) ? ["ok"] : r.pick([["plain"], ["crash"], ["gone"], ["bgone"], ["getfail"], ["idle", "page"], ["idle", "browser"]]));
  plans.push({ srv, review: r.bool(0.85), boot: { svg: r.pick([null, ...BOOTS]), name: r.pick([null, "n.svg", "</script>"]), path: r.pick([null, "/p/<!--x"]) }, label: r.pick(["l", "</script><b>", "a & \"b\"", "<!--<script>", "é"]), reqs, sched, nodir: false, spoil: r.bool() });
}
plans.push({ ...base, boot: { svg: null, name: null, path: null }, reqs: [reqOf("huge", rng), { ...reqOf("timing", rng), bad: false }], sched: [["send"]] });
const traces = (await c.record(plans, record)) as Trace[];
c.validate("ServeTrace", traces, {
  corrupt: (t, r) => { const e: any = r.pick(t.ev); if (e.e === "call" && e.op === "seek") e.a = [e.a[0] + 1]; else if (e.e === "call" && e.op === "shot") e.a = e.a.length ? [] : [0, 0, 10, 10]; else if (e.e === "resp") { if (t.cfg.req[e.i - 1].k === "cutoff" || t.cfg.req[e.i - 1].k === "huge") return null; e.status = e.status === 200 ? 500 : 200; if (e.status === 200) return null; } else if (e.e === "end") e[r.pick(["tickets", "lost", "stray", "temps", "procs", "live"])]++; else return null; return t; },
  key: (t, ev) => `${t.cfg.srv}-${ev?.e ?? "end"}${ev?.e === "resp" ? "-" + t.cfg.req[ev.i - 1].k : ""}`, describe: (t, ev) => `${t.cfg.srv}: ${JSON.stringify(ev).slice(0, 300)} cannot happen here (${ev?.i != null && t.cfg.req[ev.i - 1] ? JSON.stringify(t.cfg.req[ev.i - 1]).slice(0, 300) : ""})`,
});
c.finish({ schedules: plans.length });
