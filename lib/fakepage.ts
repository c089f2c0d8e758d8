/** A fake Playwright page over a happy-dom window: page functions really run, every protocol call is logged and can be made to fail. */
import { createRequire } from "node:module";
const req = createRequire("/repo/package.json");
const { Window } = await import(req.resolve("happy-dom"));
const sharp: any = req("sharp"); sharp.concurrency(1);

export interface Call { n: number; op: string; detail: string }
export interface FakeOpts {
  html?: string; width?: number; height?: number;
  /** called before each protocol call; throw to inject a fault */
  fault?: (c: Call) => void;
  /** fault after the effect took place (reply lost) */
  faultAfter?: (c: Call) => void;
  /** answers the big in-page capture script; default runs it for real */
  captureScript?: (page: FakePage) => any;
  /** CDP method handlers; unknown methods resolve {} */
  cdp?: (method: string, params: any, s: FakeSession) => any;
  screenshot?: (page: FakePage, o: any) => Promise<Buffer> | Buffer;
  noCdp?: boolean;
}
export class FakeSession {
  detached = false; readonly sent: { method: string; params: any }[] = []; private ls: Record<string, ((e: any) => void)[]> = {};
  constructor(readonly page: FakePage) {}
  async send(method: string, params?: any): Promise<any> { return this.page.call("cdp." + method, JSON.stringify(params ?? {}).slice(0, 300), async () => { if (this.detached) throw new Error("Session detached"); this.sent.push({ method, params }); return (await this.page.o.cdp?.(method, params, this)) ?? this.page.defaultCdp(method, params ?? {}); }); }
  async detach(): Promise<void> { await this.page.call("cdp.detach", "", async () => { this.detached = true; }); }
  on(n: string, f: (e: any) => void): this { (this.ls[n] ??= []).push(f); return this; }
  once(n: string, f: (e: any) => void): this { return this.on(n, f); }
  off(n: string, f: (e: any) => void): this { this.ls[n] = (this.ls[n] ?? []).filter((x) => x !== f); return this; }
  removeListener(n: string, f: any): this { return this.off(n, f); }
  emit(n: string, e: any): void { for (const f of [...(this.ls[n] ?? [])]) f(e); }
}
let solidCache: Record<string, Buffer> = {};
export async function probePng(w: number, h: number): Promise<Buffer> {
  const k = w + "x" + h; if (solidCache[k]) return solidCache[k];
  const raw = Buffer.alloc(w * h * 3, 255);
  for (let y = Math.max(0, h - 15); y < h; y++) for (let x = Math.max(0, w - 15); x < w; x++) { const i = (y * w + x) * 3; raw[i] = 1; raw[i + 1] = 254; raw[i + 2] = 2; }
  return (solidCache[k] = await sharp(raw, { raw: { width: w, height: h, channels: 3 } }).png().toBuffer());
}
export class FakePage {
  readonly win: any; readonly calls: Call[] = []; readonly sessions: FakeSession[] = []; closed = false; waits: number[] = []; extra: any[] = [];
  constructor(readonly o: FakeOpts = {}) {
    this.win = new Window({ url: "http://page.test/", width: o.width ?? 400, height: o.height ?? 300 });
    this.win.__name = (f: any) => f; if (o.html != null) this.win.document.body.innerHTML = o.html;
    // happy-dom lacks a few globals the page functions read
    for (const [k, v] of Object.entries({ CSS: { escape: (s: string) => s, supports: () => false } })) if (this.win[k] == null) this.win[k] = v;
  }
  async call<T>(op: string, detail: string, f: () => Promise<T> | T): Promise<T> {
    const c: Call = { n: this.calls.length, op, detail }; this.calls.push(c);
    if (this.closed) throw new Error("Target page, context or browser has been closed");
    this.o.fault?.(c); const r = await f(); this.o.faultAfter?.(c); return r;
  }
  private async run(fn: any, arg: any): Promise<any> {
    const s = String(fn);
    let r: any;
    if (typeof fn === "function") { let f = this.compiled.get(s); if (f == null) { f = this.win.eval(`(${s})`); this.compiled.set(s, f); } r = await f(arg === undefined ? undefined : this.win.JSON.parse(JSON.stringify(arg))); } else r = await this.win.eval(s);
    return r === undefined ? undefined : JSON.parse(JSON.stringify(r));
  }
  private compiled = new Map<string, any>();
  private static labels = new Map<string, string>();
  static label(fn: any): string { const s = String(fn); const h = s.length + ":" + s.charCodeAt(Math.min(40, s.length - 1)); let l = FakePage.labels.get(h); if (l == null) { l = Buffer.from(s.slice(0, 160)).toString(); FakePage.labels.set(h, l); } return l; }
  evaluate = (fn: any, arg?: any): Promise<any> => this.call("evaluate", FakePage.label(fn), async () => {
    if (this.o.captureScript != null && typeof fn === "string" && fn.length > 60_000) return JSON.parse(JSON.stringify(this.o.captureScript(this)));
    return this.run(fn, arg);
  });
  private nodeIds = new Map<any, number>(); private byId = new Map<number, any>(); private objs = new Map<string, any>(); private nextObj = 1;
  idOf(n: any): number { let i = this.nodeIds.get(n); if (i == null) { i = this.nodeIds.size + 1; this.nodeIds.set(n, i); this.byId.set(i, n); } return i; }
  private cdpNode(n: any): any {
    const id = this.idOf(n); const kids = [...(n.childNodes ?? [])];
    return { nodeId: id, backendNodeId: id, nodeType: n.nodeType, nodeName: n.nodeName, localName: n.localName ?? "", nodeValue: n.nodeValue ?? "", childNodeCount: kids.length, attributes: n.attributes ? [...n.attributes].flatMap((a: any) => [a.name, a.value]) : [], children: kids.map((k) => this.cdpNode(k)), frameId: "F" };
  }
  private remote(v: any): any { if (v === null || (typeof v !== "object" && typeof v !== "function")) return { type: typeof v, value: v }; const objectId = "o" + this.nextObj++; this.objs.set(objectId, v); return { type: "object", objectId }; }
  /** just enough of Chromium's protocol for the capture pipeline to run to completion */
  async defaultCdp(method: string, p: any): Promise<any> {
    const w = this.win;
    switch (method) {
      case "DOM.getDocument": return { root: this.cdpNode(w.document) };
      case "DOM.resolveNode": return { object: this.remote(this.byId.get(p.nodeId ?? p.backendNodeId)) };
      case "DOM.describeNode": return { node: this.cdpNode(p.objectId ? this.objs.get(p.objectId) : this.byId.get(p.nodeId ?? p.backendNodeId)) };
      case "DOM.requestNode": return { nodeId: this.idOf(this.objs.get(p.objectId)) };
      case "DOM.pushNodesByBackendIdsToFrontend": return { nodeIds: p.backendNodeIds };
      case "DOM.querySelectorAll": return { nodeIds: [...(this.byId.get(p.nodeId)?.querySelectorAll(p.selector) ?? [])].map((n: any) => this.idOf(n)) };
      case "DOM.querySelector": { const n = this.byId.get(p.nodeId)?.querySelector(p.selector); return { nodeId: n ? this.idOf(n) : 0 }; }
      case "DOM.getContentQuads": return { quads: [[0, 0, 10, 0, 10, 10, 0, 10]] };
      case "DOM.getBoxModel": { const q = [0, 0, 10, 0, 10, 10, 0, 10]; return { model: { content: q, padding: q, border: q, margin: q, width: 10, height: 10 } }; }
      case "CSS.getComputedStyleForNode": return { computedStyle: [{ name: "display", value: "block" }, { name: "appearance", value: "none" }] };
      case "CSS.getMatchedStylesForNode": return { matchedCSSRules: [], pseudoElements: [], inherited: [] };
      case "CSS.getPlatformFontsForNode": return { fonts: [] };
      case "Runtime.evaluate": { const v = await w.eval(p.expression); return { result: p.returnByValue ? { type: typeof v, value: v } : this.remote(v) }; }
      case "Runtime.callFunctionOn": { const self = this.objs.get(p.objectId); const f = w.eval(`(${p.functionDeclaration})`); const v = await f.apply(self, (p.arguments ?? []).map((a: any) => a.objectId ? this.objs.get(a.objectId) : a.value)); return { result: p.returnByValue ? { type: typeof v, value: v === undefined ? undefined : JSON.parse(JSON.stringify(v)) } : this.remote(v) }; }
      case "Runtime.getProperties": { const o = this.objs.get(p.objectId); return { result: Object.keys(o ?? {}).map((name) => ({ name, value: this.remote(o[name]), enumerable: true })) }; }
      case "Page.getFrameTree": return { frameTree: { frame: { id: "F", loaderId: "L", url: this.url() } } };
      case "Page.createIsolatedWorld": return { executionContextId: 1 };
      case "Page.getLayoutMetrics": { const v = { pageX: 0, pageY: 0, offsetX: 0, offsetY: 0, clientWidth: 400, clientHeight: 300, scale: 1, zoom: 1, x: 0, y: 0, width: 400, height: 300 }; return { cssLayoutViewport: v, cssVisualViewport: v, cssContentSize: v, layoutViewport: v, visualViewport: v, contentSize: v }; }
      case "Accessibility.getPartialAXTree": case "Accessibility.getFullAXTree": return { nodes: [] };
      case "DOMSnapshot.captureSnapshot": return { documents: [], strings: [] };
      default: return {};
    }
  }
  evaluateHandle = (fn: any, arg?: any): Promise<any> => this.call("evaluateHandle", String(fn).slice(0, 160), async () => { const v = await this.win.eval(`(${String(fn)})(${arg === undefined ? "" : JSON.stringify(arg)})`); return { asElement: () => null, dispose: async () => {}, jsonValue: async () => v, evaluate: async () => undefined, getProperties: async () => new Map() }; });
  frames(): any[] { return [this]; } mainFrame(): any { return this; } parentFrame(): any { return null; } url(): string { return "http://page.test/"; } name(): string { return ""; } isDetached(): boolean { return false; }
  viewportSize(): any { return { width: this.o.width ?? 400, height: this.o.height ?? 300 }; }
  isClosed(): boolean { return this.closed; } on(): this { return this; } off(): this { return this; } once(): this { return this; }
  async close(): Promise<void> { this.closed = true; }
  waitForTimeout = (ms: number): Promise<void> => this.call("wait", String(ms), async () => { this.waits.push(ms); });
  waitForLoadState = async (): Promise<void> => {};
  screenshot = (o: any = {}): Promise<Buffer> => this.call("screenshot", JSON.stringify(o.clip ?? {}), async () => this.o.screenshot != null ? this.o.screenshot(this, o) : probePng(Math.max(1, Math.round(o.clip?.width ?? 64)), Math.max(1, Math.round(o.clip?.height ?? 64))));
  $ = (): Promise<any> => this.call("$", "", async () => null); $$ = (): Promise<any[]> => this.call("$$", "", async () => []);
  locator(): any { throw new Error("fake page: no locator"); }
  emulateMedia = (o: any): Promise<void> => this.call("emulateMedia", JSON.stringify(o), async () => {});
  addStyleTag = (o: any): Promise<any> => this.call("addStyleTag", JSON.stringify(o).slice(0, 100), async () => { const s = this.win.document.createElement("style"); s.textContent = o.content; this.win.document.head.append(s); return { evaluate: async (f: any) => f(s), dispose: async () => {} }; });
  private ctx: any = null;
  context(): any { return this.ctx ??= { newCDPSession: (): Promise<any> => this.call("newCDPSession", "", async () => { if (this.o.noCdp) throw new Error("no cdp"); const s = new FakeSession(this); this.sessions.push(s); return s; }), pages: () => [this], browser: () => null, newPage: async () => { throw new Error("fake context: no newPage"); } }; }
}
