/** Small captured trees, as the capture stage would hand them to the renderer. Every box gets a colour of its own. */
export interface Node { x: number; y: number; width: number; height: number; styles?: Record<string, any>; children?: Node[]; animId?: string; tag?: string; text?: string; [k: string]: any }
export const colour = (k: number): string => `rgb(${17 + (k * 37) % 200}, ${k % 251}, ${40 + (k >> 8)})`;
export const STYLES: Record<string, any> = { backgroundColor: "rgba(0, 0, 0, 0)", backgroundImage: "none", backgroundClip: "border-box", borderColor: "rgba(0, 0, 0, 0)", borderWidth: "0px", borderRadius: "0px", borderTopWidth: "0px", borderRightWidth: "0px", borderBottomWidth: "0px", borderLeftWidth: "0px", borderTopStyle: "none", borderRightStyle: "none", borderBottomStyle: "none", borderLeftStyle: "none", borderTopColor: "rgba(0, 0, 0, 0)", borderRightColor: "rgba(0, 0, 0, 0)", borderBottomColor: "rgba(0, 0, 0, 0)", borderLeftColor: "rgba(0, 0, 0, 0)", borderCollapse: "separate", borderImageSource: "none", borderImageSlice: "100%", borderImageWidth: "1", borderImageOutset: "0px", borderImageRepeat: "stretch", overflowX: "visible", overflowY: "visible", scrollbarGutter: "auto", scrollWidth: 0, scrollHeight: 0, clientWidth: 0, clientHeight: 0, scrollTop: 0, scrollLeft: 0, objectFit: "fill", objectPosition: "50% 50%", filter: "none", backdropFilter: "none", mixBlendMode: "normal", clipPath: "none", mask: "none", maskImage: "none", maskMode: "match-source", maskSize: "auto", maskPosition: "0% 0%", maskRepeat: "repeat", maskComposite: "add", listStyleType: "none", listStyleImage: "none", listStylePosition: "outside", paddingTop: "0px", paddingRight: "0px", paddingBottom: "0px", paddingLeft: "0px", zIndex: "auto", position: "static", float: "none", order: "0", flexDirection: "row", color: "rgb(0, 0, 0)", fontSize: "16px", fontFamily: "Arial", fontWeight: "400", opacity: "1", visibility: "visible", outlineStyle: "none", outlineWidth: "0px", outlineColor: "rgb(0, 0, 0)", outlineOffset: "0px", boxShadow: "none", textShadow: "none", transform: "none", transformOrigin: "50% 50%", };
export function el(n: Node): any {
  return { tag: "div", text: "", ...n, styles: { ...STYLES, ...(n.styles ?? {}) }, children: (n.children ?? []).map(el) };
}
/** Colour -> the normalised form used when reading a document back. */
export function rgb(s: string | undefined): string {
  if (s == null) return ""; let m = /rgba?\(\s*(\d+)[ ,]+(\d+)[ ,]+(\d+)/.exec(s); if (m) return `${m[1]},${m[2]},${m[3]}`;
  m = /^#([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2})$/i.exec(s.trim()); if (m) return m.slice(1).map((h) => parseInt(h, 16)).join(",");
  m = /^#([0-9a-f])([0-9a-f])([0-9a-f])$/i.exec(s.trim()); if (m) return m.slice(1).map((h) => parseInt(h + h, 16)).join(","); return s;
}
