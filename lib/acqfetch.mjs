// Preloaded into the real download child: serves what ACQ_SERVE says, without a network.
import path from "node:path";
const serve = JSON.parse(process.env.ACQ_SERVE ?? "{}")[process.env.ACQ_SERVED ?? ""] ?? {};
globalThis.fetch = async (url) => {
  const r = serve[path.basename(new URL(url).pathname)];
  if (r == null) return { ok: false, status: 404, arrayBuffer: async () => new ArrayBuffer(0), text: async () => "" };
  if (r.err) throw new TypeError("fetch failed");
  const body = Buffer.from(r.body, "latin1");
  return { ok: r.status < 400, status: r.status, arrayBuffer: async () => { if (r.cut) throw new TypeError("terminated"); return body.buffer.slice(body.byteOffset, body.byteOffset + body.length); }, text: async () => { if (r.cut) throw new TypeError("terminated"); return body.toString("latin1"); } };
};
