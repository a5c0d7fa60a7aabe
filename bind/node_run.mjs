// Uses the binding as told by argv: dir out seed rounds scratch. Writes a record of
// what the callbacks got to out; the judging is done by node_check.py.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import { spawn } from "node:child_process";
const [dir, out, seed, rounds, scratch, mutator] = process.argv.slice(2);
const { watch, EffectType, PathType } = await import(path.join(dir, "build/watcher.js"));
const { outstanding } = createRequire(import.meta.url)(path.join(dir, "acct.node"));
const fd = fs.openSync(out, "w");
const put = (o) => fs.writeSync(fd, JSON.stringify(o) + "\n");
let s = BigInt(seed) * 2654435761n + 12345n;
const rnd = (n) => { s = (s * 6364136223846793005n + 1442695040888963407n) & 0xffffffffffffffffn; return Number((s >> 33n) % BigInt(n)); };
const pick = (a) => a[rnd(a.length)];
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const busy = (ms) => { const t = Date.now() + ms; while (Date.now() < t); };
let opened = 0;
process.on("uncaughtException", (e) => { if (e.message !== "boom") { put({ uncaught: String(e.stack) }); process.exitCode = 3; } });

class W {
  constructor(p, opt = {}) {
    this.id = ++opened; this.n = 0; this.opt = opt; this.results = []; this.kept = [];
    all.push(this);
    try { this.w = watch(p, (...a) => this.cb(...a)); }
    catch (e) { all.pop(); opened--; put({ refused: p.length, error: String(e) }); return; }
    put({ id: this.id, asked: Buffer.from(p).toString("hex") });
  }
  cb(...a) {
    const e = a[0], n = this.n++;
    put({ id: this.id, argc: a.length, keys: Object.keys(e).sort(), e: [e.effectTime, e.pathName, e.associatedPathName, e.effectType, e.pathType],
      known: Object.values(EffectType).includes(e.effectType) && Object.values(PathType).includes(e.pathType) });
    if (n < 40 || n % 97 === 0) this.kept.push([e, JSON.stringify(e)]);
    if (this.opt.closeAt === n) this.close();
    if (this.opt.busyAt === n) busy(40);
    if (this.opt.throwAt === n) throw new Error("boom");
  }
  close() { const r = this.w.close(); this.results.push(r); put({ id: this.id, close: r, type: typeof r }); return r; }
  async until(n, ms = 30000) { let t = Date.now() + ms, m = this.n; while (this.n < n && Date.now() < t) { await sleep(2); if (this.n !== m) { m = this.n; t = Date.now() + ms; } } }
  async still() { let n = -1; while (n !== this.n) { n = this.n; await sleep(60); } }
}
const fake = (n, flags) => `fake:${rnd(1e9)}:${n}:${flags || "x"}`;
const mutate = (d, n, s) => new Promise((r) => spawn("python3", [mutator, d, String(n), String(s)], { stdio: "inherit", env: { ...process.env, LD_PRELOAD: "" } }).on("exit", r));

// An event is the user's: those which came later must not change it.
let all = [];
function kept() {
  for (const w of all) {
    const i = w.kept.findIndex(([e, t]) => JSON.stringify(e) !== t);
    if (i >= 0) put({ changed: w.kept[i][1], to: JSON.stringify(w.kept[i][0]) });
    put({ kept: w.kept.length });
  }
  all = [];
}
async function one(kind) { await some(kind); kept(); }
async function some(kind) {
  put({ kind });
  if (kind === "burst") {          // far more than any queue, while this thread is busy
    const n = pick([100, 3000, 20000, 20000]), w = new W(fake(n, pick(["u", "ud"])));
    busy(pick([0, 100, 400])); await w.until(n + 1);
    if (rnd(2)) await w.still();
    w.close(); w.close(); if (rnd(2)) w.close(); await w.still();
  } else if (kind === "early") {
    const w = new W(fake(pick([0, 5, 50000]), pick(["u", "us"]))); if (rnd(2)) busy(rnd(30)); if (rnd(2)) await sleep(rnd(20));
    w.close(); w.close(); await w.still();
  } else if (kind === "self") {    // closed by its own callback
    const w = new W(fake(500, "u"), { closeAt: rnd(400) }); await w.until(w.opt.closeAt + 1); await w.still(); w.close();
  } else if (kind === "throws") {
    const n = 200, w = new W(fake(n, "u"), { throwAt: rnd(n), busyAt: rnd(n) }); await w.until(n + 1); w.close(); await w.still();
  } else if (kind === "dies") {
    const n = rnd(50), w = new W(fake(n, "ud")); await w.until(n + 2); w.close(); w.close(); await w.still();
  } else if (kind === "many") {
    const ws = []; for (let i = 0; i < 8; i++) ws.push(new W(fake(pick([0, 10, 1000]), pick(["u", "us"])))); busy(rnd(50)); await sleep(rnd(50));
    while (ws.length) { const w = ws.splice(rnd(ws.length), 1)[0]; w.close(); if (rnd(3) === 0) await sleep(rnd(5)); if (rnd(2)) w.close(); }
  } else if (kind === "real") {
    const d = path.join(scratch, "d" + opened + pick(["", "é世", " b"])); fs.mkdirSync(d);
    const w = new W(d); await w.until(1); const m = mutate(d, 20 + rnd(100), rnd(1e6));
    if (rnd(3) === 0) { busy(100); } else { await m; await w.still(); }
    w.close(); w.close(); await m; await w.still();
  } else if (kind === "odd") {     // names which are no text: the order and number must be right
    const n = 300, w = new W(fake(n, "x")); await w.until(n + 1); w.close(); await w.still();
  } else if (kind === "bad") {
    const w = new W(path.join(scratch, "no", "such")); await w.until(2); w.close(); w.close(); await w.still();
  } else if (kind === "paths") {   // watched as asked for, or not at all
    const d = path.join(scratch, "p" + opened); fs.mkdirSync(d);
    const long = (n, c) => { let p = d, w = Buffer.byteLength(c); while (Buffer.byteLength(p) < n) p += "/" + c.repeat(Math.max(1, Math.min(Math.floor(200 / w), Math.floor((n - Buffer.byteLength(p) - 1) / w)))); return p; };
    for (const p of [d + "\0x", "\0" + d, d + "\0", d + "/.\0", long(4090 + rnd(12), "a"), long(4080 + rnd(30), "é"), long(4080 + rnd(30), "\u{1f600}"), long(4094, "a"), long(4095, "a"), long(4096, "a"), long(10000, "世"), d + "/".repeat(4100), d]) {
      const w = new W(p); if (!w.w) continue;
      await w.until(p === d ? 1 : 2); w.close(); w.close(); await w.still();
    }
  } else if (kind === "arguments") {
    for (const f of [() => watch(), () => watch("x")]) { try { f(); } catch (e) { } }
  }
}
const kinds = ["burst", "early", "self", "throws", "dies", "many", "real", "odd", "bad", "paths"];
for (let i = 0; i < Number(rounds); i++) { await one(kinds[i % kinds.length]); }
// what a cycle leaves behind
const addon = path.join(dir, "build/Release/watcher-napi.node");
const settle = async () => { for (let i = 0; i < 5; i++) { globalThis.gc(); await sleep(20); } };
const cycle = async () => { for (const k of ["early", "dies", "many", "early", "bad"]) await one(k); };
await cycle(); await settle(); const a = outstanding(addon);
await cycle(); await cycle(); await cycle(); await settle(); const b = outstanding(addon);
put({ before: a, after: b });
put({ end: true });
