// Environments (workers, then the process) which end with watchers open.
import { Worker, isMainThread, workerData } from "node:worker_threads";
import path from "node:path";
const a = isMainThread ? { dir: process.argv[2], seed: Number(process.argv[4]), rounds: Number(process.argv[5]), scratch: process.argv[6] } : workerData;
const { watch } = await import(path.join(a.dir, "build/watcher.js"));
const busy = (ms) => { const t = Date.now() + ms; while (Date.now() < t); };
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
let k = a.seed;
const rnd = (n) => (k = (k * 1103515245 + 12345) % 2147483648, Math.floor(k / 7) % n);
const open = () => { let n = 0; return watch(rnd(4) ? `fake:${rnd(1e6)}:${[0, 100, 20000][rnd(3)]}:u${rnd(2) ? "s" : "u"}` : a.scratch, () => { if (++n % 10 === 0 && rnd(2)) busy(3); }); };
if (isMainThread) {
  for (let i = 0; i < a.rounds; i++) {
    const w = new Worker(new URL(import.meta.url), { workerData: { ...a, seed: rnd(1e6) } });
    const gone = new Promise((r) => w.on("exit", r)); w.on("error", () => {});
    await sleep(rnd(2) ? 60 + rnd(100) : rnd(60)); w.terminate(); await gone;
  }
  const ws = [open(), open(), open()]; await sleep(rnd(40)); if (rnd(2)) ws[1].close(); busy(rnd(10));
  console.log("ended"); process.exit(0);
} else {
  const ws = []; for (let i = 0; i < 1 + rnd(3); i++) ws.push(open());
  await sleep(rnd(40)); if (rnd(3) === 0) ws[0].close(); if (rnd(3) === 0) process.exit(0);
}
