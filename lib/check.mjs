// Framework of the checks: shards workload streams over worker threads, has
// giron parse every case through the driver, applies the oracles, minimises
// and reports what they refute, and writes the evidence file.
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import fs from 'node:fs';
import path from 'node:path';
import { build, runBatch, DEATHS, scratch, ROOT, MODULE, DEBUG, NOAST, HarnessError } from './driver.mjs';
import { refParse } from './ref.mjs';
import { judgeTree } from './oracle.mjs';
import { minimise } from './minimise.mjs';
import { Rng, seedOf } from './rng.mjs';

const CHUNK = 1500;
// sampled streams (all but those marked `enum`) are scaled to the time a tier has
const SCALE = { quick: 3, thorough: 6 };
process.stdout.on('error', () => {});
export const goalFlag = g => g === 'm' ? MODULE : 0;
function hash(s) { // 52-bit
  let a = 0xdeadbeef, b = 0x41c6ce57;
  for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 2654435761); b = Math.imul(b ^ c, 1597334677); }
  a = Math.imul(a ^ (a >>> 16), 2246822507) ^ Math.imul(b ^ (b >>> 13), 3266489909);
  b = Math.imul(b ^ (b >>> 16), 2246822507) ^ Math.imul(a ^ (a >>> 13), 3266489909);
  return 4294967296 * (b & 0xfffff) + (a >>> 0);
}

export class Ctx {
  constructor({ id, tier, seed, shard = 0, shards = 1, deadline }) {
    Object.assign(this, { id, tier, seed, shard, shards, deadline });
    this.evaluations = 0; this.seen = new Set(); this.counters = {}; this.samples = []; this.raw = []; this.truncated = false;
    this.sampleRng = new Rng(seedOf('samples', id, seed, shard));
  }
  get quick() { return this.tier === 'quick'; }
  rng(...n) { return new Rng(seedOf(this.seed, this.id, ...n)); }
  bump(k, n = 1) { this.counters[k] = (this.counters[k] || 0) + n; }
  // one observed case; trivial cases are counted but not as distinct ones
  count(key, nontrivial = true) {
    this.evaluations++;
    if (nontrivial) { if (this.seen.size < 1_500_000) this.seen.add(hash(key)); else this.seenFull = true; }
    if (this.samples.length < 40 || this.sampleRng.int(this.evaluations) < 40) {
      const s = key.length > 400 ? key.slice(0, 400) + '…' : key;
      if (this.samples.length < 40) this.samples.push(s); else this.samples[this.sampleRng.int(40)] = s;
    }
  }
  violation(v) { // {src, goal, kind, detail, stream, min?: bool, ...}
    this.bump('refutations');
    if (this.raw.length < 60) this.raw.push(v);
  }
  expired() { if (Date.now() > this.deadline || DEATHS.n >= DEATHS.max) { this.truncated = true; return true; } return false; }
  async parse(cases, flags = 0, env = {}, bin = undefined) {
    return runBatch(cases.map(c => ({ src: c.src, flags: goalFlag(c.goal) | (c.flags ?? flags) })), { threads: this.shards > 1 ? 1 : 8, env, ...(bin ? { bin } : {}) });
  }
  // Streams: {name, n: {quick, thorough}, make(i, rng, ctx) -> case | case[] | null, flags?, judge?(case, rec, ctx) -> null | {skip} | {kind, detail}}
  async stream(s) {
    const total = typeof s.n === 'number' ? s.n : Math.floor((this.quick ? s.n.quick : s.n.thorough ?? s.n.quick * 10) * (s.enum ? 1 : SCALE[this.tier]));
    let cases = [];
    const flush = async () => {
      if (!cases.length) return;
      const recs = await this.parse(cases, s.flags ?? 0, s.env, s.bin);
      for (let i = 0; i < cases.length; i++) {
        const c = cases[i], rec = recs[i];
        if (rec.k === 'notrun') { this.truncated = true; continue; }
        const v = s.judge ? s.judge(c, rec, this) : this.tree(c, rec);
        if (v && v.skip) { this.bump('not judged: ' + v.skip); this.count(c.goal + ' ' + c.src, false); continue; }
        this.count(c.goal + ' ' + (c.key ?? c.src), c.trivial !== true);
        if (v) this.violation({ src: c.src, goal: c.goal, stream: s.name, kind: v.kind, detail: v.detail, type: v.type, path: v.path, valid: v.valid, min: s.min ?? !s.judge, env: s.env, extra: v.extra ?? c.extra });
      }
      this.bump('cases: ' + s.name, cases.length);
      cases = [];
    };
    for (let i = this.shard; i < total; i += this.shards) {
      const r = new Rng(seedOf(this.seed, this.id, s.name, i));
      const m = s.make(i, r, this);
      if (m) for (const c of Array.isArray(m) ? m : [m]) if (c && c.src.isWellFormed()) cases.push(c);
      if (cases.length >= (s.chunk ?? CHUNK)) { await flush(); if (this.expired()) return; }
    }
    await flush();
  }
  tree(c, rec) {
    const ref = refParse(c.src, c.goal);
    const v = judgeTree(c.src, c.goal, rec, ref);
    if (!v) this.bump(ref.ok ? 'equal trees' : 'both reject');
    return v;
  }
}

function loadKnown(id) {
  const f = path.join(ROOT, 'known-findings.txt');
  const out = [];
  if (!fs.existsSync(f)) return out;
  for (const line of fs.readFileSync(f, 'utf8').split('\n')) {
    const m = /^finding: property=(\w+) goal=([sm]) src=("(?:[^"\\]|\\.)*") (.*)$/.exec(line);
    if (m && m[1] === id) out.push({ goal: m[2], src: JSON.parse(m[3]), what: m[4] });
  }
  return out;
}

export async function runCheck(check) {
  const id = check.id;
  const t0 = Date.now();
  const tier = process.argv[2] || process.env.VERIF_TIER || 'quick';
  const seed = Number(process.env.VERIF_SEED || 1) | 0;
  if (process.argv[2] === 'replay') return replay(check, process.argv[3]);
  const wall = tier === 'quick' ? 300 : 760;
  const deadline = t0 + wall * 1000;
  build();
  const refuted = check.before ? check.before() : null;
  const tBuild = Date.now();
  const ctx = new Ctx({ id, tier, seed, deadline });
  // pinned known findings
  const known = loadKnown(id); let knownSeen = 0;
  if (known.length) {
    const recs = await ctx.parse(known, check.knownFlags ?? 0);
    for (let i = 0; i < known.length; i++) {
      const v = (check.knownJudge || ((c, rec) => judgeTree(c.src, c.goal, rec, undefined, true)))(known[i], recs[i], ctx);
      ctx.count(known[i].goal + ' ' + known[i].src);
      if (v && !v.skip) { knownSeen++; console.log(`KNOWN-FINDING: property=${id} ${JSON.stringify(known[i].src)} ${known[i].what}`); }
    }
  }
  const shards = refuted ? 0 : check.shards ?? 8;
  const results = await Promise.all(Array.from({ length: shards }, (_, shard) => new Promise((res, rej) => {
    const w = new Worker(new URL('./worker.mjs', import.meta.url), { workerData: { file: check.file, id, tier, seed, shard, shards, deadline }, resourceLimits: { maxOldGenerationSizeMb: 3000 }, stackSizeMb: undefined });
    w.on('message', res); w.on('error', rej); w.on('exit', c => { if (c !== 0) rej(new HarnessError('worker exited ' + c)); });
  })));
  const viol = [];
  for (const r of results) {
    if (r.error) throw new HarnessError(r.error);
    ctx.evaluations += r.evaluations;
    for (const h of r.seen) { if (ctx.seen.size >= 12_000_000) { ctx.seenFull = true; break; } ctx.seen.add(h); }
    ctx.seenFull ||= r.seenFull;
    for (const k in r.counters) ctx.bump(k, r.counters[k]);
    ctx.samples.push(...r.samples); ctx.truncated ||= r.truncated;
    viol.push(...r.raw);
  }
  if (refuted) viol.push(...refuted);
  if (check.main) { await check.main(ctx); viol.push(...ctx.raw); ctx.raw = []; }
  const reported = await report(check, ctx, viol, known);
  // evidence
  const sr = ctx.rng('evidence samples'); const samples = [];
  for (let i = 0; i < 12 && ctx.samples.length; i++) samples.push(ctx.samples.splice(sr.int(ctx.samples.length), 1)[0]);
  const ev = {
    property: id, tier, seed, level: check.level || 'exploration',
    coverage: {
      evaluations: ctx.evaluations, distinct_nontrivial: ctx.seen.size, rule: check.rule + (ctx.seenFull ? ' Distinct cases are counted up to 1.5 million per shard only.' : ''), samples,
      observed: Object.fromEntries(Object.entries(ctx.counters).sort()), truncated: ctx.truncated, ...(ctx.extra || {}),
    },
    assumptions: check.assumptions || [], wall_s: (Date.now() - t0) / 1000, violations: reported,
  };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
  console.log(`${id} ${tier} seed=${seed}: ${ctx.evaluations} evaluations, ${ctx.seen.size} distinct, ${reported} violations, ${knownSeen} known findings, build ${((tBuild - t0) / 1000).toFixed(1)} s, total ${((Date.now() - t0) / 1000).toFixed(1)} s`);
  for (const k of Object.keys(ctx.counters).sort()) if (!k.startsWith("cases: ") || process.env.VERIF_ALL) console.log(`  ${k}: ${ctx.counters[k]}`);
  process.exitCode = reported ? 1 : 0;
}

// the tree oracle again, as a predicate for minimisation
function treeTest(goal, kind, ok) {
  return async srcs => {
    const idx = [], cs = [];
    srcs.forEach((s, i) => { if (s.isWellFormed()) { idx.push(i); cs.push({ src: s, flags: goalFlag(goal) }); } });
    const recs = await runBatch(cs, { threads: 8 });
    const out = srcs.map(() => false);
    recs.forEach((rec, j) => { const v = judgeTree(cs[j].src, goal, rec); out[idx[j]] = !!v && v.kind === kind && (!ok || ok(v)); });
    return out;
  };
}

// a check's own judge as a predicate for minimisation
function ownTest(check, v) {
  return async srcs => {
    const idx = [], cs = [];
    srcs.forEach((s, i) => { if (s.isWellFormed()) { idx.push(i); cs.push({ src: s, flags: goalFlag(v.goal) | (check.flags ?? 0) }); } });
    const recs = await runBatch(cs, { threads: 8, env: v.env, ...(check.bin ? { bin: check.bin } : {}) });
    const out = srcs.map(() => false);
    recs.forEach((rec, j) => { if (rec.k === 'notrun') return; const w = check.minJudge({ src: cs[j].src, goal: v.goal }, rec); out[idx[j]] = !!w && !w.skip && w.kind === v.kind; });
    return out;
  };
}

async function report(check, ctx, viol, known) {
  if (!viol.length) return 0;
  const dir = path.join(ROOT, 'replays'); fs.mkdirSync(dir, { recursive: true });
  viol.sort((a, b) => a.src.length - b.src.length);
  if (process.env.VERIF_ALL) for (const v of viol) console.log('  ', v.stream, v.kind, v.goal, JSON.stringify(v.src).slice(0, 200), v.detail.slice(0, 120));
  const done = []; let reported = 0; const kinds = new Map(); let elsewhere = 0; const t0 = Date.now();
  for (const v of viol) {
    const key = v.stream + v.kind + (v.type || '');
    const n = kinds.get(key) || 0;
    if (n >= 3 || reported >= 5) continue;
    if (Date.now() - t0 > 60_000 && reported) break;
    kinds.set(key, n + 1);
    let src = v.src;
    if ((v.min || check.minJudge) && v.src.length < 20000 && Date.now() - t0 < 45_000) {
      DEATHS.n = 0;
      try { src = await minimise(v.src, check.minJudge ? ownTest(check, v) : treeTest(v.goal, v.kind, v.kind === 'crash' ? x => x.valid === v.valid : null)); } catch { src = v.src; }
    }
    if (known.some(k => k.goal === v.goal && (k.src === src || k.src === v.src))) continue;
    if (check.relevant && v.min && !check.relevant({ ...v, min: src, minRef: refParse(src, v.goal) })) { elsewhere++; if (elsewhere <= 5) console.log(`  (not about ${check.id}) ${v.kind} ${v.goal} ${JSON.stringify(src.slice(0, 300))}: ${v.detail}`); if (n >= 0) kinds.set(key, n); if (elsewhere > 40) break; continue; }
    if (done.includes(v.kind + src)) continue;
    done.push(v.kind + src);
    const file = path.join(dir, `${check.id}-${reported}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: check.id, goal: v.goal, src, ...(v.src === src ? {} : { original: v.src }), stream: v.stream, kind: v.kind, detail: v.detail, seed: ctx.seed, tier: ctx.tier, extra: v.extra }, null, 1) + '\n');
    console.log(`VIOLATION property=${check.id} replay=${file}`);
    console.log(`  ${v.stream}/${v.kind} ${v.goal === 'm' ? 'module' : 'script'} ${JSON.stringify(src.length > 600 ? src.slice(0, 600) + '…' : src)}: ${v.detail}`);
    reported++;
  }
  if (elsewhere) ctx.bump('differences of other properties', elsewhere);
  return reported;
}

async function replay(check, file) {
  const v = JSON.parse(fs.readFileSync(file, 'utf8'));
  build();
  const [rec] = await runBatch([{ src: v.src, flags: goalFlag(v.goal) | DEBUG }]);
  const j = judgeTree(v.src, v.goal, rec);
  console.log('source  ', JSON.stringify(v.src)); console.log('detail  ', v.detail);
  console.log('observed', JSON.stringify({ ...rec, dbg: undefined }).slice(0, 4000));
  console.log('tree oracle', j && !j.skip ? j.kind + ': ' + j.detail : 'agrees');
}

export async function workerMain() {
  const d = workerData;
  const ctx = new Ctx(d);
  let error = null;
  try {
    const check = (await import(d.file)).default;
    for (const s of check.streams(ctx)) { if (ctx.expired()) break; await ctx.stream(s); }
    if (check.shardRun) await check.shardRun(ctx);
  } catch (e) { error = String(e && e.stack || e); }
  parentPort.postMessage({ error, evaluations: ctx.evaluations, seen: Float64Array.from(ctx.seen), counters: ctx.counters, seenFull: ctx.seenFull, samples: ctx.samples, raw: ctx.raw, truncated: ctx.truncated });
}
