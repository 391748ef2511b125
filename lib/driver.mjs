// Client of the Rust driver: rebuilds it from /repo's working tree and runs
// batches of sources through giron's public API.
import { spawnSync, spawn } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

export const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
const CRATE = path.join(ROOT, 'driver');
export const BIN = path.join(CRATE, 'target', 'release', 'giron-driver');

export const COUNT_BIN = path.join(CRATE, 'target', 'count', 'x86_64-unknown-linux-gnu', 'release', 'giron-driver');

export class HarnessError extends Error {}

const CARGO_ENV = () => {
  const e = { ...process.env, CARGO_NET_OFFLINE: 'true', RUSTUP_TOOLCHAIN: 'stable', CARGO_TERM_COLOR: 'never' };
  for (const k of ['CARGO_TARGET_DIR', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS']) delete e[k];
  e.HOME ||= '/root';
  e.PATH = '/root/.cargo/bin:' + (e.PATH || '/usr/local/bin:/usr/bin:/bin');
  return e;
};

export function build() {
  const t0 = Date.now();
  const r = spawnSync('cargo', ['build', '--release', '--offline', '--locked', '-q'], { cwd: CRATE, env: CARGO_ENV(), encoding: 'utf8', maxBuffer: 1 << 26 });
  if (r.status !== 0) throw new HarnessError('driver build failed:\n' + (r.stderr || r.error));
  return (Date.now() - t0) / 1000;
}

// The wrapper of giron-wasm/src/lib.rs, next to the library, in one driver.
const WCRATE = path.join(ROOT, 'wasm');
export const WRAP_BIN = path.join(WCRATE, 'target', 'release', 'giron-wasm-driver');
// -> null, or what is missing: an export the driver cannot find
export function buildWrapper() {
  const run = a => spawnSync('cargo', ['build', '--release', '--offline', '--locked', '-q', ...a], { cwd: WCRATE, env: CARGO_ENV(), encoding: 'utf8', maxBuffer: 1 << 26 });
  let r = run(['--lib']);
  if (r.status !== 0) throw new HarnessError('the wrapper does not compile:\n' + (r.stderr || r.error));
  r = run(['--bins']);
  if (r.status === 0) return null;
  const m = /cannot find function `(parse\w+)` in module `giron_wasm::wrapper`/.exec(r.stderr);
  if (m) return m[1];
  throw new HarnessError('wrapper driver build failed:\n' + (r.stderr || r.error));
}

// The counting build: giron and the driver with a callback in every basic block
// (LLVM's sanitizer coverage), so that a parse reports how many it executed.
export function buildCounting() {
  const obj = path.join(CRATE, 'target', 'count.o');
  fs.mkdirSync(path.dirname(obj), { recursive: true });
  let r = spawnSync('gcc', ['-O2', '-c', '-fPIC', path.join(CRATE, 'count.c'), '-o', obj], { encoding: 'utf8' });
  if (r.status !== 0) throw new HarnessError('count.c does not compile:\n' + (r.stderr || r.error));
  const flags = ['--cfg', 'giron_count', ...['passes=sancov-module', 'llvm-args=-sanitizer-coverage-level=3', 'llvm-args=-sanitizer-coverage-trace-pc-guard', 'link-arg=' + obj, ...['memcpy', 'memmove', 'memset', 'memcmp', 'bcmp'].map(f => 'link-arg=-Wl,--wrap=' + f), 'codegen-units=1'].flatMap(x => ['-C', x])];
  r = spawnSync('cargo', ['build', '--release', '--offline', '--locked', '-q', '--target', 'x86_64-unknown-linux-gnu', '--target-dir', 'target/count'], { cwd: CRATE, env: { ...CARGO_ENV(), RUSTFLAGS: flags.join(' ') }, encoding: 'utf8', maxBuffer: 1 << 26 });
  if (r.status !== 0) throw new HarnessError('counting driver build failed:\n' + (r.stderr || r.error));
}

let tmpdir = null;
export function scratch() {
  if (!tmpdir) {
    tmpdir = fs.mkdtempSync(path.join(os.tmpdir(), 'giron-verif-'));
    process.on('exit', () => { try { fs.rmSync(tmpdir, { recursive: true, force: true }); } catch {} });
    for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2));
  }
  return tmpdir;
}

export const MODULE = 1, DEBUG = 2, NOAST = 4, KEYS = 8; // KEYS: look for repeated fields in the JSON

function encode(inputs) {
  const parts = [];
  for (const { src, flags } of inputs) {
    const b = Buffer.from(src, 'utf8');
    const h = Buffer.alloc(5);
    h[0] = flags; h.writeUInt32LE(b.length, 1);
    parts.push(h, b);
  }
  return Buffer.concat(parts);
}

function runProc(args, env, bin = BIN) {
  return new Promise((res, rej) => {
    const p = spawn(bin, args, { stdio: ['ignore', 'pipe', 'pipe'], env: { ...process.env, ...env } });
    let out = '', err = '';
    p.stdout.on('data', d => out += d); p.stderr.on('data', d => { if (err.length < 65536) err += d; });
    p.on('error', rej);
    p.on('close', (code, signal) => res({ code, signal, out, err }));
  });
}

let seq = 0;
async function rawBatch(inputs, threads, env, bin) {
  const base = path.join(scratch(), 'b' + (seq++));
  fs.writeFileSync(base + '.in', encode(inputs));
  const r = await runProc(['batch', base + '.in', base + '.out', base + '.prog', String(threads)], env, bin);
  let results = null, culprits = [];
  if (r.code === 0) {
    const b = fs.readFileSync(base + '.out');
    results = []; let i = 0;
    while (i < b.length) { const n = b.readUInt32LE(i); results.push(b.toString('utf8', i + 4, i + 4 + n)); i += 4 + n; }
  } else {
    const p = fs.readFileSync(base + '.prog');
    for (let i = 0; i < p.length; i += 8) { const v = Number(p.readBigUInt64LE(i)); if (v) culprits.push(v - 1); }
  }
  for (const e of ['.in', '.out', '.prog']) fs.rmSync(base + e, { force: true });
  return { ...r, results, culprits };
}

function deathKind(r) {
  if (r.code === 96) return { k: 'hang', msg: 'did not terminate within the CPU-time budget' };
  if (r.code === 97) return { k: 'oom', msg: 'allocated more than 3 GiB for one parse' };
  return { k: 'abort', msg: `process died: code=${r.code} signal=${r.signal} ${r.err.slice(0, 400)}` };
}

// Once DEATHS.n processes of this harness thread have died, what is left of the
// batch in hand is not run any more: the violations are there already.
export const DEATHS = { n: 0, max: 25 };
// Runs inputs [{src, flags}] -> parsed records, same order. A process death is
// attributed to the one input that reproduces it alone, and the rest is rerun.
export async function runBatch(inputs, { threads = 8, env = {}, bin = BIN } = {}) {
  if (inputs.length === 0) return [];
  const r = await rawBatch(inputs, threads, env, bin);
  if (r.results) {
    if (r.results.length !== inputs.length) throw new HarnessError('driver returned a short batch');
    return r.results.map(s => JSON.parse(s));
  }
  const bad = new Map();
  for (const c of [...new Set(r.culprits)]) {
    const one = await rawBatch([inputs[c]], 1, env, bin);
    if (!one.results) bad.set(c, deathKind(one));
  }
  if (bad.size === 0) {
    // Not reproducible alone: bisect once, else harness error.
    if (inputs.length === 1) throw new HarnessError('driver died without reproducing: ' + deathKind(r).msg);
    const h = inputs.length >> 1;
    return [...await runBatch(inputs.slice(0, h), { threads, env, bin }), ...await runBatch(inputs.slice(h), { threads, env, bin })];
  }
  const rest = inputs.map((x, i) => i).filter(i => !bad.has(i));
  DEATHS.n += bad.size;
  if (DEATHS.n >= DEATHS.max) { const out = inputs.map(() => ({ k: 'notrun' })); for (const [i, v] of bad) out[i] = v; return out; }
  const rr = await runBatch(rest.map(i => inputs[i]), { threads, env, bin });
  const out = new Array(inputs.length);
  rest.forEach((i, j) => { out[i] = rr[j]; });
  for (const [i, v] of bad) out[i] = v;
  return out;
}

// Every input in a process of its own -> raw record texts, in order.
export async function runFresh(inputs, { env = {}, parts = 8 } = {}) {
  const per = Math.ceil(inputs.length / parts), out = [];
  await Promise.all(Array.from({ length: parts }, async (_, p) => {
    const part = inputs.slice(p * per, (p + 1) * per); if (!part.length) return;
    const base = path.join(scratch(), 'f' + (seq++));
    fs.writeFileSync(base + '.in', encode(part));
    const r = await runProc(['fresh', base + '.in', base + '.out'], env);
    if (r.code !== 0) throw new HarnessError('fresh run died: ' + r.err.slice(0, 400));
    const b = fs.readFileSync(base + '.out'); let i = 0, k = p * per;
    while (i < b.length) { const n = b.readUInt32LE(i); out[k++] = b.toString('utf8', i + 4, i + 4 + n); i += 4 + n; }
    for (const e of ['.in', '.out']) fs.rmSync(base + e, { force: true });
  }));
  return out;
}
// All inputs parsed again and again by several threads of one process, each
// record compared with the expected one.
export async function runConc(inputs, expected, { rounds, threads, seed, env = {} }) {
  const base = path.join(scratch(), 'c' + (seq++));
  fs.writeFileSync(base + '.in', encode(inputs));
  fs.writeFileSync(base + '.exp', Buffer.concat(expected.flatMap(s => { const b = Buffer.from(s, 'utf8'), h = Buffer.alloc(4); h.writeUInt32LE(b.length); return [h, b]; })));
  const r = await runProc(['conc', base + '.in', base + '.exp', String(rounds), String(threads), String(seed)], env);
  for (const e of ['.in', '.exp']) fs.rmSync(base + e, { force: true });
  if (r.code !== 0) return { died: deathKind(r) };
  return JSON.parse(r.out);
}
export const stripStats = s => s.replace(/,"alloc":\d+,"calls":\d+,"peak":\d+,"blocks":\d+\}$/, "");
