//! Drives giron's public API and records what it observes.
//!
//! batch IN OUT PROGRESS [THREADS]
//!     IN:  repeated { flags: u8, len: u32le, utf-8 source }
//!          flags bit0: module goal, bit1: want Debug text, bit2: omit AST
//!     OUT: repeated { len: u32le, utf-8 JSON record }, same order.
//!     PROGRESS: one u64le per thread, index+1 of the input being parsed
//!          (so that the caller can name the culprit when the process dies).
//! fresh IN OUT
//!     as batch, but every input is parsed in a process forked for it alone,
//!     before which no parse ever ran in that process.
//! conc IN EXPECTED ROUNDS THREADS SEED
//!     history and concurrency monitor: THREADS threads each parse all inputs
//!     ROUNDS times, each time in another random order, in lockstep through a
//!     barrier every few inputs, and compare every record with EXPECTED (the
//!     OUT of fresh). Prints a JSON summary with the mismatches.
//! loop s|m FILE            parse once (for cachegrind)
//!
//! GD_STACK: stack size of the parsing threads in bytes.
use giron::{parse_module, parse_script};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- allocator
struct Counting;
thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}
const CAP: i64 = 3 << 30;
fn add(n: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            TOTAL.with(|t| t.set(t.get() + n as u64));
            CALLS.with(|t| t.set(t.get() + 1));
            let l = LIVE.with(|l| {
                l.set(l.get() + n as i64);
                l.get()
            });
            PEAK.with(|p| {
                if l > p.get() {
                    p.set(l)
                }
            });
            if l > CAP {
                unsafe { exit_now(97) }
            }
        }
    });
}
fn sub(n: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            LIVE.with(|l| l.set(l.get() - n as i64));
        }
    });
}
extern "C" {
    fn _exit(c: i32) -> !;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn pthread_self() -> usize;
}
unsafe fn exit_now(c: i32) -> ! {
    _exit(c)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn cpu_ns(clock: i32) -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(clock, &mut ts) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

// ---------------------------------------------------------------- one parse
thread_local! {
    static PANIC: Cell<Option<String>> = const { Cell::new(None) };
}
fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
struct Obs {
    json: String,
}
fn strip_stats(j: &str) -> &str {
    // the allocation counters are the last four fields
    match j.rfind(",\"alloc\":") {
        Some(i) => &j[..i],
        None => j,
    }
}
// Basic blocks executed by this thread so far (counting build only).
#[cfg(giron_count)]
fn blocks() -> u64 {
    extern "C" {
        fn gv_blocks() -> u64;
    }
    unsafe { gv_blocks() }
}
#[cfg(not(giron_count))]
fn blocks() -> u64 {
    0
}
fn observe(src: &str, flags: u8) -> Obs {
    let s = src.to_string();
    TOTAL.with(|t| t.set(0));
    CALLS.with(|t| t.set(0));
    LIVE.with(|t| t.set(0));
    PEAK.with(|t| t.set(0));
    PANIC.with(|p| p.set(None));
    ARMED.with(|a| a.set(true));
    let b0 = blocks();
    let r = std::panic::catch_unwind(|| if flags & 1 == 1 { parse_module(s) } else { parse_script(s) });
    let b1 = blocks();
    ARMED.with(|a| a.set(false));
    let stats = format!(
        "\"alloc\":{},\"calls\":{},\"peak\":{},\"blocks\":{}",
        TOTAL.with(|t| t.get()),
        CALLS.with(|t| t.get()),
        PEAK.with(|t| t.get()),
        b1 - b0
    );
    let json = match r {
        Err(_) => {
            let m = PANIC.with(|p| p.take()).unwrap_or_default();
            format!("{{\"k\":\"panic\",\"msg\":{},{}}}", esc(&m), stats)
        }
        Ok(Err(e)) => format!(
            "{{\"k\":\"err\",\"line\":{},\"col\":{},\"et\":{},\"msg\":{},{}}}",
            e.line,
            e.col,
            esc(&format!("{:?}", e.errortype)),
            esc(&format!("{}", e)),
            stats
        ),
        Ok(Ok(ast)) => {
            // Serialisation is part of the observed surface: it must not
            // fail or panic either.
            let ser = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if flags & 4 == 4 {
                    Ok(String::from("null"))
                } else {
                    serde_json::to_string(&ast)
                }
            }));
            match ser {
                Err(_) => {
                    let m = PANIC.with(|p| p.take()).unwrap_or_default();
                    format!("{{\"k\":\"serpanic\",\"msg\":{},{}}}", esc(&m), stats)
                }
                Ok(Err(e)) => format!("{{\"k\":\"sererr\",\"msg\":{},{}}}", esc(&e.to_string()), stats),
                Ok(Ok(j)) => {
                    let dbg = if flags & 2 == 2 {
                        format!(",\"dbg\":{}", esc(&format!("{:?}", ast)))
                    } else {
                        String::new()
                    };
                    let dup = if flags & 8 == 8 {
                        match duplicate_key(&j) {
                            Some(k) => format!(",\"dup\":{}", esc(&k)),
                            None => String::new(),
                        }
                    } else {
                        String::new()
                    };
                    format!("{{\"k\":\"ok\",\"ast\":{}{}{},{}}}", j, dbg, dup, stats)
                }
            }
        }
    };
    #[cfg(feature = "wrapper")]
    let json = wrapped(src, flags, json);
    Obs { json }
}

#[cfg(feature = "wrapper")]
fn held(h: &wasm_bindgen::Held) -> String {
    use wasm_bindgen::Held::*;
    let (t, v) = match h {
        Json(s) => ("json", s.clone()),
        Text(s) => ("text", s.clone()),
        x => ("other", format!("{:?}", x)),
    };
    format!("[{},{}]", esc(t), esc(&v))
}

// What the JavaScript-facing wrapper gives for the same source: whether it is a
// value serialised from a tree or a string, next to the library's error text.
#[cfg(feature = "wrapper")]
fn wrapped(src: &str, flags: u8, json: String) -> String {
    use wasm_bindgen::{Given, Held};
    let lib = if flags & 1 == 1 { parse_module(src.to_string()) } else { parse_script(src.to_string()) };
    let want = match &lib {
        Ok(ast) => Held::Json(serde_json::to_string(ast).unwrap_or_default()),
        Err(e) => Held::Text(format!("{:?}", e)),
    };
    let got = std::panic::catch_unwind(|| {
        let s = src.to_string();
        if flags & 1 == 1 { giron_wasm::wrapper::parseModule(s).given() } else { giron_wasm::wrapper::parseScript(s).given() }
    });
    let rec = match got {
        Err(_) => format!("{{\"k\":\"panic\",\"v\":{}}}", esc(&PANIC.with(|p| p.take()).unwrap_or_default())),
        Ok((false, v)) if v.0 == want => "{\"k\":\"same\"}".to_string(),
        Ok((thrown, v)) => format!("{{\"k\":{},\"got\":{},\"want\":{}}}", esc(if thrown { "thrown" } else { "other" }), held(&v.0), held(&want)),
    };
    let at = json.rfind(",\"alloc\":").unwrap();
    format!("{},\"wrap\":{}{}", &json[..at], rec, &json[at..])
}

// The first field that occurs twice in one object of a JSON text.
fn duplicate_key(json: &str) -> Option<String> {
    let b = json.as_bytes();
    let mut stack: Vec<Vec<&str>> = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'{' => stack.push(vec![]),
            b'}' => {
                stack.pop();
            }
            b'"' => {
                let start = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                if b.get(i + 1) == Some(&b':') {
                    let key = &json[start..i];
                    let top = stack.last_mut().unwrap();
                    if top.contains(&key) {
                        return Some(key.to_string());
                    }
                    top.push(key);
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}

fn read_inputs(path: &str) -> Vec<(u8, String)> {
    let mut b = Vec::new();
    std::fs::File::open(path).unwrap().read_to_end(&mut b).unwrap();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let f = b[i];
        let n = u32::from_le_bytes([b[i + 1], b[i + 2], b[i + 3], b[i + 4]]) as usize;
        v.push((f, String::from_utf8(b[i + 5..i + 5 + n].to_vec()).expect("driver input is utf-8")));
        i += 5 + n;
    }
    v
}

fn stack() -> usize {
    std::env::var("GD_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(1 << 30)
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn sched_yield() -> i32;
}

fn write_records(output: &str, records: &[String]) {
    let mut out = std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(output).unwrap());
    for r in records {
        out.write_all(&(r.len() as u32).to_le_bytes()).unwrap();
        out.write_all(r.as_bytes()).unwrap();
    }
    out.flush().unwrap();
}

fn read_records(path: &str) -> Vec<String> {
    let b = std::fs::read(path).unwrap();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
        v.push(String::from_utf8(b[i + 4..i + 4 + n].to_vec()).unwrap());
        i += 4 + n;
    }
    v
}

fn fresh(input: &str, output: &str) {
    let inputs = read_inputs(input);
    let mut records = vec![];
    for (i, (f, s)) in inputs.iter().enumerate() {
        let part = format!("{}.{}", output, i);
        let pid = unsafe { fork() };
        if pid == 0 {
            std::fs::write(&part, observe(s, *f).json).unwrap();
            unsafe { exit_now(0) }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        records.push(if st == 0 {
            std::fs::read_to_string(&part).unwrap()
        } else {
            format!("{{\"k\":\"abort\",\"msg\":\"status {}\"}}", st)
        });
        let _ = std::fs::remove_file(&part);
    }
    write_records(output, &records);
}

fn conc(input: &str, expected: &str, rounds: usize, threads: usize, seed: u64) {
    let inputs = Arc::new(read_inputs(input));
    let expected: Arc<Vec<String>> =
        Arc::new(read_records(expected).iter().map(|s| strip_stats(s).to_string()).collect());
    let n = inputs.len();
    let barrier = Arc::new(std::sync::Barrier::new(threads));
    let bad: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let inflight = Arc::new(AtomicUsize::new(0));
    let overlapped = Arc::new(AtomicU64::new(0));
    let parses = Arc::new(AtomicU64::new(0));
    let pairs = Arc::new(Mutex::new(std::collections::HashSet::new()));
    let mut hs = vec![];
    for t in 0..threads {
        let (inputs, expected, barrier, bad) = (inputs.clone(), expected.clone(), barrier.clone(), bad.clone());
        let (inflight, overlapped, parses, pairs) =
            (inflight.clone(), overlapped.clone(), parses.clone(), pairs.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(stack())
                .spawn(move || {
                    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(t as u64 * 7919 + 1);
                    let mut rnd = move || {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        x
                    };
                    let mut seen = vec![];
                    for round in 0..rounds {
                        let mut order: Vec<usize> = (0..n).collect();
                        // Every other round all threads walk in the same order,
                        // so that they parse the same source at the same time.
                        if round % 2 == 0 {
                            for i in (1..n).rev() {
                                order.swap(i, (rnd() % (i as u64 + 1)) as usize);
                            }
                        } else {
                            let mut y = seed.wrapping_add(round as u64).wrapping_mul(0x2545f4914f6cdd1d) | 1;
                            for i in (1..n).rev() {
                                y ^= y << 13;
                                y ^= y >> 7;
                                y ^= y << 17;
                                order.swap(i, (y % (i as u64 + 1)) as usize);
                            }
                        }
                        let mut prev = usize::MAX;
                        for (k, &i) in order.iter().enumerate() {
                            if k % 8 == 0 {
                                barrier.wait();
                            }
                            if rnd() % 16 == 0 {
                                unsafe { sched_yield() };
                            }
                            let (f, s) = &inputs[i];
                            if inflight.fetch_add(1, Ordering::SeqCst) > 0 {
                                overlapped.fetch_add(1, Ordering::Relaxed);
                            }
                            let o = observe(s, *f).json;
                            inflight.fetch_sub(1, Ordering::SeqCst);
                            parses.fetch_add(1, Ordering::Relaxed);
                            if strip_stats(&o) != expected[i] {
                                let mut b = bad.lock().unwrap();
                                if b.len() < 20 {
                                    b.push(format!(
                                        "{{\"input\":{},\"prev\":{},\"round\":{},\"thread\":{},\"got\":{}}}",
                                        i,
                                        prev as i64,
                                        round,
                                        t,
                                        esc(strip_stats(&o))
                                    ));
                                }
                            }
                            if prev != usize::MAX {
                                seen.push((prev * n + i) as u64);
                            }
                            prev = i;
                        }
                    }
                    pairs.lock().unwrap().extend(seen);
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().unwrap();
    }
    println!(
        "{{\"parses\":{},\"overlapped\":{},\"pairs\":{},\"bad\":[{}]}}",
        parses.load(Ordering::SeqCst),
        overlapped.load(Ordering::SeqCst),
        pairs.lock().unwrap().len(),
        bad.lock().unwrap().join(",")
    );
}

fn batch(input: &str, output: &str, progress: &str, threads: usize) {
    let inputs = Arc::new(read_inputs(input));
    let n = inputs.len();
    let prog = Arc::new(std::fs::File::create(progress).unwrap());
    prog.set_len(8 * threads as u64).unwrap();
    let next = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
    // per-thread cpu clock id and cpu time at the start of the current input
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let limit: u64 = std::env::var("GD_CPU_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20_000) * 1_000_000;
    let mut hs = vec![];
    for t in 0..threads {
        let (inputs, next, results, prog, slots) =
            (inputs.clone(), next.clone(), results.clone(), prog.clone(), slots.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(stack())
                .spawn(move || {
                    let mut clock = 0i32;
                    unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
                    slots[t].0.store(clock as u32 as u64, Ordering::SeqCst);
                    let mut local: Vec<(usize, String)> = vec![];
                    loop {
                        let base = next.fetch_add(32, Ordering::SeqCst);
                        if base >= n {
                            break;
                        }
                        for i in base..(base + 32).min(n) {
                            prog.write_all_at(&(i as u64 + 1).to_le_bytes(), 8 * t as u64).unwrap();
                            slots[t].1.store(cpu_ns(clock) | 1, Ordering::SeqCst);
                            let (f, s) = &inputs[i];
                            local.push((i, observe(s, *f).json));
                            slots[t].1.store(0, Ordering::SeqCst);
                        }
                        if local.len() >= 256 {
                            let mut r = results.lock().unwrap();
                            for (i, s) in local.drain(..) {
                                r[i] = Some(s);
                            }
                        }
                    }
                    let mut r = results.lock().unwrap();
                    for (i, s) in local.drain(..) {
                        r[i] = Some(s);
                    }
                    slots[t].0.store(u64::MAX, Ordering::SeqCst);
                })
                .unwrap(),
        );
    }
    // CPU-time watchdog (not wall clock): a parse that burns `limit` of CPU
    // time is reported as not terminating.
    let s2 = slots.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        for (t, (c, st)) in s2.iter().enumerate() {
            let c = c.load(Ordering::SeqCst);
            let st = st.load(Ordering::SeqCst);
            if c != u64::MAX && st != 0 {
                let now = cpu_ns(c as u32 as i32);
                if now > st && now - st > limit {
                    eprintln!("HANG thread={}", t);
                    unsafe { exit_now(96) }
                }
            }
        }
    });
    for h in hs {
        h.join().unwrap();
    }
    let records: Vec<String> = results.lock().unwrap().iter_mut().map(|r| r.take().unwrap()).collect();
    write_records(output, &records);
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| p.set(Some(m)));
    }));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "batch" => batch(&a[2], &a[3], &a[4], a.get(5).and_then(|s| s.parse().ok()).unwrap_or(8)),
        "fresh" => fresh(&a[2], &a[3]),
        "conc" => conc(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap()),
        "loop" => {
            let s = std::fs::read_to_string(&a[3]).unwrap();
            let m = a[2] == "m";
            let r = std::thread::Builder::new()
                .stack_size(stack())
                .spawn(move || if m { parse_module(s).is_ok() } else { parse_script(s).is_ok() })
                .unwrap()
                .join();
            println!("{}", match r { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" });
        }
        _ => panic!("usage"),
    }
}
