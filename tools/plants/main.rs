// Parses each case and prints its outcome. A case line is MODE GOAL SOURCE (a JSON string); modes:
//   t tree or error   d tree with spans   p parse only   c many threads at once   g growth of cost
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static BYTES: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { BYTES.fetch_add(n, SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static GLOBAL: A = A;

fn outcome(mode: &str, goal: &str, src: &str) -> String {
    let res = if goal == "m" { giron::parse_module(src.to_string()) } else { giron::parse_script(src.to_string()) };
    match res {
        Ok(_) if mode == "p" => "tree".to_string(),
        Ok(node) if mode == "d" => format!("{:?}", node),
        Ok(node) => serde_json::to_string(&node).unwrap(),
        Err(e) => format!("error {}:{} {}", e.line, e.col, e),
    }
}

fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let cases: Vec<(String, String, String)> = text.lines().map(|l| {
        let mut it = l.splitn(3, ' ');
        let (m, g, s) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        (m.to_string(), g.to_string(), serde_json::from_str(s).unwrap())
    }).collect();
    if cases.iter().any(|c| c.0 == "c") {
        // what each thread sees while all others parse
        let seen: std::collections::BTreeSet<String> = (0..8).map(|t| {
            let cases = cases.clone();
            std::thread::spawn(move || {
                let mut seen = std::collections::BTreeSet::new();
                for i in 0..4000 {
                    let c = &cases[(i + t) % cases.len()];
                    seen.insert(format!("{:?} {}", c.2, outcome("t", &c.1, &c.2)));
                }
                seen
            })
        }).collect::<Vec<_>>().into_iter().flat_map(|h| h.join().unwrap()).collect();
        for s in seen { println!("{}", s); }
        return;
    }
    for (m, g, s) in cases {
        if m == "g" {
            // S is HEAD \u{1} REPEATED \u{1} TAIL, perhaps with \u{1} REPEATED \u{1} TAIL again
            let p: Vec<&str> = s.split('\u{1}').collect();
            let cost = |n: usize| {
                let src: String = p
                    .iter()
                    .enumerate()
                    .map(|(i, s)| s.repeat(if i % 2 == 1 { n } else { 1 }))
                    .collect();
                let b = BYTES.load(SeqCst);
                let t = std::time::Instant::now();
                outcome("p", &g, &src);
                ((BYTES.load(SeqCst) - b) as f64, t.elapsed().as_secs_f64())
            };
            cost(100);
            let (a, b) = (cost(5000), cost(40000));
            println!("{}", if b.0 / a.0 < 24.0 && (b.1 < 0.5 || b.1 / a.1 < 28.0) { "linear".to_string() } else { format!("superlinear {:?} {:?}", a, b) });
        } else {
            println!("{}", outcome(&m, &g, &s));
        }
    }
}
