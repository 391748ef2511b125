// Calls the JavaScript-facing wrapper (with a stand-in for wasm-bindgen) on each case and prints
// what JavaScript would be given. A case line is MODE GOAL SOURCE (a JSON string).
#[path = "/repo/giron-wasm/src/lib.rs"]
mod wrapper;
use wasm_bindgen::Given;

fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for l in text.lines() {
        let mut it = l.splitn(3, ' ');
        let (_, goal, src) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        let src: String = serde_json::from_str(src).unwrap();
        let (thrown, value) = if goal == "m" { wrapper::parseModule(src).given() } else { wrapper::parseScript(src).given() };
        println!("{} {:?}", thrown, value);
    }
}
