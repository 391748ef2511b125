// The JavaScript-facing wrapper as it stands in /repo. Its exports keep their
// JavaScript names here (see ../macro).
#[path = "/repo/giron-wasm/src/lib.rs"]
pub mod wrapper;
