//! A 32-bit little-endian platform at compiled speed: the crate built for wasm32, driven by run.js.
use vcommon::{Alg, Case, Outcome};

static mut BUF: [u8; 1 << 16] = [0; 1 << 16];

/// Where the driver writes the printed form of the call.
#[no_mangle]
pub extern "C" fn buf() -> *mut u8 {
    &raw mut BUF as *mut u8
}

/// Runs the call in the buffer and returns the fingerprint of its outcome; a panic traps.
#[no_mangle]
pub extern "C" fn run(len: u32) -> u64 {
    let s = unsafe { std::slice::from_raw_parts(buf(), len as usize) };
    let Some(c) = std::str::from_utf8(s).ok().and_then(Case::parse) else { return 0 };
    let v = match c {
        Case::Kdf { k, pwd, salt, t, r, c } => lyra2::lyra2::lyra2(k, pwd.bytes(), salt.bytes(), t, r, c),
        Case::Sum(d) => lyra2::lyra2::sum(d.bytes()),
        Case::Hash(Alg::Re, d) => lyra2::lyra2re::sum(d.bytes()),
        Case::Hash(Alg::Rev2, d) => lyra2::lyra2rev2::sum(d.bytes()),
        Case::Hash(Alg::Rev3, d) => lyra2::lyra2rev3::sum(d.bytes()),
        Case::Hash(Alg::Z, d) => lyra2::lyra2z::sum(d.bytes()),
        Case::Stage(..) => return 0,
    };
    vcommon::fp(&Outcome::Ok(v)) as u64
}
