//! Running one call of the real crate.
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcommon::{Alg, Case, Outcome, Stage};

pub const HOOKS: bool = cfg!(lyra2_verif);

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

#[cfg(lyra2_verif)]
fn stage(s: Stage, x: Vec<u8>) -> Vec<u8> {
    match s {
        Stage::Bmw => lyra2::verif_hooks::bmw256(x),
        Stage::Cube => lyra2::verif_hooks::cubehash256(x),
        Stage::Lyra2Mod => lyra2::verif_hooks::lyra2mod(x),
    }
}
#[cfg(not(lyra2_verif))]
fn stage(_: Stage, _: Vec<u8>) -> Vec<u8> {
    unreachable!("built without hooks")
}

/// The arguments, materialised, so that preparing them is not part of the measured/scheduled call.
pub enum Prepared {
    Kdf(u64, Vec<u8>, Vec<u8>, u64, u64, u64),
    Sum(Vec<u8>),
    Hash(Alg, Vec<u8>),
    Stage(Stage, Vec<u8>),
}

pub fn prepare(c: &Case) -> Prepared {
    match c {
        Case::Kdf { k, pwd, salt, t, r, c } => Prepared::Kdf(*k, pwd.bytes(), salt.bytes(), *t, *r, *c),
        Case::Sum(d) => Prepared::Sum(d.bytes()),
        Case::Hash(a, d) => Prepared::Hash(*a, d.bytes()),
        Case::Stage(s, d) => Prepared::Stage(*s, d.bytes()),
    }
}

#[inline(never)]
pub fn call(p: Prepared) -> Vec<u8> {
    match p {
        Prepared::Kdf(k, pwd, salt, t, r, c) => lyra2::lyra2::lyra2(k, pwd, salt, t, r, c),
        Prepared::Sum(x) => lyra2::lyra2::sum(x),
        Prepared::Hash(Alg::Re, x) => lyra2::lyra2re::sum(x),
        Prepared::Hash(Alg::Rev2, x) => lyra2::lyra2rev2::sum(x),
        Prepared::Hash(Alg::Rev3, x) => lyra2::lyra2rev3::sum(x),
        Prepared::Hash(Alg::Z, x) => lyra2::lyra2z::sum(x),
        Prepared::Stage(s, x) => stage(s, x),
    }
}

pub fn actual_prepared(p: Prepared) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| call(p))) {
        Ok(v) => Outcome::Ok(v),
        Err(_) => Outcome::Panic,
    }
}

pub fn actual(c: &Case) -> Outcome {
    actual_prepared(prepare(c))
}

#[allow(unused_imports)]
pub use vcommon::{d16, fp};
