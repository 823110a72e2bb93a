//! Interpreted by Miri for other platforms: runs the calls named on the command line, prints outcomes.
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcommon::{Alg, Case, Outcome};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for a in std::env::args().skip(1) {
        let Some(c) = Case::parse(&a) else {
            println!("BADCASE {a}");
            continue;
        };
        let r = catch_unwind(AssertUnwindSafe(|| match c {
            Case::Kdf { k, pwd, salt, t, r, c } => lyra2::lyra2::lyra2(k, pwd.bytes(), salt.bytes(), t, r, c),
            Case::Sum(d) => lyra2::lyra2::sum(d.bytes()),
            Case::Hash(Alg::Re, d) => lyra2::lyra2re::sum(d.bytes()),
            Case::Hash(Alg::Rev2, d) => lyra2::lyra2rev2::sum(d.bytes()),
            Case::Hash(Alg::Rev3, d) => lyra2::lyra2rev3::sum(d.bytes()),
            Case::Hash(Alg::Z, d) => lyra2::lyra2z::sum(d.bytes()),
            Case::Stage(..) => Vec::new(),
        }));
        let o = match r {
            Ok(v) => Outcome::Ok(v),
            Err(_) => Outcome::Panic,
        };
        println!("OUTCOME {}", o.show());
    }
}
