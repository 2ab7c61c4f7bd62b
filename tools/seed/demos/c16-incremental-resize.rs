#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (auth, prog, v, v2) = (r.auth, r.prog, r.v, r.v2);
    for (k, ins) in [(v, true), (v, true), (v2, true), (key(9), false)] {
        expect(r.run(ix_whitelist(&auth, &k, &prog, ins)), "a change by the program's authority works");
    }
    let d = r.svm.get(&config_pda(&prog)).data;
    expect(dec_config(&d) == Some([v, v2].into_iter().collect()), "the whitelist holds the inserted validators");
}
