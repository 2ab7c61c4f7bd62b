#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (auth, prog, v, v2) = (r.auth, r.prog, r.v, r.v2);
    r.must(ix_whitelist(&auth, &v2, &prog, true));
    r.must(ix_whitelist(&auth, &v, &prog, false));
    let d = r.svm.get(&config_pda(&prog)).data;
    expect(dec_config(&d) == Some([v2].into_iter().collect()), "removing an absent validator changes nothing");
}
