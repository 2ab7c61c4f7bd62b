#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (auth, prog) = (r.auth, r.prog);
    r.must(ix_whitelist(&auth, &r.v.clone(), &prog, true));
    r.must(ix_whitelist(&auth, &r.v2.clone(), &prog, true));
    r.must(ix_whitelist(&auth, &r.v2.clone(), &prog, false));
    let held = r.lam(&config_pda(&prog));
    expect(held >= rent(8 + 4 + 64), "the whitelist still holds the rent for two entries");
    let before = r.lam(&auth);
    r.must(ix_whitelist(&auth, &r.v2.clone(), &prog, true));
    expect(r.lam(&auth) == before, "rent that is there is not charged again");
}
