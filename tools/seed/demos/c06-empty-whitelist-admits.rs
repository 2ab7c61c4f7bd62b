#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (auth, prog, v) = (r.auth, r.prog, r.v);
    r.must(ix_whitelist(&auth, &v, &prog, true));
    r.must(ix_whitelist(&auth, &v, &prog, false));
    r.delegate(vec![7; 20], SOL);
    let ix = r.commit_ix(&v, &commit(5, r.lam(&r.acct), false, vec![1; 20]));
    expect(!r.run(ix), "an empty whitelist admits nobody");
}
