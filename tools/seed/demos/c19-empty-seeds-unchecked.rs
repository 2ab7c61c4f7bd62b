#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.svm.set(r.acct, owned(rent(4) + SOL, vec![1; 4], r.prog));
    let mut a = r.dargs();
    a.seeds = vec![];
    expect(!r.run(r.delegate_ix(&a)), "a derived account is not delegated without its seeds");
    a = r.dargs();
    expect(r.run(r.delegate_ix(&a)), "with them, it is");
}
