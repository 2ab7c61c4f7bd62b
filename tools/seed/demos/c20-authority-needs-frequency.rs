#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.svm.set(r.acct, owned(rent(4) + SOL, vec![1; 4], r.prog));
    let mut a = r.dargs();
    a.freq = 0;
    r.must(r.delegate_ix(&a));
    expect(r.record().authority == r.v, "the record names the requested validator");
}
