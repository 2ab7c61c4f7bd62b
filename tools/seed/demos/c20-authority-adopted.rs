#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.svm.set(r.acct, owned(rent(4) + SOL, vec![1; 4], r.prog));
    let mut a = r.dargs();
    a.validator = None;
    r.must(r.delegate_ix(&a));
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(5, r.lam(&r.acct), false, vec![1; 20]));
    r.must(ix);
    let before = r.record();
    r.must(r.finalize_ix(&v));
    expect(r.record().authority == before.authority, "the recorded authority stays as delegated");
}
