#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    let ix = r.commit_ix(&v, &commit(5, r.lam(&a), true, vec![]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    let ix = ix_undelegate(&v, &a, &r.prog2, &r.payer);
    expect(!r.run(ix), "the account cannot be given to another program");
    expect(r.run(r.undelegate_ix(&v)), "it can be given back");
    expect(r.svm.get(&a).owner == r.prog, "to the recorded owner");
}
