#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(5, r.lam(&r.acct), false, vec![1; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    let ix = r.commit_ix(&v, &commit(4, r.lam(&r.acct), true, vec![2; 20]));
    expect(r.run(ix), "an outdated commit is a no-op");
    expect(!r.meta().undelegatable, "it does not allow undelegation");
    expect(!r.run(r.undelegate_ix(&v)), "the account cannot be undelegated");
}
