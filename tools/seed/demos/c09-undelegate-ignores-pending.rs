#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(5, r.lam(&r.acct), true, vec![1; 20]));
    r.must(ix);
    expect(!r.run(r.undelegate_ix(&v)), "an account with a pending commit cannot be undelegated");
    r.must(r.finalize_ix(&v));
    expect(r.run(r.undelegate_ix(&v)), "a finalized one can");
}
