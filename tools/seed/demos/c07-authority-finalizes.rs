#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL); // authority: r.v
    let (v, v2) = (r.v, r.v2);
    let ix = r.commit_ix(&v2, &commit(5, r.lam(&r.acct) + SOL, false, vec![1; 20]));
    r.must(ix);
    expect(!r.run(r.finalize_ix(&v)), "only the committing validator can finalize");
    expect(r.run(r.finalize_ix(&v2)), "the committing validator can finalize");
}
