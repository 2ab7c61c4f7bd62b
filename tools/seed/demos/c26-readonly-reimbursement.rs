#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    let ix = r.commit_ix(&v, &commit(5, r.lam(&a), true, vec![1; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    let ix = dlp::instruction_builder::undelegate(v, a, r.prog, r.payer);
    expect(r.run(ix), "what the builder returns is accepted");
}
