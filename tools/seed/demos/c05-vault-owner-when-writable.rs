#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let x = r.rogue;
    let ix = r.commit_ix(&x, &commit(5, r.lam(&r.acct), false, vec![1; 20]));
    expect(!r.run(ix), "an unregistered validator cannot commit");
    let (p, a, v) = (r.payer, r.admin, r.v);
    r.must(ix_close_validator_vault(&p, &a, &v));
    let ix = r.commit_ix(&v, &commit(5, r.lam(&r.acct), false, vec![1; 20]));
    expect(!r.run(ix), "an unregistered validator cannot commit any more");
}
