#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, v2) = (r.v, r.v2);
    let ix = r.commit_ix(&v, &commit(9, r.lam(&r.acct), false, vec![1; 20]));
    r.must(ix);
    expect(!r.run(r.finalize_ix(&v2)), "another validator cannot finalize the commit");
    expect(r.run(r.finalize_ix(&v)), "its author can");
}
