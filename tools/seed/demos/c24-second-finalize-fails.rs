#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(9, r.lam(&r.acct), true, vec![1; 20]));
    expect(r.all(vec![ix, r.finalize_ix(&v), r.finalize_ix(&v), r.undelegate_ix(&v)]), "a second finalize in a bundle is skipped");
}
