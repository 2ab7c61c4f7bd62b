#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    let b = key(77);
    r.svm.set(b, owned(rent(0), vec![], r.prog2));
    let ix = ix_commit_buffer(&v, &a, &r.prog, &b, &commit(5, r.lam(&a), false, vec![]));
    expect(r.run(ix), "no data can be committed from a buffer, too");
}
