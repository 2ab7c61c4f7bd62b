#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(9, r.lam(&r.acct), false, vec![1; 20]));
    r.must(ix);
    let mut ix = r.finalize_ix(&v);
    ix.accounts[7].pubkey = r.prog;
    expect(!r.run(ix), "another program in the system program's place is refused");
    expect(r.run(r.finalize_ix(&v)), "the right accounts are accepted");
}
