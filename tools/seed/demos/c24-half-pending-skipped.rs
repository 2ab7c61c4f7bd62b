#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, l) = (r.v, r.record().lamports);
    let ix = r.commit_ix(&v, &commit(9, l, false, vec![5; 20]));
    r.must(ix);
    let mut ix = r.finalize_ix(&v);
    ix.accounts[3].pubkey = key(77);
    expect(!r.run(ix), "finalizing with an empty account as commit record is refused");
    expect(r.run(r.finalize_ix(&v)), "with the right one it works");
}
