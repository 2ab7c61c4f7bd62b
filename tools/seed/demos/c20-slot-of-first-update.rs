#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    for slot in [3u64, 90] {
        let ix = r.commit_ix(&v, &commit(slot, r.lam(&r.acct), false, vec![1; 20]));
        r.must(ix);
        r.must(r.finalize_ix(&v));
        expect(r.record().slot == 50, "the record keeps the slot of the delegation");
    }
}
