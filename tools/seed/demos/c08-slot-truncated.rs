#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    for (slot, effect) in [((1u64 << 32) + 5, true), (6, false), (1 << 33, true)] {
        let ix = r.commit_ix(&v, &commit(slot, r.lam(&r.acct), false, vec![1; 20]));
        r.must(ix);
        expect(!r.svm.get(&commit_record_pda(&r.acct)).is_absent() == effect, "only commits that are not outdated take effect");
        r.must(r.finalize_ix(&v));
    }
    expect(r.meta().last_slot == 1 << 33, "the slot never goes back");
}
