#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    for d in [1u8, 2] {
        let ix = r.commit_ix(&v, &commit(9, r.lam(&r.acct), false, vec![d; 20]));
        r.must(ix);
        r.must(r.finalize_ix(&v));
        expect(r.svm.get(&r.acct).data == vec![d; 20], "the account holds the committed data");
    }
}
