#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, l) = (r.v, r.record().lamports);
    let before = r.lam(&v);
    let ix = r.commit_ix(&v, &commit(5, l, false, vec![1; 20]));
    r.must(ix);
    r.donate(&commit_record_pda(&r.acct), 54_321);
    r.must(r.finalize_ix(&v));
    expect(r.lam(&v) == before + 54_321, "what is left in the commit accounts returns to the validator");
}
