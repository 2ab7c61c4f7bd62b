#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    let rec = r.record().lamports;
    r.donate(&a, 400_000);
    let before = r.lam(&v);
    let ix = r.commit_ix(&v, &commit(9, rec + SOL, false, vec![1; 20]));
    r.must(ix);
    expect(before - r.lam(&v) == SOL + rent(88), "the validator deposits the difference and the rent not covered");
    r.must(r.finalize_ix(&v));
    expect(r.lam(&v) == before - SOL, "and ends up paying exactly the difference");
    expect(r.lam(&a) == rec + SOL + 400_000, "the account gained the difference");
}
