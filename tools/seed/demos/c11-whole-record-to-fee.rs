#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, p, a) = (r.v, r.payer, r.acct);
    r.donate(&record_pda(&a), 1_000_000);
    let ix = r.commit_ix(&v, &commit(9, r.lam(&a), true, vec![1; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    let (rec, meta, before) = (r.lam(&record_pda(&a)), r.lam(&metadata_pda(&a)), r.lam(&p));
    r.must(r.undelegate_ix(&v));
    expect(r.lam(&p) - before == rec - rec / 10 + meta - meta / 10, "the rent payer gets all but a tenth of each");
}
