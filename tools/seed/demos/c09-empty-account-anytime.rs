#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (w, p, v) = (r.wallet, r.payer, r.v);
    r.must(ix_top_up(&p, &w, 3, SOL));
    let a = DelegateArgs { freq: 1, seeds: vec![], validator: None };
    r.must(ix_delegate_escrow(&p, &w, 3, &a));
    let e = escrow_pda(&w, 3);
    let sys = solana_program::system_program::id();
    expect(!r.run(ix_undelegate(&v, &e, &sys, &p)), "nothing allowed to undelegate the escrow");
    let ix = ix_commit(&v, &e, &sys, &commit(9, r.lam(&e), true, vec![]));
    r.must(ix);
    r.must(ix_finalize(&v, &e));
    expect(r.run(ix_undelegate(&v, &e, &sys, &p)), "a commit did");
}
