#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    r.donate(&commit_state_pda(&a), rent(0));
    expect(r.run(r.finalize_ix(&v)), "a finalize with nothing pending is skipped");
}
