#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (w, p) = (r.wallet, r.payer);
    let target = record_pda(&r.acct);
    r.donate(&target, SOL);
    r.delegate(vec![7; 20], SOL);
    expect(r.lam(&target) == SOL, "the delegation works and the record holds what was sent to it");
    let _ = (w, p);
}
