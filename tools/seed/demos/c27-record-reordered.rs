#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let d = r.svm.get(&record_pda(&r.acct)).data;
    let want = [&r.svm.slot.to_le_bytes()[..], &r.lam(&r.acct).to_le_bytes()[..], &30_000u64.to_le_bytes()[..]].concat();
    expect(d[72..] == want, "the record has the published layout");
}
