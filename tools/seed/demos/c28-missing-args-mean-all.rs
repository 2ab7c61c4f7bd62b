#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let v = r.v;
    r.donate(&validator_vault_pda(&v), SOL);
    let mut ix = ix_validator_claim(&v, None);
    ix.data.truncate(8);
    expect(!r.run(ix), "a claim without arguments is malformed");
    expect(r.run(ix_validator_claim(&v, None)), "a complete one works");
}
