#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (v, admin) = (r.v, r.admin);
    r.donate(&validator_vault_pda(&v), 1_000_000);
    expect(r.run(ix_validator_claim(&v, Some(500_000))), "number 7 is the validator's claim");
    expect(r.run(ix_protocol_claim(&admin)), "number 12 is the protocol's claim");
}
