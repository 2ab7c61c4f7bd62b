#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let v = r.v;
    let k = validator_vault_pda(&v);
    r.donate(&k, 5_000_000);
    expect(!r.run(ix_validator_claim(&v, Some(5_000_001))), "more than there is cannot be claimed");
    expect(r.run(ix_validator_claim(&v, Some(5_000_000))), "everything above the rent can");
    expect(r.lam(&k) == rent(8), "and leaves the rent");
}
