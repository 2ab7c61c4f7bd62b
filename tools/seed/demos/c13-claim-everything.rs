#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let v = r.v;
    r.donate(&validator_vault_pda(&v), 1_000_000);
    let all = r.lam(&validator_vault_pda(&v));
    expect(!r.run(ix_validator_claim(&v, Some(all))), "the vault's rent cannot be claimed");
    expect(r.run(ix_validator_claim(&v, Some(1_000_000))), "what is above it can");
}
