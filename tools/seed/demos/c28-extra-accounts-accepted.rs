#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let v = r.v;
    r.donate(&validator_vault_pda(&v), 1_000_000);
    let mut ix = ix_validator_claim(&v, None);
    ix.accounts.push(ix.accounts[1].clone());
    expect(!r.run(ix), "an extra account is refused");
    expect(r.run(ix_validator_claim(&v, None)), "the right accounts are not");
}
