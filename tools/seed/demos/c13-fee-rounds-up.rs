#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let v = r.v;
    r.donate(&validator_vault_pda(&v), 1_000_000);
    let (f0, v0) = (r.lam(&fees_vault_pda()), r.lam(&v));
    r.must(ix_validator_claim(&v, Some(12_345)));
    expect(r.lam(&fees_vault_pda()) - f0 == 1_234, "the protocol gets 10 percent rounded down");
    expect(r.lam(&v) - v0 == 12_345 - 1_234, "the validator gets the rest");
}
