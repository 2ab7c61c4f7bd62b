#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let v = r.v;
    r.donate(&validator_vault_pda(&v), 1_000_000);
    let mut ix = ix_validator_claim(&v, None);
    ix.data[0] = 0x17;
    expect(!r.run(ix), "an unknown instruction number is refused");
    expect(r.run(ix_validator_claim(&v, None)), "a known one is not");
}
