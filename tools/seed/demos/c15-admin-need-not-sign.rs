#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (p, a, v) = (r.payer, r.admin, r.v);
    let mut ix = ix_close_validator_vault(&p, &a, &v);
    ix.accounts[1].is_signer = false;
    expect(!r.run(ix), "a validator is not unregistered without the admin's signature");
    expect(r.run(ix_close_validator_vault(&p, &a, &v)), "with it, it is");
}
