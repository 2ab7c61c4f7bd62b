#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (p, a, x) = (r.payer, r.admin, r.rogue);
    let vault = validator_vault_pda(&x);
    r.donate(&vault, rent(0));
    let before = r.lam(&p);
    expect(r.run(ix_init_validator_vault(&p, &a, &x)), "a pre-funded vault can be created");
    expect(r.lam(&vault) == rent(8), "it holds its rent");
    expect(before - r.lam(&p) == rent(8) - rent(0), "the payer paid what was missing");
}
