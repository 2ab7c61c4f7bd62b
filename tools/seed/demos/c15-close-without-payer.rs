#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (p, admin, v) = (r.payer, r.admin, r.v);
    for writable in [true, false] {
        let mut ix = ix_close_validator_vault(&p, &admin, &v);
        ix.accounts[0].is_signer = false;
        ix.accounts[0].is_writable = writable;
        expect(!r.run(ix), "the payer has to sign");
    }
    expect(r.run(ix_close_validator_vault(&p, &admin, &v)), "then it works");
}
