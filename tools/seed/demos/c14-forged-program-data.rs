#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.donate(&fees_vault_pda(), SOL);
    let x = r.rogue; // upgrade authority of prog2
    let mut ix = ix_protocol_claim(&x);
    ix.accounts[2].pubkey = programdata_pda(&r.prog2);
    expect(!r.run(ix), "another program's authority cannot claim the protocol fees");
    let a = r.admin;
    expect(r.run(ix_protocol_claim(&a)), "the admin can");
}
