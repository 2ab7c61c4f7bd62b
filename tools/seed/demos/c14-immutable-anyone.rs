#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let f = fees_vault_pda();
    r.donate(&f, SOL);
    let d = enc_programdata(3, &None, &[]);
    let mut pd = r.svm.get(&programdata_pda(&DLP));
    pd.data = d;
    r.svm.set(programdata_pda(&DLP), pd);
    let x = r.rogue;
    expect(!r.run(ix_protocol_claim(&x)), "without an upgrade authority nobody can claim");
}
