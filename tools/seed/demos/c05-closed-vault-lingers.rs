#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, p, a, l) = (r.v, r.payer, r.admin, r.record().lamports);
    let ix = r.commit_ix(&v, &commit(5, l, false, vec![1; 20]));
    let bundle = vec![ix_close_validator_vault(&p, &a, &v), ix.clone()];
    expect(!r.all(bundle), "a validator unregistered one step before cannot commit");
    expect(r.run(ix), "a registered one can");
}
