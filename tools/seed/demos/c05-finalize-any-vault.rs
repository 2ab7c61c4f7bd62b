#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, v2, a, p, admin) = (r.v, r.v2, r.acct, r.payer, r.admin);
    let ix = r.commit_ix(&v, &commit(9, r.lam(&a) - 1000, false, vec![1; 20]));
    r.must(ix);
    r.must(ix_close_validator_vault(&p, &admin, &v));
    let mut ix = r.finalize_ix(&v);
    ix.accounts[6].pubkey = validator_vault_pda(&v2);
    expect(!r.run(ix), "an unregistered validator cannot finalize with another one's vault");
    r.must(ix_init_validator_vault(&p, &admin, &v));
    expect(r.run(r.finalize_ix(&v)), "registered again, it can");
}
