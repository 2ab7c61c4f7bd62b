#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, v2) = (r.v, r.v2);
    let ix = r.commit_ix(&v, &commit(9, r.lam(&r.acct), true, vec![5; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    let mut ix = r.undelegate_ix(&v);
    ix.accounts[9].pubkey = validator_vault_pda(&v2);
    expect(!r.run(ix), "another vault in place of the protocol's is refused");
    expect(r.run(r.undelegate_ix(&v)), "the protocol's is not");
}
