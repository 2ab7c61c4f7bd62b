#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, v2, auth, prog) = (r.v, r.v2, r.auth, r.prog);
    r.must(ix_whitelist(&auth, &v, &prog, true));
    let ix = r.commit_ix(&v, &commit(9, r.lam(&r.acct), false, vec![1; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    let ix = r.commit_ix(&v2, &commit(10, r.lam(&r.acct), false, vec![2; 20]));
    expect(!r.run(ix), "a validator that is not whitelisted cannot commit");
}
