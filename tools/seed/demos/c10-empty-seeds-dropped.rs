#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.seeds = vec![b"state".to_vec(), vec![], vec![9; 3]];
    r.acct = find_pda(&r.seeds, &r.prog).unwrap().0;
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(9, r.lam(&r.acct), true, vec![1; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    owner::take_calls();
    expect(r.run(r.undelegate_ix(&v)), "the undelegation works");
    let c = owner::take_calls();
    expect(c.len() == 1 && c[0].seeds.as_ref() == Some(&r.seeds), "the owner program gets the account's own seeds");
}
