#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(9, r.lam(&r.acct), true, vec![5; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    owner::set_plan(Some(vec![owner::Step::Reopen { lam: 0, size: -20 }]));
    let ok = r.run(r.undelegate_ix(&v));
    owner::set_plan(None);
    expect(!ok, "an undelegation that loses the data fails");
    expect(r.run(r.undelegate_ix(&v)), "an honest one works");
    expect(r.svm.get(&r.acct).data == vec![5; 20], "and returns the data");
}
