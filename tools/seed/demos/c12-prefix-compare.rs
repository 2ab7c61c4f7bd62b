#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    let ix = r.commit_ix(&v, &commit(5, r.lam(&a), true, vec![1; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    owner::set_plan(Some(vec![owner::Step::Reopen { lam: 0, size: 8 }, owner::Step::CopyData]));
    expect(!r.run(r.undelegate_ix(&v)), "re-opening with other data fails the undelegation");
    owner::set_plan(None);
    expect(r.run(r.undelegate_ix(&v)), "an honest re-opening works");
}
