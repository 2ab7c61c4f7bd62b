#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], 0);
    let (v, a) = (r.v, r.acct);
    let l = r.lam(&a);
    // the data grows, the lamports do not
    let ix = r.commit_ix(&v, &commit(5, l, true, vec![1; 200]));
    r.must(ix);
    let deposit = r.lam(&commit_state_pda(&a)) + r.lam(&commit_record_pda(&a));
    let before = r.lam(&v);
    if r.all(vec![r.finalize_ix(&v), r.undelegate_ix(&v)]) {
        expect(r.lam(&a) == l, "the account keeps its balance");
        expect(r.lam(&v) == before + deposit, "the validator does not pay for it");
    }
}
