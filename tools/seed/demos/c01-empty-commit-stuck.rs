#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![1, 2, 3], SOL);
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(5, r.lam(&r.acct), true, vec![]));
    r.must(ix);
    expect(r.run(r.finalize_ix(&v)), "finalize succeeds");
    expect(r.svm.get(&r.acct).data.is_empty(), "the account holds the committed (empty) data");
    expect(r.svm.get(&commit_record_pda(&r.acct)).is_absent(), "nothing is pending any more");
    expect(r.run(r.undelegate_ix(&v)), "the account can be undelegated");
}
