#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    let ix = r.commit_ix(&v, &commit(5, r.lam(&r.acct), false, vec![1, 2, 3]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    expect(r.svm.get(&r.acct).data == vec![1, 2, 3], "the account holds exactly the committed data");
}
