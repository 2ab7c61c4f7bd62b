#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    let l = r.lam(&r.acct);
    let ixs = vec![
        r.commit_ix(&v, &commit(5, l, false, vec![1; 20])),
        r.finalize_ix(&v),
        r.commit_ix(&v, &commit(6, l, true, vec![2; 20])),
        r.finalize_ix(&v),
    ];
    expect(r.all(ixs), "two rounds in one transaction work as in two");
    expect(r.svm.get(&r.acct).data == vec![2; 20], "with the same result");
}
