#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    r.donate(&a, 12_345);
    let l = r.record().lamports;
    let ix = r.commit_ix(&v, &commit(5, l + 10, false, vec![1; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    expect(r.lam(&a) == l + 10 + 12_345, "the lamports received from outside are kept");
    expect(r.record().lamports == r.lam(&a), "the record equals the account's balance");
}
