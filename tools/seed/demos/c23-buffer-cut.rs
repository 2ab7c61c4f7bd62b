#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    let b = key(77);
    let data: Vec<u8> = (0..40).collect();
    r.svm.set(b, owned(rent(40), data.clone(), r.prog2));
    let ix = ix_commit_buffer(&v, &a, &r.prog, &b, &commit(5, r.lam(&a), false, vec![]));
    r.must(ix);
    expect(r.svm.get(&commit_state_pda(&a)).data == data, "the whole buffer is committed");
}
