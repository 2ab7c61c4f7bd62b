#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let v = r.v;
    expect(r.run(r.finalize_ix(&v)), "finalizing when nothing is pending is a no-op");
    let mut ix = r.finalize_ix(&v);
    ix.accounts[3].pubkey = key(77);
    expect(!r.run(ix), "not so with a wrong commit record account");
}
