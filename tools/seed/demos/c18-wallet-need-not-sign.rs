#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (p, w) = (r.payer, r.wallet);
    r.must(ix_top_up(&p, &w, 3, SOL));
    let a = DelegateArgs { freq: 1, seeds: vec![], validator: None };
    let mut ix = ix_delegate_escrow(&p, &w, 3, &a);
    ix.accounts[1].is_signer = false;
    expect(!r.run(ix), "an escrow is not delegated without its wallet's signature");
    expect(r.run(ix_delegate_escrow(&p, &w, 3, &a)), "with it, it is");
}
