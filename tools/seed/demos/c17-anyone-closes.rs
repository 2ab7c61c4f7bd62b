#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (p, w) = (r.payer, r.wallet);
    r.must(ix_top_up(&p, &w, 3, SOL));
    let mut ix = ix_close_escrow(&w, 3);
    ix.accounts[0].is_signer = false;
    expect(!r.run(ix), "an escrow is not closed without its wallet's signature");
    expect(r.run(ix_close_escrow(&w, 3)), "with it, it is");
}
