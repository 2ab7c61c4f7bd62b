#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (w, p) = (r.wallet, r.payer);
    r.must(ix_top_up(&p, &w, 3, SOL));
    expect(r.run(dlp::instruction_builder::close_ephemeral_balance(w, 3)), "the built instruction closes the wallet's escrow");
}
