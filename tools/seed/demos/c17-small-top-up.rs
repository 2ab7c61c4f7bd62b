#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (w, p) = (r.wallet, r.payer);
    r.must(ix_top_up(&p, &w, 3, SOL));
    let e = escrow_pda(&w, 3);
    for n in [1u64, 890_879, 890_880, SOL] {
        let before = (r.lam(&e), r.lam(&p));
        r.must(ix_top_up(&p, &w, 3, n));
        expect(r.lam(&e) == before.0 + n && r.lam(&p) == before.1 - n, "a top-up moves exactly its amount");
    }
}
