#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (p, w) = (r.payer, r.wallet);
    for i in [2u8, 130] {
        expect(r.run(ix_top_up(&p, &w, i, SOL)), "every index has an escrow");
    }
    let before = r.svm.get(&escrow_pda(&w, 130));
    expect(r.run(ix_close_escrow(&w, 2)), "an escrow can be closed");
    expect(r.svm.get(&escrow_pda(&w, 130)) == before, "without touching the other");
    expect(dlp::pda::ephemeral_balance_pda_from_payer(&w, 2) != dlp::pda::ephemeral_balance_pda_from_payer(&w, 130), "indexes have distinct addresses");
}
