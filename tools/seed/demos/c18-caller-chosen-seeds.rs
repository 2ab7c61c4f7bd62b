#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (p, w) = (r.payer, r.wallet);
    r.must(ix_top_up(&p, &w, 3, SOL));
    // one seed is at most 32 bytes, so cut the concatenation at 32
    let all = escrow_seeds(&w, 3).concat();
    let a = DelegateArgs { freq: 1, seeds: vec![all[..32].to_vec(), all[32..].to_vec()], validator: None };
    expect(r.run(ix_delegate_escrow(&p, &w, 3, &a)), "the wallet can delegate its escrow");
    r.acct = escrow_pda(&w, 3);
    expect(r.meta().seeds == escrow_seeds(&w, 3), "the metadata holds the escrow's own derivation");
}
