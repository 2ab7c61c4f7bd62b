#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (w, p) = (r.wallet, r.payer);
    for i in [0u8, 127, 128, 255] {
        r.must(ix_top_up(&p, &w, i, SOL));
        let a = DelegateArgs { freq: 1, seeds: vec![b"anything".to_vec()], validator: None };
        expect(r.run(ix_delegate_escrow(&p, &w, i, &a)), "an escrow is delegated whatever seeds are supplied");
        let m = Metadata::dec(&r.svm.get(&metadata_pda(&escrow_pda(&w, i))).data).unwrap();
        expect(m.seeds == escrow_seeds(&w, i), "and its own seeds are recorded");
    }
}
