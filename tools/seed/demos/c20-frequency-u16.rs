#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    for freq in [0u32, 1, 65_535, 65_536, 3_600_000, u32::MAX] {
        let mut r = Rig::new();
        r.svm.set(r.acct, owned(wire::rent(3) + SOL, vec![1; 3], r.prog));
        let a = DelegateArgs { freq, ..r.dargs() };
        let ix = r.delegate_ix(&a);
        r.must(ix);
        expect(r.record().freq == freq as u64, "the record holds the requested frequency");
    }
}
