#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let m = r.svm.get(&metadata_pda(&r.acct)).data;
    expect(dlp::state::DelegationMetadata::try_from_bytes_with_discriminator(&m).is_ok(), "the stored metadata decodes");
    for i in 0..8 {
        let mut x = m.clone();
        x[i] ^= 4;
        expect(dlp::state::DelegationMetadata::try_from_bytes_with_discriminator(&x).is_err(), "with another tag it does not");
    }
}
