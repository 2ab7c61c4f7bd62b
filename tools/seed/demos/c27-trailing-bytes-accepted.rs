#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let m = dlp::state::DelegationMetadata { last_update_external_slot: 5, is_undelegatable: true, seeds: vec![vec![1, 2]], rent_payer: key(3) };
    let mut b = vec![];
    m.to_bytes_with_discriminator(&mut b).unwrap();
    expect(dlp::state::DelegationMetadata::try_from_bytes_with_discriminator(&b).ok() == Some(m), "a value decodes");
    b.push(0);
    expect(dlp::state::DelegationMetadata::try_from_bytes_with_discriminator(&b).is_err(), "with a trailing byte it does not");
}
