#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    // the base point of the curve is an ordinary key
    let mut b = [0x66u8; 32];
    b[0] = 0x58;
    let k = Pubkey::new_from_array(b);
    expect(k.is_on_curve(), "the key is on the curve");
    r.svm.set(k, owned(SOL, vec![], DLP));
    let p = r.rogue;
    let a = DelegateArgs { freq: 1, seeds: vec![], validator: None };
    let mut ix = ix_delegate(&p, &k, &r.prog, &a);
    ix.accounts[1].is_signer = false;
    expect(!r.run(ix.clone()), "the account has to sign its delegation");
    ix.accounts[1].is_signer = true;
    expect(r.run(ix), "then it works");
}
