#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    let (a, p, payer) = (r.acct, r.prog, r.payer);
    // handed over by its owner program, which signs for it
    r.svm.set(a, owned(rent(4) + SOL, vec![0; 4], DLP));
    let other = key(77);
    r.svm.set(other, owned(rent(4), vec![9; 4], p));
    let mut ix = ix_delegate(&payer, &a, &p, &r.dargs());
    ix.accounts[3].pubkey = other;
    expect(!r.run(ix.clone()), "only the account's own buffer is taken");
    ix.accounts[3].pubkey = delegate_buffer_pda(&a, &p);
    r.svm.set(delegate_buffer_pda(&a, &p), owned(rent(4), vec![8; 4], p));
    expect(r.run(ix), "its own buffer is");
}
