#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let (v, a) = (r.v, r.acct);
    let ix = r.commit_ix(&v, &commit(5, r.lam(&a), true, vec![1; 20]));
    r.must(ix);
    r.must(r.finalize_ix(&v));
    r.donate(&record_pda(&a), 1_000_000);
    let held = [r.lam(&record_pda(&a)), r.lam(&metadata_pda(&a))];
    let (p0, f0, w0) = (r.lam(&r.payer), r.lam(&fees_vault_pda()), r.lam(&validator_vault_pda(&v)));
    r.must(r.undelegate_ix(&v));
    let fee: u64 = held.iter().map(|l| l / 10).sum();
    let prot: u64 = held.iter().map(|l| l / 10 / 10).sum();
    expect(r.lam(&r.payer) - p0 == held.iter().sum::<u64>() - fee, "the rent payer gets all but 10 percent");
    expect(r.lam(&fees_vault_pda()) - f0 == prot, "the protocol gets 10 percent of it");
    expect(r.lam(&validator_vault_pda(&v)) - w0 == fee - prot, "the validator gets the rest of it");
}
