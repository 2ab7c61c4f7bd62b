//! Fixed inputs: one per defect found in the program under test (see /verif/known-findings.txt).

use crate::check::{judge, KNOWN_D2};
use crate::owner::Step;
use crate::pbt::Src;
use crate::svm::{Acct, Tx};
use crate::wire::{self, *};
use crate::world::*;

pub struct Scenario {
    pub name: &'static str,
    pub prop: &'static str,
    world: World,
    tx: Tx,
    plan: Option<Vec<Step>>,
}

fn base() -> World {
    let mut s = Src::replay(vec![]);
    let mut w = World::gen(&mut s, &Profile::default(), false);
    let p = pool();
    w.svm.slot = 50;
    w.svm.accts.retain(|k, a| a.owner != DLP && !w.targets.iter().any(|t| t.key == *k));
    w.targets.clear();
    for k in &p.wallets {
        w.svm.set(*k, Acct::wallet(100 * SOL));
    }
    w.svm.set(programdata_pda(&DLP), {
        let d = enc_programdata(3, &Some(p.wallets[6]), &[]);
        Acct { lamports: wire::rent(d.len()), data: d, owner: crate::svm::upgradeable_loader(), executable: false }
    });
    w.svm.set(fees_vault_pda(), dlp_acct(wire::rent(8), vec![0; 8]));
    for v in w.validators.clone().iter().take(3) {
        w.svm.set(validator_vault_pda(v), dlp_acct(wire::rent(8), vec![0; 8]));
    }
    w
}

/// A world with the first derived address delegated.
fn delegated(data: Vec<u8>, extra: u64, last: u64, undelegatable: bool, pending: Option<(u64, u64, Vec<u8>)>) -> (World, Target) {
    let mut w = base();
    let t = all_targets()[0].clone();
    let lamports = wire::rent(data.len()) + extra;
    let rec = Record { authority: w.validators[0], owner: t.owner, slot: 10, lamports, freq: 30_000 };
    w.svm.set(t.key, dlp_acct(lamports, data));
    w.svm.set(record_pda(&t.key), dlp_acct(wire::rent(Record::SIZE), rec.enc()));
    let m = Metadata { last_slot: last, undelegatable, seeds: t.seeds.clone(), rent_payer: w.payers[0] }.enc();
    w.svm.set(metadata_pda(&t.key), dlp_acct(wire::rent(m.len()), m));
    if let Some((slot, l, d)) = pending {
        let v = w.validators[0];
        let deposit = l.saturating_sub(lamports).max(wire::rent(d.len()));
        w.svm.set(commit_state_pda(&t.key), dlp_acct(deposit, d));
        let c = CommitRec { identity: v, account: t.key, slot, lamports: l }.enc();
        w.svm.set(commit_record_pda(&t.key), dlp_acct(wire::rent(c.len()), c));
    }
    w.targets.push(t.clone());
    (w, t)
}

pub fn scenarios(prop: &str) -> Vec<Scenario> {
    let mut v = vec![];
    match prop {
        "C01" => {
            let mut w = base();
            let k = pool().curve[3];
            let t = Target { key: k, owner: pool().progs[0], seeds: vec![], kind: Kind::Curve };
            w.targets.push(t.clone());
            let args = DelegateArgs { freq: 1, seeds: vec![], validator: None };
            let tx = Tx { ixs: vec![ix_assign(&k, &DLP), ix_delegate(&w.payers[0], &k, &t.owner, &args)], fee_payer: None };
            v.push(Scenario { name: "delegating an account without lamports", prop: "C01", world: w, tx, plan: None });
        }
        "C12" => {
            for (name, extra, plan) in [
                (
                    "owner program moves the re-opening rent into the buffer",
                    0,
                    vec![Step::Reopen { lam: 0, size: 0 }, Step::CopyData, Step::PayBuffer(wire::rent(5))],
                ),
                (
                    "owner program takes over the validator's wallet",
                    0,
                    vec![Step::Reopen { lam: 0, size: 0 }, Step::CopyData, Step::AssignValidator { to_self: true }],
                ),
            ] {
                let (w, t) = delegated(vec![1, 2, 3, 4, 5], extra, 3, true, None);
                let tx = Tx::one(ix_undelegate(&w.validators[0], &t.key, &t.owner, &w.payers[0]));
                v.push(Scenario { name, prop: "C12", world: w, tx, plan: Some(plan) });
            }
        }
        "C24" => {
            let (w, t) = delegated(vec![1, 2, 3, 4, 5], SOL, 3, false, None);
            let val = w.validators[0];
            let a = CommitArgs { slot: 4, lamports: SOL, allow: true, data: vec![9; 8] };
            let tx = Tx {
                ixs: vec![ix_commit(&val, &t.key, &t.owner, &a), ix_finalize(&val, &t.key), ix_undelegate(&val, &t.key, &t.owner, &w.payers[0])],
                fee_payer: None,
            };
            v.push(Scenario { name: "bundle in which a read-only account is writable for another step", prop: "C24", world: w, tx, plan: None });
        }
        _ => {}
    }
    v
}

impl Scenario {
    /// what is wrong, if anything
    pub fn check(&self) -> Option<String> {
        let mut w = self.world.clone();
        let j = judge(&mut w, &self.tx, self.plan.as_ref());
        j.findings.iter().find(|f| f.props.contains(self.prop)).map(|f| format!("{}: {}", self.name, f.msg))
    }
    pub fn show(&self) -> Vec<String> {
        let mut v = vec![format!("scenario: {}", self.name), show_tx(&self.tx)];
        if let Some(p) = &self.plan {
            v.push(format!("owner program plan {p:?}"));
        }
        v
    }
}

/// The finding recorded as known: a commit of zero lamports and no data, finalized, leaves
/// an account the ledger removes while its delegation record stays.
pub fn known_reproduces(id: &str) -> bool {
    if id != KNOWN_D2 {
        return false;
    }
    let (mut w, t) = delegated(vec![1, 2, 3], SOL, 3, false, Some((4, 0, vec![])));
    let tx = Tx::one(ix_finalize(&w.validators[0], &t.key));
    let j = judge(&mut w, &tx, None);
    j.known.contains(&KNOWN_D2)
}
