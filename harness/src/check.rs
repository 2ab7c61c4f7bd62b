//! Executing a planned transaction against the real program and judging the result.

use crate::model::{self, Note, Role, TxPred, Why};
use crate::owner;
use crate::pbt::{hash_of, Case, Failure, Src};
use crate::svm::{effective_metas, sys, Acct, Accts, Tx, TxResult};
use crate::wire::{self, *};
use crate::world::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet};

pub type Props = BTreeSet<&'static str>;

#[derive(Debug, Clone)]
pub struct Finding {
    pub props: Props,
    pub sig: String,
    pub msg: String,
}
fn finding(props: &[&'static str], sig: String, msg: String) -> Finding {
    Finding { props: props.iter().copied().collect(), sig, msg }
}

pub struct Judged {
    pub result: TxResult,
    pub pred: TxPred,
    pub findings: Vec<Finding>,
    pub known: Vec<&'static str>,
}

pub fn roles(t: u8) -> &'static [Role] {
    use Role::*;
    match t {
        tag::DELEGATE => &[Payer, Account, Owner, Buffer, Record, Metadata, SystemProgram],
        tag::COMMIT => &[Validator, Account, CommitState, CommitRecord, Record, Metadata, ValidatorVault, Config, SystemProgram],
        tag::COMMIT_FROM_BUFFER => {
            &[Validator, Account, CommitState, CommitRecord, Record, Metadata, StateBuffer, ValidatorVault, Config, SystemProgram]
        }
        tag::FINALIZE => &[Validator, Account, CommitState, CommitRecord, Record, Metadata, ValidatorVault, SystemProgram],
        tag::UNDELEGATE => &[
            Validator, Account, Owner, UndelegateBuffer, CommitState, CommitRecord, Record, Metadata, RentPayer, ProtocolVault,
            ValidatorVault, SystemProgram,
        ],
        tag::INIT_PROTOCOL_VAULT => &[Payer, ProtocolVault, SystemProgram],
        tag::INIT_VALIDATOR_VAULT => &[Payer, Admin, ProgramData, Validator, ValidatorVault, SystemProgram],
        tag::CLOSE_VALIDATOR_VAULT => &[Payer, Admin, ProgramData, Validator, ValidatorVault],
        tag::VALIDATOR_CLAIM => &[Validator, ProtocolVault, ValidatorVault],
        tag::PROTOCOL_CLAIM => &[Admin, ProtocolVault, ProgramData],
        tag::WHITELIST => &[Authority, Validator, Owner, ProgramData, ProgramData, Config, SystemProgram],
        tag::TOP_UP => &[Payer, Wallet, Escrow, SystemProgram],
        tag::DELEGATE_ESCROW => &[Payer, Wallet, Escrow, Buffer, Record, Metadata, SystemProgram, DlpProgram],
        tag::CLOSE_ESCROW => &[Wallet, Escrow, SystemProgram],
        _ => &[],
    }
}

pub fn ix_tag(ix: &Instruction) -> Option<u8> {
    if ix.program_id != DLP || ix.data.is_empty() {
        if ix.data.first() == Some(&0xD0) && ix.program_id != sys() {
            return Some(tag::DELEGATE);
        }
        return None;
    }
    Some(ix.data[0])
}
fn ix_roles(ix: &Instruction) -> &'static [Role] {
    use Role::*;
    if ix.program_id != DLP {
        if ix.data.first() == Some(&0xD0) {
            return &[Payer, Account, Owner, Buffer, Record, Metadata, SystemProgram, DlpProgram];
        }
        return &[Payer, Wallet];
    }
    roles(ix.data.first().copied().unwrap_or(255))
}

/// Properties about an instruction that should have worked.
fn liveness(t: u8) -> &'static [&'static str] {
    match t {
        tag::DELEGATE => &["C01", "C19", "C20"],
        tag::COMMIT => &["C01", "C03", "C08", "C09"],
        tag::COMMIT_FROM_BUFFER => &["C01", "C03", "C08", "C09", "C23"],
        tag::FINALIZE => &["C01", "C02", "C03", "C07"],
        tag::UNDELEGATE => &["C01", "C09", "C10", "C11", "C12"],
        tag::INIT_PROTOCOL_VAULT => &["C14"],
        tag::INIT_VALIDATOR_VAULT => &["C15", "C05"],
        tag::CLOSE_VALIDATOR_VAULT => &["C15"],
        tag::VALIDATOR_CLAIM => &["C13"],
        tag::PROTOCOL_CLAIM => &["C14"],
        tag::WHITELIST => &["C16"],
        tag::TOP_UP => &["C17"],
        tag::DELEGATE_ESCROW => &["C18", "C19", "C20", "C01"],
        tag::CLOSE_ESCROW => &["C17", "C18"],
        _ => &["C28"],
    }
}

fn refused_good(t: u8, notes: &[Note], bundle: bool) -> Props {
    let mut p: Props = liveness(t).iter().copied().collect();
    for n in notes {
        match n {
            Note::Delegated { prefunded, .. } | Note::ProtocolVault { prefunded } | Note::VaultOpened { prefunded, .. } => {
                if *prefunded {
                    p.insert("C25");
                }
            }
            Note::Committed { prefunded, whitelisted, .. } => {
                if *prefunded {
                    p.insert("C25");
                }
                let _ = whitelisted;
                p.insert("C06");
                p.insert("C05");
            }
            Note::StaleSkip { .. } => {
                p = ["C08", "C24"].into_iter().collect();
            }
            Note::NothingSkip { .. } => {
                p = ["C24"].into_iter().collect();
            }
            _ => {}
        }
    }
    if bundle {
        p.insert("C24");
    }
    p
}

/// Properties an instruction is chiefly about: whatever it does wrong, they are affected.
fn home(t: u8) -> &'static [&'static str] {
    match t {
        tag::INIT_PROTOCOL_VAULT | tag::PROTOCOL_CLAIM => &["C14"],
        tag::INIT_VALIDATOR_VAULT | tag::CLOSE_VALIDATOR_VAULT => &["C15"],
        tag::VALIDATOR_CLAIM => &["C13"],
        tag::WHITELIST => &["C16"],
        tag::TOP_UP => &["C17"],
        tag::CLOSE_ESCROW => &["C17", "C18"],
        tag::DELEGATE_ESCROW => &["C18"],
        _ => &[],
    }
}

/// Properties about an instruction that should have been refused for `w`.
fn accepted_bad(t: u8, w: &Why) -> Props {
    let mut p: Props = accepted_bad_base(t, w).iter().copied().collect();
    p.extend(home(t));
    p
}

fn accepted_bad_base(t: u8, w: &Why) -> &'static [&'static str] {
    use Role::*;
    match (t, w) {
        (_, Why::Malformed) => &["C28", "C27"],
        (tag::FINALIZE, Why::Subst(CommitState | CommitRecord)) => &["C21", "C24", "C07", "C02", "C03"],
        (tag::COMMIT | tag::COMMIT_FROM_BUFFER, Why::Subst(Record)) => &["C21", "C01", "C03", "C06"],
        (tag::COMMIT | tag::COMMIT_FROM_BUFFER, Why::Subst(Metadata)) => &["C21", "C01", "C08", "C09"],
        (tag::UNDELEGATE, Why::Subst(Record | Metadata)) => &["C21", "C01", "C09", "C10", "C11"],
        (tag::UNDELEGATE, Why::Subst(Owner)) => &["C21", "C10", "C12"],
        (tag::UNDELEGATE, Why::Subst(RentPayer)) => &["C21", "C11"],
        (tag::UNDELEGATE, Why::Subst(CommitState | CommitRecord)) => &["C21", "C09", "C24"],
        (tag::UNDELEGATE, Why::Subst(ProtocolVault | ValidatorVault)) => &["C21", "C11", "C05"],
        (tag::DELEGATE | tag::DELEGATE_ESCROW, Why::Subst(_)) => &["C21", "C19", "C20", "C01"],
        (_, Why::Subst(ValidatorVault)) => &["C21", "C05"],
        (_, Why::Subst(Config)) => &["C21", "C06"],
        (_, Why::Subst(Buffer | UndelegateBuffer)) => &["C21", "C19", "C10"],
        (_, Why::Subst(ProgramData)) => &["C21", "C15", "C14", "C16"],
        (_, Why::Subst(Escrow)) => &["C21", "C17", "C18"],
        (_, Why::Subst(CommitState | CommitRecord)) => &["C21", "C24", "C07"],
        (_, Why::Subst(Record | Metadata)) => &["C21", "C19", "C01", "C03", "C08"],
        (_, Why::Subst(ProtocolVault)) => &["C21", "C14", "C11"],
        (_, Why::Subst(_)) => &["C21"],
        (tag::FINALIZE, Why::NotSigner(Validator)) => &["C05", "C04", "C07"],
        (_, Why::NotSigner(Validator)) => &["C05", "C04"],
        (_, Why::NotSigner(Account)) => &["C19", "C04", "C01"],
        (_, Why::NotSigner(Wallet)) => &["C18", "C17", "C04"],
        (_, Why::NotSigner(Payer)) => &["C19", "C04", "C15", "C17"],
        (_, Why::NotSigner(Admin)) => &["C15", "C14", "C04", "C05"],
        (_, Why::NotSigner(Authority)) => &["C16", "C04"],
        (_, Why::NotSigner(_)) => &["C04"],
        (tag::CLOSE_VALIDATOR_VAULT, Why::Missing(ValidatorVault)) => &["C15"],
        (tag::UNDELEGATE, Why::Missing(ValidatorVault)) => &["C05", "C11"],
        (_, Why::Missing(ValidatorVault)) => &["C05", "C21"],
        (_, Why::Missing(ProtocolVault)) => &["C14", "C13", "C11"],
        (_, Why::Missing(CommitState | CommitRecord)) => &["C24", "C01", "C02"],
        (_, Why::Missing(ProgramData)) => &["C15", "C14", "C16"],
        (_, Why::Missing(_)) => &["C01", "C21"],
        (tag::UNDELEGATE, Why::Exists(CommitState | CommitRecord)) => &["C01", "C09", "C10", "C24"],
        (_, Why::Exists(CommitState | CommitRecord)) => &["C01", "C09", "C07", "C03"],
        (_, Why::Exists(ValidatorVault)) => &["C15", "C05"],
        (_, Why::Exists(ProtocolVault)) => &["C14"],
        (_, Why::Exists(UndelegateBuffer)) => &["C10", "C21", "C12"],
        (_, Why::Exists(_)) => &["C01", "C19", "C20"],
        (tag::DELEGATE | tag::DELEGATE_ESCROW, Why::NotDelegated) => &["C01", "C19"],
        (_, Why::NotDelegated) => &["C01"],
        (_, Why::ZeroBalance) => &["C01"],
        (_, Why::BadSeeds) => &["C19", "C20"],
        (_, Why::Undelegatable | Why::NotUndelegatable) => &["C09", "C01"],
        (_, Why::BadLamports) => &["C03", "C01", "C20"],
        (_, Why::NotWhitelisted) => &["C06"],
        (_, Why::WrongIdentity | Why::WrongAccount) => &["C07"],
        (_, Why::WrongOwner) => &["C10", "C21", "C12"],
        (_, Why::WrongRentPayer) => &["C11", "C21"],
        (_, Why::OwnerCallback) => &["C12", "C10"],
        (_, Why::ClaimTooMuch) => &["C13", "C04"],
        (tag::INIT_VALIDATOR_VAULT, Why::Unauthorized) => &["C15", "C05", "C04"],
        (_, Why::Unauthorized) => &["C04"],
        (_, Why::EscrowNotClosable) => &["C17", "C18"],
        (tag::COMMIT | tag::COMMIT_FROM_BUFFER | tag::FINALIZE, Why::Funds) => &["C03", "C04"],
        (_, Why::Funds) => &["C03", "C04"],
        (_, Why::Privilege) => &["C04"],
        // broken rules of the runtime or of the account's balance: what the instruction did cannot be right
        (tag::DELEGATE | tag::DELEGATE_ESCROW, Why::Runtime) => &["C01", "C02", "C20", "C27"],
        (tag::COMMIT | tag::COMMIT_FROM_BUFFER, Why::Runtime) => &["C01", "C03", "C04", "C27"],
        (tag::FINALIZE, Why::Runtime) => &["C01", "C02", "C03", "C04", "C27"],
        (tag::UNDELEGATE, Why::Runtime) => &["C01", "C04", "C10", "C11", "C12", "C27"],
        (_, Why::Runtime) => &["C01", "C04", "C27"],
        (tag::UNDELEGATE, Why::Rent) => &["C04", "C10", "C12"],
        (_, Why::Rent) => &["C04"],
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Field {
    Lamports,
    Data,
    Owner,
}

fn diff_props(t: u8, role: Option<Role>, f: Field) -> &'static [&'static str] {
    use Field::{Data, Lamports};
    use Role::*;
    let Some(role) = role else { return &["C22", "C04"] };
    match (t, role) {
        (tag::DELEGATE | tag::DELEGATE_ESCROW, r) => match (r, f) {
            (Account, Data) => &["C02", "C20"],
            (Account, Field::Owner) => &["C01", "C19"],
            (Account, Lamports) => &["C04", "C20"],
            (Escrow, _) => &["C18", "C04"],
            (Record, Lamports) | (Metadata, Lamports) => &["C20", "C25", "C04"],
            (Record, _) if t == tag::DELEGATE_ESCROW => &["C20", "C18", "C01", "C27"],
            (Metadata, _) if t == tag::DELEGATE_ESCROW => &["C20", "C18", "C19", "C09", "C08", "C27"],
            (Record, _) => &["C20", "C19", "C01", "C27"],
            (Metadata, _) => &["C20", "C19", "C09", "C08", "C11", "C27"],
            (Payer | Wallet, _) => &["C04", "C25"],
            (Buffer, _) => &["C22", "C04"],
            _ => &["C22", "C04"],
        },
        (tag::COMMIT | tag::COMMIT_FROM_BUFFER, r) => match (r, f) {
            (Account, Data) => &["C02"],
            (Account, _) => &["C03", "C04", "C01"],
            (Record, _) => &["C20", "C03"],
            (Metadata, _) => &["C09", "C08", "C20"],
            (CommitState, Data) if t == tag::COMMIT_FROM_BUFFER => &["C02", "C23"],
            (CommitState, Data) => &["C02"],
            (CommitState | CommitRecord, Lamports) => &["C03", "C25", "C04"],
            (CommitRecord, _) => &["C03", "C07", "C08", "C27"],
            (CommitState, _) => &["C01", "C03"],
            (Validator, _) => &["C03", "C04", "C25"],
            (StateBuffer, _) => &["C23", "C22"],
            _ => &["C22", "C04"],
        },
        (tag::FINALIZE, r) => match (r, f) {
            (Account, Data) => &["C02"],
            (Account, Lamports) => &["C03"],
            (Account, Field::Owner) => &["C01", "C04"],
            (Record, Data) => &["C03", "C20"],
            (Metadata, Data) => &["C08", "C20", "C09"],
            (Record | Metadata, _) => &["C20", "C04"],
            (CommitState | CommitRecord, _) => &["C03", "C24", "C01", "C07"],
            (ValidatorVault, _) => &["C03", "C04"],
            (Validator, _) => &["C03", "C07", "C04"],
            _ => &["C22", "C04"],
        },
        (tag::UNDELEGATE, r) => match (r, f) {
            (Account, _) => &["C10", "C12", "C04"],
            (Record | Metadata, _) => &["C11", "C10", "C24", "C01"],
            (RentPayer | ProtocolVault | ValidatorVault, Lamports) => &["C11", "C12", "C04"],
            (RentPayer | ProtocolVault | ValidatorVault, _) => &["C04", "C22"],
            (Validator, _) => &["C10", "C12", "C04"],
            (UndelegateBuffer, _) => &["C10", "C12", "C24"],
            _ => &["C22", "C04"],
        },
        (tag::INIT_PROTOCOL_VAULT, Payer) => &["C14", "C25", "C04"],
        (tag::INIT_VALIDATOR_VAULT, Payer) => &["C15", "C25", "C04"],
        (tag::INIT_PROTOCOL_VAULT, ProtocolVault) => &["C14", "C25"],
        (tag::INIT_VALIDATOR_VAULT, ValidatorVault) => &["C15", "C25"],
        (tag::INIT_VALIDATOR_VAULT | tag::CLOSE_VALIDATOR_VAULT, _) => &["C15", "C04"],
        (tag::VALIDATOR_CLAIM, _) => &["C13", "C04"],
        (tag::PROTOCOL_CLAIM, _) => &["C14", "C04"],
        (tag::WHITELIST, Authority) => &["C16", "C25", "C04"],
        (tag::WHITELIST, Config) => &["C16", "C25"],
        (tag::WHITELIST, _) => &["C16", "C22", "C04"],
        (tag::TOP_UP, _) => &["C17", "C04"],
        (tag::CLOSE_ESCROW, _) => &["C17", "C18", "C04"],
        _ => &["C22", "C04"],
    }
}

/// Runs `tx` on the real program and compares with the reference model.
pub fn judge(w: &mut World, tx: &Tx, plan: Option<&Vec<owner::Step>>) -> Judged {
    let pre = w.svm.accts.clone();
    let hostile = plan.is_some();
    let pred = model::predict_tx(&pre, &w.cx(hostile), tx);
    owner::set_plan(plan.cloned());
    owner::take_calls();
    let result = w.svm.exec(tx);
    let calls = owner::take_calls();
    owner::set_plan(None);
    let mut fs = vec![];
    let mut known = vec![];
    let bundle = tx.ixs.len() > 1;
    let t_at = |i: usize| ix_tag(&tx.ixs[i]).unwrap_or(255);
    let at_escrow: Vec<bool> = tx.ixs.iter().map(|ix| on_escrow(w, ix)).collect();

    let slot = w.svm.slot;
    let bad = |fs: &mut Vec<Finding>, at: usize, why: &[Why]| {
        let mut p = Props::new();
        if idle(w, &pre, tx, at, plan, slot) {
            // accepted, but nothing came of it: only the refusal itself was promised
            for x in why {
                let base = accepted_bad_base(t_at(at), x);
                p.extend(base.iter().take(1));
                // C24: mismatched accounts are not skipped
                p.extend(base.iter().filter(|c| **c == "C24" && t_at(at) == tag::FINALIZE));
            }
        } else {
            for x in why {
                p.extend(accepted_bad(t_at(at), x));
            }
            if at_escrow[at] {
                p.insert("C18");
            }
            if bundle && why.iter().all(|w| matches!(w, Why::Missing(_) | Why::Subst(_))) {
                p.insert("C24");
            }
        }
        fs.push(Finding {
            props: p,
            sig: format!("accepted {} despite {:?}", tag::name(t_at(at)), why),
            msg: format!("instruction {at} ({}) had to be refused ({why:?}) but was accepted", tag::name(t_at(at))),
        });
    };
    let refused = |fs: &mut Vec<Finding>, at: usize, notes: &[Note], what: String| {
        if model::surplus_bytes(&tx.ixs[at]) {
            return; // ignoring them is not promised
        }
        let mut props = refused_good(t_at(at), notes, bundle);
        if at_escrow[at] {
            props.insert("C18");
        }
        fs.push(Finding {
            props,
            sig: format!("refused {}", tag::name(t_at(at))),
            msg: format!("instruction {at} ({}) is legal but failed: {what} (expected {notes:?})", tag::name(t_at(at))),
        });
    };

    match (&pred, &result) {
        (TxPred::Ok { post, notes }, TxResult::Ok) => {
            compare_post(w, tx, &pre, post, notes, &mut fs);
            callbacks(notes, &calls, &mut fs, &pre, tx);
        }
        (TxPred::Ok { notes, .. }, TxResult::Err(at, e)) => refused(&mut fs, *at, &notes[*at], format!("{e:?}")),
        (TxPred::Ok { notes, .. }, TxResult::RentErr(k)) => {
            let at = tx.ixs.iter().rposition(|ix| ix.accounts.iter().any(|m| m.pubkey == *k)).unwrap_or(0);
            refused(&mut fs, at, &notes[at], format!("{} left below rent exemption", named(k)))
        }
        (TxPred::Err { at, why }, TxResult::Ok | TxResult::RentErr(_)) => bad(&mut fs, *at, why),
        (TxPred::Err { at, why }, TxResult::Err(j, e)) => {
            if j > at {
                bad(&mut fs, *at, why)
            } else if j < at {
                let pn = prefix_notes(w, &pre, tx, *j);
                refused(&mut fs, *j, &pn, format!("{e:?}"))
            }
        }
        (TxPred::RentErr { key, .. }, TxResult::Ok) => {
            let at = tx.ixs.iter().rposition(|ix| ix.accounts.iter().any(|m| m.pubkey == *key)).unwrap_or(0);
            bad(&mut fs, at, &[Why::Rent]);
            fs.last_mut().unwrap().props.extend(liveness(t_at(at)));
        }
        (TxPred::RentErr { notes, .. }, TxResult::Err(at, e)) => refused(&mut fs, *at, &notes[*at], format!("{e:?}")),
        (TxPred::NoopOrErr { .. }, TxResult::Ok) => {
            let ch = changes(&pre, &w.svm.accts);
            if !ch.is_empty() {
                let p: &[&'static str] = match ix_tag(&tx.ixs[0]) {
                    Some(tag::CLOSE_ESCROW) => &["C17"],
                    _ => &["C08", "C21"],
                };
                fs.push(finding(p, "effect of a no-op".into(), format!("an outdated or empty step changed {}", keys(&ch))));
            }
        }
        _ => {}
    }
    if result.is_ok() {
        monitors(w, &pre, tx, &calls, &mut fs, &mut known);
    }
    Judged { result, pred, findings: fs, known }
}

/// Whether instruction `at`, executed by the program after the ones before it, changed nothing.
fn idle(w: &World, pre: &Accts, tx: &Tx, at: usize, plan: Option<&Vec<owner::Step>>, slot: u64) -> bool {
    let upto = |n: usize| {
        let mut s = w.svm.clone();
        s.accts = pre.clone();
        s.slot = slot;
        s.lax_rent = true;
        s.listed = tx.ixs.iter().flat_map(|ix| ix.accounts.iter().map(|m| m.pubkey).chain([ix.program_id])).collect();
        owner::set_plan(plan.cloned());
        let r = if n == 0 { TxResult::Ok } else { s.exec(&Tx { ixs: tx.ixs[..n].to_vec(), fee_payer: tx.fee_payer }) };
        owner::take_calls();
        owner::set_plan(None);
        (r.is_ok(), s.accts)
    };
    let (a, b) = (upto(at), upto(at + 1));
    a.0 && b.0 && a.1 == b.1
}

/// A finalize or undelegate of a delegated escrow.
fn on_escrow(w: &World, ix: &Instruction) -> bool {
    matches!(ix_tag(ix), Some(tag::FINALIZE | tag::UNDELEGATE))
        && ix.accounts.get(1).map_or(false, |m| w.targets.iter().any(|t| t.key == m.pubkey && matches!(t.kind, Kind::Escrow { .. })))
}

fn prefix_notes(w: &World, pre: &Accts, tx: &Tx, j: usize) -> Vec<Note> {
    let metas = effective_metas(tx);
    let mut st = model::St::new(pre);
    let mut notes = vec![];
    for i in 0..=j {
        notes.clear();
        model::predict_ix(&mut st, &w.cx(false), &tx.ixs[i].program_id, &metas[i], &tx.ixs[i].data, &mut notes);
    }
    notes
}

fn keys(v: &[Pubkey]) -> String {
    v.iter().map(named).collect::<Vec<_>>().join(",")
}

pub fn changes(pre: &Accts, post: &Accts) -> Vec<Pubkey> {
    let mut v = vec![];
    for (k, a) in pre {
        if post.get(k) != Some(a) {
            v.push(*k);
        }
    }
    for k in post.keys() {
        if !pre.contains_key(k) {
            v.push(*k);
        }
    }
    v
}

pub fn show_acct(a: &Acct) -> String {
    let hex: String = a.data.iter().take(140).map(|b| format!("{b:02x}")).collect();
    format!("{{{} lamports, owner {}, {} bytes {hex}}}", a.lamports, named(&a.owner), a.data.len())
}

pub fn compare_post(w: &World, tx: &Tx, pre: &Accts, post: &BTreeMap<Pubkey, Acct>, notes: &[Vec<Note>], fs: &mut Vec<Finding>) {
    let mut all: BTreeSet<Pubkey> = changes(pre, &w.svm.accts).into_iter().collect();
    all.extend(post.keys());
    for k in all {
        let want = post.get(&k).cloned().unwrap_or_else(|| get(pre, &k));
        let got = w.svm.get(&k);
        if want == got {
            continue;
        }
        let mut fields = vec![];
        if want.lamports != got.lamports {
            fields.push(Field::Lamports)
        }
        if want.data != got.data {
            fields.push(Field::Data)
        }
        if want.owner != got.owner {
            fields.push(Field::Owner)
        }
        let mut props = Props::new();
        let mut desc = vec![];
        let mut seen = false;
        for (i, ix) in tx.ixs.iter().enumerate() {
            let rs = ix_roles(ix);
            for (j, m) in ix.accounts.iter().enumerate() {
                if m.pubkey != k {
                    continue;
                }
                seen = true;
                let role = rs.get(j).copied();
                desc.push(format!("{}.{:?}", ix_tag(ix).map_or("Other", tag::name), role));
                for f in &fields {
                    props.extend(diff_props(ix_tag(ix).unwrap_or(255), role, *f));
                }
                if on_escrow(w, ix) {
                    props.insert("C18");
                }
                for n in &notes[i] {
                    match n {
                        Note::StaleSkip { .. } => {
                            props.insert("C08");
                        }
                        Note::NothingSkip { .. } => {
                            props.insert("C24");
                        }
                        Note::Delegated { prefunded: true, .. }
                        | Note::Committed { prefunded: true, .. }
                        | Note::VaultOpened { prefunded: true, .. }
                        | Note::ProtocolVault { prefunded: true } => {
                            props.insert("C25");
                        }
                        _ => {}
                    }
                }
                if ix_tag(ix) == Some(tag::COMMIT_FROM_BUFFER) && fields.contains(&Field::Data) {
                    props.insert("C23");
                }
            }
        }
        if !seen {
            props.extend(["C22", "C04"]);
        }
        if tx.ixs.len() > 1 {
            props.insert("C24");
        }
        desc.sort();
        desc.dedup();
        fs.push(Finding {
            props,
            sig: format!("{} {:?}", desc.first().cloned().unwrap_or_default(), fields),
            msg: format!("{} ({}) ended as {} instead of {}", named(&k), desc.join(","), show_acct(&got), show_acct(&want)),
        });
    }
}

fn callbacks(notes: &[Vec<Note>], calls: &[owner::Callback], fs: &mut Vec<Finding>, _pre: &Accts, _tx: &Tx) {
    let mut it = calls.iter();
    for n in notes.iter().flatten() {
        if let Note::Undelegated { acct, v, seeds, data, owner, .. } = n {
            if *data == 0 {
                continue;
            }
            let exp_keys = vec![*acct, undelegate_buffer_pda(acct), *v, sys()];
            match it.next() {
                None => fs.push(finding(&["C10"], "no callback".into(), format!("owner program of {} was not called", named(acct)))),
                Some(c) => {
                    if c.program != *owner || c.seeds.as_ref() != Some(seeds) {
                        fs.push(finding(
                            &["C10"],
                            "callback seeds".into(),
                            format!("owner program {} was called with seeds {:?}, expected {} with {:?}", named(&c.program), c.seeds, named(owner), seeds),
                        ));
                    }
                    if c.keys != exp_keys {
                        fs.push(finding(&["C10"], "callback accounts".into(), format!("owner program was given {:?}", c.keys)));
                    }
                }
            }
        }
    }
}

pub const KNOWN_D2: &str = "C01:drained-empty-account";

/// Invariants that need no prediction.
fn monitors(w: &mut World, pre: &Accts, tx: &Tx, calls: &[owner::Callback], fs: &mut Vec<Finding>, known: &mut Vec<&'static str>) {
    let post = &w.svm.accts;
    let total = |a: &Accts| a.values().map(|x| x.lamports as u128).sum::<u128>();
    if total(pre) != total(post) {
        fs.push(finding(&["C04"], "lamports not conserved".into(), "lamports were created or destroyed".into()));
    }
    let mut signers: BTreeSet<Pubkey> = tx.fee_payer.into_iter().collect();
    for ix in &tx.ixs {
        signers.extend(ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey));
    }
    // wallets that did not sign
    for k in pool().wallets.iter().chain([TEST_AUTHORITY].iter()) {
        let (a, b) = (get(pre, k), get(post, k));
        if a.owner == sys() && a.data.is_empty() && !signers.contains(k) && (b.lamports < a.lamports || b.owner != a.owner || b.data != a.data)
        {
            fs.push(finding(
                &["C04"],
                "wallet without signature".into(),
                format!("wallet {} did not sign but went from {} to {}", named(k), show_acct(&a), show_acct(&b)),
            ));
        }
    }
    let names = |k: &Pubkey, tags: &[u8], pos: usize| {
        tx.ixs.iter().any(|ix| {
            ix.program_id == DLP && ix.data.first().map_or(false, |t| tags.contains(t)) && ix.accounts.get(pos).map_or(false, |m| m.pubkey == *k)
        })
    };
    for t in &w.targets {
        let k = &t.key;
        let (a, b) = (get(pre, k), get(post, k));
        // balances and data of delegated accounts
        if a.owner == DLP && pre.get(&record_pda(k)).map_or(false, |r| r.owner == DLP) {
            let entitled = names(k, &[tag::FINALIZE, tag::UNDELEGATE], 1);
            if !entitled && (b.lamports < a.lamports || b.owner != a.owner) {
                fs.push(finding(
                    &["C04"],
                    "delegated account drained".into(),
                    format!("delegated account {} went from {} to {} without finalize or undelegate", named(k), show_acct(&a), show_acct(&b)),
                ));
            }
            if !entitled && a.data != b.data {
                fs.push(finding(&["C02"], "delegated data changed".into(), format!("data of delegated {} changed without a finalize", named(k))));
            }
        }
        // escrows
        if let Kind::Escrow { wallet, .. } = &t.kind {
            if a.owner == sys() && b.lamports < a.lamports && !signers.contains(wallet) {
                fs.push(finding(&["C17", "C04"], "escrow drained".into(), format!("escrow {} of {} lost lamports without its signature", named(k), named(wallet))));
            }
        }
        // commit deposits only move in a finalize
        for d in [commit_state_pda(k), commit_record_pda(k)] {
            let (a, b) = (get(pre, &d), get(post, &d));
            if a.owner == DLP && b.lamports < a.lamports && !names(k, &[tag::FINALIZE], 1) {
                fs.push(finding(&["C04", "C07"], "deposit drained".into(), format!("commit deposit of {} shrank without a finalize", named(k))));
            }
        }
        // stage consistency
        let own = |k: Pubkey| post.get(&k).map_or(false, |x| x.owner == DLP);
        let (r, m, cs, cr) = (own(record_pda(k)), own(metadata_pda(k)), own(commit_state_pda(k)), own(commit_record_pda(k)));
        let mut odd = None;
        if r != m {
            odd = Some("exactly one of record and metadata exists");
        } else if cs != cr {
            odd = Some("exactly one of the commit accounts exists");
        } else if cs && !r {
            odd = Some("a commit is pending on an account that is not delegated");
        } else if r && b.owner != DLP {
            // known finding D2: settled to zero lamports with no data
            if b.is_absent() && names(k, &[tag::FINALIZE], 1) {
                known.push(KNOWN_D2);
            } else if a.owner == DLP || !pre.get(&record_pda(k)).map_or(false, |x| x.owner == DLP) {
                odd = Some("a delegation record exists but the program does not hold the account");
            }
        } else if r {
            let s = stage(post, k);
            match (&s.rec, &s.meta) {
                (Some(rec), Some(_)) => {
                    if rec.lamports > b.lamports {
                        odd = Some("the record claims more lamports than the account holds");
                    } else if cs && s.pending.as_ref().map_or(true, |p| p.account != *k) {
                        odd = Some("the commit record does not decode or names another account");
                    }
                }
                _ => odd = Some("record or metadata do not decode"),
            }
        }
        if let Some(o) = odd {
            fs.push(finding(&["C01"], format!("stage: {o}"), format!("{}: {o}", named(k))));
        }
    }
    for (k, p) in w
        .validators
        .iter()
        .map(|v| (validator_vault_pda(v), "C13"))
        .chain([(fees_vault_pda(), "C14")])
    {
        if let Some(a) = post.get(&k) {
            if a.owner == DLP && a.lamports < wire::rent(8) {
                fs.push(finding(&[p], "vault below rent".into(), format!("vault {} holds {} lamports, below rent exemption", named(&k), a.lamports)));
            }
        }
    }
    // what owner programs got away with
    for c in calls {
        let (acct, ubuf, v) = (c.keys.first(), c.keys.get(1), c.keys.get(2));
        let (Some(acct), Some(_), Some(v)) = (acct, ubuf, v) else { continue };
        let und = tx.ixs.iter().filter(|ix| ix.program_id == DLP && ix.data.first() == Some(&tag::UNDELEGATE)).count();
        let Some((v_after, data, _, _)) = &c.after else {
            fs.push(finding(&["C12"], "owner failure ignored".into(), "the owner program failed but the undelegation succeeded".into()));
            continue;
        };
        let len = c.buffer_data.len();
        if *data != c.buffer_data {
            fs.push(finding(&["C12", "C10"], "owner changed data".into(), format!("owner program re-opened {} with different data", named(acct))));
        }
        if c.v_before.checked_sub(wire::rent(len)) != Some(*v_after) {
            fs.push(finding(
                &["C12"],
                "owner charged validator".into(),
                format!("owner program moved the validator from {} to {} lamports, re-opening costs {}", c.v_before, v_after, wire::rent(len)),
            ));
        }
        if tx.ixs.len() == 1 && und == 1 {
            let (a, b) = (get(pre, v), get(post, v));
            let is_refund = tx.ixs[0].accounts.get(8).map(|m| m.pubkey) == Some(*v);
            if b.lamports < a.lamports || b.owner != sys() && a.owner == sys() || b.data != a.data {
                fs.push(finding(&["C12"], "validator harmed".into(), format!("validator went from {} to {}", show_acct(&a), show_acct(&b))));
            }
            let _ = is_refund;
            if get(post, acct).lamports != get(pre, acct).lamports {
                fs.push(finding(&["C12", "C10"], "balance lost".into(), format!("{} went from {} to {}", named(acct), show_acct(&get(pre, acct)), show_acct(&get(post, acct)))));
            }
            if get(post, acct).data != get(pre, acct).data {
                fs.push(finding(&["C12", "C10"], "data lost".into(), format!("{} does not hold its data after undelegation", named(acct))));
            }
            for m in &tx.ixs[0].accounts {
                let k = m.pubkey;
                if k != *acct && ![record_pda(acct), metadata_pda(acct), undelegate_buffer_pda(acct)].contains(&k) && get(post, &k).lamports < get(pre, &k).lamports {
                    fs.push(finding(&["C12"], "someone else paid".into(), format!("{} lost lamports in the undelegation", named(&k))));
                }
            }
        }
    }
}

pub fn note_label(n: &Note) -> &'static str {
    match n {
        Note::Delegated { prefunded: true, .. } => "delegated (prefunded)",
        Note::Delegated { pda: false, .. } => "delegated (on-curve)",
        Note::Delegated { .. } => "delegated",
        Note::Committed { allow: true, .. } => "committed, allowing undelegation",
        Note::Committed { extra, .. } if *extra > 0 => "committed with deposit",
        Note::Committed { .. } => "committed",
        Note::StaleSkip { .. } => "outdated commit skipped",
        Note::Finalized { dir: -1, .. } => "finalized, lamports down",
        Note::Finalized { dir: 1, .. } => "finalized, lamports up",
        Note::Finalized { .. } => "finalized, lamports equal",
        Note::NothingSkip { .. } => "finalize with nothing pending",
        Note::Undelegated { data: 0, .. } => "undelegated without data",
        Note::Undelegated { .. } => "undelegated with data",
        Note::ProtocolVault { .. } => "protocol vault created",
        Note::VaultOpened { .. } => "validator registered",
        Note::VaultClosed { .. } => "validator unregistered",
        Note::Claimed { .. } => "validator claim",
        Note::ProtocolClaimed { .. } => "protocol claim",
        Note::Whitelisted { insert: true, .. } => "whitelist insert",
        Note::Whitelisted { .. } => "whitelist remove",
        Note::ToppedUp { delegated: true, .. } => "top-up of delegated escrow",
        Note::ToppedUp { .. } => "escrow top-up",
        Note::EscrowClosed { .. } => "escrow closed",
        Note::EscrowDelegated { .. } => "escrow delegated",
        Note::Transfer => "transfer",
    }
}
pub fn why_label(w: &Why) -> &'static str {
    match w {
        Why::Malformed => "refused: malformed",
        Why::Subst(_) => "refused: substituted account",
        Why::NotSigner(_) => "refused: missing signature",
        Why::Missing(_) => "refused: account missing",
        Why::Exists(_) => "refused: account exists",
        Why::NotDelegated => "refused: not held by the program",
        Why::ZeroBalance => "refused: zero balance",
        Why::BadSeeds => "refused: wrong seeds",
        Why::Undelegatable => "refused: already undelegatable",
        Why::NotUndelegatable => "refused: undelegation not allowed",
        Why::BadLamports => "refused: balance below record",
        Why::NotWhitelisted => "refused: not whitelisted",
        Why::WrongIdentity => "refused: other validator's commit",
        Why::WrongAccount => "refused: other account's commit",
        Why::WrongOwner => "refused: wrong owner program",
        Why::WrongRentPayer => "refused: wrong rent payer",
        Why::OwnerCallback => "refused: owner program cannot re-open",
        Why::ClaimTooMuch => "refused: claim too large",
        Why::Unauthorized => "refused: not the authority",
        Why::EscrowNotClosable => "refused: escrow delegated",
        Why::Funds => "refused: insufficient funds",
        Why::Privilege => "refused: missing privilege",
        Why::Runtime => "refused: runtime rule",
        Why::Rent => "refused: rent",
    }
}

/// Properties a note or a refusal is evidence for (the non-triviality rule of the history checks).
fn relevant_note(p: &str, n: &Note) -> bool {
    use Note::*;
    match p {
        "C01" | "C04" | "C22" | "C21" | "C28" => true,
        "C02" => matches!(n, Finalized { .. } | Delegated { .. } | Committed { .. }),
        "C03" => matches!(n, Finalized { .. } | Committed { .. }),
        "C05" => matches!(n, Committed { .. } | Finalized { .. } | Undelegated { .. } | Claimed { .. } | VaultOpened { .. } | VaultClosed { .. }),
        "C06" => matches!(n, Committed { .. } | Whitelisted { .. }),
        "C07" => matches!(n, Finalized { .. }),
        "C08" => matches!(n, Finalized { .. } | StaleSkip { .. } | Committed { .. }),
        "C09" => matches!(n, Undelegated { .. } | Committed { allow: true, .. }),
        "C10" | "C11" | "C12" => matches!(n, Undelegated { .. }),
        "C13" => matches!(n, Claimed { .. }),
        "C14" => matches!(n, ProtocolClaimed { .. } | ProtocolVault { .. }),
        "C15" => matches!(n, VaultOpened { .. } | VaultClosed { .. }),
        "C16" => matches!(n, Whitelisted { .. }),
        "C17" => matches!(n, ToppedUp { .. } | EscrowClosed { .. }),
        "C18" => matches!(n, EscrowDelegated { .. } | EscrowClosed { .. }),
        "C19" | "C20" => matches!(n, Delegated { .. }),
        "C23" | "C24" => matches!(n, Committed { .. } | Finalized { .. } | NothingSkip { .. } | StaleSkip { .. }),
        "C25" => matches!(
            n,
            Delegated { prefunded: true, .. } | Committed { prefunded: true, .. } | VaultOpened { prefunded: true, .. } | ProtocolVault { prefunded: true }
        ),
        _ => true,
    }
}
fn relevant_why(p: &'static str, t: u8, w: &Why) -> bool {
    accepted_bad(t, w).contains(p)
}

/// Runs one generated history for property `prop`.
pub fn history(src: &mut Src, prop: &'static str, pr: &Profile, utc: bool) -> Case {
    let mut c = Case::default();
    let mut w = World::gen(src, pr, utc);
    let n = src.range(1, pr.max_ops);
    for _ in 0..n {
        let stop = src.span(|src| step(src, &mut w, prop, pr, &mut c));
        if stop {
            break;
        }
    }
    c
}

/// One transaction; returns true when the history must stop.
pub fn step(src: &mut Src, w: &mut World, prop: &'static str, pr: &Profile, c: &mut Case) -> bool {
    let p = w.gen_tx(src, pr);
    src.say(|| show_tx(&p.tx));
    if let Some(pl) = &p.plan {
        src.say(|| format!("owner program plan {pl:?}"));
    }
    let j = judge(w, &p.tx, p.plan.as_ref());
    c.steps += 1;
    src.say(|| format!("-> {:?} (model: {})", j.result, short(&j.pred)));
    c.labels.extend(p.labels.iter());
    if p.plan.is_some() {
        c.labels.push("hostile owner program");
        if j.result.is_ok() {
            c.labels.push("hostile owner program, transaction succeeded");
        }
        if prop == "C12" {
            c.nontrivial.push(hash_of(&(format!("{:?}", p.plan), j.result.is_ok(), p.tx.ixs.len())));
        }
    }
    if p.tx.ixs.len() > 1 {
        c.labels.push("bundle");
    }
    match &j.pred {
        TxPred::Ok { notes, .. } => {
            for n in notes.iter().flatten() {
                c.labels.push(note_label(n));
                if relevant_note(prop, n) {
                    c.nontrivial.push(hash_of(&format!("{n:?}{}", p.tx.ixs.len())));
                }
            }
        }
        TxPred::Err { at, why } => {
            let t = ix_tag(&p.tx.ixs[*at]).unwrap_or(255);
            for x in why {
                c.labels.push(why_label(x));
                if why.len() == 1 && relevant_why(prop, t, x) {
                    c.labels.push("refused for exactly one reason this property is about");
                    c.nontrivial.push(hash_of(&format!("{t}{x:?}{:?}", p.tx.ixs[*at].data)));
                }
            }
        }
        TxPred::RentErr { .. } => c.labels.push("refused: rent"),
        TxPred::NoopOrErr { .. } => c.labels.push("unspecified: no-op or refusal"),
        TxPred::Any => c.labels.push("outside the model, invariants only"),
    }
    c.known.extend(j.known.iter());
    if j.findings.is_empty() {
        return false;
    }
    let mine: Vec<&Finding> = j.findings.iter().filter(|f| prop == "ANY" || f.props.contains(prop)).collect();
    if let Some(f) = mine.first() {
        c.fail = Some(Failure {
            sig: f.sig.clone(),
            msg: format!("{} [{}]", f.msg, f.props.iter().copied().collect::<Vec<_>>().join(" ")),
        });
    } else {
        // the model predicts from the real state, so the history can go on
        c.labels.push("deviation that concerns another property");
        return false;
    }
    true
}

pub fn short(p: &TxPred) -> String {
    match p {
        TxPred::Ok { notes, .. } => format!("ok {notes:?}"),
        TxPred::Err { at, why } => format!("err at {at} {why:?}"),
        TxPred::RentErr { key, .. } => format!("rent error on {}", named(key)),
        TxPred::NoopOrErr { why } => format!("no-op or error {why:?}"),
        TxPred::Any => "unspecified".into(),
    }
}
