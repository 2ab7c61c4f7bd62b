//! Reference model: what each instruction must do, given the state it runs in. Written from
//! the documentation of the instructions; does not use the code under test.

use crate::svm::{rent_state, rent_transition_ok, sys, Acct, Accts, Meta, Tx, MAX_DATA};
use crate::wire::{self, *};
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Why {
    Malformed,
    /// account passed at a position is not the derived one
    Subst(Role),
    NotSigner(Role),
    /// an account required to exist/be initialized does not
    Missing(Role),
    /// an account required not to exist does
    Exists(Role),
    NotDelegated,
    ZeroBalance,
    BadSeeds,
    Undelegatable,
    NotUndelegatable,
    BadLamports,
    NotWhitelisted,
    WrongIdentity,
    WrongAccount,
    WrongOwner,
    WrongRentPayer,
    OwnerCallback,
    ClaimTooMuch,
    Unauthorized,
    EscrowNotClosable,
    Funds,
    Privilege,
    Runtime,
    Rent,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Role {
    Payer,
    Account,
    Owner,
    Buffer,
    Record,
    Metadata,
    CommitState,
    CommitRecord,
    StateBuffer,
    Validator,
    ValidatorVault,
    ProtocolVault,
    Config,
    SystemProgram,
    DlpProgram,
    Admin,
    Authority,
    ProgramData,
    Wallet,
    Escrow,
    RentPayer,
    UndelegateBuffer,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pred {
    Ok,
    Err(Vec<Why>),
    /// must have no effect, may report success or failure
    NoopOrErr(Vec<Why>),
    /// outside the modelled behaviour; only the global invariants apply
    Any,
}

/// What happened, for statistics and attribution.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Note {
    Delegated { acct: Pubkey, prefunded: bool, data: bool, pda: bool, seeds: usize },
    Committed { acct: Pubkey, v: Pubkey, slot: u64, allow: bool, extra: u64, prefunded: bool, whitelisted: bool, equal_slot: bool },
    StaleSkip { acct: Pubkey },
    Finalized { acct: Pubkey, v: Pubkey, old_len: usize, new_len: usize, dir: i8, donated: bool, slot: u64 },
    NothingSkip { acct: Pubkey },
    Undelegated { acct: Pubkey, v: Pubkey, seeds: Vec<Vec<u8>>, data: usize, owner: Pubkey, donated: bool, refund_to_validator: bool },
    ProtocolVault { prefunded: bool },
    VaultOpened { v: Pubkey, prefunded: bool },
    VaultClosed { v: Pubkey },
    Claimed { v: Pubkey, amount: u64, explicit: bool },
    ProtocolClaimed { amount: u64 },
    Whitelisted { program: Pubkey, v: Pubkey, insert: bool, changed: bool, created: bool, n: usize },
    ToppedUp { escrow: Pubkey, amount: u64, created: bool, delegated: bool, other: bool },
    EscrowClosed { escrow: Pubkey, amount: u64 },
    EscrowDelegated { escrow: Pubkey },
    Transfer,
}

pub struct Cx<'a> {
    pub slot: u64,
    pub utc: bool,
    pub programs: &'a [Pubkey],
    pub hostile: bool,
}

/// Copy-on-write view of the ledger.
pub struct St<'a> {
    pub base: &'a Accts,
    pub over: BTreeMap<Pubkey, Acct>,
}
impl<'a> St<'a> {
    pub fn new(base: &'a Accts) -> Self {
        St { base, over: BTreeMap::new() }
    }
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.over.get(k).or_else(|| self.base.get(k)).cloned().unwrap_or_default()
    }
    pub fn set(&mut self, k: &Pubkey, a: Acct) {
        self.over.insert(*k, a);
    }
    fn edit(&mut self, k: &Pubkey, f: impl FnOnce(&mut Acct)) {
        let mut a = self.get(k);
        f(&mut a);
        self.set(k, a);
    }
    fn credit(&mut self, k: &Pubkey, n: u64) -> Result<(), Why> {
        let mut a = self.get(k);
        a.lamports = a.lamports.checked_add(n).ok_or(Why::Runtime)?;
        self.set(k, a);
        Ok(())
    }
    fn debit(&mut self, k: &Pubkey, n: u64) -> Result<(), Why> {
        let mut a = self.get(k);
        a.lamports = a.lamports.checked_sub(n).ok_or(Why::Funds)?;
        self.set(k, a);
        Ok(())
    }
    fn close(&mut self, k: &Pubkey, dest: &Pubkey) -> Result<(), Why> {
        let l = self.get(k).lamports;
        self.credit(dest, l)?;
        self.set(k, Acct::default());
        Ok(())
    }
}

fn uninit(a: &Acct) -> bool {
    a.owner == sys() && a.data.is_empty()
}

/// Privileges of the running instruction.
struct Priv<'m> {
    metas: &'m [Meta],
    pda_signers: Vec<Pubkey>,
}
impl<'m> Priv<'m> {
    fn signer(&self, k: &Pubkey) -> bool {
        self.pda_signers.contains(k) || self.metas.iter().any(|m| m.key == *k && m.signer)
    }
    fn writable(&self, k: &Pubkey) -> bool {
        self.metas.iter().any(|m| m.key == *k && m.writable)
    }
}

fn sys_transfer(st: &mut St, p: &Priv, from: &Pubkey, to: &Pubkey, n: u64) -> Result<(), Why> {
    if !p.signer(from) || !p.writable(from) || !p.writable(to) {
        return Err(Why::Privilege);
    }
    let f = st.get(from);
    if !f.data.is_empty() {
        return Err(Why::Runtime);
    }
    if f.lamports < n {
        return Err(Why::Funds);
    }
    if n > 0 && f.owner != sys() {
        return Err(Why::Runtime);
    }
    st.debit(from, n)?;
    st.credit(to, n)
}

/// Creates `target` (a derived address the program signs for), owned by `owner`, rent-exempt,
/// keeping whatever it already holds; the payer adds only what is missing.
fn create(st: &mut St, p: &Priv, payer: &Pubkey, target: &Pubkey, space: usize, owner: &Pubkey) -> Result<(), Why> {
    if !p.writable(target) {
        return Err(Why::Privilege);
    }
    let t = st.get(target);
    if !uninit(&t) {
        return Err(Why::Runtime);
    }
    if space > MAX_DATA {
        return Err(Why::Runtime);
    }
    let missing = wire::rent(space).saturating_sub(t.lamports);
    if missing > 0 {
        sys_transfer(st, p, payer, target, missing)?;
    }
    st.edit(target, |a| {
        a.data = vec![0; space];
        a.owner = *owner;
    });
    Ok(())
}

struct Chk(Vec<Why>);
impl Chk {
    fn req(&mut self, c: bool, w: Why) -> bool {
        if !c {
            self.0.push(w);
        }
        c
    }
}

/// A derived account that must exist under the delegation program.
fn init_pda(c: &mut Chk, st: &St, m: &Meta, expect: &Pubkey, writable: bool, role: Role) -> bool {
    let mut ok = c.req(m.key == *expect, Why::Subst(role));
    if st.get(&m.key).owner != DLP {
        ok = c.req(false, if m.key == *expect { Why::Missing(role) } else { Why::Subst(role) });
    }
    if writable {
        ok &= c.req(m.writable, Why::Privilege);
    }
    ok
}
fn uninit_pda(c: &mut Chk, st: &St, m: &Meta, expect: &Pubkey, writable: bool, role: Role) -> bool {
    let mut ok = c.req(m.key == *expect, Why::Subst(role));
    ok &= c.req(uninit(&st.get(&m.key)), Why::Exists(role));
    if writable {
        ok &= c.req(m.writable, Why::Privilege);
    }
    ok
}
fn system_program(c: &mut Chk, m: &Meta) {
    c.req(m.key == sys(), Why::Subst(Role::SystemProgram));
}

/// Upgrade authority of `program` as told by the supplied authority-data account.
fn upgrade_authority(st: &St, cx: &Cx, program: &Pubkey, pd: &Meta) -> Result<Option<Pubkey>, Why> {
    if cx.utc && *program == DLP {
        return Ok(Some(TEST_AUTHORITY));
    }
    if pd.key != programdata_pda(program) {
        return Err(Why::Subst(Role::ProgramData));
    }
    match dec_programdata(&st.get(&pd.key).data) {
        ProgramData::Authority(a) => Ok(a),
        ProgramData::Invalid => Err(Why::Missing(Role::ProgramData)),
    }
}

fn check_admin(c: &mut Chk, st: &St, cx: &Cx, admin: &Meta, pd: &Meta) {
    match upgrade_authority(st, cx, &DLP, pd) {
        Err(w) => {
            c.req(false, w);
        }
        Ok(a) => {
            c.req(a == Some(admin.key), Why::Unauthorized);
        }
    }
}

fn n_accounts(t: u8) -> usize {
    match t {
        tag::DELEGATE => 7,
        tag::COMMIT => 9,
        tag::COMMIT_FROM_BUFFER => 10,
        tag::FINALIZE => 8,
        tag::UNDELEGATE => 12,
        tag::INIT_PROTOCOL_VAULT => 3,
        tag::INIT_VALIDATOR_VAULT => 6,
        tag::CLOSE_VALIDATOR_VAULT => 5,
        tag::VALIDATOR_CLAIM => 3,
        tag::PROTOCOL_CLAIM => 3,
        tag::WHITELIST => 7,
        tag::TOP_UP => 4,
        tag::DELEGATE_ESCROW => 8,
        tag::CLOSE_ESCROW => 3,
        _ => 0,
    }
}

/// Predicts one top-level instruction and applies its effects to `st` when it succeeds.
pub fn predict_ix(st: &mut St, cx: &Cx, program: &Pubkey, metas: &[Meta], data: &[u8], notes: &mut Vec<Note>) -> Pred {
    let before = st.over.clone();
    let r = if *program == DLP {
        dlp_ix(st, cx, metas, data, notes)
    } else if *program == sys() {
        system_ix(st, metas, data, notes)
    } else if cx.programs.contains(program) {
        owner_ix(st, cx, program, metas, data, notes)
    } else {
        Pred::Err(vec![Why::Runtime])
    };
    let r = if r == Pred::Ok {
        // the runtime rejects any change to a read-only account
        let mut bad = false;
        for (k, a) in st.over.iter() {
            let old = before.get(k).cloned().or_else(|| st.base.get(k).cloned()).unwrap_or_default();
            if old != *a && !metas.iter().any(|m| m.key == *k && m.writable) {
                bad = true;
            }
        }
        if bad {
            Pred::Err(vec![Why::Privilege])
        } else {
            Pred::Ok
        }
    } else {
        r
    };
    if r != Pred::Ok {
        st.over = before;
    }
    r
}

fn system_ix(st: &mut St, metas: &[Meta], data: &[u8], notes: &mut Vec<Note>) -> Pred {
    let mut d = Dec(data);
    let kind = d.u32();
    if kind == Some(1) && metas.len() == 1 {
        let (m, Some(o)) = (metas[0], d.key()) else { return Pred::Any };
        let mut a = st.get(&m.key);
        if a.owner == o {
            return Pred::Ok;
        }
        if !m.signer || !m.writable || a.owner != sys() || a.data.iter().any(|b| *b != 0) {
            return Pred::Err(vec![Why::Privilege]);
        }
        a.owner = o;
        st.set(&m.key, a);
        return Pred::Ok;
    }
    if kind != Some(2) || metas.len() < 2 {
        return Pred::Any;
    }
    let Some(n) = d.u64() else { return Pred::Any };
    let p = Priv { metas, pda_signers: vec![] };
    notes.push(Note::Transfer);
    match sys_transfer(st, &p, &metas[0].key, &metas[1].key, n) {
        Ok(()) => Pred::Ok,
        Err(w) => Pred::Err(vec![w]),
    }
}

fn owner_ix(st: &mut St, cx: &Cx, program: &Pubkey, metas: &[Meta], data: &[u8], notes: &mut Vec<Note>) -> Pred {
    if data.first() != Some(&0xD0) || metas.len() != 8 {
        return Pred::Any;
    }
    let mut d = Dec(&data[1..]);
    let Some(seeds) = d.seeds() else { return Pred::Any };
    let args = d.0;
    let [payer, acct, this, buffer, record, metadata, sysp, dlp] = metas else { unreachable!() };
    // the stand-in itself is only used with its proper accounts
    if this.key != *program || sysp.key != sys() || dlp.key != DLP || !acct.writable {
        return Pred::Any;
    }
    let dups = metas.iter().map(|m| m.key).collect::<BTreeSet<_>>().len() != metas.len();
    if dups {
        return Pred::Any;
    }
    let a0 = st.get(&acct.key);
    if a0.owner != *program {
        return Pred::Err(vec![Why::Exists(Role::Record)]);
    }
    if buffer.key != delegate_buffer_pda(&acct.key, program) {
        return Pred::Err(vec![Why::Subst(Role::Buffer)]);
    }
    if a0.data.len() > MAX_DATA {
        return Pred::Any;
    }
    let signs = acct.signer || find_pda(&seeds, program).map(|x| x.0) == Some(acct.key);
    if !signs {
        return Pred::Err(vec![Why::NotSigner(Role::Account)]);
    }
    let mut p = Priv { metas, pda_signers: vec![buffer.key] };
    if let Err(w) = create(st, &p, &payer.key, &buffer.key, a0.data.len(), program) {
        return Pred::Err(vec![w]);
    }
    st.edit(&buffer.key, |b| b.data = a0.data.clone());
    st.edit(&acct.key, |a| {
        a.data.fill(0);
        a.owner = DLP;
    });
    p.pda_signers = vec![];
    if !payer.signer || !payer.writable || !buffer.writable || !record.writable || !metadata.writable {
        return Pred::Err(vec![Why::Privilege]);
    }
    let m2: Vec<Meta> = vec![
        *payer,
        Meta { key: acct.key, signer: true, writable: true },
        Meta { key: *program, signer: false, writable: false },
        *buffer,
        *record,
        *metadata,
        Meta { key: sys(), signer: false, writable: false },
    ];
    let mut ix = 0u64.to_le_bytes().to_vec();
    ix.extend(args);
    match dlp_ix(st, cx, &m2, &ix, notes) {
        Pred::Ok => {}
        o => return o,
    }
    if let Err(w) = st.close(&buffer.key, &payer.key) {
        return Pred::Err(vec![w]);
    }
    Pred::Ok
}

fn dlp_ix(st: &mut St, cx: &Cx, metas: &[Meta], data: &[u8], notes: &mut Vec<Note>) -> Pred {
    if data.len() < 8 {
        return Pred::Err(vec![Why::Malformed]);
    }
    let t = data[0];
    if data[1..8].iter().any(|b| *b != 0) {
        // only the first tag byte is documented to select the instruction
        return Pred::Any;
    }
    if !tag::ALL.contains(&t) {
        return Pred::Err(vec![Why::Malformed]);
    }
    if metas.len() != n_accounts(t) {
        return Pred::Err(vec![Why::Malformed]);
    }
    let args = &data[8..];
    let r = match t {
        tag::DELEGATE => match DelegateArgs::dec(args) {
            None => Err(vec![Why::Malformed]),
            Some(a) => delegate(st, cx, metas, &a, notes),
        },
        tag::COMMIT => match CommitArgs::dec(args) {
            None => Err(vec![Why::Malformed]),
            Some(a) => return commit(st, cx, metas, a, notes),
        },
        tag::COMMIT_FROM_BUFFER => match CommitArgs::dec_no_data(args) {
            None => Err(vec![Why::Malformed]),
            Some(mut a) => {
                let b = metas[6].key;
                // the buffer being one of the accounts the commit writes is not specified
                if [metas[0].key, metas[2].key, metas[3].key, metas[5].key].contains(&b) {
                    return Pred::Any;
                }
                a.data = st.get(&b).data;
                let mut m: Vec<Meta> = metas.to_vec();
                m.remove(6);
                return commit(st, cx, &m, a, notes);
            }
        },
        tag::FINALIZE => finalize(st, metas, notes),
        tag::UNDELEGATE => return undelegate(st, cx, metas, notes),
        tag::INIT_PROTOCOL_VAULT => init_protocol(st, metas, notes),
        tag::INIT_VALIDATOR_VAULT => init_validator(st, cx, metas, notes),
        tag::CLOSE_VALIDATOR_VAULT => close_validator(st, cx, metas, notes),
        tag::VALIDATOR_CLAIM => {
            let mut d = Dec(args);
            let a = match d.u8() {
                Some(0) => Some(None),
                Some(1) => d.u64().map(Some),
                _ => None,
            };
            match a.and_then(|a| d.end(a)) {
                None => Err(vec![Why::Malformed]),
                Some(a) => validator_claim(st, metas, a, notes),
            }
        }
        tag::PROTOCOL_CLAIM => protocol_claim(st, cx, metas, notes),
        tag::WHITELIST => {
            let mut d = Dec(args);
            match d.bool().and_then(|b| d.end(b)) {
                None => Err(vec![Why::Malformed]),
                Some(b) => return whitelist(st, cx, metas, b, notes),
            }
        }
        tag::TOP_UP => {
            let mut d = Dec(args);
            let a = (|| Some((d.u64()?, d.u8()?)))();
            match a.and_then(|a| d.end(a)) {
                None => Err(vec![Why::Malformed]),
                Some((amount, index)) => top_up(st, metas, amount, index, notes),
            }
        }
        tag::DELEGATE_ESCROW => {
            let mut d = Dec(args);
            let a = (|| Some((DelegateArgs::dec_from(&mut d)?, d.u8()?)))();
            match a.and_then(|a| d.end(a)) {
                None => Err(vec![Why::Malformed]),
                Some((a, index)) => return delegate_escrow(st, cx, metas, a, index, notes).unwrap_or_else(Pred::Err),
            }
        }
        tag::CLOSE_ESCROW => match args.first() {
            None => Err(vec![Why::Malformed]),
            Some(i) => return close_escrow(st, metas, *i, notes),
        },
        _ => unreachable!(),
    };
    match r {
        Ok(()) => Pred::Ok,
        Err(w) => Pred::Err(w),
    }
}

/// Bytes after an instruction that takes no arguments or, closing an escrow, one byte: the program ignores them,
/// it may as well refuse them.
pub fn surplus_bytes(ix: &Instruction) -> bool {
    ix.program_id == DLP
        && match ix.data.first() {
            Some(&(tag::FINALIZE | tag::UNDELEGATE | tag::INIT_PROTOCOL_VAULT | tag::INIT_VALIDATOR_VAULT)) => ix.data.len() > 8,
            Some(&(tag::CLOSE_VALIDATOR_VAULT | tag::PROTOCOL_CLAIM)) => ix.data.len() > 8,
            Some(&tag::CLOSE_ESCROW) => ix.data.len() > 9,
            _ => false,
        }
}

type R = Result<(), Vec<Why>>;
fn one(w: Why) -> Vec<Why> {
    vec![w]
}

fn delegate(st: &mut St, cx: &Cx, m: &[Meta], a: &DelegateArgs, notes: &mut Vec<Note>) -> R {
    let [payer, acct, owner, buffer, record, metadata, sysp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    let acc = st.get(&acct.key);
    c.req(acc.owner == DLP, Why::NotDelegated);
    c.req(acc.lamports > 0, Why::ZeroBalance);
    system_program(&mut c, sysp);
    c.req(payer.signer, Why::NotSigner(Role::Payer));
    c.req(acct.signer, Why::NotSigner(Role::Account));
    let pda = !on_curve(&acct.key);
    if pda {
        let prog = if owner.key == sys() { DLP } else { owner.key };
        c.req(find_pda(&a.seeds, &prog).map(|x| x.0) == Some(acct.key), Why::BadSeeds);
    }
    c.req(buffer.key == delegate_buffer_pda(&acct.key, &owner.key), Why::Subst(Role::Buffer));
    c.req(buffer.writable, Why::Privilege);
    let (rk, mk) = (record_pda(&acct.key), metadata_pda(&acct.key));
    uninit_pda(&mut c, st, record, &rk, true, Role::Record);
    uninit_pda(&mut c, st, metadata, &mk, true, Role::Metadata);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let prefunded = st.get(&rk).lamports > 0 || st.get(&mk).lamports > 0;
    let p = Priv { metas: m, pda_signers: vec![] };
    let rec = Record {
        authority: a.validator.unwrap_or_default(),
        owner: owner.key,
        slot: cx.slot,
        lamports: acc.lamports,
        freq: a.freq as u64,
    };
    let meta = Metadata { last_slot: 0, undelegatable: false, seeds: a.seeds.clone(), rent_payer: payer.key };
    create(st, &p, &payer.key, &rk, Record::SIZE, &DLP).map_err(one)?;
    // (the account itself may be the payer only when nothing has to be paid)
    let mb = meta.enc();
    create(st, &p, &payer.key, &mk, mb.len(), &DLP).map_err(one)?;
    st.edit(&rk, |x| x.data = rec.enc());
    st.edit(&mk, |x| x.data = mb);
    let b = st.get(&buffer.key);
    if !b.data.is_empty() {
        if b.data.len() != acc.data.len() {
            return Err(one(Why::Runtime));
        }
        st.edit(&acct.key, |x| x.data = b.data.clone());
    }
    notes.push(Note::Delegated { acct: acct.key, prefunded, data: !b.data.is_empty(), pda, seeds: a.seeds.len() });
    Ok(())
}

fn delegate_escrow(st: &mut St, cx: &Cx, m: &[Meta], mut a: DelegateArgs, index: u8, notes: &mut Vec<Note>) -> Result<Pred, Vec<Why>> {
    let [payer, wallet, escrow, buffer, record, metadata, sysp, dlp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(payer.signer, Why::NotSigner(Role::Payer));
    c.req(wallet.signer, Why::NotSigner(Role::Wallet));
    system_program(&mut c, sysp);
    c.req(dlp.key == DLP, Why::Subst(Role::DlpProgram));
    let ek = escrow_pda(&wallet.key, index);
    c.req(escrow.key == ek, Why::Subst(Role::Escrow));
    if !c.0.is_empty() {
        return Err(c.0);
    }
    for x in [payer, escrow, buffer, record, metadata] {
        c.req(x.writable, Why::Privilege);
    }
    let e = st.get(&ek);
    c.req(e.owner == sys() || e.owner == DLP, Why::Runtime);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    st.edit(&ek, |x| x.owner = DLP);
    a.seeds = escrow_seeds(&wallet.key, index);
    // the delegation addresses the inner step works on are the derived ones; it finds them by
    // key, so the right three accounts in another order are neither wrong nor promised to work
    let expect = [delegate_buffer_pda(&ek, &sys()), record_pda(&ek), metadata_pda(&ek)];
    let given = [buffer.key, record.key, metadata.key];
    let permuted = given != expect && expect.iter().all(|k| given.contains(k));
    let mut c = Chk(vec![]);
    if !permuted {
        c.req(given[0] == expect[0], Why::Subst(Role::Buffer));
        c.req(given[1] == expect[1], Why::Subst(Role::Record));
        c.req(given[2] == expect[2], Why::Subst(Role::Metadata));
    }
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let m2 = [
        *payer,
        Meta { key: ek, signer: true, writable: true },
        Meta { key: sys(), signer: false, writable: false },
        Meta { key: expect[0], signer: false, writable: true },
        Meta { key: expect[1], signer: false, writable: true },
        Meta { key: expect[2], signer: false, writable: true },
        *sysp,
    ];
    delegate(st, cx, &m2, &a, notes)?;
    notes.push(Note::EscrowDelegated { escrow: ek });
    Ok(if permuted { Pred::Any } else { Pred::Ok })
}

fn commit(st: &mut St, cx: &Cx, m: &[Meta], a: CommitArgs, notes: &mut Vec<Note>) -> Pred {
    let [v, acct, cs, cr, record, metadata, vault, config, sysp] = m else { unreachable!() };
    let _ = cx;
    let mut c = Chk(vec![]);
    c.req(st.get(&acct.key).owner == DLP, Why::NotDelegated);
    c.req(v.signer, Why::NotSigner(Role::Validator));
    let rk = record_pda(&acct.key);
    let mk = metadata_pda(&acct.key);
    let r_ok = init_pda(&mut c, st, record, &rk, false, Role::Record);
    let m_ok = init_pda(&mut c, st, metadata, &mk, true, Role::Metadata);
    init_pda(&mut c, st, vault, &validator_vault_pda(&v.key), false, Role::ValidatorVault);
    system_program(&mut c, sysp);
    let meta = if m_ok { Metadata::dec(&st.get(&mk).data) } else { None };
    if m_ok && meta.is_none() {
        c.req(false, Why::Runtime);
    }
    let hard = c.0.len();

    let rec = if r_ok { Record::dec(&st.get(&rk).data) } else { None };
    if r_ok && rec.is_none() {
        c.req(false, Why::Runtime);
    }
    let (csk, crk) = (commit_state_pda(&acct.key), commit_record_pda(&acct.key));
    uninit_pda(&mut c, st, cs, &csk, true, Role::CommitState);
    uninit_pda(&mut c, st, cr, &crk, true, Role::CommitRecord);
    let mut whitelisted = false;
    if let Some(rec) = &rec {
        c.req(st.get(&acct.key).lamports >= rec.lamports, Why::BadLamports);
        if c.req(config.key == config_pda(&rec.owner), Why::Subst(Role::Config)) {
            let cfg = st.get(&config.key);
            if cfg.owner != sys() {
                match dec_config(&cfg.data) {
                    None => {
                        c.req(false, Why::Runtime);
                    }
                    Some(s) => {
                        whitelisted = true;
                        c.req(s.contains(&v.key), Why::NotWhitelisted);
                    }
                }
            }
        }
    }
    if let Some(mt) = &meta {
        if hard == 0 && a.slot < mt.last_slot {
            notes.push(Note::StaleSkip { acct: acct.key });
            // an outdated commit is a successful no-op; when it is defective in another way
            // as well, refusing it is equally fine
            let other: Vec<Why> = c.0.iter().filter(|w| matches!(w, Why::Subst(_) | Why::Privilege | Why::Runtime)).cloned().collect();
            return if other.is_empty() { Pred::Ok } else { Pred::NoopOrErr(other) };
        }
        c.req(!mt.undelegatable, Why::Undelegatable);
    }
    if !c.0.is_empty() {
        return Pred::Err(c.0);
    }
    if a.data.len() > MAX_DATA {
        return Pred::Any;
    }
    let (mut meta, rec) = (meta.unwrap(), rec.unwrap());
    let equal_slot = a.slot == meta.last_slot;
    meta.undelegatable = a.allow;
    st.edit(&mk, |x| x.data = meta.enc());
    let extra = a.lamports.saturating_sub(rec.lamports);
    let prefunded = st.get(&csk).lamports > 0 || st.get(&crk).lamports > 0;
    let p = Priv { metas: m, pda_signers: vec![] };
    let r = (|| {
        if extra > 0 {
            sys_transfer(st, &p, &v.key, &csk, extra)?;
        }
        create(st, &p, &v.key, &csk, a.data.len(), &DLP)?;
        create(st, &p, &v.key, &crk, CommitRec::SIZE, &DLP)
    })();
    if let Err(w) = r {
        return Pred::Err(vec![w]);
    }
    let crec = CommitRec { identity: v.key, account: acct.key, slot: a.slot, lamports: a.lamports };
    st.edit(&crk, |x| x.data = crec.enc());
    st.edit(&csk, |x| x.data = a.data.clone());
    notes.push(Note::Committed { acct: acct.key, v: v.key, slot: a.slot, allow: a.allow, extra, prefunded, whitelisted, equal_slot });
    Pred::Ok
}

fn finalize(st: &mut St, m: &[Meta], notes: &mut Vec<Note>) -> R {
    let [v, acct, cs, cr, record, metadata, vault, sysp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(v.signer, Why::NotSigner(Role::Validator));
    c.req(st.get(&acct.key).owner == DLP, Why::NotDelegated);
    let (rk, mk) = (record_pda(&acct.key), metadata_pda(&acct.key));
    init_pda(&mut c, st, record, &rk, true, Role::Record);
    init_pda(&mut c, st, metadata, &mk, true, Role::Metadata);
    let vk = validator_vault_pda(&v.key);
    init_pda(&mut c, st, vault, &vk, true, Role::ValidatorVault);
    system_program(&mut c, sysp);
    let (csk, crk) = (commit_state_pda(&acct.key), commit_record_pda(&acct.key));
    c.req(cs.key == csk, Why::Subst(Role::CommitState));
    c.req(cr.key == crk, Why::Subst(Role::CommitRecord));
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let (csa, cra) = (st.get(&csk), st.get(&crk));
    if uninit(&csa) && uninit(&cra) {
        notes.push(Note::NothingSkip { acct: acct.key });
        return Ok(());
    }
    c.req(csa.owner == DLP, Why::Missing(Role::CommitState));
    c.req(cra.owner == DLP, Why::Missing(Role::CommitRecord));
    c.req(cs.writable && cr.writable, Why::Privilege);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let meta = Metadata::dec(&st.get(&mk).data);
    let rec = Record::dec(&st.get(&rk).data);
    let crec = CommitRec::dec(&cra.data);
    let (Some(mut meta), Some(mut rec), Some(crec)) = (meta, rec, crec) else {
        return Err(one(Why::Runtime));
    };
    c.req(crec.account == acct.key, Why::WrongAccount);
    c.req(crec.identity == v.key, Why::WrongIdentity);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let old = st.get(&acct.key);
    let donated = old.lamports != rec.lamports;
    let dir = match crec.lamports.cmp(&rec.lamports) {
        std::cmp::Ordering::Less => {
            let d = rec.lamports - crec.lamports;
            st.debit(&acct.key, d).map_err(one)?;
            st.credit(&vk, d).map_err(one)?;
            -1
        }
        std::cmp::Ordering::Greater => {
            let d = crec.lamports - rec.lamports;
            st.debit(&csk, d).map_err(one)?;
            st.credit(&acct.key, d).map_err(one)?;
            1
        }
        std::cmp::Ordering::Equal => 0,
    };
    meta.last_slot = crec.slot;
    rec.lamports = st.get(&acct.key).lamports;
    st.edit(&mk, |x| x.data = meta.enc());
    st.edit(&rk, |x| x.data = rec.enc());
    st.edit(&acct.key, |x| x.data = csa.data.clone());
    st.close(&csk, &v.key).map_err(one)?;
    st.close(&crk, &v.key).map_err(one)?;
    notes.push(Note::Finalized { acct: acct.key, v: v.key, old_len: old.data.len(), new_len: csa.data.len(), dir, donated, slot: crec.slot });
    Ok(())
}

fn split_fees(st: &mut St, k: &Pubkey, refund: &Pubkey, vvault: &Pubkey, pvault: &Pubkey) -> Result<(), Why> {
    let l = st.get(k).lamports;
    let fee = l / 10;
    let protocol = fee / 10;
    st.set(k, Acct::default());
    st.credit(vvault, fee - protocol)?;
    st.credit(pvault, protocol)?;
    st.credit(refund, l - fee)
}

fn undelegate(st: &mut St, cx: &Cx, m: &[Meta], notes: &mut Vec<Note>) -> Pred {
    let [v, acct, owner, ubuf, cs, cr, record, metadata, refund, pvault, vvault, sysp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(v.signer, Why::NotSigner(Role::Validator));
    let acc = st.get(&acct.key);
    c.req(acc.owner == DLP, Why::NotDelegated);
    let (rk, mk) = (record_pda(&acct.key), metadata_pda(&acct.key));
    let r_ok = init_pda(&mut c, st, record, &rk, true, Role::Record);
    let m_ok = init_pda(&mut c, st, metadata, &mk, true, Role::Metadata);
    let pk = fees_vault_pda();
    let vk = validator_vault_pda(&v.key);
    init_pda(&mut c, st, pvault, &pk, true, Role::ProtocolVault);
    init_pda(&mut c, st, vvault, &vk, true, Role::ValidatorVault);
    system_program(&mut c, sysp);
    uninit_pda(&mut c, st, cs, &commit_state_pda(&acct.key), false, Role::CommitState);
    uninit_pda(&mut c, st, cr, &commit_record_pda(&acct.key), false, Role::CommitRecord);
    let rec = if r_ok { Record::dec(&st.get(&rk).data) } else { None };
    let meta = if m_ok { Metadata::dec(&st.get(&mk).data) } else { None };
    if (r_ok && rec.is_none()) || (m_ok && meta.is_none()) {
        c.req(false, Why::Runtime);
    }
    if let Some(r) = &rec {
        c.req(r.owner == owner.key, Why::WrongOwner);
    }
    if let Some(mt) = &meta {
        c.req(mt.undelegatable, Why::NotUndelegatable);
        c.req(mt.rent_payer == refund.key, Why::WrongRentPayer);
    }
    if !acc.data.is_empty() {
        uninit_pda(&mut c, st, ubuf, &undelegate_buffer_pda(&acct.key), true, Role::UndelegateBuffer);
    }
    if !c.0.is_empty() {
        return Pred::Err(c.0);
    }
    if v.key == acct.key {
        return Pred::Any; // a delegated account acting as its own validator
    }
    let (rec, meta) = (rec.unwrap(), meta.unwrap());
    let r: Result<(), Why> = (|| {
        if acc.data.is_empty() {
            st.edit(&acct.key, |x| x.owner = owner.key);
        } else {
            let p = Priv { metas: m, pda_signers: vec![] };
            let ub = undelegate_buffer_pda(&acct.key);
            create(st, &p, &v.key, &ub, acc.data.len(), &DLP)?;
            st.edit(&ub, |x| x.data = acc.data.clone());
            st.close(&acct.key, &v.key)?;
            // the owner program is called with validator, account and buffer writable
            if !p.writable(&v.key) || !p.writable(&acct.key) {
                return Err(Why::Privilege);
            }
            if !cx.programs.contains(&owner.key) {
                return Err(Why::OwnerCallback);
            }
            // honest owner program: re-creates the account from its seeds and restores the data
            if find_pda(&meta.seeds, &owner.key).map(|x| x.0) != Some(acct.key) {
                return Err(Why::OwnerCallback);
            }
            create(st, &p, &v.key, &acct.key, acc.data.len(), &owner.key)?;
            st.edit(&acct.key, |x| x.data = acc.data.clone());
            let min = wire::rent(acc.data.len());
            let extra = acc.lamports.checked_sub(min).ok_or(Why::Runtime)?;
            sys_transfer(st, &p, &v.key, &acct.key, extra)?;
            st.close(&ub, &v.key)?;
        }
        split_fees(st, &rk, &refund.key, &vk, &pk)?;
        split_fees(st, &mk, &refund.key, &vk, &pk)
    })();
    if let Err(w) = r {
        // a hostile plan could only make a difference once the callback is reached
        if cx.hostile {
            return Pred::Any;
        }
        return Pred::Err(vec![w]);
    }
    notes.push(Note::Undelegated {
        acct: acct.key,
        v: v.key,
        seeds: meta.seeds.clone(),
        data: acc.data.len(),
        owner: owner.key,
        donated: acc.lamports != rec.lamports,
        refund_to_validator: refund.key == v.key,
    });
    if cx.hostile && !acc.data.is_empty() {
        return Pred::Any;
    }
    Pred::Ok
}

fn init_protocol(st: &mut St, m: &[Meta], notes: &mut Vec<Note>) -> R {
    let [payer, vault, sysp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(payer.signer, Why::NotSigner(Role::Payer));
    system_program(&mut c, sysp);
    let k = fees_vault_pda();
    uninit_pda(&mut c, st, vault, &k, true, Role::ProtocolVault);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let prefunded = st.get(&k).lamports > 0;
    create(st, &Priv { metas: m, pda_signers: vec![] }, &payer.key, &k, 8, &DLP).map_err(one)?;
    notes.push(Note::ProtocolVault { prefunded });
    Ok(())
}

fn init_validator(st: &mut St, cx: &Cx, m: &[Meta], notes: &mut Vec<Note>) -> R {
    let [payer, admin, pd, v, vault, sysp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(payer.signer, Why::NotSigner(Role::Payer));
    c.req(admin.signer, Why::NotSigner(Role::Admin));
    system_program(&mut c, sysp);
    check_admin(&mut c, st, cx, admin, pd);
    let k = validator_vault_pda(&v.key);
    uninit_pda(&mut c, st, vault, &k, true, Role::ValidatorVault);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let prefunded = st.get(&k).lamports > 0;
    create(st, &Priv { metas: m, pda_signers: vec![] }, &payer.key, &k, 8, &DLP).map_err(one)?;
    notes.push(Note::VaultOpened { v: v.key, prefunded });
    Ok(())
}

fn close_validator(st: &mut St, cx: &Cx, m: &[Meta], notes: &mut Vec<Note>) -> R {
    let [payer, admin, pd, v, vault] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(payer.signer, Why::NotSigner(Role::Payer));
    c.req(admin.signer, Why::NotSigner(Role::Admin));
    check_admin(&mut c, st, cx, admin, pd);
    let k = validator_vault_pda(&v.key);
    init_pda(&mut c, st, vault, &k, true, Role::ValidatorVault);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    st.close(&k, &v.key).map_err(one)?;
    notes.push(Note::VaultClosed { v: v.key });
    Ok(())
}

fn validator_claim(st: &mut St, m: &[Meta], amount: Option<u64>, notes: &mut Vec<Note>) -> R {
    let [v, pvault, vvault] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(v.signer, Why::NotSigner(Role::Validator));
    let (pk, vk) = (fees_vault_pda(), validator_vault_pda(&v.key));
    init_pda(&mut c, st, pvault, &pk, true, Role::ProtocolVault);
    init_pda(&mut c, st, vvault, &vk, true, Role::ValidatorVault);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let avail = st.get(&vk).lamports.saturating_sub(wire::rent(8));
    let a = amount.unwrap_or(avail);
    if a > avail {
        return Err(one(Why::ClaimTooMuch));
    }
    let fee = a / 10;
    st.debit(&vk, a).map_err(one)?;
    st.credit(&pk, fee).map_err(one)?;
    st.credit(&v.key, a - fee).map_err(one)?;
    notes.push(Note::Claimed { v: v.key, amount: a, explicit: amount.is_some() });
    Ok(())
}

fn protocol_claim(st: &mut St, cx: &Cx, m: &[Meta], notes: &mut Vec<Note>) -> R {
    let [admin, pvault, pd] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(admin.signer, Why::NotSigner(Role::Admin));
    let k = fees_vault_pda();
    init_pda(&mut c, st, pvault, &k, true, Role::ProtocolVault);
    check_admin(&mut c, st, cx, admin, pd);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let a = st.get(&k).lamports.checked_sub(wire::rent(8)).ok_or(Why::Funds).map_err(one)?;
    st.debit(&k, a).map_err(one)?;
    st.credit(&admin.key, a).map_err(one)?;
    notes.push(Note::ProtocolClaimed { amount: a });
    Ok(())
}

fn whitelist(st: &mut St, cx: &Cx, m: &[Meta], insert: bool, notes: &mut Vec<Note>) -> Pred {
    let [auth, v, program, pd, dpd, config, sysp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(auth.signer, Why::NotSigner(Role::Authority));
    let adm = upgrade_authority(st, cx, &DLP, dpd);
    let own = upgrade_authority(st, cx, &program.key, pd);
    let is_admin = adm == Ok(Some(auth.key));
    let is_owner = own == Ok(Some(auth.key));
    let mut unsure = false;
    if !is_admin {
        if is_owner {
            // authorised as the program's own authority; whether the delegation program's own
            // authority data must be usable too is not specified
            if !matches!(adm, Ok(Some(_))) {
                unsure = true;
            }
        } else {
            match own {
                Err(w @ Why::Subst(_)) => c.req(false, w),
                _ => c.req(false, Why::Unauthorized),
            };
        }
    }
    if let Err(w @ Why::Subst(_)) = adm {
        c.req(false, w);
    }
    system_program(&mut c, sysp);
    let k = config_pda(&program.key);
    c.req(config.key == k, Why::Subst(Role::Config));
    c.req(config.writable, Why::Privilege);
    if !c.0.is_empty() {
        return Pred::Err(c.0);
    }
    if unsure {
        return Pred::Any;
    }
    let p = Priv { metas: m, pda_signers: vec![] };
    let cur = st.get(&k);
    let created = cur.owner == sys();
    let mut set = if created {
        if let Err(w) = create(st, &p, &auth.key, &k, 0, &DLP) {
            return Pred::Err(vec![w]);
        }
        BTreeSet::new()
    } else {
        match dec_config(&cur.data) {
            None => return Pred::Err(vec![Why::Runtime]),
            Some(s) => s,
        }
    };
    let changed = if insert { set.insert(v.key) } else { set.remove(&v.key) };
    let bytes = enc_config(&set);
    let need = wire::rent(bytes.len()).saturating_sub(st.get(&k).lamports);
    if let Err(w) = sys_transfer(st, &p, &auth.key, &k, need) {
        return if need == 0 { Pred::Any } else { Pred::Err(vec![w]) };
    }
    let n = set.len();
    st.edit(&k, |x| x.data = bytes);
    notes.push(Note::Whitelisted { program: program.key, v: v.key, insert, changed, created, n });
    Pred::Ok
}

fn top_up(st: &mut St, m: &[Meta], amount: u64, index: u8, notes: &mut Vec<Note>) -> R {
    let [payer, wallet, escrow, sysp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(payer.signer, Why::NotSigner(Role::Payer));
    system_program(&mut c, sysp);
    let k = escrow_pda(&wallet.key, index);
    c.req(escrow.key == k, Why::Subst(Role::Escrow));
    c.req(escrow.writable, Why::Privilege);
    if !c.0.is_empty() {
        return Err(c.0);
    }
    let p = Priv { metas: m, pda_signers: vec![] };
    let e = st.get(&k);
    let created = e.lamports == 0;
    if e.owner == sys() {
        create(st, &p, &payer.key, &k, 0, &sys()).map_err(one)?;
    }
    if amount > 0 {
        sys_transfer(st, &p, &payer.key, &k, amount).map_err(one)?;
    }
    notes.push(Note::ToppedUp { escrow: k, amount, created, delegated: e.owner == DLP, other: payer.key != wallet.key });
    Ok(())
}

fn close_escrow(st: &mut St, m: &[Meta], index: u8, notes: &mut Vec<Note>) -> Pred {
    let [wallet, escrow, sysp] = m else { unreachable!() };
    let mut c = Chk(vec![]);
    c.req(wallet.signer, Why::NotSigner(Role::Wallet));
    let k = escrow_pda(&wallet.key, index);
    c.req(escrow.key == k, Why::Subst(Role::Escrow));
    c.req(escrow.writable, Why::Privilege);
    if escrow.key == k {
        c.req(st.get(&k).owner == sys(), Why::EscrowNotClosable);
    }
    if !c.0.is_empty() {
        return Pred::Err(c.0);
    }
    let a = st.get(&k).lamports;
    if sysp.key != sys() {
        return if a == 0 { Pred::NoopOrErr(vec![Why::Subst(Role::SystemProgram)]) } else { Pred::Any };
    }
    if a > 0 {
        let p = Priv { metas: m, pda_signers: vec![k] };
        if let Err(w) = sys_transfer(st, &p, &k, &wallet.key, a) {
            return Pred::Err(vec![w]);
        }
    }
    notes.push(Note::EscrowClosed { escrow: k, amount: a });
    Pred::Ok
}

// ------------------------------------------------------------------ transactions

#[derive(Clone, Debug)]
pub enum TxPred {
    /// expected post-state of the changed accounts, notes per instruction
    Ok { post: BTreeMap<Pubkey, Acct>, notes: Vec<Vec<Note>> },
    Err { at: usize, why: Vec<Why> },
    /// every instruction succeeds but an account would be left below rent exemption
    RentErr { key: Pubkey, notes: Vec<Vec<Note>> },
    NoopOrErr { why: Vec<Why> },
    Any,
}

pub fn predict_tx(base: &Accts, cx: &Cx, tx: &Tx) -> TxPred {
    let metas = crate::svm::effective_metas(tx);
    let mut st = St::new(base);
    let mut all = vec![];
    for (i, (ix, ms)) in tx.ixs.iter().zip(&metas).enumerate() {
        let mut notes = vec![];
        match predict_ix(&mut st, cx, &ix.program_id, ms, &ix.data, &mut notes) {
            Pred::Ok => all.push(notes),
            Pred::Err(why) => return TxPred::Err { at: i, why },
            Pred::NoopOrErr(why) => {
                return if tx.ixs.len() == 1 { TxPred::NoopOrErr { why } } else { TxPred::Any };
            }
            Pred::Any => return TxPred::Any,
        }
    }
    let mut post = BTreeMap::new();
    let mut rent_bad = None;
    for (k, a) in &st.over {
        let old = base.get(k).cloned().unwrap_or_default();
        if !rent_transition_ok(rent_state(&old), rent_state(a)) {
            rent_bad = Some(*k);
        }
        let a = if a.lamports == 0 { Acct::default() } else { a.clone() };
        if a != old {
            post.insert(*k, a);
        }
    }
    if let Some(key) = rent_bad {
        return TxPred::RentErr { key, notes: all };
    }
    TxPred::Ok { post, notes: all }
}
