//! Independent reference for addresses, byte layouts and instructions, written from the
//! published documentation and not using the code under test.

use crate::svm::{sys, upgradeable_loader};
use curve25519_dalek::edwards::CompressedEdwardsY;
use sha2::{Digest, Sha256};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

pub const DLP: Pubkey = solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
pub const TEST_AUTHORITY: Pubkey =
    solana_program::pubkey!("tEsT3eV6RFCWs1BZ7AXTzasHqTtMnMLCB2tjQ42TDXD");
pub const UNDELEGATE_DISC: [u8; 8] = [196, 28, 41, 206, 48, 37, 51, 167];

pub fn rent(n: usize) -> u64 {
    (n as u64 + 128) * 6960
}

pub fn on_curve(k: &Pubkey) -> bool {
    CompressedEdwardsY(k.to_bytes()).decompress().is_some()
}

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

thread_local! {
    static PDA_CACHE: RefCell<HashMap<(Vec<Vec<u8>>, Pubkey), Option<(Pubkey, u8)>>> = RefCell::new(HashMap::new());
}

/// Program-derived address: highest bump that is off the curve. None if the seeds are invalid.
pub fn find_pda(seeds: &[Vec<u8>], program: &Pubkey) -> Option<(Pubkey, u8)> {
    if seeds.len() > 15 || seeds.iter().any(|s| s.len() > 32) {
        return None;
    }
    let key = (seeds.to_vec(), *program);
    if let Some(r) = PDA_CACHE.with(|c| c.borrow().get(&key).cloned()) {
        return r;
    }
    let mut r = None;
    for bump in (0..=255u8).rev() {
        let mut h = Sha256::new();
        for s in seeds {
            h.update(s);
        }
        h.update([bump]);
        h.update(program.as_ref());
        h.update(b"ProgramDerivedAddress");
        let k = Pubkey::new_from_array(h.finalize().into());
        if bump > 0 && !on_curve(&k) {
            r = Some((k, bump));
            break;
        }
    }
    PDA_CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        c.insert(key, r);
    });
    r
}

fn p(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    find_pda(&seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), program).unwrap().0
}

pub fn record_pda(a: &Pubkey) -> Pubkey {
    p(&[b"delegation", a.as_ref()], &DLP)
}
pub fn metadata_pda(a: &Pubkey) -> Pubkey {
    p(&[b"delegation-metadata", a.as_ref()], &DLP)
}
pub fn commit_state_pda(a: &Pubkey) -> Pubkey {
    p(&[b"state-diff", a.as_ref()], &DLP)
}
pub fn commit_record_pda(a: &Pubkey) -> Pubkey {
    p(&[b"commit-state-record", a.as_ref()], &DLP)
}
pub fn undelegate_buffer_pda(a: &Pubkey) -> Pubkey {
    p(&[b"undelegate-buffer", a.as_ref()], &DLP)
}
pub fn delegate_buffer_pda(a: &Pubkey, owner: &Pubkey) -> Pubkey {
    p(&[b"buffer", a.as_ref()], owner)
}
pub fn fees_vault_pda() -> Pubkey {
    p(&[b"fees-vault"], &DLP)
}
pub fn validator_vault_pda(v: &Pubkey) -> Pubkey {
    p(&[b"v-fees-vault", v.as_ref()], &DLP)
}
pub fn config_pda(program: &Pubkey) -> Pubkey {
    p(&[b"p-conf", program.as_ref()], &DLP)
}
pub fn escrow_seeds(payer: &Pubkey, index: u8) -> Vec<Vec<u8>> {
    vec![b"balance".to_vec(), payer.to_bytes().to_vec(), vec![index]]
}
pub fn escrow_pda(payer: &Pubkey, index: u8) -> Pubkey {
    find_pda(&escrow_seeds(payer, index), &DLP).unwrap().0
}
pub fn programdata_pda(program: &Pubkey) -> Pubkey {
    p(&[program.as_ref()], &upgradeable_loader())
}

// ---------------------------------------------------------------- encodings

#[derive(Clone, Debug, Default)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn bool(self, v: bool) -> Self {
        self.u8(v as u8)
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn key(mut self, v: &Pubkey) -> Self {
        self.0.extend(v.to_bytes());
        self
    }
    pub fn raw(mut self, v: &[u8]) -> Self {
        self.0.extend(v);
        self
    }
    pub fn bytes(self, v: &[u8]) -> Self {
        self.u32(v.len() as u32).raw(v)
    }
    pub fn seeds(mut self, v: &[Vec<u8>]) -> Self {
        self = self.u32(v.len() as u32);
        for s in v {
            self = self.bytes(s);
        }
        self
    }
    pub fn opt_key(self, v: &Option<Pubkey>) -> Self {
        match v {
            None => self.u8(0),
            Some(k) => self.u8(1).key(k),
        }
    }
}

pub struct Dec<'a>(pub &'a [u8]);
impl<'a> Dec<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn bool(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.take(32)?.try_into().unwrap()))
    }
    pub fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()? as usize;
        Some(self.take(n)?.to_vec())
    }
    pub fn seeds(&mut self) -> Option<Vec<Vec<u8>>> {
        let n = self.u32()? as usize;
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.bytes()?);
        }
        Some(v)
    }
    pub fn opt_key(&mut self) -> Option<Option<Pubkey>> {
        match self.u8()? {
            0 => Some(None),
            1 => Some(Some(self.key()?)),
            _ => None,
        }
    }
    pub fn end<T>(self, v: T) -> Option<T> {
        if self.0.is_empty() {
            Some(v)
        } else {
            None
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Record {
    pub authority: Pubkey,
    pub owner: Pubkey,
    pub slot: u64,
    pub lamports: u64,
    pub freq: u64,
}
impl Record {
    pub const SIZE: usize = 8 + 32 + 32 + 24;
    pub fn enc(&self) -> Vec<u8> {
        Enc::default()
            .u64(100)
            .key(&self.authority)
            .key(&self.owner)
            .u64(self.slot)
            .u64(self.lamports)
            .u64(self.freq)
            .0
    }
    pub fn dec(b: &[u8]) -> Option<Self> {
        let mut d = Dec(b);
        if d.u64()? != 100 {
            return None;
        }
        let r = Record { authority: d.key()?, owner: d.key()?, slot: d.u64()?, lamports: d.u64()?, freq: d.u64()? };
        d.end(r)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Metadata {
    pub last_slot: u64,
    pub undelegatable: bool,
    pub seeds: Vec<Vec<u8>>,
    pub rent_payer: Pubkey,
}
impl Metadata {
    pub fn enc(&self) -> Vec<u8> {
        Enc::default()
            .u64(102)
            .u64(self.last_slot)
            .bool(self.undelegatable)
            .seeds(&self.seeds)
            .key(&self.rent_payer)
            .0
    }
    pub fn dec(b: &[u8]) -> Option<Self> {
        let mut d = Dec(b);
        if d.u64()? != 102 {
            return None;
        }
        let r = Metadata { last_slot: d.u64()?, undelegatable: d.bool()?, seeds: d.seeds()?, rent_payer: d.key()? };
        d.end(r)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CommitRec {
    pub identity: Pubkey,
    pub account: Pubkey,
    pub slot: u64,
    pub lamports: u64,
}
impl CommitRec {
    pub const SIZE: usize = 8 + 32 + 32 + 16;
    pub fn enc(&self) -> Vec<u8> {
        Enc::default().u64(101).key(&self.identity).key(&self.account).u64(self.slot).u64(self.lamports).0
    }
    pub fn dec(b: &[u8]) -> Option<Self> {
        let mut d = Dec(b);
        if d.u64()? != 101 {
            return None;
        }
        let r = CommitRec { identity: d.key()?, account: d.key()?, slot: d.u64()?, lamports: d.u64()? };
        d.end(r)
    }
}

pub fn enc_config(v: &BTreeSet<Pubkey>) -> Vec<u8> {
    let mut e = Enc::default().u64(103).u32(v.len() as u32);
    for k in v {
        e = e.key(k);
    }
    e.0
}
/// Decodes a whitelist; `Err(())` when the bytes are not one.
pub fn dec_config(b: &[u8]) -> Option<BTreeSet<Pubkey>> {
    let mut d = Dec(b);
    if d.u64()? != 103 {
        return None;
    }
    let n = d.u32()?;
    let mut v = BTreeSet::new();
    let mut last: Option<Pubkey> = None;
    for _ in 0..n {
        let k = d.key()?;
        if let Some(l) = last {
            if l >= k {
                return None;
            }
        }
        last = Some(k);
        v.insert(k);
    }
    d.end(v)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ProgramData {
    /// ProgramData variant with its upgrade authority
    Authority(Option<Pubkey>),
    /// anything else (wrong variant, short, garbage)
    Invalid,
}
/// Loader-v3 account state (bincode): u32 variant; ProgramData = 3 {slot u64, Option<Pubkey>}
pub fn enc_programdata(slot: u64, auth: &Option<Pubkey>, tail: &[u8]) -> Vec<u8> {
    let mut v = Enc::default().u32(3).u64(slot).opt_key(auth).0;
    if v.len() < 45 {
        v.resize(45, 0);
    }
    v.extend(tail);
    v
}
pub fn dec_programdata(b: &[u8]) -> ProgramData {
    let mut d = Dec(b);
    let f = |d: &mut Dec| -> Option<Option<Pubkey>> {
        if d.u32()? != 3 {
            return None;
        }
        d.u64()?;
        d.opt_key()
    };
    match f(&mut d) {
        Some(a) => ProgramData::Authority(a),
        None => ProgramData::Invalid,
    }
}

// ---------------------------------------------------------------- arguments

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DelegateArgs {
    pub freq: u32,
    pub seeds: Vec<Vec<u8>>,
    pub validator: Option<Pubkey>,
}
impl DelegateArgs {
    pub fn enc(&self) -> Vec<u8> {
        Enc::default().u32(self.freq).seeds(&self.seeds).opt_key(&self.validator).0
    }
    pub fn dec_from(d: &mut Dec) -> Option<Self> {
        Some(DelegateArgs { freq: d.u32()?, seeds: d.seeds()?, validator: d.opt_key()? })
    }
    pub fn dec(b: &[u8]) -> Option<Self> {
        let mut d = Dec(b);
        let r = Self::dec_from(&mut d)?;
        d.end(r)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CommitArgs {
    pub slot: u64,
    pub lamports: u64,
    pub allow: bool,
    pub data: Vec<u8>,
}
impl CommitArgs {
    pub fn enc(&self) -> Vec<u8> {
        Enc::default().u64(self.slot).u64(self.lamports).bool(self.allow).bytes(&self.data).0
    }
    pub fn enc_no_data(&self) -> Vec<u8> {
        Enc::default().u64(self.slot).u64(self.lamports).bool(self.allow).0
    }
    pub fn dec(b: &[u8]) -> Option<Self> {
        let mut d = Dec(b);
        let r = CommitArgs { slot: d.u64()?, lamports: d.u64()?, allow: d.bool()?, data: d.bytes()? };
        d.end(r)
    }
    pub fn dec_no_data(b: &[u8]) -> Option<Self> {
        let mut d = Dec(b);
        let r = CommitArgs { slot: d.u64()?, lamports: d.u64()?, allow: d.bool()?, data: vec![] };
        d.end(r)
    }
}

// ---------------------------------------------------------------- instructions

pub mod tag {
    pub const DELEGATE: u8 = 0;
    pub const COMMIT: u8 = 1;
    pub const FINALIZE: u8 = 2;
    pub const UNDELEGATE: u8 = 3;
    pub const INIT_PROTOCOL_VAULT: u8 = 5;
    pub const INIT_VALIDATOR_VAULT: u8 = 6;
    pub const VALIDATOR_CLAIM: u8 = 7;
    pub const WHITELIST: u8 = 8;
    pub const TOP_UP: u8 = 9;
    pub const DELEGATE_ESCROW: u8 = 10;
    pub const CLOSE_ESCROW: u8 = 11;
    pub const PROTOCOL_CLAIM: u8 = 12;
    pub const COMMIT_FROM_BUFFER: u8 = 13;
    pub const CLOSE_VALIDATOR_VAULT: u8 = 14;
    pub const ALL: [u8; 14] = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
    pub fn name(t: u8) -> &'static str {
        match t {
            0 => "Delegate",
            1 => "Commit",
            2 => "Finalize",
            3 => "Undelegate",
            5 => "InitProtocolVault",
            6 => "InitValidatorVault",
            7 => "ValidatorClaim",
            8 => "Whitelist",
            9 => "TopUpEscrow",
            10 => "DelegateEscrow",
            11 => "CloseEscrow",
            12 => "ProtocolClaim",
            13 => "CommitFromBuffer",
            14 => "CloseValidatorVault",
            _ => "Unknown",
        }
    }
}

fn sw(k: &Pubkey) -> AccountMeta {
    AccountMeta::new(*k, true)
}
fn s(k: &Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(*k, true)
}
fn w(k: &Pubkey) -> AccountMeta {
    AccountMeta::new(*k, false)
}
fn r(k: &Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(*k, false)
}
fn mk(t: u8, accounts: Vec<AccountMeta>, args: &[u8]) -> Instruction {
    let mut data = (t as u64).to_le_bytes().to_vec();
    data.extend(args);
    Instruction { program_id: DLP, accounts, data }
}

pub fn ix_delegate(payer: &Pubkey, acct: &Pubkey, owner: &Pubkey, a: &DelegateArgs) -> Instruction {
    mk(
        tag::DELEGATE,
        vec![
            sw(payer),
            sw(acct),
            r(owner),
            w(&delegate_buffer_pda(acct, owner)),
            w(&record_pda(acct)),
            w(&metadata_pda(acct)),
            r(&sys()),
        ],
        &a.enc(),
    )
}
pub fn ix_commit(v: &Pubkey, acct: &Pubkey, owner: &Pubkey, a: &CommitArgs) -> Instruction {
    mk(
        tag::COMMIT,
        vec![
            sw(v),
            r(acct),
            w(&commit_state_pda(acct)),
            w(&commit_record_pda(acct)),
            r(&record_pda(acct)),
            w(&metadata_pda(acct)),
            r(&validator_vault_pda(v)),
            r(&config_pda(owner)),
            r(&sys()),
        ],
        &a.enc(),
    )
}
pub fn ix_commit_buffer(v: &Pubkey, acct: &Pubkey, owner: &Pubkey, buffer: &Pubkey, a: &CommitArgs) -> Instruction {
    mk(
        tag::COMMIT_FROM_BUFFER,
        vec![
            sw(v),
            r(acct),
            w(&commit_state_pda(acct)),
            w(&commit_record_pda(acct)),
            r(&record_pda(acct)),
            w(&metadata_pda(acct)),
            r(buffer),
            r(&validator_vault_pda(v)),
            r(&config_pda(owner)),
            r(&sys()),
        ],
        &a.enc_no_data(),
    )
}
pub fn ix_finalize(v: &Pubkey, acct: &Pubkey) -> Instruction {
    mk(
        tag::FINALIZE,
        vec![
            sw(v),
            w(acct),
            w(&commit_state_pda(acct)),
            w(&commit_record_pda(acct)),
            w(&record_pda(acct)),
            w(&metadata_pda(acct)),
            w(&validator_vault_pda(v)),
            r(&sys()),
        ],
        &[],
    )
}
pub fn ix_undelegate(v: &Pubkey, acct: &Pubkey, owner: &Pubkey, rent_payer: &Pubkey) -> Instruction {
    mk(
        tag::UNDELEGATE,
        vec![
            sw(v),
            w(acct),
            r(owner),
            w(&undelegate_buffer_pda(acct)),
            r(&commit_state_pda(acct)),
            r(&commit_record_pda(acct)),
            w(&record_pda(acct)),
            w(&metadata_pda(acct)),
            w(rent_payer),
            w(&fees_vault_pda()),
            w(&validator_vault_pda(v)),
            r(&sys()),
        ],
        &[],
    )
}
pub fn ix_init_protocol_vault(payer: &Pubkey) -> Instruction {
    mk(tag::INIT_PROTOCOL_VAULT, vec![sw(payer), w(&fees_vault_pda()), r(&sys())], &[])
}
pub fn ix_init_validator_vault(payer: &Pubkey, admin: &Pubkey, v: &Pubkey) -> Instruction {
    mk(
        tag::INIT_VALIDATOR_VAULT,
        vec![sw(payer), s(admin), r(&programdata_pda(&DLP)), r(v), w(&validator_vault_pda(v)), r(&sys())],
        &[],
    )
}
pub fn ix_close_validator_vault(payer: &Pubkey, admin: &Pubkey, v: &Pubkey) -> Instruction {
    mk(
        tag::CLOSE_VALIDATOR_VAULT,
        vec![sw(payer), s(admin), r(&programdata_pda(&DLP)), w(v), w(&validator_vault_pda(v))],
        &[],
    )
}
pub fn ix_validator_claim(v: &Pubkey, amount: Option<u64>) -> Instruction {
    let a = match amount {
        None => Enc::default().u8(0).0,
        Some(x) => Enc::default().u8(1).u64(x).0,
    };
    mk(tag::VALIDATOR_CLAIM, vec![sw(v), w(&fees_vault_pda()), w(&validator_vault_pda(v))], &a)
}
pub fn ix_protocol_claim(admin: &Pubkey) -> Instruction {
    mk(tag::PROTOCOL_CLAIM, vec![sw(admin), w(&fees_vault_pda()), r(&programdata_pda(&DLP))], &[])
}
pub fn ix_whitelist(authority: &Pubkey, v: &Pubkey, program: &Pubkey, insert: bool) -> Instruction {
    mk(
        tag::WHITELIST,
        vec![
            sw(authority),
            r(v),
            r(program),
            r(&programdata_pda(program)),
            r(&programdata_pda(&DLP)),
            w(&config_pda(program)),
            r(&sys()),
        ],
        &[insert as u8],
    )
}
pub fn ix_top_up(payer: &Pubkey, wallet: &Pubkey, index: u8, amount: u64) -> Instruction {
    mk(
        tag::TOP_UP,
        vec![sw(payer), r(wallet), w(&escrow_pda(wallet, index)), r(&sys())],
        &Enc::default().u64(amount).u8(index).0,
    )
}
pub fn ix_delegate_escrow(payer: &Pubkey, wallet: &Pubkey, index: u8, a: &DelegateArgs) -> Instruction {
    let e = escrow_pda(wallet, index);
    mk(
        tag::DELEGATE_ESCROW,
        vec![
            sw(payer),
            s(wallet),
            w(&e),
            w(&delegate_buffer_pda(&e, &sys())),
            w(&record_pda(&e)),
            w(&metadata_pda(&e)),
            r(&sys()),
            r(&DLP),
        ],
        &Enc::default().raw(&a.enc()).u8(index).0,
    )
}
pub fn ix_close_escrow(wallet: &Pubkey, index: u8) -> Instruction {
    mk(tag::CLOSE_ESCROW, vec![sw(wallet), w(&escrow_pda(wallet, index)), r(&sys())], &[index])
}

pub fn ix_transfer(from: &Pubkey, to: &Pubkey, lamports: u64) -> Instruction {
    Instruction {
        program_id: sys(),
        accounts: vec![sw(from), w(to)],
        data: Enc::default().u32(2).u64(lamports).0,
    }
}

pub fn ix_assign(acct: &Pubkey, owner: &Pubkey) -> Instruction {
    Instruction { program_id: sys(), accounts: vec![sw(acct)], data: Enc::default().u32(1).key(owner).0 }
}

/// Owner program's own "delegate" instruction (see owner.rs).
pub fn ix_owner_delegate(program: &Pubkey, payer: &Pubkey, acct: &Pubkey, sign_seeds: &[Vec<u8>], a: &DelegateArgs, acct_signs: bool) -> Instruction {
    Instruction {
        program_id: *program,
        accounts: vec![
            sw(payer),
            if acct_signs { sw(acct) } else { w(acct) },
            r(program),
            w(&delegate_buffer_pda(acct, program)),
            w(&record_pda(acct)),
            w(&metadata_pda(acct)),
            r(&sys()),
            r(&DLP),
        ],
        data: Enc::default().u8(0xD0).seeds(sign_seeds).raw(&a.enc()).0,
    }
}
