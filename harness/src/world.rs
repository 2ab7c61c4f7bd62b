//! Generated ledgers and operations.

use crate::model::{self, Cx, St};
use crate::owner::Step;
use crate::pbt::Src;
use crate::svm::{sys, upgradeable_loader, Acct, Accts, Svm, Tx};
use crate::wire::{self, *};
use solana_program::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey};
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub const SOL: u64 = 1_000_000_000;

pub struct Pool {
    pub wallets: Vec<Pubkey>,
    pub progs: Vec<Pubkey>,
    pub curve: Vec<Pubkey>,
    pub fresh: Vec<Pubkey>,
    /// wallets that only ever pay transaction fees
    pub fee: Vec<Pubkey>,
}
/// Names for traces.
pub fn named(k: &Pubkey) -> String {
    let p = pool();
    if *k == sys() {
        return "system".into();
    }
    if *k == DLP {
        return "dlp".into();
    }
    if *k == TEST_AUTHORITY {
        return "testauth".into();
    }
    for (n, v) in [("w", &p.wallets), ("prog", &p.progs), ("curve", &p.curve), ("fresh", &p.fresh), ("fee", &p.fee)] {
        if let Some(i) = v.iter().position(|x| x == k) {
            return format!("{n}{i}");
        }
    }
    k.to_string()[..6].to_string()
}
fn curve_key(label: &str, i: u32) -> Pubkey {
    for n in 0u32.. {
        let k = Pubkey::new_from_array(sha(&[label.as_bytes(), &i.to_le_bytes(), &n.to_le_bytes()]));
        if on_curve(&k) {
            return k;
        }
    }
    unreachable!()
}
pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| Pool {
        wallets: (0..10).map(|i| curve_key("wallet", i)).collect(),
        progs: (0..3).map(|i| Pubkey::new_from_array(sha(&[b"program", &[i]]))).collect(),
        curve: (0..4).map(|i| curve_key("curve", i)).collect(),
        fee: (0..2).map(|i| curve_key("fee payer", i)).collect(),
        fresh: (0..6).map(|i| Pubkey::new_from_array(sha(&[b"fresh", &[i]]))).collect(),
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Pda,
    Curve,
    Escrow { wallet: Pubkey, index: u8 },
    /// plain wallet-like account owned by the system program
    Plain,
}

#[derive(Clone, Debug)]
pub struct Target {
    pub key: Pubkey,
    /// owner program before delegation
    pub owner: Pubkey,
    pub seeds: Vec<Vec<u8>>,
    pub kind: Kind,
}

/// how many different seed lists `pda_seeds` gives
pub const N_SEEDS: usize = 112;

pub fn pda_seeds(variant: usize) -> Vec<Vec<u8>> {
    // 0..=15 seeds, lengths 0..=32
    let n = [1, 2, 0, 3, 1, 2, 15, 4, 1, 8, 2, 14, 1, 5, 3, 2][variant % 16];
    let len = |i: usize| [4, 32, 1, 0, 8][(variant / 16 + i) % 5];
    let h = |i: usize| sha(&[b"seed", &[variant as u8, i as u8]])[..len(i)].to_vec();
    const WORDS: [&[u8]; 8] =
        [b"counter", b"delegation", b"buffer", b"balance", b"state-diff", b"fees-vault", b"commit-state-record", b"undelegate-buffer"];
    (0..n)
        .map(|i| match variant / 16 {
            // every seed the same
            3 => h(0),
            // words, with repetitions
            4 => WORDS[(variant / 3 + i / 2) % 8].to_vec(),
            // uniform bytes, in runs
            5 => vec![[0u8, 255, 1][(variant + i / 3) % 3]; (i / 2) % 33],
            // each seed extends the one before it, then they repeat
            6 => sha(&[b"ext", &[variant as u8]])[..(i % 4) * 8].to_vec(),
            _ => h(i),
        })
        .collect()
}

#[derive(Clone)]
pub struct World {
    pub svm: Svm,
    pub utc: bool,
    pub validators: Vec<Pubkey>,
    pub payers: Vec<Pubkey>,
    pub admin: Pubkey,
    pub upg: Vec<Pubkey>,
    pub targets: Vec<Target>,
    /// keys for state buffers / forged accounts
    pub extras: Vec<Pubkey>,
    /// look-alikes of signers, which somebody may hold the keys of
    pub twins: BTreeSet<Pubkey>,
}

/// Weights and probabilities that shape histories for a property.
#[derive(Clone)]
pub struct Profile {
    pub w: [u32; N_OPS],
    /// chance (of 64) that an instruction is mutated
    pub mutate: u64,
    /// which mutation kinds (subst, drop signer, writable, data, accounts)
    pub mkinds: [u32; 5],
    /// chance (of 64) that a transaction bundles several instructions
    pub bundle: u64,
    /// chance (of 64) of a donation before a transaction
    pub donate: u64,
    pub whitelist: u64,
    pub hostile: u64,
    /// chance (of 64) of picking a random rather than a legal target/argument
    pub wild: u64,
    pub max_ops: u64,
    pub rotate: u64,
    pub big: u64,
}

pub const N_OPS: usize = 17;
pub mod op {
    pub const OWNER_DELEGATE: usize = 0;
    pub const DIRECT_DELEGATE: usize = 1;
    pub const COMMIT: usize = 2;
    pub const COMMIT_BUF: usize = 3;
    pub const FINALIZE: usize = 4;
    pub const UNDELEGATE: usize = 5;
    pub const INIT_P: usize = 6;
    pub const INIT_V: usize = 7;
    pub const CLOSE_V: usize = 8;
    pub const CLAIM: usize = 9;
    pub const PCLAIM: usize = 10;
    pub const WHITELIST: usize = 11;
    pub const TOP_UP: usize = 12;
    pub const DEL_ESCROW: usize = 13;
    pub const CLOSE_ESCROW: usize = 14;
    pub const TRANSFER: usize = 15;
    pub const ASSIGN: usize = 16;
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            w: [14, 5, 22, 8, 20, 12, 1, 3, 2, 3, 1, 4, 3, 4, 3, 1, 1],
            mutate: 10,
            mkinds: [8, 4, 1, 2, 1],
            bundle: 12,
            donate: 4,
            whitelist: 20,
            hostile: 0,
            wild: 8,
            max_ops: 14,
            rotate: 1,
            big: 1,
        }
    }
}

pub struct Stage {
    pub rec: Option<Record>,
    pub meta: Option<Metadata>,
    pub pending: Option<CommitRec>,
}

pub fn get(a: &Accts, k: &Pubkey) -> Acct {
    a.get(k).cloned().unwrap_or_default()
}
pub fn stage(a: &Accts, k: &Pubkey) -> Stage {
    let d = |k: Pubkey| a.get(&k).filter(|x| x.owner == DLP);
    Stage {
        rec: d(record_pda(k)).and_then(|x| Record::dec(&x.data)),
        meta: d(metadata_pda(k)).and_then(|x| Metadata::dec(&x.data)),
        pending: d(commit_record_pda(k)).and_then(|x| CommitRec::dec(&x.data)),
    }
}
pub fn registered(a: &Accts, v: &Pubkey) -> bool {
    a.get(&validator_vault_pda(v)).map_or(false, |x| x.owner == DLP)
}
pub fn may_commit(a: &Accts, v: &Pubkey, owner: &Pubkey) -> bool {
    registered(a, v)
        && match a.get(&config_pda(owner)) {
            Some(c) if c.owner == DLP => dec_config(&c.data).map_or(false, |s| s.contains(v)),
            _ => true,
        }
}

// ------------------------------------------------------------------ value generators

static DICT: OnceLock<Vec<u64>> = OnceLock::new();
pub fn set_dictionary(d: Vec<u64>) {
    let _ = DICT.set(d);
}
/// Integer constants occurring in the source of the program under test (a fuzzing
/// dictionary: it only biases generation, verdicts never depend on it).
pub fn dictionary() -> &'static Vec<u64> {
    DICT.get_or_init(|| {
        let mut set = BTreeSet::from([0u64, 1, 2, 3, 7, 8, 10, 16, 31, 32, 33, 64, 100, 127, 128, 255, 256, 1000, 1024, 10_000, 65_535, 65_536]);
        let mut dirs = vec![std::path::PathBuf::from(REPO_SRC)];
        while let Some(d) = dirs.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if let Ok(s) = std::fs::read_to_string(&p) {
                    literals(&s, &mut set);
                }
            }
        }
        set.into_iter().collect()
    })
}
pub const REPO_SRC: &str = "/repo/src";
fn literals(s: &str, set: &mut BTreeSet<u64>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if !b[i].is_ascii_digit() || (i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            i += 1;
            continue;
        }
        let start = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
            i += 1;
        }
        let t: String = s[start..i].replace('_', "").to_lowercase();
        let t = ["u8", "u16", "u32", "u64", "usize", "i64", "u128"].iter().fold(t.clone(), |a, x| if t.starts_with("0x") { a } else { a.strip_suffix(x).map(String::from).unwrap_or(a) });
        let v = match t.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok(),
            None => t.parse().ok(),
        };
        if let Some(v) = v {
            if set.len() < 400 {
                set.insert(v);
            }
        }
    }
}
/// A value at, just below or just above a constant of the dictionary, at most `max`.
pub fn dict_value(src: &mut Src, max: u64) -> u64 {
    let d = dictionary();
    let v = *src.pick(d);
    let v = match src.upto(3) {
        0 | 1 => v,
        2 => v.saturating_add(1),
        _ => v.saturating_sub(1),
    };
    v.min(max)
}

pub fn lam(src: &mut Src, anchors: &[u64]) -> u64 {
    match src.weighted(&[20, 12, 8, 4, 2, 3]) {
        0 => *src.pick(anchors),
        5 => {
            let d = dict_value(src, u64::MAX);
            if src.chance(1, 2) {
                return d;
            }
            let a = *src.pick(anchors);
            if src.chance(1, 2) {
                a.saturating_add(d)
            } else {
                a.saturating_sub(d)
            }
        }
        1 => {
            let a = *src.pick(anchors);
            let d = src.range(1, 2);
            if src.chance(1, 2) {
                a.saturating_add(d)
            } else {
                a.saturating_sub(d)
            }
        }
        2 => {
            let a = *src.pick(anchors);
            let d = src.upto(2 * SOL);
            if src.chance(1, 2) {
                a.saturating_add(d)
            } else {
                a.saturating_sub(d)
            }
        }
        3 => src.upto(12 * SOL),
        _ => *src.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, u32::MAX as u64, 1 << 32]),
    }
}

pub fn slot_value(src: &mut Src, last: u64) -> u64 {
    match src.weighted(&[6, 8, 3, 3, 3, 2, 2]) {
        6 => {
            let d = dict_value(src, u64::MAX);
            if src.chance(1, 2) {
                d
            } else {
                last.saturating_add(d)
            }
        }
        0 => last.saturating_add(1),
        1 => last.saturating_add(src.upto(200)),
        2 => last,
        3 => last.saturating_sub(src.range(1, 3)),
        4 => *src.pick(&[0, 1, 255, 256, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX]),
        _ => src.upto(u64::MAX),
    }
}

pub fn len_value(src: &mut Src, cur: usize, big: u64) -> usize {
    match src.weighted(&[16, 12, 6, 6, 6, 2]) {
        5 => dict_value(src, 4100) as usize,
        0 => src.range(1, 24) as usize,
        1 => cur.min(4000),
        2 => 0,
        3 => (cur as i64 + src.upto(4) as i64 - 2).clamp(0, 4000) as usize,
        _ => {
            if src.chance(big, 8) {
                *src.pick(&[10_240, 10_239, 4096, 1000, 1024, 2048, 255, 256, 257])
            } else {
                src.upto(300) as usize
            }
        }
    }
}

pub fn payload(src: &mut Src, cur: &[u8], big: u64) -> Vec<u8> {
    if src.chance(1, 8) {
        return cur.to_vec();
    }
    if src.chance(1, 12) {
        let mut v = cur.to_vec();
        if !v.is_empty() {
            let i = src.n(v.len());
            v[i] ^= 1 << src.upto(7);
        }
        return v;
    }
    let n = len_value(src, cur.len(), big);
    let mut v = src.bytes(n);
    match src.weighted(&[12, 1, 1, 1, 1]) {
        0 => {}
        1 => v.fill(0),
        2 => v.fill(0xFF),
        // looks padded
        3 => {
            let k = src.upto(n as u64) as usize;
            v[k..].fill(0);
        }
        _ => {
            let k = src.upto(n as u64) as usize;
            v[..k].fill(0);
        }
    }
    v
}

fn wallet_balance(src: &mut Src) -> u64 {
    match src.weighted(&[12, 3, 1, 1]) {
        0 => 100 * SOL,
        1 => wire::rent(0) + src.upto(20_000_000),
        2 => 0,
        _ => wire::rent(0),
    }
}

// ------------------------------------------------------------------ worlds

pub fn programdata(src: &mut Src, auth: &Pubkey) -> Acct {
    let data = match src.weighted(&[24, 1, 1, 1, 1, 1]) {
        0 => {
            let n = if src.chance(1, 3) { 60 } else { 0 };
            enc_programdata(src.upto(9), &Some(*auth), &vec![7; n])
        }
        1 => enc_programdata(3, &None, &[]),
        2 => vec![],
        3 => Enc::default().u32(2).key(auth).0, // Program variant
        4 => {
            let mut v = enc_programdata(3, &Some(*auth), &[]);
            v.truncate(src.upto(44) as usize);
            v
        }
        _ => {
            // a buffer account: variant 1, same authority
            let mut v = Enc::default().u32(1).opt_key(&Some(*auth)).0;
            v.resize(60, 0);
            v
        }
    };
    Acct { lamports: wire::rent(data.len()), data, owner: upgradeable_loader(), executable: false }
}

pub fn all_targets() -> &'static Vec<Target> {
    static T: OnceLock<Vec<Target>> = OnceLock::new();
    T.get_or_init(|| {
        let p = pool();
        let mut v = vec![];
        for i in 0..N_SEEDS {
            let owner = p.progs[i % 3];
            let seeds = pda_seeds(i);
            if let Some((key, _)) = find_pda(&seeds, &owner) {
                v.push(Target { key, owner, seeds, kind: Kind::Pda });
            }
        }
        v
    })
}

pub fn gen_target(src: &mut Src) -> Target {
    let p = pool();
    match src.weighted(&[10, 2, 4, 1]) {
        0 => src.pick(all_targets()).clone(),
        1 => {
            let i = src.n(3);
            let n = if src.chance(1, 4) { 15 } else { src.upto(2) as usize };
            let s = src.n(N_SEEDS);
            let mut seeds = pda_seeds(s);
            seeds.truncate(n);
            Target { key: p.curve[i], owner: p.progs[i], seeds, kind: Kind::Curve }
        }
        2 => escrow_target(src),
        _ => Target { key: p.curve[3], owner: sys(), seeds: vec![], kind: Kind::Plain },
    }
}
pub fn escrow_target(src: &mut Src) -> Target {
    let w = *src.pick(&pool().wallets[..6]);
    let index = if src.chance(1, 6) { src.upto(255) as u8 } else { *src.pick(&[0u8, 1, 255, 2, 128, 127, 254, 7]) };
    let seeds = escrow_seeds(&w, index);
    Target { key: escrow_pda(&w, index), owner: sys(), seeds, kind: Kind::Escrow { wallet: w, index } }
}

/// A key differing from `k` in one bit, mostly of its first or last byte.
pub fn near_key(src: &mut Src, k: &Pubkey) -> Pubkey {
    let mut b = k.to_bytes();
    let i = *src.pick(&[31usize, 0, 16, 8, 7, 4]);
    b[i] ^= *src.pick(&[1u8, 0x80]);
    Pubkey::new_from_array(b)
}

pub fn dlp_acct(lamports: u64, data: Vec<u8>) -> Acct {
    Acct { lamports, data, owner: DLP, executable: false }
}

impl World {
    pub fn gen(src: &mut Src, pr: &Profile, utc: bool) -> World {
        let p = pool();
        let mut svm = Svm::new(p.progs.clone());
        svm.slot = if src.chance(1, 8) { src.upto(u64::MAX >> 1) } else { src.range(0, 1000) };
        let rich = src.chance(3, 4);
        for k in p.wallets.iter() {
            let b = if rich { 100 * SOL } else { wallet_balance(src) };
            svm.set(*k, Acct::wallet(b));
        }
        let admin = if utc { TEST_AUTHORITY } else { p.wallets[6] };
        if utc {
            svm.set(TEST_AUTHORITY, Acct::wallet(100 * SOL));
        }
        let upg = vec![p.wallets[7], p.wallets[8], if src.chance(1, 3) { admin } else { p.wallets[9] }];
        let mut w = World {
            svm,
            utc,
            validators: p.wallets[..4].to_vec(),
            payers: vec![p.wallets[4], p.wallets[5], p.wallets[0]],
            admin,
            upg,
            targets: vec![],
            extras: vec![],
            twins: BTreeSet::new(),
        };
        // validators and payers that look alike
        for (of, chance) in [(0, 6), (1, 10)] {
            if src.chance(1, chance) {
                let list = if of == 0 { &mut w.validators } else { &mut w.payers };
                let k = near_key(src, &list[0]);
                list[1] = k;
                w.twins.insert(k);
                let b = if rich { 100 * SOL } else { wallet_balance(src) };
                w.svm.set(k, Acct::wallet(b));
            }
        }
        if !utc || src.chance(1, 2) {
            let a = programdata(src, &p.wallets[6]);
            w.svm.set(programdata_pda(&DLP), a);
        }
        for i in 0..3 {
            let a = programdata(src, &w.upg[i].clone());
            w.svm.set(programdata_pda(&p.progs[i]), a);
        }
        let seeded = src.chance(3, 4);
        if seeded {
            if !src.chance(1, 16) {
                let f = if src.chance(1, 2) { 0 } else { src.upto(SOL) };
                w.svm.set(fees_vault_pda(), dlp_acct(wire::rent(8) + f, vec![0; 8]));
            }
            for (i, v) in w.validators.clone().iter().enumerate() {
                if !src.chance(if i == 3 { 7 } else { 1 }, 8) {
                    let f = if src.chance(1, 2) { 0 } else { src.upto(SOL) };
                    w.svm.set(validator_vault_pda(v), dlp_acct(wire::rent(8) + f, vec![0; 8]));
                }
            }
            for pk in p.progs.iter().chain([sys()].iter()) {
                if src.chance(pr.whitelist, 64) {
                    let mut set = BTreeSet::new();
                    for v in &w.validators {
                        if src.chance(1, 2) {
                            set.insert(*v);
                        }
                    }
                    if src.chance(1, 6) {
                        let v = *src.pick(&w.validators);
                        set.insert(near_key(src, &v));
                    }
                    if src.chance(1, 8) {
                        let most = if src.chance(1, 6) { 330 } else { 40 };
                        for i in 0..src.upto(most) {
                            set.insert(Pubkey::new_from_array(sha(&[b"other", &i.to_le_bytes()])));
                        }
                    }
                    let d = enc_config(&set);
                    let extra = if src.chance(1, 8) { src.upto(1_000_000) } else { 0 };
                    w.svm.set(config_pda(pk), dlp_acct(wire::rent(d.len()) + extra, d));
                }
            }
        }
        let n = src.range(1, 4);
        for _ in 0..n {
            src.span(|src| {
                let t = gen_target(src);
                if w.targets.iter().any(|x| x.key == t.key) {
                    return;
                }
                w.seed_target(src, &t, seeded, pr.big);
                w.targets.push(t);
            });
        }
        for i in 0..2 {
            w.extras.push(p.fresh[i]);
        }
        w
    }

    pub fn seed_target(&mut self, src: &mut Src, t: &Target, seeded: bool, big: u64) {
        let st = if seeded { src.weighted(&[4, 1, 6, 6, 4]) } else { 0 };
        let empty = matches!(t.kind, Kind::Escrow { .. } | Kind::Plain);
        let len = if empty || src.chance(1, 8) { 0 } else { len_value(src, 8, big) };
        let data = src.bytes(len);
        let extra = if src.chance(1, 4) { 0 } else { src.upto(10 * SOL) };
        let mut lamports = wire::rent(len) + extra;
        if st < 2 && src.chance(1, 20) {
            // an account from before rent exemption became mandatory
            lamports = src.range(1, wire::rent(len) - 1);
        }
        match st {
            0 => {
                // not delegated
                if !matches!(t.kind, Kind::Escrow { .. }) || src.chance(1, 2) {
                    self.svm.set(t.key, Acct { lamports, data, owner: t.owner, executable: false });
                }
            }
            1 => {
                // handed over to the program, not delegated yet
                let l = if src.chance(1, 8) { 0 } else { lamports };
                self.svm.set(t.key, Acct { lamports: l, data: vec![0; len], owner: DLP, executable: false });
                if l == 0 {
                    self.svm.set(t.key, Acct::default());
                }
                if t.owner != sys() && src.chance(1, 2) && len > 0 {
                    self.svm.set(
                        delegate_buffer_pda(&t.key, &t.owner),
                        Acct { lamports: wire::rent(len), data, owner: t.owner, executable: false },
                    );
                }
            }
            _ => {
                // delegated; 3 = commit pending, 4 = finalized before
                let payer = *src.pick(&[self.payers[0], self.payers[1], self.payers[2], self.validators[1]]);
                let validator = if src.chance(1, 2) { *src.pick(&self.validators) } else { Pubkey::default() };
                let donated = if src.chance(1, 8) { src.upto(SOL) } else { 0 };
                let (data, len, last, mut undel) = if st == 4 || src.chance(1, 3) {
                    let d = payload(src, &data, big);
                    let n = d.len();
                    let last = slot_value(src, 0);
                    (d, n, last, src.chance(1, 2))
                } else {
                    (data, len, 0, false)
                };
                let lamports = wire::rent(len) + extra;
                let rec = Record {
                    authority: validator,
                    owner: t.owner,
                    slot: src.upto(self.svm.slot),
                    lamports,
                    freq: *src.pick(&[0, 1, 30_000, u32::MAX as u64]),
                };
                let sweet = |src: &mut Src, n: usize| wire::rent(n) + if src.chance(1, 6) { src.upto(999) } else { 0 };
                let cur = data.clone();
                self.svm.set(t.key, dlp_acct(lamports + donated, data));
                if st == 3 {
                    let free: Vec<Pubkey> =
                        self.validators.iter().copied().filter(|v| registered(&self.svm.accts, v)).collect();
                    let v = if free.is_empty() { self.validators[0] } else { *src.pick(&free) };
                    let committed = match src.weighted(&[3, 3, 3, 1]) {
                        0 => lamports,
                        1 => lamports + src.range(1, 2 * SOL),
                        2 => lamports - src.upto(lamports - wire::rent(0)),
                        _ => lamports + src.upto(wire::rent(0)),
                    };
                    let nd = payload(src, &cur, big);
                    let slot = slot_value(src, last).max(last);
                    let deposit = committed.saturating_sub(lamports).max(sweet(src, nd.len()));
                    self.svm.set(commit_state_pda(&t.key), dlp_acct(deposit, nd));
                    let cr = CommitRec { identity: v, account: t.key, slot, lamports: committed };
                    let l = sweet(src, CommitRec::SIZE);
                    self.svm.set(commit_record_pda(&t.key), dlp_acct(l, cr.enc()));
                    undel = src.chance(1, 2);
                }
                let meta = Metadata { last_slot: last, undelegatable: undel, seeds: t.seeds.clone(), rent_payer: payer };
                let b = meta.enc();
                let l = sweet(src, Record::SIZE);
                self.svm.set(record_pda(&t.key), dlp_acct(l, rec.enc()));
                let l = sweet(src, b.len());
                self.svm.set(metadata_pda(&t.key), dlp_acct(l, b));
            }
        }
    }

    pub fn cx(&self, hostile: bool) -> Cx<'_> {
        Cx { slot: self.svm.slot, utc: self.utc, programs: &self.svm.programs, hostile }
    }

    /// keys allowed to sign at top level
    pub fn can_sign(&self, k: &Pubkey) -> bool {
        let p = pool();
        p.wallets.contains(k)
            || p.curve.contains(k)
            // whoever deployed a program holds the key of its address
            || p.progs.contains(k)
            || *k == DLP
            || self.twins.contains(k)
            || *k == TEST_AUTHORITY
            || self.targets.iter().any(|t| t.key == *k && t.kind == Kind::Pda)
    }
    pub fn any_wallet(&self, src: &mut Src) -> Pubkey {
        *src.pick(&pool().wallets)
    }
    pub fn payer(&self, src: &mut Src) -> Pubkey {
        if src.chance(1, 8) {
            self.any_wallet(src)
        } else {
            *src.pick(&self.payers)
        }
    }
    pub fn current_admin(&self, a: &Accts) -> Option<Pubkey> {
        if self.utc {
            return Some(TEST_AUTHORITY);
        }
        match a.get(&programdata_pda(&DLP)).map(|x| dec_programdata(&x.data)) {
            Some(ProgramData::Authority(a)) => a,
            _ => None,
        }
    }

    /// Picks a target, normally one satisfying `f`.
    fn target(&self, src: &mut Src, wild: u64, f: impl Fn(&Target) -> bool) -> Target {
        if !src.chance(wild, 64) {
            let ok: Vec<&Target> = self.targets.iter().filter(|t| f(t)).collect();
            if !ok.is_empty() {
                return (*src.pick(&ok)).clone();
            }
        }
        src.pick(&self.targets).clone()
    }
    fn validator(&self, src: &mut Src, wild: u64, f: impl Fn(&Pubkey) -> bool) -> Pubkey {
        if !src.chance(wild, 64) {
            let ok: Vec<Pubkey> = self.validators.iter().copied().filter(|t| f(t)).collect();
            if !ok.is_empty() {
                return *src.pick(&ok);
            }
        }
        if src.chance(1, 4) {
            self.any_wallet(src)
        } else {
            *src.pick(&self.validators)
        }
    }

    pub fn commit_args(&self, src: &mut Src, a: &Accts, t: &Target, pr: &Profile) -> CommitArgs {
        let s = stage(a, &t.key);
        let cur = get(a, &t.key);
        let last = s.meta.as_ref().map_or(0, |m| m.last_slot);
        let slot = slot_value(src, last);
        let rl = s.rec.as_ref().map_or(cur.lamports, |r| r.lamports);
        let data = payload(src, &cur.data, pr.big);
        let floor = wire::rent(data.len());
        let lamports = match src.weighted(&[4, 6]) {
            0 => {
                if rl >= floor {
                    rl
                } else {
                    floor
                }
            }
            _ => lam(src, &[rl, cur.lamports, floor, rl + wire::rent(0), 0]),
        };
        CommitArgs { slot, lamports, allow: src.chance(2, 5), data }
    }

    pub fn delegate_args(&self, src: &mut Src, t: &Target, wild: u64) -> DelegateArgs {
        let mut seeds = t.seeds.clone();
        if src.chance(wild, 64) {
            match src.upto(4) {
                0 => seeds = pda_seeds(src.n(N_SEEDS)),
                1 => {
                    seeds.pop();
                }
                2 => seeds.push(vec![1]),
                3 => {
                    if seeds.len() > 1 {
                        seeds.swap(0, 1)
                    } else {
                        seeds.insert(0, vec![])
                    }
                }
                _ => seeds.push(vec![0; 33]),
            }
        }
        DelegateArgs {
            freq: if src.chance(1, 4) { src.upto(u32::MAX as u64) as u32 } else { *src.pick(&[0, 1, 30_000, u32::MAX, 0x8000_0000, 255, 65_536]) },
            seeds,
            validator: match src.upto(3) {
                0 => None,
                1 => Some(Pubkey::default()),
                2 => Some(*src.pick(&pool().fresh)),
                _ => Some(*src.pick(&self.validators)),
            },
        }
    }

    /// One instruction of the given kind against ledger `a` (legal when possible).
    /// `edits` are ledger changes to make before the transaction (a buffer being written).
    pub fn gen_op(&mut self, src: &mut Src, a: &Accts, kind: usize, pr: &Profile, edits: &mut Vec<(Pubkey, Acct)>) -> Instruction {
        let wild = pr.wild;
        let del = |t: &Target| stage(a, &t.key).rec.is_some();
        match kind {
            op::OWNER_DELEGATE => {
                let t = self.target(src, wild, |t| t.owner != sys() && get(a, &t.key).owner == t.owner);
                let prog = if src.chance(wild, 256) { *src.pick(&pool().progs) } else { t.owner };
                let prog = if prog == sys() { pool().progs[0] } else { prog };
                let args = self.delegate_args(src, &t, wild / 2);
                let signs = t.kind != Kind::Pda || src.chance(1, 4);
                let sign_seeds = t.seeds.clone();
                let payer = self.payer(src);
                ix_owner_delegate(&prog, &payer, &t.key, &sign_seeds, &args, signs && self.can_sign(&t.key))
            }
            op::DIRECT_DELEGATE => {
                let t = self.target(src, wild, |t| get(a, &t.key).owner == DLP && !del(t) && !matches!(t.kind, Kind::Escrow { .. }));
                let owner = if src.chance(wild, 64) {
                    *src.pick(&[pool().progs[0], pool().progs[1], sys(), DLP])
                } else {
                    t.owner
                };
                let args = self.delegate_args(src, &t, wild);
                let payer = self.payer(src);
                let mut ix = ix_delegate(&payer, &t.key, &owner, &args);
                if src.chance(wild, 128) || !self.can_sign(&t.key) {
                    ix.accounts[1].is_signer = false;
                }
                ix
            }
            op::COMMIT | op::COMMIT_BUF => {
                let t = self.target(src, wild, |t| {
                    let s = stage(a, &t.key);
                    s.rec.is_some() && s.pending.is_none() && s.meta.map_or(false, |m| !m.undelegatable)
                });
                let owner = stage(a, &t.key).rec.map_or(t.owner, |r| r.owner);
                let v = self.validator(src, wild, |v| may_commit(a, v, &owner));
                let args = self.commit_args(src, a, &t, pr);
                if kind == op::COMMIT {
                    return ix_commit(&v, &t.key, &owner, &args);
                }
                let b = self.gen_buffer(src, a, &args.data, edits);
                ix_commit_buffer(&v, &t.key, &owner, &b, &args)
            }
            op::FINALIZE => {
                let t = self.target(src, wild, |t| stage(a, &t.key).pending.is_some());
                let id = stage(a, &t.key).pending.map(|p| p.identity);
                let v = match id {
                    Some(v) if !src.chance(wild, 48) => v,
                    _ => self.validator(src, wild, |v| registered(a, v)),
                };
                ix_finalize(&v, &t.key)
            }
            op::UNDELEGATE => {
                let t = self.target(src, wild, |t| {
                    let s = stage(a, &t.key);
                    s.pending.is_none() && s.meta.map_or(false, |m| m.undelegatable)
                });
                let s = stage(a, &t.key);
                let v = self.validator(src, wild, |v| registered(a, v));
                let mut owner = s.rec.as_ref().map_or(t.owner, |r| r.owner);
                let mut payer = s.meta.as_ref().map_or(self.payers[0], |m| m.rent_payer);
                if src.chance(wild, 192) {
                    owner = *src.pick(&pool().progs);
                }
                if src.chance(wild, 192) {
                    payer = self.any_wallet(src);
                }
                ix_undelegate(&v, &t.key, &owner, &payer)
            }
            op::INIT_P => ix_init_protocol_vault(&self.payer(src)),
            op::INIT_V | op::CLOSE_V => {
                let want = kind == op::CLOSE_V;
                let v = self.validator(src, wild, |v| registered(a, v) == want);
                let admin = self.admin_key(src, a, wild);
                let payer = if src.chance(1, 4) { admin } else { self.payer(src) };
                if want {
                    ix_close_validator_vault(&payer, &admin, &v)
                } else {
                    ix_init_validator_vault(&payer, &admin, &v)
                }
            }
            op::CLAIM => {
                let v = self.validator(src, wild, |v| registered(a, v));
                let avail = get(a, &validator_vault_pda(&v)).lamports.saturating_sub(wire::rent(8));
                let amount = if src.chance(1, 3) {
                    None
                } else if src.chance(1, 2) {
                    Some(src.upto(avail))
                } else {
                    Some(lam(src, &[avail, avail + wire::rent(8), 0, 1, 9, 10, 11, 100]))
                };
                ix_validator_claim(&v, amount)
            }
            op::PCLAIM => {
                let admin = self.admin_key(src, a, wild);
                ix_protocol_claim(&admin)
            }
            op::WHITELIST => {
                let p = pool();
                let i = src.n(4);
                let prog = if i == 3 { sys() } else { p.progs[i] };
                let auth = match src.weighted(&[4, 4, 1, 1]) {
                    0 => self.admin_key(src, a, wild / 2),
                    1 if i < 3 => self.upg[i],
                    2 => self.upg[src.n(3)],
                    _ => self.any_wallet(src),
                };
                let v = if src.chance(1, 12) {
                    Pubkey::new_from_array(sha(&[b"other", &src.upto(40).to_le_bytes()]))
                } else {
                    *src.pick(&self.validators)
                };
                let insert = !src.chance(2, 5);
                ix_whitelist(&auth, &v, &prog, insert)
            }
            op::TOP_UP | op::DEL_ESCROW | op::CLOSE_ESCROW => {
                let t = if src.chance(1, 3) {
                    escrow_target(src)
                } else {
                    self.target(src, wild / 2, |t| match t.kind {
                        Kind::Escrow { .. } => {
                            let e = get(a, &t.key);
                            match kind {
                                op::TOP_UP => true,
                                op::DEL_ESCROW => e.owner == sys() && e.lamports > 0,
                                _ => e.owner == sys(),
                            }
                        }
                        _ => false,
                    })
                };
                let t = if matches!(t.kind, Kind::Escrow { .. }) { t } else { escrow_target(src) };
                if !self.targets.iter().any(|x| x.key == t.key) && self.targets.len() < 10 {
                    self.targets.push(t.clone());
                }
                let Kind::Escrow { wallet, index } = t.kind.clone() else { unreachable!() };
                let payer = if src.chance(1, 2) { wallet } else { self.payer(src) };
                match kind {
                    op::TOP_UP => {
                        let e = get(a, &t.key).lamports;
                        let amt = lam(src, &[0, 1, SOL, wire::rent(0), wire::rent(0).saturating_sub(e)]);
                        ix_top_up(&payer, &wallet, index, amt)
                    }
                    op::DEL_ESCROW => {
                        let args = self.delegate_args(src, &t, 32);
                        ix_delegate_escrow(&payer, &wallet, index, &args)
                    }
                    _ => ix_close_escrow(&wallet, index),
                }
            }
            op::TRANSFER => {
                let from = self.any_wallet(src);
                let to = self.donation_address(src);
                let amt = lam(src, &[wire::rent(0), 1, wire::rent(100)]).min(SOL);
                ix_transfer(&from, &to, amt)
            }
            _ => {
                let k = pool().curve[3];
                ix_assign(&k, &DLP)
            }
        }
    }

    pub fn admin_key(&self, src: &mut Src, a: &Accts, wild: u64) -> Pubkey {
        if src.chance(wild, 64) {
            return if src.chance(1, 2) { self.any_wallet(src) } else { *src.pick(&[pool().wallets[6], TEST_AUTHORITY]) };
        }
        self.current_admin(a).filter(|k| self.can_sign(k)).unwrap_or(self.admin)
    }

    pub fn gen_buffer(&self, src: &mut Src, a: &Accts, data: &[u8], edits: &mut Vec<(Pubkey, Acct)>) -> Pubkey {
        match src.weighted(&[10, 2, 1]) {
            0 => {
                let k = *src.pick(&self.extras);
                let owner = *src.pick(&[pool().progs[0], pool().progs[1]]);
                edits.push((k, Acct { lamports: wire::rent(data.len()), data: data.to_vec(), owner, executable: false }));
                k
            }
            1 => {
                let keys: Vec<Pubkey> = a.keys().copied().collect();
                *src.pick(&keys)
            }
            _ => *src.pick(&pool().fresh),
        }
    }

    /// an address somebody might send lamports to in advance
    pub fn donation_address(&self, src: &mut Src) -> Pubkey {
        let t = src.pick(&self.targets).key;
        let owner = self.targets.iter().find(|x| x.key == t).unwrap().owner;
        match src.upto(10) {
            0 => t,
            1 => record_pda(&t),
            2 => metadata_pda(&t),
            3 => commit_state_pda(&t),
            4 => commit_record_pda(&t),
            5 => undelegate_buffer_pda(&t),
            6 => delegate_buffer_pda(&t, &owner),
            7 => fees_vault_pda(),
            8 => validator_vault_pda(src.pick(&self.validators)),
            9 => config_pda(&owner),
            _ => escrow_pda(src.pick(&pool().wallets[..6]), *src.pick(&[0u8, 1, 255])),
        }
    }

    pub fn hostile_plan(&self, src: &mut Src, acct: &Acct) -> Vec<Step> {
        let n = acct.data.len();
        let spare = acct.lamports.saturating_sub(wire::rent(n)) as i64;
        let mut plan = vec![];
        match src.weighted(&[16, 1, 2]) {
            0 => {
                plan.push(if src.chance(3, 4) {
                    Step::Reopen { lam: 0, size: 0 }
                } else {
                    let lam = *src.pick(&[0, 1, -1, spare, spare + 1, -spare, SOL as i64, -(wire::rent(n) as i64)]);
                    let size = *src.pick(&[0, 0, 0, 1, -1, 8, -(n as i64)]);
                    Step::Reopen { lam, size }
                });
                if !src.chance(1, 8) {
                    plan.push(Step::CopyData);
                }
            }
            1 => {}
            _ => plan.push(Step::Reopen { lam: 0, size: 0 }),
        }
        let k = src.weighted(&[2, 8, 6, 3]);
        for _ in 0..k {
            let amt = match src.upto(3) {
                0 => 1,
                1 => spare.max(0) as u64,
                2 => wire::rent(n),
                _ => src.upto(SOL),
            };
            let s = match src.upto(13) {
                0 => Step::FlipByte(if src.chance(1, 3) { n.max(1) - 1 } else { src.upto(n as u64) as usize }),
                1 => Step::ZeroData,
                2 => Step::Resize(*src.pick(&[1, -1, 8, -8, 100])),
                3 => Step::ChargeValidator { to_buffer: false, amt },
                4 => Step::ChargeValidator { to_buffer: true, amt },
                5 => Step::PayValidator(amt),
                6 => Step::PayBuffer(amt),
                7 => Step::AssignValidator { to_self: true },
                8 => Step::AssignValidator { to_self: false },
                9 => Step::AllocateValidator(src.range(0, 16)),
                10 => Step::AssignAccount,
                11 => Step::Reenter,
                12 => Step::Fail,
                _ => Step::Panic,
            };
            plan.push(s);
        }
        plan
    }

    /// Changes one thing about an instruction.
    pub fn mutate(&mut self, src: &mut Src, a: &Accts, ix: &mut Instruction, pr: &Profile, edits: &mut Vec<(Pubkey, Acct)>) -> &'static str {
        let n = ix.accounts.len();
        match src.weighted(&pr.mkinds) {
            0 if n > 0 => {
                let i = src.n(n);
                let cur = ix.accounts[i].pubkey;
                let new = match src.weighted(&[12, 6, 4, 2, 3, 2]) {
                    // the account the same instruction uses for somebody else
                    0 => self.other_entity(src, a, ix, i).unwrap_or(pool().fresh[0]),
                    // any account of the ledger
                    1 => {
                        let keys: Vec<Pubkey> = a.keys().copied().collect();
                        *src.pick(&keys)
                    }
                    // a forged copy
                    2 => {
                        let k = pool().fresh[3];
                        let c = get(a, &cur);
                        let owner = *src.pick(&[DLP, pool().progs[0], sys()]);
                        let owner = if owner == sys() && !c.data.is_empty() { DLP } else { owner };
                        edits.push((k, Acct { owner, executable: false, lamports: wire::rent(c.data.len()).max(c.lamports), data: c.data }));
                        k
                    }
                    // the same account at an address that differs in one bit
                    4 => {
                        let k = near_key(src, &cur);
                        edits.push((k, get(a, &cur)));
                        if ix.accounts[i].is_signer && self.can_sign(&cur) {
                            self.twins.insert(k);
                        }
                        k
                    }
                    // another account of the same instruction
                    5 => {
                        let j = src.n(n);
                        ix.accounts[j].pubkey
                    }
                    _ => *src.pick(&pool().fresh),
                };
                ix.accounts[i].pubkey = new;
                "substituted"
            }
            1 if n > 0 => {
                let s: Vec<usize> = (0..n).filter(|i| ix.accounts[*i].is_signer).collect();
                if !s.is_empty() {
                    let i = *src.pick(&s);
                    ix.accounts[i].is_signer = false;
                }
                "signer dropped"
            }
            2 if n > 0 => {
                let i = src.n(n);
                ix.accounts[i].is_writable = !ix.accounts[i].is_writable;
                "writable toggled"
            }
            3 => {
                let d = &mut ix.data;
                match src.upto(6) {
                    0 => {
                        let k = src.range(1, d.len().max(1) as u64) as usize;
                        d.truncate(d.len() - k.min(d.len()));
                    }
                    1 => {
                        let k = src.range(1, 9) as usize;
                        let b = src.bytes(k);
                        d.extend(b);
                    }
                    2 if !d.is_empty() => {
                        let i = src.n(d.len());
                        let b = *src.pick(&[1u8, 0x80, 0xFF, 2, 4]);
                        d[i] ^= b;
                    }
                    3 if !d.is_empty() => d[0] = *src.pick(&tag::ALL),
                    4 if !d.is_empty() => d[0] = src.upto(255) as u8,
                    5 => {
                        let k = src.upto(40) as usize;
                        *d = src.bytes(k);
                    }
                    _ if d.len() > 8 => {
                        let i = 8 + src.n(d.len() - 8);
                        d.remove(i);
                    }
                    _ => {}
                }
                "data changed"
            }
            _ => {
                match src.upto(4) {
                    0 => {
                        ix.accounts.pop();
                    }
                    1 if n > 0 => {
                        ix.accounts.remove(src.n(n));
                    }
                    2 => {
                        let k = if src.chance(1, 2) { sys() } else { *src.pick(&pool().fresh) };
                        ix.accounts.push(AccountMeta::new_readonly(k, false));
                    }
                    3 if n > 0 => {
                        let m = ix.accounts[src.n(n)].clone();
                        let i = src.n(n);
                        ix.accounts.insert(i, m);
                    }
                    _ if n > 1 => {
                        let (i, j) = (src.n(n), src.n(n));
                        ix.accounts.swap(i, j);
                    }
                    _ => {}
                }
                "accounts changed"
            }
        }
    }

    /// The account that the same instruction, made for another entity, has at position `i`.
    fn other_entity(&mut self, src: &mut Src, a: &Accts, ix: &Instruction, i: usize) -> Option<Pubkey> {
        if ix.program_id != DLP || ix.data.is_empty() {
            return None;
        }
        let t = src.pick(&self.targets).clone();
        let w = self.any_wallet(src);
        let v = *src.pick(&self.validators);
        let prog = *src.pick(&pool().progs);
        let key = |j: usize| ix.accounts.get(j).map(|m| m.pubkey).unwrap_or_default();
        let idx = *src.pick(&[0u8, 1, 255]);
        let args = CommitArgs { slot: 0, lamports: 0, allow: false, data: vec![] };
        let da = DelegateArgs { freq: 0, seeds: vec![], validator: None };
        let same_v = src.chance(1, 2);
        let o = match ix.data[0] {
            tag::DELEGATE => ix_delegate(&w, &t.key, &prog, &da),
            tag::COMMIT => ix_commit(if same_v { &w } else { &v }, &t.key, &prog, &args),
            tag::COMMIT_FROM_BUFFER => ix_commit_buffer(if same_v { &w } else { &v }, &t.key, &prog, &w, &args),
            tag::FINALIZE => ix_finalize(if same_v { &w } else { &v }, &t.key),
            tag::UNDELEGATE => ix_undelegate(if same_v { &w } else { &v }, &t.key, &prog, &w),
            tag::INIT_PROTOCOL_VAULT => ix_init_protocol_vault(&w),
            tag::INIT_VALIDATOR_VAULT => ix_init_validator_vault(&w, &key(1), &v),
            tag::CLOSE_VALIDATOR_VAULT => ix_close_validator_vault(&w, &key(1), &v),
            tag::VALIDATOR_CLAIM => ix_validator_claim(&v, None),
            tag::PROTOCOL_CLAIM => ix_protocol_claim(&w),
            tag::WHITELIST => ix_whitelist(&w, &v, &prog, true),
            tag::TOP_UP => ix_top_up(&w, &v, idx, 0),
            tag::DELEGATE_ESCROW => ix_delegate_escrow(&w, &v, idx, &da),
            tag::CLOSE_ESCROW => ix_close_escrow(&v, idx),
            _ => return None,
        };
        let _ = a;
        // authority data of another program
        if matches!(i, 2 | 3 | 4) && src.chance(1, 2) && matches!(ix.data[0], tag::WHITELIST | tag::INIT_VALIDATOR_VAULT | tag::CLOSE_VALIDATOR_VAULT | tag::PROTOCOL_CLAIM) {
            return Some(programdata_pda(src.pick(&[prog, DLP])));
        }
        o.accounts.get(i).map(|m| m.pubkey)
    }

    pub fn sanitize(&self, tx: &mut Tx) {
        for ix in tx.ixs.iter_mut() {
            for m in ix.accounts.iter_mut() {
                if m.is_signer && !self.can_sign(&m.pubkey) {
                    m.is_signer = false;
                }
            }
        }
    }

    /// One step of a history: ledger edits happen in place, then a transaction.
    pub fn gen_tx(&mut self, src: &mut Src, pr: &Profile) -> Planned {
        if src.chance(1, 6) {
            self.svm.slot = self.svm.slot.saturating_add(src.upto(500));
        }
        if src.chance(pr.donate, 64) {
            src.span(|src| {
                let k = self.donation_address(src);
                let mut a = self.svm.get(&k);
                let mut d = match src.upto(2) {
                    0 => wire::rent(0),
                    1 => wire::rent(0) + src.upto(3_000_000),
                    _ => src.range(1, 3 * SOL),
                };
                if a.lamports == 0 {
                    d = d.max(wire::rent(0));
                }
                a.lamports += d;
                src.say(|| format!("donate {d} to {}", named(&k)));
                self.svm.set(k, a);
            });
        }
        if src.chance(pr.rotate, 64) {
            src.span(|src| self.rotate(src));
        }
        let mut scratch = self.svm.accts.clone();
        let mut edits = vec![];
        let mut tx = Tx::default();
        let count = if src.chance(pr.bundle, 64) { src.range(2, 4) } else { 1 };
        let mut labels = vec![];
        let mut force: Option<usize> = None;
        for i in 0..count {
            src.span(|src| {
                let kind = match force.take() {
                    Some(k) if !src.chance(1, 4) => k,
                    _ => src.weighted(&pr.w),
                };
                let mut e = vec![];
                let mut ix = self.gen_op(src, &scratch, kind, pr, &mut e);
                // the usual continuation of a bundle
                force = match kind {
                    op::COMMIT | op::COMMIT_BUF => Some(op::FINALIZE),
                    op::FINALIZE => Some(op::UNDELEGATE),
                    op::UNDELEGATE => Some(op::OWNER_DELEGATE),
                    op::OWNER_DELEGATE | op::DIRECT_DELEGATE | op::DEL_ESCROW => Some(op::COMMIT),
                    op::ASSIGN => Some(op::DIRECT_DELEGATE),
                    op::TOP_UP => Some(op::DEL_ESCROW),
                    _ => None,
                };
                if src.chance(if i == 0 { pr.mutate } else { pr.mutate / 2 }, 64) {
                    labels.push(self.mutate(src, &scratch, &mut ix, pr, &mut e));
                }
                for (k, x) in e {
                    // never overwrite an account that matters
                    if scratch.get(&k).map_or(true, |y| self.extras.contains(&k) || pool().fresh.contains(&k) || y.is_absent()) {
                        scratch.insert(k, x.clone());
                        edits.push((k, x));
                    }
                }
                let one = Tx::one(ix.clone());
                let ms = crate::svm::effective_metas(&one);
                let mut st = St::new(&scratch);
                let cx = self.cx(false);
                if model::predict_ix(&mut st, &cx, &ix.program_id, &ms[0], &ix.data, &mut vec![]) == model::Pred::Ok {
                    let over = st.over;
                    for (k, v) in over {
                        scratch.insert(k, v);
                    }
                }
                tx.ixs.push(ix);
            });
        }
        if src.chance(1, 8) {
            tx.fee_payer = Some(self.any_wallet(src));
        }
        for (k, a) in edits {
            self.svm.set(k, a);
        }
        self.sanitize(&mut tx);
        let mut plan = None;
        if pr.hostile > 0 && src.chance(pr.hostile, 64) {
            if let Some(ix) = tx.ixs.iter().find(|ix| ix.data.first() == Some(&tag::UNDELEGATE) && ix.accounts.len() == 12) {
                let acct = scratch_acct(&self.svm.accts, &ix.accounts[1].pubkey);
                plan = Some(self.hostile_plan(src, &acct));
            }
        }
        Planned { tx, plan, labels }
    }

    pub fn rotate(&mut self, src: &mut Src) {
        let i = src.n(4);
        let (k, auth) = if i == 3 {
            (programdata_pda(&DLP), *src.pick(&[pool().wallets[6], pool().wallets[9], pool().wallets[7]]))
        } else {
            (programdata_pda(&pool().progs[i]), self.any_wallet(src))
        };
        if i < 3 {
            self.upg[i] = auth;
        }
        let a = programdata(src, &auth);
        src.say(|| format!("authority data of {} now names {}", if i == 3 { "dlp".into() } else { format!("prog{i}") }, named(&auth)));
        self.svm.set(k, a);
    }
}

fn scratch_acct(a: &Accts, k: &Pubkey) -> Acct {
    get(a, k)
}

pub struct Planned {
    pub tx: Tx,
    pub plan: Option<Vec<Step>>,
    pub labels: Vec<&'static str>,
}

pub fn show_ix(ix: &Instruction) -> String {
    let name = if ix.program_id == DLP {
        ix.data.first().map_or("<empty>", |t| tag::name(*t)).to_string()
    } else if ix.program_id == sys() {
        "System".into()
    } else {
        "OwnerProgram".into()
    };
    let acc: Vec<String> = ix
        .accounts
        .iter()
        .map(|m| format!("{}{}{}", named(&m.pubkey), if m.is_signer { "*" } else { "" }, if m.is_writable { "+" } else { "" }))
        .collect();
    let hex: String = ix.data.iter().take(60).map(|b| format!("{b:02x}")).collect();
    format!("{name}[{}] data={hex}{}", acc.join(" "), if ix.data.len() > 60 { format!("…({})", ix.data.len()) } else { String::new() })
}
pub fn show_tx(tx: &Tx) -> String {
    let v: Vec<String> = tx.ixs.iter().map(show_ix).collect();
    let fp = tx.fee_payer.map_or(String::new(), |k| format!("fee payer {} | ", named(&k)));
    format!("tx {{{fp}{}}}", v.join(" | "))
}
