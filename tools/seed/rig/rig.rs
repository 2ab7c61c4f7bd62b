//! A ledger with the delegation program, two owner programs, an admin and a few validators.
use crate::svm::{upgradeable_loader, Acct, Svm, Tx};
use crate::wire::{self, *};
use solana_program::{instruction::Instruction, pubkey::Pubkey};

pub const SOL: u64 = 1_000_000_000;

pub fn key(n: u8) -> Pubkey {
    Pubkey::new_from_array([n; 32])
}
pub fn owned(lamports: u64, data: Vec<u8>, owner: Pubkey) -> Acct {
    Acct { lamports, data, owner, executable: false }
}
pub fn commit(slot: u64, lamports: u64, allow: bool, data: Vec<u8>) -> CommitArgs {
    CommitArgs { slot, lamports, allow, data }
}

pub struct Rig {
    pub svm: Svm,
    pub admin: Pubkey,
    pub prog: Pubkey,
    pub prog2: Pubkey,
    /// upgrade authority of prog
    pub auth: Pubkey,
    pub payer: Pubkey,
    pub wallet: Pubkey,
    /// registered validators
    pub v: Pubkey,
    pub v2: Pubkey,
    /// not registered
    pub rogue: Pubkey,
    pub feepayer: Pubkey,
    /// a derived account of prog
    pub acct: Pubkey,
    pub seeds: Vec<Vec<u8>>,
}

impl Rig {
    pub fn new() -> Rig {
        let _ = crate::svm::quiet_stdout();
        let (prog, prog2) = (key(101), key(102));
        let seeds = vec![b"state".to_vec(), vec![7; 32]];
        let mut r = Rig {
            svm: Svm::new(vec![prog, prog2]),
            admin: key(1),
            prog,
            prog2,
            auth: key(2),
            payer: key(3),
            wallet: key(4),
            v: key(5),
            v2: key(6),
            rogue: key(7),
            feepayer: key(8),
            acct: find_pda(&seeds, &prog).unwrap().0,
            seeds,
        };
        r.svm.slot = 50;
        for k in [r.admin, r.auth, r.payer, r.wallet, r.v, r.v2, r.rogue, r.feepayer, key(9)] {
            r.svm.set(k, Acct::wallet(100 * SOL));
        }
        for (p, a) in [(DLP, r.admin), (prog, r.auth), (prog2, r.rogue)] {
            let d = enc_programdata(3, &Some(a), &[]);
            r.svm.set(programdata_pda(&p), owned(wire::rent(d.len()), d, upgradeable_loader()));
        }
        let (p, a, v, v2) = (r.payer, r.admin, r.v, r.v2);
        r.must(ix_init_protocol_vault(&p));
        r.must(ix_init_validator_vault(&p, &a, &v));
        r.must(ix_init_validator_vault(&p, &a, &v2));
        r
    }
    pub fn run(&mut self, ix: Instruction) -> bool {
        self.all(vec![ix])
    }
    pub fn all(&mut self, ixs: Vec<Instruction>) -> bool {
        let tx = Tx { ixs, fee_payer: Some(self.feepayer) };
        let r = self.svm.exec(&tx);
        eprintln!("  {r:?}");
        r.is_ok()
    }
    pub fn must(&mut self, ix: Instruction) {
        expect(self.run(ix), "a preparation step works");
    }
    pub fn lam(&self, k: &Pubkey) -> u64 {
        self.svm.get(k).lamports
    }
    pub fn record(&self) -> Record {
        Record::dec(&self.svm.get(&record_pda(&self.acct)).data).expect("record")
    }
    pub fn meta(&self) -> Metadata {
        Metadata::dec(&self.svm.get(&metadata_pda(&self.acct)).data).expect("metadata")
    }
    /// what the owner program's delegate instruction looks like for `acct`
    pub fn delegate_ix(&self, a: &DelegateArgs) -> Instruction {
        ix_owner_delegate(&self.prog, &self.payer, &self.acct, &self.seeds, a, false)
    }
    pub fn dargs(&self) -> DelegateArgs {
        DelegateArgs { freq: 30_000, seeds: self.seeds.clone(), validator: Some(self.v) }
    }
    /// gives `acct` the data and `extra` lamports over rent, and delegates it
    pub fn delegate(&mut self, data: Vec<u8>, extra: u64) {
        self.svm.set(self.acct, owned(wire::rent(data.len()) + extra, data, self.prog));
        let ix = self.delegate_ix(&self.dargs());
        self.must(ix);
    }
    pub fn commit_ix(&self, v: &Pubkey, a: &CommitArgs) -> Instruction {
        ix_commit(v, &self.acct, &self.prog, a)
    }
    pub fn finalize_ix(&self, v: &Pubkey) -> Instruction {
        ix_finalize(v, &self.acct)
    }
    pub fn undelegate_ix(&self, v: &Pubkey) -> Instruction {
        ix_undelegate(v, &self.acct, &self.prog, &self.payer)
    }
    pub fn donate(&mut self, to: &Pubkey, lamports: u64) {
        let mut a = self.svm.get(to);
        a.lamports += lamports;
        self.svm.set(*to, a);
    }
}

pub fn expect(c: bool, what: &str) {
    if !c {
        eprintln!("NOT SO: {what}");
        std::process::exit(1);
    }
    eprintln!("ok: {what}");
}
