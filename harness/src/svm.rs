//! A small transaction executor built on the real Agave runtime crates
//! (`TransactionContext`, `InvokeContext`, the real system program), with the program under test
//! and the owner programs registered as native programs.
//!
//! The native entry/CPI glue follows solana-program-test, except that modifications are
//! checked the way the BPF loader checks them (`deserialize_parameters`): a change to a
//! read-only or foreign account is an error instead of being dropped silently.

use {
    solana_account::{Account, AccountSharedData, ReadableAccount},
    solana_bpf_loader_program::serialization::serialize_parameters,
    solana_compute_budget::compute_budget::ComputeBudget,
    solana_feature_set::FeatureSet,
    solana_program::{
        account_info::AccountInfo,
        clock::Clock,
        entrypoint::{deserialize, ProgramResult, SUCCESS},
        epoch_schedule::EpochSchedule,
        hash::Hash,
        instruction::{Instruction, InstructionError},
        program_error::{ProgramError, UNSUPPORTED_SYSVAR},
        pubkey::Pubkey,
        rent::Rent,
        stable_layout::stable_instruction::StableInstruction,
        sysvar::Sysvar,
    },
    solana_program_runtime::{
        invoke_context::{EnvironmentConfig, InvokeContext},
        loaded_programs::{
            ProgramCacheEntry, ProgramCacheForTxBatch, ProgramRuntimeEnvironments,
        },
        sysvar_cache::SysvarCache,
    },
    solana_sbpf::{
        error::EbpfError,
        vm::{get_runtime_environment_key, EbpfVm},
    },
    solana_timings::ExecuteTimings,
    solana_transaction_context::{IndexOfAccount, InstructionAccount, TransactionContext},
    std::{
        cell::RefCell,
        collections::{BTreeMap, BTreeSet},
        mem::transmute,
        panic::AssertUnwindSafe,
        sync::Arc,
    },
};

pub const MAX_DATA: usize = 10_240;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Default for Acct {
    fn default() -> Self {
        Acct { lamports: 0, data: vec![], owner: sys(), executable: false }
    }
}

impl Acct {
    pub fn wallet(lamports: u64) -> Self {
        Acct { lamports, ..Default::default() }
    }
    pub fn is_absent(&self) -> bool {
        self.lamports == 0 && self.data.is_empty() && self.owner == sys()
    }
}

pub type Accts = BTreeMap<Pubkey, Acct>;

pub fn sys() -> Pubkey {
    Pubkey::new_from_array([0; 32])
}
pub fn native_loader() -> Pubkey {
    solana_program::pubkey!("NativeLoader1111111111111111111111111111111")
}
pub fn upgradeable_loader() -> Pubkey {
    solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111")
}

/// Privileges an instruction account has at runtime.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

/// A transaction: instructions plus an optional fee payer (no fees are charged; the fee
/// payer merely is a writable signer of the whole message, as on chain).
#[derive(Clone, Debug, Default)]
pub struct Tx {
    pub ixs: Vec<Instruction>,
    pub fee_payer: Option<Pubkey>,
}

impl Tx {
    pub fn one(ix: Instruction) -> Tx {
        Tx { ixs: vec![ix], fee_payer: None }
    }
}

/// Message-level privileges: the union over all instructions; invoked programs and
/// built-in ids are never writable.
pub fn effective_metas(tx: &Tx) -> Vec<Vec<Meta>> {
    let mut s: BTreeSet<Pubkey> = BTreeSet::new();
    let mut w: BTreeSet<Pubkey> = BTreeSet::new();
    if let Some(k) = tx.fee_payer {
        s.insert(k);
        w.insert(k);
    }
    for ix in &tx.ixs {
        for m in &ix.accounts {
            if m.is_signer {
                s.insert(m.pubkey);
            }
            if m.is_writable {
                w.insert(m.pubkey);
            }
        }
    }
    for ix in &tx.ixs {
        w.remove(&ix.program_id);
    }
    for k in [sys(), native_loader(), upgradeable_loader()] {
        w.remove(&k);
    }
    tx.ixs
        .iter()
        .map(|ix| {
            ix.accounts
                .iter()
                .map(|m| Meta {
                    key: m.pubkey,
                    signer: s.contains(&m.pubkey),
                    writable: w.contains(&m.pubkey),
                })
                .collect()
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxResult {
    Ok,
    /// failing instruction index and error
    Err(usize, InstructionError),
    /// all instructions succeeded but the transaction leaves an account below rent exemption
    RentErr(Pubkey),
}

impl TxResult {
    pub fn is_ok(&self) -> bool {
        matches!(self, TxResult::Ok)
    }
}

thread_local! {
    static INVOKE_CONTEXT: RefCell<Option<usize>> = const { RefCell::new(None) };
    static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
}

#[derive(Clone)]
struct Env {
    envs: ProgramRuntimeEnvironments,
    dlp: Arc<ProgramCacheEntry>,
    owner: Arc<ProgramCacheEntry>,
    system: Arc<ProgramCacheEntry>,
    features: Arc<FeatureSet>,
}

fn env() -> Env {
    ENV.with(|e| {
        e.borrow_mut()
            .get_or_insert_with(|| Env {
                envs: ProgramRuntimeEnvironments::default(),
                dlp: Arc::new(ProgramCacheEntry::new_builtin(0, 0, dlp_vm)),
                owner: Arc::new(ProgramCacheEntry::new_builtin(0, 0, owner_vm)),
                system: Arc::new(ProgramCacheEntry::new_builtin(
                    0,
                    0,
                    solana_system_program::system_processor::Entrypoint::vm,
                )),
                features: Arc::new(FeatureSet::all_enabled()),
            })
            .clone()
    })
}

fn set_invoke_context(new: &mut InvokeContext) {
    INVOKE_CONTEXT.with(|c| unsafe {
        c.replace(Some(transmute::<&mut InvokeContext, usize>(new)));
    });
}
fn get_invoke_context<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let ptr = INVOKE_CONTEXT.with(|c| c.borrow().expect("no invoke context"));
    unsafe { transmute::<usize, &mut InvokeContext>(ptr) }
}

type Proc = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

fn run_native(f: Proc, ic: &mut InvokeContext) -> Result<u64, Box<dyn std::error::Error>> {
    set_invoke_context(ic);
    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    ic.consume_checked(1)?;
    let (mut bytes, _regions, metas) = serialize_parameters(tc, ictx, true)?;
    let ptr = &mut bytes.as_slice_mut()[0] as *mut u8;
    let res = {
        let (program_id, infos, input) = unsafe { deserialize(ptr) };
        std::panic::catch_unwind(AssertUnwindSafe(|| f(program_id, &infos, input)))
    };
    match res {
        Ok(r) => r.map_err(|e| {
            let e: Box<dyn std::error::Error> = Box::new(InstructionError::from(u64::from(e)));
            e
        })?,
        Err(_) => {
            return Err(Box::new(InstructionError::ProgramFailedToComplete));
        }
    }
    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    let lens: Vec<usize> = metas.iter().map(|m| m.original_data_len).collect();
    read_back(tc, ictx, bytes.as_slice(), &lens).map_err(|e| {
        let e: Box<dyn std::error::Error> = Box::new(e);
        e
    })?;
    Ok(0)
}

/// The BPF loader's `deserialize_parameters_aligned` (private there).
fn read_back(
    tc: &TransactionContext,
    ictx: &solana_transaction_context::InstructionContext,
    buf: &[u8],
    lens: &[usize],
) -> Result<(), InstructionError> {
    let u64_at = |o: usize| u64::from_le_bytes(buf[o..o + 8].try_into().unwrap());
    let mut p = 8;
    for (i, pre) in lens.iter().enumerate() {
        let i = i as IndexOfAccount;
        if ictx.is_instruction_account_duplicate(i)?.is_some() {
            p += 8;
            continue;
        }
        let mut b = ictx.try_borrow_instruction_account(tc, i)?;
        p += 8 + 32;
        let owner = &buf[p..p + 32];
        p += 32;
        let lamports = u64_at(p);
        if b.get_lamports() != lamports {
            b.set_lamports(lamports)?;
        }
        p += 8;
        let post = u64_at(p) as usize;
        p += 8;
        if post.saturating_sub(*pre) > MAX_DATA {
            return Err(InstructionError::InvalidRealloc);
        }
        let data = &buf[p..p + post];
        match b.can_data_be_resized(post).and_then(|_| b.can_data_be_changed()) {
            Ok(()) => b.set_data_from_slice(data)?,
            Err(e) if b.get_data() != data => return Err(e),
            _ => {}
        }
        p += pre + MAX_DATA;
        p += (*pre as *const u8).align_offset(8);
        p += 8;
        if b.get_owner().to_bytes() != owner {
            b.set_owner(owner)?;
        }
    }
    Ok(())
}

macro_rules! vm_entry {
    ($name:ident, $f:expr) => {
        fn $name(
            vm: *mut EbpfVm<InvokeContext<'static>>,
            _a: u64,
            _b: u64,
            _c: u64,
            _d: u64,
            _e: u64,
        ) {
            let vm = unsafe {
                &mut *((vm as *mut u64).offset(-(get_runtime_environment_key() as isize))
                    as *mut EbpfVm<InvokeContext>)
            };
            vm.program_result = run_native($f, vm.context_object_pointer)
                .map_err(EbpfError::SyscallError)
                .into();
        }
    };
}
vm_entry!(dlp_vm, dlp::process_instruction);
vm_entry!(owner_vm, crate::owner::process);

fn get_sysvar<T: Default + Sysvar + Sized + Clone>(
    sysvar: Result<Arc<T>, InstructionError>,
    var_addr: *mut u8,
) -> u64 {
    match sysvar {
        Ok(d) => unsafe {
            *(var_addr as *mut _ as *mut T) = T::clone(&d);
            SUCCESS
        },
        Err(_) => UNSUPPORTED_SYSVAR,
    }
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        get_sysvar(get_invoke_context().get_sysvar_cache().get_clock(), p)
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        get_sysvar(get_invoke_context().get_sysvar_cache().get_rent(), p)
    }
    fn sol_get_epoch_schedule_sysvar(&self, p: *mut u8) -> u64 {
        get_sysvar(get_invoke_context().get_sysvar_cache().get_epoch_schedule(), p)
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (k, d) = get_invoke_context().transaction_context.get_return_data();
        Some((*k, d.to_vec()))
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let ic = get_invoke_context();
        let tc = &mut ic.transaction_context;
        let caller = *tc
            .get_current_instruction_context()
            .unwrap()
            .get_last_program_key(tc)
            .unwrap();
        tc.set_return_data(caller, data.to_vec()).unwrap();
    }
    fn sol_get_stack_height(&self) -> u64 {
        get_invoke_context().get_stack_height() as u64
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let instruction = StableInstruction::from(instruction.clone());
        let ic = get_invoke_context();
        let tc = &ic.transaction_context;
        let ictx = tc.get_current_instruction_context().unwrap();
        let caller = ictx.get_last_program_key(tc).unwrap();
        let signers = signers_seeds
            .iter()
            .map(|s| Pubkey::create_program_address(s, caller).unwrap())
            .collect::<Vec<_>>();
        let (instruction_accounts, program_indices) =
            ic.prepare_instruction(&instruction, &signers).unwrap();

        // caller -> runtime
        let tc = &ic.transaction_context;
        let ictx = tc.get_current_instruction_context().unwrap();
        let mut back = Vec::with_capacity(instruction_accounts.len());
        for ia in instruction_accounts.iter() {
            let key = tc.get_key_of_account_at_index(ia.index_in_transaction).unwrap();
            let pos = account_infos
                .iter()
                .position(|i| i.unsigned_key() == key)
                .ok_or(InstructionError::MissingAccount)
                .unwrap();
            let info = &account_infos[pos];
            let mut b = ictx.try_borrow_instruction_account(tc, ia.index_in_caller).unwrap();
            if b.get_lamports() != info.lamports() {
                b.set_lamports(info.lamports()).unwrap();
            }
            let d = info.try_borrow_data().unwrap();
            match b.can_data_be_resized(d.len()).and_then(|_| b.can_data_be_changed()) {
                Ok(()) => b.set_data_from_slice(&d).unwrap(),
                Err(err) if b.get_data() != *d => panic!("{err:?}"),
                _ => {}
            }
            if b.get_owner() != info.owner {
                b.set_owner(info.owner.as_ref()).unwrap();
            }
            if ia.is_writable {
                back.push((ia.index_in_caller, pos));
            }
        }

        let mut cu = 0;
        ic.process_instruction(
            &instruction.data,
            &instruction_accounts,
            &program_indices,
            &mut cu,
            &mut ExecuteTimings::default(),
        )
        .map_err(|err| ProgramError::try_from(err).unwrap_or_else(|err| panic!("{}", err)))?;

        // runtime -> caller
        let tc = &ic.transaction_context;
        let ictx = tc.get_current_instruction_context().unwrap();
        for (idx, pos) in back {
            let b = ictx.try_borrow_instruction_account(tc, idx).unwrap();
            let info = &account_infos[pos];
            **info.try_borrow_mut_lamports().unwrap() = b.get_lamports();
            if info.owner != b.get_owner() {
                info.assign(b.get_owner());
            }
            let nd = b.get_data();
            if info.data_len() != nd.len() {
                info.realloc(nd.len(), false)?;
            }
            info.try_borrow_mut_data()?.clone_from_slice(nd);
        }
        Ok(())
    }
}

pub fn init() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            // panics inside an executing program are program failures, not harness failures
            let inside = INVOKE_CONTEXT.with(|c| c.borrow().is_some());
            if !inside {
                default(i)
            }
        }));
    });
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
/// `msg!` prints to stdout outside the real runtime; sends that to /dev/null and returns
/// the real standard output.
pub fn quiet_stdout() -> std::fs::File {
    use std::os::fd::{AsRawFd, FromRawFd};
    unsafe {
        let real = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(real)
    }
}

/// The ledger.
#[derive(Clone, Debug)]
pub struct Svm {
    pub accts: Accts,
    pub slot: u64,
    pub programs: Vec<Pubkey>, // owner programs
    /// the last transaction left an account without lamports but with data or another owner
    pub purged_state: bool,
    /// accounts the message lists although no instruction names them
    pub listed: Vec<Pubkey>,
    /// skip the rent check at the end of a transaction (to look at a part of one)
    pub lax_rent: bool,
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub enum RentState {
    Uninit,
    Exempt,
    Paying { lamports: u64, size: usize },
}
pub fn rent_state(a: &Acct) -> RentState {
    if a.lamports == 0 {
        RentState::Uninit
    } else if a.lamports >= crate::wire::rent(a.data.len()) {
        RentState::Exempt
    } else {
        RentState::Paying { lamports: a.lamports, size: a.data.len() }
    }
}
pub fn rent_transition_ok(pre: RentState, post: RentState) -> bool {
    match post {
        RentState::Uninit | RentState::Exempt => true,
        RentState::Paying { lamports, size } => match pre {
            RentState::Uninit | RentState::Exempt => false,
            RentState::Paying { lamports: l0, size: s0 } => s0 == size && lamports <= l0,
        },
    }
}

impl Svm {
    pub fn new(programs: Vec<Pubkey>) -> Svm {
        init();
        let mut accts = Accts::new();
        for p in programs.iter().chain([dlp::id(), sys()].iter()) {
            accts.insert(
                *p,
                Acct { lamports: 1_141_440, data: vec![0; 36], owner: native_loader(), executable: true },
            );
        }
        Svm { accts, slot: 1, programs, purged_state: false, listed: vec![], lax_rent: false }
    }
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or_default()
    }
    pub fn set(&mut self, k: Pubkey, a: Acct) {
        if a.is_absent() {
            self.accts.remove(&k);
        } else {
            self.accts.insert(k, a);
        }
    }
    pub fn is_program(&self, k: &Pubkey) -> bool {
        *k == dlp::id() || *k == sys() || self.programs.contains(k)
    }

    pub fn exec(&mut self, tx: &Tx) -> TxResult {
        let metas = effective_metas(tx);
        // accounts of the message
        let mut keys: Vec<Pubkey> = vec![];
        let mut writable: BTreeSet<Pubkey> = BTreeSet::new();
        {
            let mut add = |k: Pubkey| {
                if !keys.contains(&k) {
                    keys.push(k)
                }
            };
            if let Some(k) = tx.fee_payer {
                add(k);
            }
            for (ix, ms) in tx.ixs.iter().zip(&metas) {
                for m in ms {
                    add(m.key);
                    if m.writable {
                        writable.insert(m.key);
                    }
                }
                add(ix.program_id);
            }
            for k in &self.listed {
                add(*k);
            }
        }
        let e = env();
        let accounts: Vec<(Pubkey, AccountSharedData)> = keys
            .iter()
            .map(|k| {
                let a = self.get(k);
                (
                    *k,
                    AccountSharedData::from(Account {
                        lamports: a.lamports,
                        data: a.data,
                        owner: a.owner,
                        executable: a.executable,
                        rent_epoch: u64::MAX,
                    }),
                )
            })
            .collect();
        let mut cache = ProgramCacheForTxBatch::new(self.slot, e.envs.clone(), None, 0);
        cache.replenish(dlp::id(), e.dlp.clone());
        cache.replenish(sys(), e.system.clone());
        for p in &self.programs {
            cache.replenish(*p, e.owner.clone());
        }
        let mut sysvars = SysvarCache::default();
        sysvars.set_sysvar_for_tests(&Clock { slot: self.slot, ..Clock::default() });
        sysvars.set_sysvar_for_tests(&Rent::default());
        sysvars.set_sysvar_for_tests(&EpochSchedule::default());
        let mut tc = TransactionContext::new(accounts, Rent::default(), 5, 64);
        let cb = |_: &Pubkey| 0u64;
        let mut result = TxResult::Ok;
        {
            let mut ic = InvokeContext::new(
                &mut tc,
                &mut cache,
                EnvironmentConfig::new(Hash::default(), 0, 0, &cb, e.features.clone(), &sysvars),
                None,
                ComputeBudget::default(),
            );
            for (n, (ix, ms)) in tx.ixs.iter().zip(&metas).enumerate() {
                let idx = |k: &Pubkey| keys.iter().position(|x| x == k).unwrap() as IndexOfAccount;
                let mut ias: Vec<InstructionAccount> = Vec::with_capacity(ms.len());
                for (i, m) in ms.iter().enumerate() {
                    let t = idx(&m.key);
                    let callee = ms[..i].iter().position(|x| x.key == m.key).unwrap_or(i);
                    ias.push(InstructionAccount {
                        index_in_transaction: t,
                        index_in_caller: t,
                        index_in_callee: callee as IndexOfAccount,
                        is_signer: m.signer,
                        is_writable: m.writable,
                    });
                }
                let mut cu = 0;
                let r = ic.process_instruction(
                    &ix.data,
                    &ias,
                    &[idx(&ix.program_id)],
                    &mut cu,
                    &mut ExecuteTimings::default(),
                );
                if let Err(err) = r {
                    result = TxResult::Err(n, err);
                    break;
                }
            }
        }
        INVOKE_CONTEXT.with(|c| *c.borrow_mut() = None);
        if !result.is_ok() {
            return result;
        }
        self.purged_state = false;
        let mut post: Vec<(Pubkey, Acct)> = vec![];
        for (i, k) in keys.iter().enumerate() {
            let a = tc.get_account_at_index(i as IndexOfAccount).unwrap().borrow();
            let mut n = Acct {
                lamports: a.lamports(),
                data: a.data().to_vec(),
                owner: *a.owner(),
                executable: a.executable(),
            };
            let pre = self.get(k);
            if !self.lax_rent && writable.contains(k) && !rent_transition_ok(rent_state(&pre), rent_state(&n)) {
                return TxResult::RentErr(*k);
            }
            if n.lamports == 0 {
                self.purged_state |= !n.is_absent();
                n = Acct::default(); // zero-lamport accounts cease to exist
            }
            if n != pre {
                post.push((*k, n));
            }
        }
        for (k, a) in post {
            self.set(k, a);
        }
        TxResult::Ok
    }
}
