//! Native stand-ins for the owner programs. All owner program ids share this code.
//!
//! * `0xD0` delegate: the published delegation flow (move data to the buffer PDA, hand the
//!   account to the delegation program, call it with the account's signature, close the buffer).
//! * external undelegate discriminator: re-open the account with the buffered data, or follow
//!   the hostile plan installed for the current transaction.

use crate::wire::{Dec, Enc, DLP, UNDELEGATE_DISC};
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program::{invoke, invoke_signed},
    program_error::ProgramError,
    pubkey::Pubkey,
    system_instruction, system_program,
};
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    /// re-create the account, with `lam` lamports above/below rent and `size` bytes more/less
    Reopen { lam: i64, size: i64 },
    CopyData,
    FlipByte(usize),
    ZeroData,
    Resize(i64),
    /// system transfer out of the validator's wallet
    ChargeValidator { to_buffer: bool, amt: u64 },
    /// give lamports of the re-opened account to the validator
    PayValidator(u64),
    /// give lamports of the re-opened account to the undelegation buffer
    PayBuffer(u64),
    AssignValidator { to_self: bool },
    AllocateValidator(u64),
    /// hand the re-opened account on to another program
    AssignAccount,
    Reenter,
    Fail,
    Panic,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Callback {
    pub program: Pubkey,
    pub seeds: Option<Vec<Vec<u8>>>,
    pub keys: Vec<Pubkey>,
    pub buffer_data: Vec<u8>,
    pub signer_flags: Vec<bool>,
    /// validator lamports on entry
    pub v_before: u64,
    /// (validator lamports, account data, account lamports, account owner) when it returned Ok
    pub after: Option<(u64, Vec<u8>, u64, Pubkey)>,
}

thread_local! {
    static PLAN: RefCell<Option<Vec<Step>>> = const { RefCell::new(None) };
    static CALLS: RefCell<Vec<Callback>> = const { RefCell::new(vec![]) };
}
pub fn set_plan(p: Option<Vec<Step>>) {
    PLAN.with(|c| *c.borrow_mut() = p);
}
pub fn take_calls() -> Vec<Callback> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

pub fn process(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() >= 8 && data[..8] == UNDELEGATE_DISC {
        return external_undelegate(program_id, accounts, &data[8..]);
    }
    match data.first() {
        Some(0xD0) => delegate(program_id, accounts, &data[1..]),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn create<'a>(
    payer: &AccountInfo<'a>,
    target: &AccountInfo<'a>,
    sysp: &AccountInfo<'a>,
    lamports: u64,
    space: usize,
    owner: &Pubkey,
    seeds: &[&[u8]],
) -> ProgramResult {
    if target.lamports() == 0 {
        invoke_signed(
            &system_instruction::create_account(payer.key, target.key, lamports, space as u64, owner),
            &[payer.clone(), target.clone(), sysp.clone()],
            &[seeds],
        )
    } else {
        let missing = lamports.saturating_sub(target.lamports());
        if missing > 0 {
            invoke(
                &system_instruction::transfer(payer.key, target.key, missing),
                &[payer.clone(), target.clone(), sysp.clone()],
            )?;
        }
        invoke_signed(
            &system_instruction::allocate(target.key, space as u64),
            &[target.clone(), sysp.clone()],
            &[seeds],
        )?;
        invoke_signed(
            &system_instruction::assign(target.key, owner),
            &[target.clone(), sysp.clone()],
            &[seeds],
        )
    }
}

fn delegate(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let [payer, acct, this, buffer, record, metadata, sysp, dlp] = accounts else {
        return Err(ProgramError::NotEnoughAccountKeys);
    };
    let mut d = Dec(data);
    let seeds = d.seeds().ok_or(ProgramError::InvalidInstructionData)?;
    let args = d.0;
    // the owner program only delegates accounts it owns
    if acct.owner != program_id {
        return Err(ProgramError::IllegalOwner);
    }
    let (bk, bump) = Pubkey::find_program_address(&[b"buffer", acct.key.as_ref()], program_id);
    if bk != *buffer.key {
        return Err(ProgramError::InvalidSeeds);
    }
    create(
        payer,
        buffer,
        sysp,
        crate::wire::rent(acct.data_len()),
        acct.data_len(),
        program_id,
        &[b"buffer", acct.key.as_ref(), &[bump]],
    )?;
    buffer.try_borrow_mut_data()?.copy_from_slice(&acct.try_borrow_data()?);
    acct.try_borrow_mut_data()?.fill(0);
    acct.assign(&DLP);

    let mut ix_data = 0u64.to_le_bytes().to_vec();
    ix_data.extend_from_slice(args);
    let ix = Instruction {
        program_id: DLP,
        accounts: vec![
            AccountMeta::new(*payer.key, true),
            AccountMeta::new(*acct.key, true),
            AccountMeta::new_readonly(*program_id, false),
            AccountMeta::new(*buffer.key, false),
            AccountMeta::new(*record.key, false),
            AccountMeta::new(*metadata.key, false),
            AccountMeta::new_readonly(system_program::ID, false),
        ],
        data: ix_data,
    };
    let infos = [
        payer.clone(),
        acct.clone(),
        this.clone(),
        buffer.clone(),
        record.clone(),
        metadata.clone(),
        sysp.clone(),
        dlp.clone(),
    ];
    if acct.is_signer {
        invoke(&ix, &infos)?;
    } else {
        let mut s: Vec<&[u8]> = seeds.iter().map(|v| v.as_slice()).collect();
        let (_, b) = Pubkey::find_program_address(&s, program_id);
        let b = [b];
        s.push(&b);
        invoke_signed(&ix, &infos, &[&s])?;
    }
    // close the buffer
    **payer.try_borrow_mut_lamports()? += buffer.lamports();
    **buffer.try_borrow_mut_lamports()? = 0;
    buffer.realloc(0, false)?;
    buffer.assign(&system_program::ID);
    Ok(())
}

fn external_undelegate(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let seeds = {
        let mut d = Dec(data);
        let s = d.seeds();
        s.and_then(|s| d.end(s))
    };
    CALLS.with(|c| {
        c.borrow_mut().push(Callback {
            program: *program_id,
            seeds: seeds.clone(),
            keys: accounts.iter().map(|a| *a.key).collect(),
            buffer_data: accounts.get(1).map(|b| b.data.borrow().to_vec()).unwrap_or_default(),
            signer_flags: accounts.iter().map(|a| a.is_signer).collect(),
            v_before: accounts.get(2).map_or(0, |a| a.lamports()),
            after: None,
        })
    });
    let plan = PLAN.with(|p| p.borrow().clone());
    let [acct, buffer, payer, sysp] = accounts else {
        return Err(ProgramError::NotEnoughAccountKeys);
    };
    let seeds = seeds.ok_or(ProgramError::InvalidInstructionData)?;
    let plan = plan.unwrap_or_else(|| vec![Step::Reopen { lam: 0, size: 0 }, Step::CopyData]);
    if !buffer.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let s: Vec<&[u8]> = seeds.iter().map(|v| v.as_slice()).collect();
    for st in plan {
        match st {
            Step::Reopen { lam, size } => {
                let n = (buffer.data_len() as i64 + size).max(0) as usize;
                let l = (crate::wire::rent(n) as i64 + lam).max(0) as u64;
                let (_, b) = Pubkey::find_program_address(&s, program_id);
                let b = [b];
                let mut s2 = s.clone();
                s2.push(&b);
                create(payer, acct, sysp, l, n, program_id, &s2)?;
            }
            Step::CopyData => {
                let src = buffer.try_borrow_data()?;
                let mut dst = acct.try_borrow_mut_data()?;
                let n = src.len().min(dst.len());
                dst[..n].copy_from_slice(&src[..n]);
            }
            Step::FlipByte(i) => {
                let mut dst = acct.try_borrow_mut_data()?;
                let n = dst.len();
                if n > 0 {
                    dst[i % n] ^= 1 << (i % 8);
                }
            }
            Step::ZeroData => acct.try_borrow_mut_data()?.fill(0),
            Step::Resize(d) => {
                let n = (acct.data_len() as i64 + d).max(0) as usize;
                acct.realloc(n, false)?;
            }
            Step::ChargeValidator { to_buffer, amt } => {
                let to = if to_buffer { buffer } else { acct };
                invoke(
                    &system_instruction::transfer(payer.key, to.key, amt),
                    &[payer.clone(), to.clone(), sysp.clone()],
                )?;
            }
            Step::PayValidator(a) => {
                let a = a.min(acct.lamports());
                **acct.try_borrow_mut_lamports()? -= a;
                **payer.try_borrow_mut_lamports()? += a;
            }
            Step::PayBuffer(a) => {
                let a = a.min(acct.lamports());
                **acct.try_borrow_mut_lamports()? -= a;
                **buffer.try_borrow_mut_lamports()? += a;
            }
            Step::AssignValidator { to_self } => {
                let o = if to_self { *program_id } else { DLP };
                invoke(&system_instruction::assign(payer.key, &o), &[payer.clone(), sysp.clone()])?;
            }
            Step::AllocateValidator(n) => {
                invoke(&system_instruction::allocate(payer.key, n), &[payer.clone(), sysp.clone()])?;
            }
            Step::AssignAccount => acct.assign(&DLP),
            Step::Reenter => {
                let mut data = 7u64.to_le_bytes().to_vec();
                data.extend(Enc::default().u8(0).0);
                let ix = Instruction {
                    program_id: DLP,
                    accounts: vec![AccountMeta::new(*payer.key, true)],
                    data,
                };
                invoke(&ix, &[payer.clone()])?;
            }
            Step::Fail => return Err(ProgramError::Custom(77)),
            Step::Panic => panic!("owner program aborts"),
        }
    }
    let after = (payer.lamports(), acct.data.borrow().to_vec(), acct.lamports(), *acct.owner);
    CALLS.with(|c| c.borrow_mut().last_mut().unwrap().after = Some(after));
    Ok(())
}
