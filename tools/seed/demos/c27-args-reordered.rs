#![allow(dead_code, unused_imports)]
mod owner;
mod rig;
mod svm;
mod wire;
use rig::*;
use solana_program::pubkey::Pubkey;
use wire::*;

fn main() {
    let mut r = Rig::new();
    r.delegate(vec![7; 20], SOL);
    let a = dlp::args::CommitStateArgs { slot: 3, lamports: 1 << 40, allow_undelegation: true, data: vec![9, 8] };
    let ix = dlp::instruction_builder::commit_state(r.v, r.acct, r.prog, a);
    let want = [&3u64.to_le_bytes()[..], &(1u64 << 40).to_le_bytes()[..], &[1], &2u32.to_le_bytes()[..], &[9, 8]].concat();
    expect(ix.data[8..] == want, "commit arguments have the published layout");
}
