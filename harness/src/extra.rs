//! Checks that relate several executions (metamorphic and differential relations), and the
//! checks of the client-side parts: instruction builders, address functions and codecs.

use crate::check::{compare_post, ix_tag, judge, show_acct, Props};
use crate::model::{self, Note, Pred, TxPred};
use crate::owner;
use crate::pbt::{hash_of, Case, Failure, Src};
use crate::svm::{effective_metas, sys, Acct, Accts, Svm, Tx, TxResult};
use crate::wire::{self, *};
use crate::world::*;
use borsh::{BorshDeserialize, BorshSerialize};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::collections::{BTreeMap, BTreeSet};

fn fail(c: &mut Case, sig: impl Into<String>, msg: impl Into<String>) {
    if c.fail.is_none() {
        c.fail = Some(Failure { sig: sig.into(), msg: msg.into() });
    }
}

fn first_diff(a: &Accts, b: &Accts) -> Option<String> {
    let keys: BTreeSet<&Pubkey> = a.keys().chain(b.keys()).collect();
    for k in keys {
        let (x, y) = (get(a, k), get(b, k));
        if x != y {
            return Some(format!("{}: {} versus {}", named(k), show_acct(&x), show_acct(&y)));
        }
    }
    None
}

fn run(svm: &Svm, tx: &Tx) -> (TxResult, Svm) {
    let mut s = svm.clone();
    owner::set_plan(None);
    let r = s.exec(tx);
    owner::take_calls();
    (r, s)
}

// ------------------------------------------------------------------ C22: independence

/// Accounts two independent transactions may both touch because they only act as purses.
fn purse(w: &World, k: &Pubkey) -> bool {
    (pool().wallets.contains(k) || *k == TEST_AUTHORITY) && w.svm.get(k).owner == sys()
}

pub fn independence(src: &mut Src, pr: &Profile, utc: bool) -> Case {
    let mut c = Case::default();
    let mut w = World::gen(src, pr, utc);
    // make room for a second entity
    for _ in 0..2 {
        let t = gen_target(src);
        if !w.targets.iter().any(|x| x.key == t.key) {
            w.seed_target(src, &t, true, pr.big);
            w.targets.push(t);
        }
    }
    let n = src.range(1, 4);
    for _ in 0..n {
        if src.span(|src| independence_step(src, &mut w, pr, &mut c)) {
            break;
        }
    }
    c
}
fn independence_step(src: &mut Src, w: &mut World, pr: &Profile, c: &mut Case) -> bool {
    let a = w.gen_tx(src, pr);
    let b = w.gen_tx(src, pr);
    src.say(|| format!("A = {} ; B = {}", show_tx(&a.tx), show_tx(&b.tx)));
    let metas = |t: &Tx| -> BTreeMap<Pubkey, bool> {
        let mut m = BTreeMap::new();
        for x in effective_metas(t).into_iter().flatten() {
            *m.entry(x.key).or_insert(false) |= x.writable;
        }
        if let Some(k) = t.fee_payer {
            m.insert(k, true);
        }
        m
    };
    let (ma, mb) = (metas(&a.tx), metas(&b.tx));
    let tags = |t: &Tx| t.ixs.iter().map(|i| ix_tag(i).unwrap_or(255)).collect::<Vec<_>>();
    let additive = tags(&a.tx).iter().chain(tags(&b.tx).iter()).all(|t| matches!(*t, tag::FINALIZE | tag::UNDELEGATE | tag::COMMIT | tag::COMMIT_FROM_BUFFER));
    let vaults: BTreeSet<Pubkey> = w.validators.iter().map(validator_vault_pda).chain([fees_vault_pda()]).collect();
    let mut shared = vec![];
    let mut disjoint = true;
    for (k, wa) in &ma {
        if let Some(wb) = mb.get(k) {
            if *wa || *wb {
                if purse(w, k) || (additive && vaults.contains(k)) {
                    shared.push(*k);
                } else {
                    disjoint = false;
                }
            }
        }
    }
    let base = w.svm.clone();
    let (ra, sa) = run(&base, &a.tx);
    c.steps += 1;
    // a transaction leaves everything it does not name alone
    for (k, x) in &base.accts {
        if !ma.get(k).copied().unwrap_or(false) && sa.accts.get(k) != Some(x) {
            fail(c, "unnamed account changed", format!("{} is not writable in the transaction but went from {} to {}", named(k), show_acct(x), show_acct(&sa.get(k))));
            return true;
        }
    }
    for k in sa.accts.keys() {
        if !base.accts.contains_key(k) && !ma.get(k).copied().unwrap_or(false) {
            fail(c, "unnamed account created", format!("{} was created without being named", named(k)));
            return true;
        }
    }
    // the presence of unrelated entities does not matter
    let keep: Accts = base.accts.iter().filter(|(k, _)| ma.contains_key(k) || base.is_program(k)).map(|(k, v)| (*k, v.clone())).collect();
    let mut small = base.clone();
    small.accts = keep;
    let (rs, ss) = run(&small, &a.tx);
    c.steps += 1;
    if rs.is_ok() != ra.is_ok() {
        fail(c, "depends on unrelated accounts", format!("result {ra:?} with and {rs:?} without the unrelated accounts"));
        return true;
    }
    for k in ma.keys() {
        if ss.get(k) != sa.get(k) {
            fail(c, "depends on unrelated accounts", format!("{}: {} with and {} without the unrelated accounts", named(k), show_acct(&sa.get(k)), show_acct(&ss.get(k))));
            return true;
        }
    }
    if ra.is_ok() {
        c.labels.push("frame and presence relation on a successful transaction");
        c.nontrivial.push(hash_of(&(show_tx(&a.tx), 1)));
    }
    if !disjoint {
        w.svm = sa;
        return false;
    }
    // whether a shared purse can afford both is not at issue: fill it up
    let (ra, rb, sa, sb) = if shared.is_empty() {
        let (rb, sb) = run(&base, &b.tx);
        (ra, rb, sa, sb)
    } else {
        let mut rich = base.clone();
        for k in shared.iter().filter(|k| purse(w, k)) {
            let mut x = rich.get(k);
            x.lamports += 1_000_000 * SOL;
            rich.set(*k, x);
        }
        let (ra, sa) = run(&rich, &a.tx);
        let (rb, sb) = run(&rich, &b.tx);
        c.steps += 1;
        (ra, rb, sa, sb)
    };
    if shared.iter().any(|k| purse(w, k) && [&sa, &sb].iter().any(|s| s.get(k).owner != sys() || !s.get(k).data.is_empty())) {
        // its holder gave the shared wallet away
        w.svm = sa;
        return false;
    }
    let (rab, sab) = run(&sa, &b.tx);
    let (rba, sba) = run(&sb, &a.tx);
    c.steps += 3;
    src.say(|| format!("A {ra:?}, B {rb:?}, B after A {rab:?}, A after B {rba:?}"));
    if rab.is_ok() != rb.is_ok() || rba.is_ok() != ra.is_ok() {
        fail(c, "order matters", format!("alone: A {ra:?} B {rb:?}; after the other: A {rba:?} B {rab:?}"));
        return true;
    }
    if let Some(d) = first_diff(&sab.accts, &sba.accts) {
        fail(c, "order matters", format!("A then B and B then A give different ledgers: {d}"));
        return true;
    }
    if ra.is_ok() && rb.is_ok() {
        c.labels.push("two successful disjoint transactions commute");
        c.nontrivial.push(hash_of(&(show_tx(&a.tx), show_tx(&b.tx))));
    }
    w.svm = sab;
    false
}

// ------------------------------------------------------------------ C23: buffer equivalence

pub fn buffer_eq(src: &mut Src, pr: &Profile, utc: bool) -> Case {
    let mut c = Case::default();
    let mut w = World::gen(src, pr, utc);
    let n = src.range(1, pr.max_ops);
    for _ in 0..n {
        if src.span(|src| buffer_step(src, &mut w, pr, &mut c)) {
            break;
        }
    }
    c
}
fn buffer_step(src: &mut Src, w: &mut World, pr: &Profile, c: &mut Case) -> bool {
    if !src.chance(3, 5) {
        // move the history on
        let p = w.gen_tx(src, pr);
        src.say(|| show_tx(&p.tx));
        let (_, s) = run(&w.svm, &p.tx);
        c.steps += 1;
        w.svm = s;
        return false;
    }
    let accts = w.svm.accts.clone();
    let mut edits = vec![];
    let mut direct = w.gen_op(src, &accts, op::COMMIT, pr, &mut edits);
    let mut args = CommitArgs::dec(&direct.data[8..]).unwrap();
    // the buffer: a scratch account of any owner, or an account that happens to exist
    let key;
    match src.weighted(&[8, 2]) {
        0 => {
            key = *src.pick(&[pool().fresh[4], pool().fresh[5], w.extras[0]]);
            let owner = *src.pick(&[pool().progs[0], pool().progs[2], sys(), DLP, upgradeable_loader_key()]);
            let l = wire::rent(args.data.len()) + src.upto(3);
            if src.chance(1, 12) {
                args.data = vec![];
                w.svm.accts.remove(&key);
            } else {
                let mut d = args.data.clone();
                if src.chance(1, 3) {
                    // looks like something else
                    let t: &[u8] = *src.pick(&[&[100u8][..], &[103], &[0xFF; 8], &[101, 0, 0, 0, 0, 0, 0, 0]]);
                    for (i, b) in t.iter().enumerate() {
                        if i < d.len() {
                            d[i] = *b;
                        }
                    }
                    args.data = d.clone();
                }
                w.svm.set(key, Acct { lamports: l, data: d, owner, executable: false });
            }
        }
        _ => {
            let keys: Vec<Pubkey> = accts.iter().filter(|(_, a)| a.data.len() <= 1000).map(|(k, _)| *k).collect();
            key = *src.pick(&keys);
            args.data = accts[&key].data.clone();
        }
    }
    direct.data.truncate(8);
    direct.data.extend(args.enc());
    if src.chance(pr.mutate, 64) {
        let l = w.mutate(src, &accts, &mut direct, pr, &mut edits);
        c.labels.push(l);
        if direct.data[..] != [&1u64.to_le_bytes()[..], &args.enc()].concat()[..] || direct.accounts.len() != 9 {
            return false;
        }
        for (k, a) in edits.drain(..) {
            if k != key {
                w.svm.set(k, a);
            }
        }
    }
    let mut d = Tx::one(direct.clone());
    w.sanitize(&mut d);
    let direct = d.ixs[0].clone();
    if [0, 2, 3, 5].iter().any(|i| direct.accounts[*i].pubkey == key) {
        return false;
    }
    let mut buf = direct.clone();
    buf.data = [&(tag::COMMIT_FROM_BUFFER as u64).to_le_bytes()[..], &args.enc_no_data()].concat();
    // read-only, as published; the buffer stays the caller's
    buf.accounts.insert(6, AccountMeta::new_readonly(key, false));
    if src.chance(1, 8) {
        let k = w.any_wallet(src);
        d.fee_payer = Some(k);
    }
    let b = Tx { ixs: vec![buf], fee_payer: d.fee_payer };
    src.say(|| format!("{} versus {} with buffer {}", show_tx(&d), show_tx(&b), show_acct(&w.svm.get(&key))));
    let before = w.svm.get(&key);
    let (r1, s1) = run(&w.svm, &d);
    let (r2, s2) = run(&w.svm, &b);
    c.steps += 2;
    src.say(|| format!("-> {r1:?} / {r2:?}"));
    if r1.is_ok() != r2.is_ok() {
        fail(c, "different outcome", format!("direct commit: {r1:?}, commit from buffer: {r2:?}"));
        return true;
    }
    if let Some(x) = first_diff(&s1.accts, &s2.accts) {
        fail(c, "different result", format!("direct commit and commit from buffer leave different accounts: {x}"));
        return true;
    }
    if !s2.get(&key).eq(&before) && s1.get(&key) == before {
        fail(c, "buffer modified", format!("the buffer went from {} to {}", show_acct(&before), show_acct(&s2.get(&key))));
        return true;
    }
    let changed = s1.accts != w.svm.accts;
    c.labels.push(match (r1.is_ok(), changed) {
        (true, true) => "both commits took effect",
        (true, false) => "both commits were skipped as outdated",
        _ => "both commits were refused",
    });
    c.nontrivial.push(hash_of(&(show_tx(&d), r1.is_ok(), changed, args.data.len())));
    w.svm = s1;
    false
}
fn upgradeable_loader_key() -> Pubkey {
    crate::svm::upgradeable_loader()
}

// ------------------------------------------------------------------ C24: bundles

pub fn bundles(src: &mut Src, pr: &Profile, utc: bool) -> Case {
    let mut c = Case::default();
    let mut w = World::gen(src, pr, utc);
    let n = src.range(1, pr.max_ops);
    for _ in 0..n {
        if src.span(|src| bundle_step(src, &mut w, pr, &mut c)) {
            break;
        }
    }
    c
}
fn bundle_step(src: &mut Src, w: &mut World, pr: &Profile, c: &mut Case) -> bool {
    let p = w.gen_tx(src, pr);
    src.say(|| show_tx(&p.tx));
    let (rb, sb) = run(&w.svm, &p.tx);
    c.steps += 1;
    src.say(|| format!("-> {rb:?}"));
    if !rb.is_ok() {
        if let Some(x) = first_diff(&w.svm.accts, &sb.accts) {
            fail(c, "failed bundle has effects", x);
            return true;
        }
    }
    let n = p.tx.ixs.len();
    if n > 1 {
        let metas = effective_metas(&p.tx);
        let mut s = w.svm.clone();
        // which programs a step can call depends on what the whole message lists
        s.listed = p.tx.ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey).chain([i.program_id])).collect();
        let mut res = TxResult::Ok;
        let mut ok = 0;
        let mut skip = false;
        for (i, ix) in p.tx.ixs.iter().enumerate() {
            let mut ix = ix.clone();
            for (m, e) in ix.accounts.iter_mut().zip(&metas[i]) {
                m.is_signer = e.signer;
                m.is_writable = e.writable;
            }
            let (r, s2) = run(&s, &Tx { ixs: vec![ix], fee_payer: p.tx.fee_payer });
            c.steps += 1;
            match r {
                TxResult::Ok => {}
                TxResult::Err(_, e) => {
                    res = TxResult::Err(i, e);
                    break;
                }
                TxResult::RentErr(_) => skip = true,
            }
            // the ledger drops an account without lamports between transactions, not between steps
            for a in s2.accts.values() {
                skip |= a.lamports == 0 && !a.is_absent();
            }
            skip |= s2.purged_state;
            ok += 1;
            s = s2;
        }
        if skip {
            c.labels.push("skipped: an intermediate state would not survive between transactions");
        } else {
            src.say(|| format!("one by one -> {res:?}"));
            let same = match (&rb, &res) {
                (TxResult::Ok, TxResult::Ok) => true,
                (TxResult::Err(i, _), TxResult::Err(j, _)) => i == j,
                _ => false,
            };
            if !same {
                fail(c, "bundle differs from sequence", format!("bundle: {rb:?}, one by one: {res:?}"));
                return true;
            }
            if rb.is_ok() {
                if let Some(x) = first_diff(&sb.accts, &s.accts) {
                    fail(c, "bundle differs from sequence", format!("bundle and sequence leave different accounts: {x}"));
                    return true;
                }
                c.labels.push("bundle succeeded like its sequence");
            } else if ok > 0 {
                c.labels.push("bundle failed at the step where its sequence fails");
            }
            if rb.is_ok() || ok > 0 {
                c.nontrivial.push(hash_of(&show_tx(&p.tx)));
            }
        }
    }
    w.svm = sb;
    false
}

// ------------------------------------------------------------------ C25: pre-funding

pub fn prefund(src: &mut Src, pr: &Profile, utc: bool) -> Case {
    let mut c = Case::default();
    let mut w = World::gen(src, pr, utc);
    let n = src.range(1, pr.max_ops);
    for _ in 0..n {
        if src.span(|src| prefund_step(src, &mut w, pr, &mut c)) {
            break;
        }
    }
    c
}
fn prefund_step(src: &mut Src, w: &mut World, pr: &Profile, c: &mut Case) -> bool {
    let p = w.gen_tx(src, pr);
    src.say(|| show_tx(&p.tx));
    let (r, s) = run(&w.svm, &p.tx);
    c.steps += 1;
    if !r.is_ok() {
        return false;
    }
    // a plain transfer or account creation is not a protocol step
    if p.tx.ixs.iter().any(|i| i.program_id == sys()) {
        w.svm = s;
        return false;
    }
    // addresses the protocol derives that do not exist yet and are named by the transaction
    let tags: Vec<u8> = p.tx.ixs.iter().map(|i| ix_tag(i).unwrap_or(255)).collect();
    let named_keys: BTreeSet<Pubkey> = p.tx.ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).collect();
    let mut derived: Vec<Pubkey> = vec![];
    for t in &w.targets {
        derived.extend([
            record_pda(&t.key),
            metadata_pda(&t.key),
            commit_state_pda(&t.key),
            commit_record_pda(&t.key),
            undelegate_buffer_pda(&t.key),
            delegate_buffer_pda(&t.key, &t.owner),
            config_pda(&t.owner),
        ]);
    }
    derived.extend(w.validators.iter().map(validator_vault_pda));
    derived.push(fees_vault_pda());
    if tags == [tag::TOP_UP] {
        derived.extend(w.targets.iter().filter(|t| matches!(t.kind, Kind::Escrow { .. })).map(|t| t.key));
    }
    // amounts read from a vault legitimately follow its balance
    let claims = tags.iter().any(|t| matches!(*t, tag::VALIDATOR_CLAIM | tag::PROTOCOL_CLAIM | tag::CLOSE_VALIDATOR_VAULT));
    if claims && tags.len() > 1 {
        w.svm = s;
        return false;
    }
    derived.retain(|k| named_keys.contains(k) && w.svm.get(k).is_absent());
    derived.sort();
    derived.dedup();
    if derived.is_empty() {
        w.svm = s;
        return false;
    }
    let mut rich = w.svm.clone();
    let mut given: BTreeMap<Pubkey, u64> = BTreeMap::new();
    for k in &derived {
        if src.chance(1, 2) {
            continue;
        }
        let need = s.get(k).lamports;
        let d = match src.upto(4) {
            0 => wire::rent(0),
            1 => need.saturating_sub(src.upto(2)),
            2 => need + src.upto(SOL),
            3 => wire::rent(0) + src.upto(need),
            _ => SOL + src.upto(SOL),
        }
        .max(wire::rent(0));
        rich.set(*k, Acct::wallet(d));
        given.insert(*k, d);
    }
    if given.is_empty() {
        given.insert(derived[0], wire::rent(0));
        rich.set(derived[0], Acct::wallet(wire::rent(0)));
    }
    let total: u64 = given.values().sum();
    let (r2, s2) = run(&rich, &p.tx);
    c.steps += 1;
    src.say(|| format!("-> Ok; with {} funded: {r2:?}", given.iter().map(|(k, d)| format!("{}={d}", named(k))).collect::<Vec<_>>().join(" ")));
    if let TxResult::RentErr(k) = &r2 {
        // the payer keeps a little more than nothing, which the ledger does not allow either
        if pool().wallets.contains(k) || pool().fee.contains(k) || w.svm.get(k).owner == sys() && !given.contains_key(k) {
            c.labels.push("skipped: the saving leaves the payer below the rent-exempt minimum");
            w.svm = s;
            return false;
        }
    }
    if !r2.is_ok() {
        fail(c, "blocked by pre-funding", format!("the transaction fails with {r2:?} once somebody sent lamports to {:?}", given.keys().map(named).collect::<Vec<_>>()));
        return true;
    }
    let keys: BTreeSet<&Pubkey> = s.accts.keys().chain(s2.accts.keys()).collect();
    for k in keys {
        let (a, b) = (s.get(k), s2.get(k));
        if a.data != b.data || a.owner != b.owner {
            fail(c, "content distorted by pre-funding", format!("{}: {} without and {} with pre-funding", named(k), show_acct(&a), show_acct(&b)));
            return true;
        }
        if let Some(d) = given.get(k) {
            if !a.is_absent() {
                let top_up = tags == [tag::TOP_UP];
                let ok = if top_up {
                    b.lamports >= a.lamports.max(*d) || b.lamports >= *d
                } else {
                    b.lamports == a.lamports.max(*d) || b.lamports >= a.lamports && b.lamports <= a.lamports + d
                };
                if !ok || b.lamports < wire::rent(b.data.len()) {
                    fail(c, "balance distorted by pre-funding", format!("{}: {} without and {} with {d} lamports sent before", named(k), show_acct(&a), show_acct(&b)));
                    return true;
                }
            }
        } else if b.lamports < a.lamports || b.lamports - a.lamports > total {
            fail(c, "somebody pays more", format!("{}: {} without and {} with pre-funding", named(k), show_acct(&a), show_acct(&b)));
            return true;
        }
    }
    // the payer pays only what is missing: nothing of the donation is needed twice
    let created: Vec<&Pubkey> = given.keys().filter(|k| !s.get(k).is_absent()).collect();
    if created.len() == given.len() && tags.len() == 1 && tags[0] != tag::TOP_UP && !created.is_empty() {
        let exact = tags[0] != tag::COMMIT && tags[0] != tag::COMMIT_FROM_BUFFER;
        let surplus: u64 = created.iter().map(|k| given[*k].saturating_sub(s.get(k).lamports)).sum();
        let gained: u64 = w.svm.accts.keys().filter(|k| !given.contains_key(k)).map(|k| s2.get(k).lamports.saturating_sub(s.get(k).lamports)).sum();
        if exact && gained + surplus != total {
            fail(c, "payer pays more than missing", format!("of {total} lamports sent in advance only {gained} were saved by the payer, {surplus} were more than needed"));
            return true;
        }
    }
    for t in &tags {
        c.labels.push(match *t {
            tag::DELEGATE => "pre-funded delegate",
            tag::COMMIT | tag::COMMIT_FROM_BUFFER => "pre-funded commit",
            tag::FINALIZE => "pre-funded finalize",
            tag::UNDELEGATE => "pre-funded undelegate",
            tag::INIT_VALIDATOR_VAULT | tag::INIT_PROTOCOL_VAULT => "pre-funded vault",
            tag::WHITELIST => "pre-funded whitelist",
            tag::TOP_UP => "pre-funded escrow",
            tag::DELEGATE_ESCROW => "pre-funded escrow delegation",
            _ => "pre-funded other",
        });
    }
    c.nontrivial.push(hash_of(&(show_tx(&p.tx), format!("{given:?}"))));
    w.svm = s;
    false
}

// ------------------------------------------------------------------ C26: builders and addresses

/// What the top-up builder adds when no amount is given.
const DEFAULT_TOP_UP: u64 = 10_000;

/// The public builder's instruction for the same inputs as the reference instruction.
fn built(src: &mut Src, ix: &Instruction) -> Option<Instruction> {
    use dlp::instruction_builder as b;
    let k = |i: usize| ix.accounts[i].pubkey;
    let mut d = Dec(&ix.data[8..]);
    let cb = |a: DelegateArgs| dlp::args::DelegateArgs { commit_frequency_ms: a.freq, seeds: a.seeds, validator: a.validator };
    Some(match ix.data[0] {
        tag::DELEGATE => {
            let a = DelegateArgs::dec(d.0)?;
            let owner = if k(2) == sys() && src.chance(1, 2) { None } else { Some(k(2)) };
            b::delegate(k(0), k(1), owner, cb(a))
        }
        tag::COMMIT => {
            let a = CommitArgs::dec(d.0)?;
            b::commit_state(
                k(0),
                k(1),
                src_owner(ix)?,
                dlp::args::CommitStateArgs { slot: a.slot, lamports: a.lamports, allow_undelegation: a.allow, data: a.data },
            )
        }
        tag::COMMIT_FROM_BUFFER => {
            let a = CommitArgs::dec_no_data(d.0)?;
            b::commit_state_from_buffer(
                k(0),
                k(1),
                src_owner(ix)?,
                k(6),
                dlp::args::CommitStateFromBufferArgs { slot: a.slot, lamports: a.lamports, allow_undelegation: a.allow },
            )
        }
        tag::FINALIZE => b::finalize(k(0), k(1)),
        tag::UNDELEGATE => b::undelegate(k(0), k(1), k(2), k(8)),
        tag::INIT_PROTOCOL_VAULT => b::init_protocol_fees_vault(k(0)),
        tag::INIT_VALIDATOR_VAULT => b::init_validator_fees_vault(k(0), k(1), k(3)),
        tag::CLOSE_VALIDATOR_VAULT => b::close_validator_fees_vault(k(0), k(1), k(3)),
        tag::VALIDATOR_CLAIM => b::validator_claim_fees(k(0), if d.u8()? == 1 { Some(d.u64()?) } else { None }),
        tag::PROTOCOL_CLAIM => b::protocol_claim_fees(k(0)),
        tag::WHITELIST => b::whitelist_validator_for_program(k(0), k(1), k(2), d.bool()?),
        tag::TOP_UP => {
            let (amount, index) = (d.u64()?, d.u8()?);
            let i = if index == 0 && src.chance(1, 2) { None } else { Some(index) };
            let a = if amount == DEFAULT_TOP_UP && src.chance(3, 4) { None } else { Some(amount) };
            b::top_up_ephemeral_balance(k(0), k(1), a, i)
        }
        tag::DELEGATE_ESCROW => {
            let a = DelegateArgs::dec_from(&mut d)?;
            let index = d.u8()?;
            b::delegate_ephemeral_balance(k(0), k(1), dlp::args::DelegateEphemeralBalanceArgs { delegate_args: cb(a), index })
        }
        tag::CLOSE_ESCROW => b::close_ephemeral_balance(k(0), d.u8()?),
        _ => return None,
    })
}
thread_local! {
    static OWNER_OF: std::cell::Cell<Option<Pubkey>> = const { std::cell::Cell::new(None) };
}
/// the owner program a commit was built for (only its whitelist address is in the instruction)
fn src_owner(_: &Instruction) -> Option<Pubkey> {
    OWNER_OF.with(|o| o.get())
}

fn same_shape(c: &mut Case, name: &str, got: &Instruction, want: &Instruction) -> bool {
    if got.program_id != want.program_id {
        fail(c, format!("builder {name} program"), format!("{name}: program {}", got.program_id));
    }
    if got.data != want.data {
        fail(c, format!("builder {name} data"), format!("{name}: data {} instead of {}", hex(&got.data), hex(&want.data)));
    }
    let keys = |i: &Instruction| i.accounts.iter().map(|m| (m.pubkey, m.is_signer)).collect::<Vec<_>>();
    if keys(got) != keys(want) {
        fail(c, format!("builder {name} accounts"), format!("{name}: {} instead of {}", show_ix(got), show_ix(want)));
    }
    for (g, w) in got.accounts.iter().zip(&want.accounts) {
        if w.is_writable && !g.is_writable {
            fail(c, format!("builder {name} privileges"), format!("{name}: {} is not writable", named(&w.pubkey)));
        }
    }
    c.fail.is_none()
}
fn hex(b: &[u8]) -> String {
    b.iter().take(200).map(|x| format!("{x:02x}")).collect()
}

pub fn builders(src: &mut Src, pr: &Profile, utc: bool) -> Case {
    let mut c = Case::default();
    let mut w = World::gen(src, pr, utc);
    let n = src.range(1, pr.max_ops);
    for _ in 0..n {
        if src.span(|src| builder_step(src, &mut w, pr, &mut c)) {
            break;
        }
    }
    c
}
fn builder_step(src: &mut Src, w: &mut World, pr: &Profile, c: &mut Case) -> bool {
    let accts = w.svm.accts.clone();
    let mut edits = vec![];
    let kinds = [
        op::OWNER_DELEGATE, op::DIRECT_DELEGATE, op::COMMIT, op::COMMIT_BUF, op::FINALIZE, op::UNDELEGATE, op::INIT_P, op::INIT_V, op::CLOSE_V,
        op::CLAIM, op::PCLAIM, op::WHITELIST, op::TOP_UP, op::DEL_ESCROW, op::CLOSE_ESCROW, op::ASSIGN,
    ];
    let kind = *src.pick(&kinds);
    let mut reference = w.gen_op(src, &accts, kind, pr, &mut edits);
    for (k, a) in edits {
        if w.svm.get(&k).is_absent() || w.extras.contains(&k) {
            w.svm.set(k, a);
        }
    }
    if reference.program_id == DLP && reference.data[0] == tag::TOP_UP && src.chance(1, 6) {
        reference.data[8..16].copy_from_slice(&DEFAULT_TOP_UP.to_le_bytes());
    }
    let mut tx = Tx::one(reference.clone());
    w.sanitize(&mut tx);
    if reference.program_id == DLP {
        let owner = w
            .targets
            .iter()
            .flat_map(|t| [t.owner])
            .chain(pool().progs.iter().copied())
            .chain([sys()])
            .find(|o| reference.accounts.iter().rev().nth(1).is_some_and(|m| m.pubkey == config_pda(o)));
        OWNER_OF.with(|o| o.set(owner));
        let Some(got) = built(src, &reference) else { return false };
        let name = tag::name(reference.data[0]);
        c.steps += 1;
        let mut canon = reference.clone();
        if reference.data[0] == tag::DELEGATE {
            // the generator leaves out a signature nobody can give at top level
            canon.accounts[1].is_signer = true;
        }
        if !same_shape(c, name, &got, &canon) {
            src.say(|| format!("{name}: {}", show_ix(&got)));
            return true;
        }
        c.labels.push("builder compared with the reference");
        // submit it, paid by somebody else or by a participant
        let fp = if src.chance(3, 4) { Some(*src.pick(&pool().fee)) } else { None };
        tx.fee_payer = fp;
        if tx.ixs[0].accounts != canon.accounts {
            return false; // needs a signature nobody can give at top level
        }
        let real = Tx { ixs: vec![got], fee_payer: fp };
        src.say(|| show_tx(&real));
        let pred = model::predict_tx(&w.svm.accts, &w.cx(false), &tx);
        if let TxPred::Ok { post, notes } = &pred {
            let pre = w.svm.accts.clone();
            owner::set_plan(None);
            let r = w.svm.exec(&real);
            owner::take_calls();
            c.steps += 1;
            src.say(|| format!("-> {r:?}"));
            if !r.is_ok() {
                fail(c, format!("built {name} refused"), format!("the built {name} is legal here but fails: {r:?}"));
                return true;
            }
            let mut fs = vec![];
            compare_post(w, &real, &pre, post, notes, &mut fs);
            if let Some(f) = fs.into_iter().next() {
                fail(c, format!("built {name}: {}", f.sig), f.msg);
                return true;
            }
            c.labels.push(label_of(reference.data[0]));
            c.nontrivial.push(hash_of(&format!("{notes:?}{:?}", fp.is_some())));
            return false;
        }
    }
    let (_, s) = run(&w.svm, &tx);
    c.steps += 1;
    w.svm = s;
    false
}
fn label_of(t: u8) -> &'static str {
    match t {
        tag::DELEGATE => "built Delegate accepted",
        tag::COMMIT => "built Commit accepted",
        tag::COMMIT_FROM_BUFFER => "built CommitFromBuffer accepted",
        tag::FINALIZE => "built Finalize accepted",
        tag::UNDELEGATE => "built Undelegate accepted",
        tag::INIT_PROTOCOL_VAULT => "built InitProtocolVault accepted",
        tag::INIT_VALIDATOR_VAULT => "built InitValidatorVault accepted",
        tag::CLOSE_VALIDATOR_VAULT => "built CloseValidatorVault accepted",
        tag::VALIDATOR_CLAIM => "built ValidatorClaim accepted",
        tag::PROTOCOL_CLAIM => "built ProtocolClaim accepted",
        tag::WHITELIST => "built Whitelist accepted",
        tag::TOP_UP => "built TopUp accepted",
        tag::DELEGATE_ESCROW => "built DelegateEscrow accepted",
        _ => "built CloseEscrow accepted",
    }
}

fn some_key(src: &mut Src) -> Pubkey {
    match src.upto(5) {
        0 => *src.pick(&pool().wallets),
        1 => *src.pick(&pool().progs),
        2 => *src.pick(&[sys(), DLP, Pubkey::new_from_array([0xFF; 32]), crate::svm::upgradeable_loader()]),
        3 => record_pda(src.pick(&pool().wallets)),
        _ => Pubkey::new_from_array(src.bytes(32).try_into().unwrap()),
    }
}

/// Published address functions against the reference, and pairwise distinctness; builders on
/// arbitrary (not necessarily sensible) inputs.
/// Published addresses of different purposes or inputs never coincide.
pub fn distinct_addresses(src: &mut Src) -> Case {
    use dlp::pda as p;
    let mut c = Case::default();
    let n = src.range(1, 3);
    let mut keys: Vec<Pubkey> = (0..n).map(|_| some_key(src)).collect();
    if src.chance(1, 2) {
        // a key differing in one bit
        let mut b = keys[0].to_bytes();
        b[src.upto(31) as usize] ^= 1 << src.upto(7);
        keys.push(Pubkey::new_from_array(b));
    }
    let mut seen: BTreeMap<Pubkey, (&'static str, Vec<u8>)> = BTreeMap::new();
    let mut add = |c: &mut Case, kind: &'static str, input: Vec<u8>, got: Pubkey| {
        c.steps += 1;
        if let Some((k, i)) = seen.insert(got, (kind, input.clone())) {
            if (k, &i) != (kind, &input) {
                fail(c, "address collision", format!("{kind} of {input:?} and {k} of {i:?} share {got}"));
            }
        }
    };
    for k in &keys {
        let b = k.to_bytes().to_vec();
        add(&mut c, "record", b.clone(), p::delegation_record_pda_from_delegated_account(k));
        add(&mut c, "metadata", b.clone(), p::delegation_metadata_pda_from_delegated_account(k));
        add(&mut c, "commit state", b.clone(), p::commit_state_pda_from_delegated_account(k));
        add(&mut c, "commit record", b.clone(), p::commit_record_pda_from_delegated_account(k));
        add(&mut c, "undelegate buffer", b.clone(), p::undelegate_buffer_pda_from_delegated_account(k));
        add(&mut c, "validator vault", b.clone(), p::validator_fees_vault_pda_from_validator(k));
        add(&mut c, "program config", b.clone(), p::program_config_from_program_id(k));
        // neighbouring indexes: one bit or one step apart
        let i = src.upto(255) as u8;
        let near = if src.chance(1, 2) { i ^ (1 << src.upto(7)) } else { i.wrapping_add(src.range(1, 255) as u8) };
        src.say(|| format!("addresses of {k} with escrow indexes {i} and {near}"));
        for x in [i, near] {
            let mut b = b.clone();
            b.push(x);
            add(&mut c, "escrow", b, p::ephemeral_balance_pda_from_payer(k, x));
        }
        c.nontrivial.push(hash_of(&(k.to_bytes(), i, near)));
    }
    add(&mut c, "protocol vault", vec![], p::fees_vault_pda());
    c
}

pub fn addresses(src: &mut Src) -> Case {
    use dlp::pda as p;
    let mut c = Case::default();
    let mut seen: BTreeMap<Pubkey, String> = BTreeMap::new();
    let n = src.range(1, 3);
    let keys: BTreeSet<Pubkey> = (0..n).map(|_| some_key(src)).collect();
    src.say(|| format!("addresses for {keys:?}"));
    let mut add = |c: &mut Case, what: String, got: Pubkey, want: Pubkey| {
        c.steps += 1;
        if got != want {
            fail(c, format!("address of {}", what.split(' ').next().unwrap()), format!("{what}: {got} instead of {want}"));
        }
        if let Some(o) = seen.insert(got, what.clone()) {
            if o != what {
                fail(c, "address collision", format!("{what} and {o} share {got}"));
            }
        }
    };
    for k in &keys {
        add(&mut c, format!("record {k}"), p::delegation_record_pda_from_delegated_account(k), record_pda(k));
        add(&mut c, format!("metadata {k}"), p::delegation_metadata_pda_from_delegated_account(k), metadata_pda(k));
        add(&mut c, format!("commit-state {k}"), p::commit_state_pda_from_delegated_account(k), commit_state_pda(k));
        add(&mut c, format!("commit-record {k}"), p::commit_record_pda_from_delegated_account(k), commit_record_pda(k));
        add(&mut c, format!("undelegate-buffer {k}"), p::undelegate_buffer_pda_from_delegated_account(k), undelegate_buffer_pda(k));
        add(&mut c, format!("validator-vault {k}"), p::validator_fees_vault_pda_from_validator(k), validator_vault_pda(k));
        add(&mut c, format!("config {k}"), p::program_config_from_program_id(k), config_pda(k));
        for o in keys.iter().chain([DLP, sys()].iter()) {
            add(
                &mut c,
                format!("delegate-buffer {k} {o}"),
                p::delegate_buffer_pda_from_delegated_account_and_owner_program(k, o),
                delegate_buffer_pda(k, o),
            );
        }
        for _ in 0..3 {
            let i = src.upto(255) as u8;
            add(&mut c, format!("escrow {k} {i}"), p::ephemeral_balance_pda_from_payer(k, i), escrow_pda(k, i));
        }
    }
    add(&mut c, "fees-vault".into(), p::fees_vault_pda(), fees_vault_pda());
    c.nontrivial.push(hash_of(&keys));

    // arbitrary builder inputs
    let k: Vec<Pubkey> = (0..4).map(|_| some_key(src)).collect();
    let any64 = |src: &mut Src| if src.chance(1, 2) { src.upto(u64::MAX) } else { dict_value(src, 1 << 40) };
    let nl = *src.pick(&[0u64, 1, 30, 300, 2000]);
    let ca = CommitArgs { slot: any64(src), lamports: any64(src), allow: src.chance(1, 2), data: { let n = src.upto(nl) as usize; src.bytes(n) } };
    let da = DelegateArgs {
        freq: src.upto(u32::MAX as u64) as u32,
        seeds: pda_seeds(src.n(N_SEEDS)),
        validator: if src.chance(1, 2) { Some(k[3]) } else { None },
    };
    let index = src.upto(255) as u8;
    let ix = match src.upto(14) {
        0 => ix_delegate(&k[0], &k[1], &k[2], &da),
        1 => {
            OWNER_OF.with(|o| o.set(Some(k[2])));
            ix_commit(&k[0], &k[1], &k[2], &ca)
        }
        2 => {
            OWNER_OF.with(|o| o.set(Some(k[2])));
            ix_commit_buffer(&k[0], &k[1], &k[2], &k[3], &ca)
        }
        3 => ix_finalize(&k[0], &k[1]),
        4 => ix_undelegate(&k[0], &k[1], &k[2], &k[3]),
        5 => ix_init_protocol_vault(&k[0]),
        6 => ix_init_validator_vault(&k[0], &k[1], &k[2]),
        7 => ix_close_validator_vault(&k[0], &k[1], &k[2]),
        8 => ix_validator_claim(&k[0], if src.chance(1, 4) { None } else { Some(any64(src)) }),
        9 => ix_protocol_claim(&k[0]),
        10 => ix_whitelist(&k[0], &k[1], &k[2], src.chance(1, 2)),
        11 => ix_top_up(&k[0], &k[1], index, any64(src)),
        12 => ix_delegate_escrow(&k[0], &k[1], index, &da),
        _ => ix_close_escrow(&k[0], index),
    };
    src.say(|| show_ix(&ix));
    if let Some(got) = built(src, &ix) {
        c.steps += 1;
        c.nontrivial.push(hash_of(&show_ix(&ix)));
        same_shape(&mut c, tag::name(ix.data[0]), &got, &ix);
    }
    c
}

// ------------------------------------------------------------------ C27: layouts

fn caught<T>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> Result<T, String> {
    std::panic::catch_unwind(f).map_err(|_| "panic".to_string())
}

fn aligned(b: &[u8]) -> (Vec<u64>, usize) {
    let mut v = vec![0u64; b.len() / 8 + 1];
    bytemuck_cast(&mut v)[..b.len()].copy_from_slice(b);
    (v, b.len())
}
fn bytemuck_cast(v: &mut [u64]) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, v.len() * 8) }
}

/// Changes to an encoding that may or may not leave it valid.
fn corrupt(src: &mut Src, b: &mut Vec<u8>) -> &'static str {
    match src.upto(8) {
        0 if !b.is_empty() => {
            let n = src.range(1, b.len() as u64) as usize;
            b.truncate(b.len() - n);
            "truncated"
        }
        1 => {
            let n = src.range(1, 40) as usize;
            let x = src.bytes(n);
            b.extend(x);
            "extended"
        }
        2 if b.len() >= 8 => {
            b[0] = *src.pick(&[99u8, 100, 101, 102, 103, 104, 0, 255]);
            "other tag"
        }
        3 if b.len() >= 8 => {
            let i = src.range(1, 7) as usize;
            b[i] ^= 1 << src.upto(7);
            "tag byte changed"
        }
        4 if b.len() > 8 => {
            let i = 8 + src.n(b.len() - 8);
            b[i] ^= 1 << src.upto(7);
            "body bit flipped"
        }
        5 if b.len() > 12 => {
            let i = 8 + src.n(b.len() - 11);
            let v = *src.pick(&[0u32, 1, 2, u32::MAX, 1 << 31, 255, 65536]);
            b[i..i + 4].copy_from_slice(&v.to_le_bytes());
            "length changed"
        }
        6 if b.len() > 8 => {
            let i = 8 + src.n(b.len() - 8);
            b.remove(i);
            "byte removed"
        }
        7 => {
            let n = src.upto(200) as usize;
            *b = src.bytes(n);
            if src.chance(3, 4) && n >= 8 {
                b[..8].copy_from_slice(&(src.range(99, 104)).to_le_bytes());
            }
            "random bytes"
        }
        _ if b.len() >= 2 => {
            let (i, j) = (src.n(b.len()), src.n(b.len()));
            b.swap(i, j);
            "bytes swapped"
        }
        _ => {
            b.push(0);
            "extended"
        }
    }
}

fn seeds_value(src: &mut Src) -> Vec<Vec<u8>> {
    let max = if src.chance(1, 6) { 40 } else { 6 };
    let n = src.upto(max) as usize;
    (0..n)
        .map(|_| {
            let l = *src.pick(&[0usize, 1, 4, 31, 32, 33, 100, 300]);
            src.bytes(l)
        })
        .collect()
}

pub fn codecs(src: &mut Src) -> Case {
    use dlp::state as s;
    let mut c = Case::default();
    c.steps = 1;
    let num = |src: &mut Src| match src.upto(3) {
        0 => src.upto(300),
        1 => dict_value(src, u64::MAX),
        2 => *src.pick(&[0, 1, u64::MAX, 1 << 63, (1 << 32) - 1, 1 << 32]),
        _ => src.upto(u64::MAX),
    };
    let kind = src.upto(10);
    let mutate = src.chance(1, 2);
    macro_rules! report {
        ($name:expr, $bytes:expr, $real:expr, $want:expr, $how:expr) => {{
            let (real, want) = ($real, $want);
            src.say(|| format!("{} {} ({}) -> {}", $name, hex($bytes), $how, if want.is_some() { "valid" } else { "error" }));
            match real {
                Err(_) => fail(&mut c, format!("decode {} panics", $name), format!("decoding {} {} panics ({})", $name, hex($bytes), $how)),
                Ok(r) => match (r, want) {
                    (Some(a), Some(b)) => {
                        if a != b {
                            fail(&mut c, format!("decode {} wrong value", $name), format!("{} {} decodes to another value", $name, hex($bytes)));
                        }
                    }
                    (None, None) => {}
                    (Some(_), None) => fail(&mut c, format!("decode {} accepts", $name), format!("{} accepts {} ({})", $name, hex($bytes), $how)),
                    (None, Some(_)) => fail(&mut c, format!("decode {} rejects", $name), format!("{} rejects its own encoding {}", $name, hex($bytes))),
                },
            }
            c.labels.push(if want_some(&$how) { "valid encoding decoded" } else { "changed encoding" });
            c.nontrivial.push(hash_of(&($name, $bytes)));
        }};
    }
    fn want_some(h: &str) -> bool {
        h.is_empty()
    }
    macro_rules! layout {
        ($name:expr, $got:expr, $want:expr) => {
            if $got != $want {
                fail(&mut c, format!("layout of {}", $name), format!("{} encodes to {} instead of {}", $name, hex(&$got), hex(&$want)));
            }
        };
    }
    match kind {
        0 => {
            let r = Record { authority: some_key(src), owner: some_key(src), slot: num(src), lamports: num(src), freq: num(src) };
            let real = s::DelegationRecord { authority: r.authority, owner: r.owner, delegation_slot: r.slot, lamports: r.lamports, commit_frequency_ms: r.freq };
            let mut buf = vec![0xAA; s::DelegationRecord::size_with_discriminator()];
            let _ = caught(std::panic::AssertUnwindSafe(|| real.to_bytes_with_discriminator(&mut buf).unwrap()));
            layout!("record", buf, r.enc());
            let mut b = r.enc();
            let how = if mutate { corrupt(src, &mut b) } else { "" };
            let (mut v, n) = aligned(&b);
            let conv = |x: &s::DelegationRecord| Record { authority: x.authority, owner: x.owner, slot: x.delegation_slot, lamports: x.lamports, freq: x.commit_frequency_ms };
            let got = caught(|| s::DelegationRecord::try_from_bytes_with_discriminator(&bytemuck_cast(&mut v.clone())[..n]).ok().map(conv));
            report!("record", &b, got, Record::dec(&b), how);
            let got = caught(std::panic::AssertUnwindSafe(|| s::DelegationRecord::try_from_bytes_with_discriminator_mut(&mut bytemuck_cast(&mut v)[..n]).ok().map(|x| conv(x))));
            report!("record (mut)", &b, got, Record::dec(&b), how);
            if how.is_empty() {
                // updating through the mutable view touches that field only
                let nl = num(src);
                if let Ok(x) = s::DelegationRecord::try_from_bytes_with_discriminator_mut(&mut bytemuck_cast(&mut v)[..n]) {
                    x.lamports = nl;
                }
                let want = Record { lamports: nl, ..r };
                let got = bytemuck_cast(&mut v)[..n].to_vec();
                layout!("record after update", got, want.enc());
            }
        }
        1 => {
            let r = CommitRec { identity: some_key(src), account: some_key(src), slot: num(src), lamports: num(src) };
            let real = s::CommitRecord { identity: r.identity, account: r.account, slot: r.slot, lamports: r.lamports };
            let mut buf = vec![0xAA; s::CommitRecord::size_with_discriminator()];
            let _ = caught(std::panic::AssertUnwindSafe(|| real.to_bytes_with_discriminator(&mut buf).unwrap()));
            layout!("commit record", buf, r.enc());
            let mut b = r.enc();
            let how = if mutate { corrupt(src, &mut b) } else { "" };
            let (mut v, n) = aligned(&b);
            let conv = |x: &s::CommitRecord| CommitRec { identity: x.identity, account: x.account, slot: x.slot, lamports: x.lamports };
            let got = caught(|| s::CommitRecord::try_from_bytes_with_discriminator(&bytemuck_cast(&mut v.clone())[..n]).ok().map(conv));
            report!("commit record", &b, got, CommitRec::dec(&b), how);
            let got = caught(std::panic::AssertUnwindSafe(|| s::CommitRecord::try_from_bytes_with_discriminator_mut(&mut bytemuck_cast(&mut v)[..n]).ok().map(|x| conv(x))));
            report!("commit record (mut)", &b, got, CommitRec::dec(&b), how);
        }
        2 => {
            let m = Metadata { last_slot: num(src), undelegatable: src.chance(1, 2), seeds: seeds_value(src), rent_payer: some_key(src) };
            let real = s::DelegationMetadata {
                last_update_external_slot: m.last_slot,
                is_undelegatable: m.undelegatable,
                seeds: m.seeds.clone(),
                rent_payer: m.rent_payer,
            };
            let mut buf = vec![];
            if real.to_bytes_with_discriminator(&mut buf).is_err() {
                buf.clear();
            }
            layout!("metadata", buf, m.enc());
            let mut b = m.enc();
            let how = if mutate { corrupt(src, &mut b) } else { "" };
            let b2 = b.clone();
            let got = caught(move || {
                s::DelegationMetadata::try_from_bytes_with_discriminator(&b2)
                    .ok()
                    .map(|x| Metadata { last_slot: x.last_update_external_slot, undelegatable: x.is_undelegatable, seeds: x.seeds, rent_payer: x.rent_payer })
            });
            report!("metadata", &b, got, Metadata::dec(&b), how);
        }
        3 => {
            let n = *src.pick(&[0u64, 1, 2, 3, 10, 40]);
            let set: BTreeSet<Pubkey> = (0..n).map(|_| some_key(src)).collect();
            let mut real = s::ProgramConfig::default();
            real.approved_validators = set.clone();
            let mut buf = vec![];
            if real.to_bytes_with_discriminator(&mut buf).is_err() {
                buf.clear();
            }
            if real.size_with_discriminator() != enc_config(&set).len() {
                fail(&mut c, "config size", format!("whitelist of {} declares {} bytes", set.len(), real.size_with_discriminator()));
            }
            layout!("whitelist", buf, enc_config(&set));
            let mut b = enc_config(&set);
            let how = if mutate { corrupt(src, &mut b) } else { "" };
            let b2 = b.clone();
            let got = caught(move || s::ProgramConfig::try_from_bytes_with_discriminator(&b2).ok().map(|x| x.approved_validators));
            // a sequence that is not strictly ascending is not an encoding of a set; either
            // answer is fine as long as it is the set of its members
            let want = dec_config(&b);
            if want.is_none() {
                if let (Ok(Some(g)), Some(members)) = (&got, loose_config(&b)) {
                    if *g == members {
                        c.labels.push("unsorted whitelist");
                        return c;
                    }
                }
            }
            report!("whitelist", &b, got, want, how);
        }
        _ => {
            let ca = CommitArgs { slot: num(src), lamports: num(src), allow: src.chance(1, 2), data: { let n = src.upto(80) as usize; src.bytes(n) } };
            let da = DelegateArgs {
                freq: num(src) as u32,
                seeds: seeds_value(src),
                validator: if src.chance(1, 2) { Some(some_key(src)) } else { None },
            };
            let idx = src.upto(255) as u8;
            let opt = if src.chance(1, 3) { None } else { Some(num(src)) };
            let cb = |a: &DelegateArgs| dlp::args::DelegateArgs { commit_frequency_ms: a.freq, seeds: a.seeds.clone(), validator: a.validator };
            let back = |x: dlp::args::DelegateArgs| DelegateArgs { freq: x.commit_frequency_ms, seeds: x.seeds, validator: x.validator };
            macro_rules! arg {
                ($name:expr, $real:expr, $want:expr, $ty:ty, $conv:expr, $dec:expr) => {{
                    layout!($name, ser(&$real), $want);
                    let mut b: Vec<u8> = $want;
                    let how = if mutate {
                        // arguments have no tag: shift the corruption past a dummy one
                        let mut t = vec![0; 8];
                        t.extend(&b);
                        let h = corrupt(src, &mut t);
                        b = if t.len() >= 8 { t[8..].to_vec() } else { vec![] };
                        h
                    } else {
                        ""
                    };
                    let b2 = b.clone();
                    let got = caught(move || <$ty>::try_from_slice(&b2).ok().map($conv));
                    report!($name, &b, got, $dec(&b), how);
                }};
            }
            match kind {
                4 => arg!(
                    "commit args",
                    dlp::args::CommitStateArgs { slot: ca.slot, lamports: ca.lamports, allow_undelegation: ca.allow, data: ca.data.clone() },
                    ca.enc(),
                    dlp::args::CommitStateArgs,
                    |x| CommitArgs { slot: x.slot, lamports: x.lamports, allow: x.allow_undelegation, data: x.data },
                    |b: &[u8]| CommitArgs::dec(b)
                ),
                5 => arg!(
                    "buffer commit args",
                    dlp::args::CommitStateFromBufferArgs { slot: ca.slot, lamports: ca.lamports, allow_undelegation: ca.allow },
                    ca.enc_no_data(),
                    dlp::args::CommitStateFromBufferArgs,
                    |x| CommitArgs { slot: x.slot, lamports: x.lamports, allow: x.allow_undelegation, data: vec![] },
                    |b: &[u8]| CommitArgs::dec_no_data(b)
                ),
                6 => arg!("delegate args", cb(&da), da.enc(), dlp::args::DelegateArgs, back, |b: &[u8]| DelegateArgs::dec(b)),
                7 => arg!(
                    "escrow delegate args",
                    dlp::args::DelegateEphemeralBalanceArgs { delegate_args: cb(&da), index: idx },
                    Enc::default().raw(&da.enc()).u8(idx).0,
                    dlp::args::DelegateEphemeralBalanceArgs,
                    move |x| (back(x.delegate_args), x.index),
                    |b: &[u8]| {
                        let mut d = Dec(b);
                        let r = (|| Some((DelegateArgs::dec_from(&mut d)?, d.u8()?)))();
                        r.and_then(|r| d.end(r))
                    }
                ),
                8 => arg!(
                    "top-up args",
                    dlp::args::TopUpEphemeralBalanceArgs { amount: ca.slot, index: idx },
                    Enc::default().u64(ca.slot).u8(idx).0,
                    dlp::args::TopUpEphemeralBalanceArgs,
                    |x| (x.amount, x.index),
                    |b: &[u8]| {
                        let mut d = Dec(b);
                        let r = (|| Some((d.u64()?, d.u8()?)))();
                        r.and_then(|r| d.end(r))
                    }
                ),
                9 => arg!(
                    "claim args",
                    dlp::args::ValidatorClaimFeesArgs { amount: opt },
                    match opt {
                        None => vec![0],
                        Some(x) => Enc::default().u8(1).u64(x).0,
                    },
                    dlp::args::ValidatorClaimFeesArgs,
                    |x| x.amount,
                    |b: &[u8]| {
                        let mut d = Dec(b);
                        let r = match d.u8() {
                            Some(0) => Some(None),
                            Some(1) => d.u64().map(Some),
                            _ => None,
                        };
                        r.and_then(|r| d.end(r))
                    }
                ),
                _ => arg!(
                    "whitelist args",
                    dlp::args::WhitelistValidatorForProgramArgs { insert: ca.allow },
                    vec![ca.allow as u8],
                    dlp::args::WhitelistValidatorForProgramArgs,
                    |x| x.insert,
                    |b: &[u8]| {
                        let mut d = Dec(b);
                        let r = d.bool();
                        r.and_then(|r| d.end(r))
                    }
                ),
            }
        }
    }
    c
}
fn ser<T: BorshSerialize>(t: &T) -> Vec<u8> {
    borsh::to_vec(t).unwrap()
}
fn loose_config(b: &[u8]) -> Option<BTreeSet<Pubkey>> {
    let mut d = Dec(b);
    if d.u64()? != 103 {
        return None;
    }
    let n = d.u32()?;
    let mut v = BTreeSet::new();
    for _ in 0..n {
        v.insert(d.key()?);
    }
    d.end(v)
}

// ------------------------------------------------------------------ C28: malformed instructions

/// Raw instructions: arbitrary numbers, bodies and account lists over a populated ledger.
pub fn raw(src: &mut Src, prop: &'static str, pr: &Profile, utc: bool) -> Case {
    let mut c = Case::default();
    let mut w = World::gen(src, pr, utc);
    let n = src.range(1, pr.max_ops);
    for _ in 0..n {
        let stop = src.span(|src| raw_step(src, &mut w, prop, pr, &mut c));
        if stop {
            break;
        }
    }
    c
}
fn raw_step(src: &mut Src, w: &mut World, prop: &'static str, pr: &Profile, c: &mut Case) -> bool {
    let accts = w.svm.accts.clone();
    let kind = src.weighted(&pr.w);
    let mut edits = vec![];
    let mut ix = w.gen_op(src, &accts, kind, pr, &mut edits);
    for (k, a) in edits {
        if w.svm.get(&k).is_absent() || w.extras.contains(&k) {
            w.svm.set(k, a);
        }
    }
    if ix.program_id != DLP {
        ix.program_id = DLP;
        ix.data = (*src.pick(&tag::ALL) as u64).to_le_bytes().to_vec();
    }
    let body = ix.data.get(8..).unwrap_or(&[]).to_vec();
    // the number
    let t = match src.upto(3) {
        0 => ix.data[0],
        1 => *src.pick(&tag::ALL),
        2 => *src.pick(&[4u8, 15, 16, 255, 128, 129, 254]),
        _ => src.upto(255) as u8,
    };
    let body = match src.upto(5) {
        0 => body,
        1 => vec![],
        2 => {
            let n = src.upto(60) as usize;
            src.bytes(n)
        }
        3 => {
            let mut b = body;
            let mut p = vec![0; 8];
            p.extend(&b);
            corrupt(src, &mut p);
            b = p.get(8..).unwrap_or(&[]).to_vec();
            b
        }
        4 => {
            let mut b = body;
            let n = src.range(1, 3) as usize;
            b.extend(src.bytes(n));
            b
        }
        _ => {
            let mut b = body;
            b.pop();
            b
        }
    };
    ix.data = (t as u64).to_le_bytes().to_vec();
    ix.data.extend(body);
    if src.chance(1, 12) {
        let n = src.upto(8) as usize;
        ix.data.truncate(n);
    }
    // the accounts
    match src.upto(5) {
        0 | 1 => {}
        2 => {
            let keys: Vec<Pubkey> = accts.keys().copied().collect();
            let n = src.upto(13) as usize;
            ix.accounts = (0..n)
                .map(|_| AccountMeta { pubkey: *src.pick(&keys), is_signer: src.chance(1, 2), is_writable: src.chance(2, 3) })
                .collect();
        }
        3 => {
            let n = src.upto(ix.accounts.len() as u64) as usize;
            ix.accounts.truncate(n);
        }
        4 => {
            let n = src.range(1, 3);
            for _ in 0..n {
                let k = if src.chance(1, 2) { sys() } else { *src.pick(&pool().fresh) };
                ix.accounts.push(AccountMeta { pubkey: k, is_signer: false, is_writable: src.chance(1, 2) });
            }
        }
        _ => {
            if ix.accounts.len() > 1 {
                let n = ix.accounts.len();
                let (i, j) = (src.n(n), src.n(n));
                ix.accounts.swap(i, j);
            }
        }
    }
    let mut tx = Tx::one(ix.clone());
    w.sanitize(&mut tx);
    src.say(|| show_tx(&tx));
    let pre = w.svm.accts.clone();
    let j = judge(w, &tx, None);
    c.steps += 1;
    src.say(|| format!("-> {:?} (model: {})", j.result, crate::check::short(&j.pred)));
    if !j.result.is_ok() {
        if let Some(d) = first_diff(&pre, &w.svm.accts) {
            fail(c, "failed instruction has effects", d);
            return true;
        }
    }
    match &j.pred {
        TxPred::Err { why, .. } => {
            if why.contains(&model::Why::Malformed) {
                c.labels.push("malformed instruction refused");
                c.nontrivial.push(hash_of(&show_tx(&tx)));
            } else {
                c.labels.push("well-formed instruction refused");
            }
        }
        TxPred::Ok { .. } => c.labels.push("well-formed instruction accepted"),
        _ => c.labels.push("unspecified"),
    }
    c.known.extend(j.known.iter());
    if let Some(f) = j.findings.iter().find(|f| prop == "ANY" || f.props.contains(prop)) {
        fail(c, f.sig.clone(), format!("{} [{}]", f.msg, show_props(&f.props)));
        return true;
    }
    !j.findings.is_empty()
}
pub fn show_props(p: &Props) -> String {
    p.iter().copied().collect::<Vec<_>>().join(" ")
}
#[allow(dead_code)]
fn unused(_: Pred, _: Note) {}
