//! What each property's check runs: generator profiles, components and case counts.

use crate::pbt::{Case, Src};
use crate::world::{op, Profile};
use crate::{check, extra};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    History,
    Independence,
    BufferEq,
    Bundles,
    Prefund,
    Builders,
    Addresses,
    Distinct,
    Codecs,
    Raw,
}

pub struct Component {
    pub name: &'static str,
    pub kind: Kind,
    pub profile: Profile,
    /// cases of the quick tier
    pub quick: u64,
    /// cases of the thorough tier
    pub thorough: u64,
    /// run against the `unit_test_config` flavour as well (share of the cases, percent)
    pub utc: u64,
}

pub fn run(c: &Component, prop: &'static str, src: &mut Src, utc: bool) -> Case {
    let p = &c.profile;
    match c.kind {
        Kind::History => check::history(src, prop, p, utc),
        Kind::Independence => extra::independence(src, p, utc),
        Kind::BufferEq => extra::buffer_eq(src, p, utc),
        Kind::Bundles => extra::bundles(src, p, utc),
        Kind::Prefund => extra::prefund(src, p, utc),
        Kind::Builders => extra::builders(src, p, utc),
        Kind::Addresses => extra::addresses(src),
        Kind::Distinct => extra::distinct_addresses(src),
        Kind::Codecs => extra::codecs(src),
        Kind::Raw => extra::raw(src, prop, p, utc),
    }
}

pub const ALL: [&str; 28] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
    "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
];

fn boost(ops: &[(usize, u32)]) -> Profile {
    let mut p = Profile::default();
    for (o, w) in ops {
        p.w[*o] = *w;
    }
    p
}

/// The profile that concentrates on what a property is about.
fn focus(prop: &str) -> Profile {
    use op::*;
    match prop {
        "C01" => Profile { wild: 14, mutate: 6, ..Default::default() },
        "C02" => Profile { big: 3, mutate: 4, ..boost(&[(COMMIT, 30), (COMMIT_BUF, 14), (FINALIZE, 34)]) },
        "C03" => Profile { mutate: 4, donate: 10, ..boost(&[(COMMIT, 34), (COMMIT_BUF, 10), (FINALIZE, 36)]) },
        "C04" => Profile { mutate: 20, wild: 20, hostile: 16, mkinds: [8, 8, 1, 1, 1], ..Default::default() },
        "C05" => Profile {
            mutate: 20,
            wild: 20,
            mkinds: [8, 8, 0, 0, 0],
            ..boost(&[(COMMIT, 24), (COMMIT_BUF, 12), (FINALIZE, 24), (UNDELEGATE, 16), (CLAIM, 10), (INIT_V, 8), (CLOSE_V, 8)])
        },
        "C06" => Profile {
            whitelist: 48,
            wild: 24,
            mutate: 12,
            mkinds: [8, 2, 0, 0, 0],
            ..boost(&[(COMMIT, 36), (COMMIT_BUF, 24), (WHITELIST, 24), (FINALIZE, 14)])
        },
        "C07" => Profile { wild: 24, mutate: 16, mkinds: [8, 3, 0, 0, 0], ..boost(&[(COMMIT, 28), (COMMIT_BUF, 10), (FINALIZE, 44)]) },
        "C08" => Profile { mutate: 3, bundle: 20, ..boost(&[(COMMIT, 40), (COMMIT_BUF, 16), (FINALIZE, 34)]) },
        "C09" => Profile { wild: 14, mutate: 6, ..boost(&[(COMMIT, 30), (COMMIT_BUF, 12), (FINALIZE, 26), (UNDELEGATE, 30)]) },
        "C10" | "C11" => Profile {
            wild: 6,
            mutate: 8,
            mkinds: [8, 1, 0, 0, 0],
            bundle: 16,
            donate: 8,
            ..boost(&[(COMMIT, 20), (FINALIZE, 24), (UNDELEGATE, 44), (DEL_ESCROW, 6)])
        },
        "C12" => Profile {
            hostile: 56,
            big: 2,
            wild: 2,
            mutate: 3,
            bundle: 14,
            donate: 8,
            ..boost(&[(COMMIT, 20), (FINALIZE, 22), (UNDELEGATE, 60), (OWNER_DELEGATE, 16)])
        },
        "C13" => Profile { wild: 10, mutate: 12, mkinds: [8, 4, 0, 2, 0], donate: 10, ..boost(&[(CLAIM, 60), (INIT_V, 5), (CLOSE_V, 4)]) },
        "C14" => Profile { rotate: 10, wild: 16, mutate: 16, mkinds: [8, 4, 0, 0, 0], ..boost(&[(PCLAIM, 50), (INIT_P, 16), (CLAIM, 16)]) },
        "C15" => Profile { rotate: 10, wild: 16, mutate: 16, mkinds: [8, 4, 0, 0, 0], donate: 8, ..boost(&[(INIT_V, 40), (CLOSE_V, 40), (CLAIM, 6)]) },
        "C16" => Profile { rotate: 10, whitelist: 32, wild: 12, mutate: 14, mkinds: [8, 4, 0, 2, 0], donate: 6, ..boost(&[(WHITELIST, 110)]) },
        "C17" => Profile { wild: 12, mutate: 14, mkinds: [8, 4, 0, 2, 0], ..boost(&[(TOP_UP, 44), (CLOSE_ESCROW, 40), (DEL_ESCROW, 20), (TRANSFER, 3)]) },
        "C18" => Profile { wild: 8, mutate: 10, mkinds: [8, 4, 0, 2, 0], ..boost(&[(TOP_UP, 16), (CLOSE_ESCROW, 24), (DEL_ESCROW, 40), (UNDELEGATE, 24)]) },
        "C19" => Profile {
            wild: 24,
            mutate: 18,
            mkinds: [8, 6, 0, 3, 0],
            ..boost(&[(OWNER_DELEGATE, 40), (DIRECT_DELEGATE, 30), (DEL_ESCROW, 16), (ASSIGN, 6), (UNDELEGATE, 14)])
        },
        "C20" => Profile {
            donate: 8,
            mutate: 4,
            ..boost(&[(OWNER_DELEGATE, 36), (DIRECT_DELEGATE, 16), (DEL_ESCROW, 12), (ASSIGN, 4), (UNDELEGATE, 14)])
        },
        "C21" => Profile {
            wild: 2,
            mutate: 52,
            mkinds: [1, 0, 0, 0, 0],
            bundle: 3,
            ..boost(&[(OWNER_DELEGATE, 12), (DIRECT_DELEGATE, 10), (INIT_P, 3), (INIT_V, 8), (CLOSE_V, 8), (CLAIM, 10), (PCLAIM, 8), (WHITELIST, 12), (TOP_UP, 8), (DEL_ESCROW, 12), (CLOSE_ESCROW, 10), (UNDELEGATE, 24)])
        },
        "C23" => boost(&[(COMMIT_BUF, 40), (FINALIZE, 24)]),
        "C24" => Profile { bundle: 36, mutate: 12, ..Default::default() },
        "C25" => Profile { donate: 32, mutate: 2, wild: 4, ..boost(&[(INIT_V, 8), (CLOSE_V, 6), (INIT_P, 2), (WHITELIST, 8), (TOP_UP, 6)]) },
        "C28" => Profile { mutate: 40, mkinds: [2, 0, 0, 8, 6], ..Default::default() },
        _ => Profile::default(),
    }
}

pub fn components(prop: &str) -> Vec<Component> {
    if prop == "ANY" {
        // a sample of every check, reporting whatever deviates (used to measure the checks)
        return ALL
            .iter()
            .flat_map(|p| components(p).into_iter().map(|c| Component { quick: c.quick / 10, utc: 0, ..c }))
            .collect();
    }
    let f = focus(prop);
    let utc = if matches!(prop, "C05" | "C14" | "C15" | "C16") { 25 } else { 0 };
    let comp = |name, kind, profile, quick, utc| Component { name, kind, profile, quick, thorough: quick * 30, utc };
    let long = |n| comp("focused histories", Kind::History, Profile { hostile: f.hostile.max(2), ..f.clone() }, n, utc);
    let short = |n| {
        comp(
            "single steps from generated states",
            Kind::History,
            Profile { max_ops: 2, bundle: f.bundle / 2, donate: f.donate, ..f.clone() },
            n,
            utc,
        )
    };
    let general = |n| comp("general histories", Kind::History, Profile { hostile: 4, ..Default::default() }, n, 0);
    let long_lives = |n| {
        comp(
            "long histories",
            Kind::History,
            Profile { max_ops: 60, mutate: f.mutate / 2, wild: f.wild / 2, hostile: f.hostile.max(1), ..f.clone() },
            n,
            0,
        )
    };
    let even = |n| {
        let p = Profile { w: [8; 17], max_ops: 3, hostile: f.hostile, mutate: f.mutate.min(24), wild: f.wild, donate: f.donate.max(6), ..Default::default() };
        comp("every instruction equally often", Kind::History, p, n, 0)
    };
    match prop {
        "C04" => vec![long(80_000), short(100_000), even(60_000), general(30_000), long_lives(4_000)],
        "C22" => vec![
            comp("independence relations", Kind::Independence, Profile::default(), 70_000, 0),
            comp("independence relations, mutated", Kind::Independence, Profile { mutate: 30, wild: 24, hostile: 0, ..Default::default() }, 30_000, 0),
            general(30_000),
            even(40_000),
            comp("distinct addresses", Kind::Distinct, Profile::default(), 30_000, 0),
        ],
        "C17" => vec![long(80_000), short(140_000), general(30_000), long_lives(4_000), comp("distinct addresses", Kind::Distinct, Profile::default(), 20_000, 0)],
        "C23" => vec![
            comp("commit twins", Kind::BufferEq, Profile::default(), 70_000, 0),
            comp("commit twins, disturbed", Kind::BufferEq, Profile { mutate: 30, wild: 24, whitelist: 40, ..Default::default() }, 40_000, 0),
            long(30_000),
        ],
        "C24" => vec![
            comp("bundle versus sequence", Kind::Bundles, Profile { bundle: 44, ..Default::default() }, 50_000, 0),
            comp("bundle versus sequence, mutated", Kind::Bundles, Profile { bundle: 44, mutate: 24, wild: 16, ..Default::default() }, 25_000, 0),
            long(40_000),
            even(20_000),
        ],
        "C25" => vec![
            comp("with and without a donation", Kind::Prefund, Profile { donate: 0, mutate: 0, wild: 3, ..focus("C25") }, 110_000, 0),
            long(50_000),
            even(30_000),
        ],
        "C26" => vec![
            comp("builder output submitted", Kind::Builders, Profile { mutate: 0, ..Default::default() }, 100_000, 0),
            comp("addresses and arbitrary builder inputs", Kind::Addresses, Profile::default(), 60_000, 0),
        ],
        "C27" => vec![
            comp("codecs", Kind::Codecs, Profile::default(), 3_000_000, 0),
            general(40_000),
            even(30_000),
        ],
        "C28" => vec![
            comp("raw instructions", Kind::Raw, Profile { max_ops: 10, ..Default::default() }, 160_000, 0),
            comp("raw instructions, single", Kind::Raw, Profile { max_ops: 2, mutate: 0, ..Default::default() }, 120_000, 0),
            long(40_000),
            even(30_000),
        ],
        "C21" => vec![long(70_000), short(240_000), even(40_000), general(20_000)],
        _ => vec![long(80_000), short(140_000), general(30_000), long_lives(4_000)],
    }
}
