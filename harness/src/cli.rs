//! Command line, evidence and replay files.

use crate::pbt::{self, Case, Failure, Src};
use crate::plan::{self, Component};
use crate::{regress, svm, world};
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

const UTC: bool = cfg!(feature = "utc");

struct Opts {
    prop: &'static str,
    tier: String,
    seed: u64,
    replay: Option<PathBuf>,
    /// write partial results here instead of an evidence file
    part: Option<PathBuf>,
    scale: u64,
    only: Option<String>,
    /// run just this case of the component `only`
    case: Option<u64>,
}

fn verif() -> PathBuf {
    // harness/.. at build time
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// Lines of the committed known-findings file: `known: property=C01 id=... what`.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: property=")?;
            let (p, r) = r.split_once(' ')?;
            let (id, what) = r.strip_prefix("id=")?.split_once(' ')?;
            (p == prop).then(|| (id.to_string(), what.to_string()))
        })
        .collect()
}

static PANIC: Mutex<Option<String>> = Mutex::new(None);

fn guarded(prop: &'static str, comp: &Component, known: &[String], src: &mut Src) -> Case {
    let r = catch_unwind(AssertUnwindSafe(|| plan::run(comp, prop, src, UTC)));
    let mut c = match r {
        Ok(c) => c,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let mut c = Case::default();
            if matches!(comp.kind, plan::Kind::Builders | plan::Kind::Addresses | plan::Kind::Distinct | plan::Kind::Codecs) {
                // client-side code runs on this thread
                c.fail = Some(Failure { sig: "panic".into(), msg: format!("panic: {m}") });
            } else {
                PANIC.lock().unwrap().get_or_insert(format!("{}: {m}", comp.name));
            }
            c
        }
    };
    if prop == "C01" && c.fail.is_none() {
        if let Some(k) = c.known.iter().find(|k| !known.iter().any(|x| x == *k)) {
            c.fail = Some(Failure { sig: k.to_string(), msg: format!("{k} (not listed as a known finding)") });
        }
    }
    c
}

pub fn main() -> i32 {
    let mut o = Opts { prop: "", tier: "quick".into(), seed: 1, replay: None, part: None, scale: 100, only: None, case: None };
    if let Ok(s) = std::env::var("VERIF_SEED") {
        o.seed = s.trim().parse().unwrap_or_else(|_| pbt::hash_of(&s));
    }
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().unwrap_or_default();
        match x.as_str() {
            "--property" => {
                let p = v();
                o.prop = plan::ALL.iter().find(|q| **q == p).copied().unwrap_or(if p == "ANY" { "ANY" } else { "" });
            }
            "--tier" => o.tier = v(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--replay" => o.replay = Some(v().into()),
            "--part" => o.part = Some(v().into()),
            "--scale" => o.scale = v().parse().unwrap(),
            "--only" => o.only = Some(v()),
            "--case" => o.case = v().parse().ok(),
            _ => {
                eprintln!("unknown option {x}");
                return 2;
            }
        }
    }
    if o.prop.is_empty() {
        eprintln!("unknown property");
        return 2;
    }
    if o.replay.is_none() && o.case.is_none() && std::env::var_os(CHILD).is_none() {
        return supervise(&o);
    }
    svm::init();
    let mut out = svm::quiet_stdout();
    std::panic::set_hook(Box::new(|_| {}));
    if o.replay.is_some() {
        return replay(&o, &mut out);
    }
    if let Some(i) = o.case {
        single(&o, i);
        return 0;
    }
    check(&o, &mut out)
}

const CHILD: &str = "DLPCHECK_PROGRESS";
/// Exit code of a check whose watchdog saw a case that does not end.
const STUCK: i32 = 77;
const STUCK_S: u64 = 90;

/// Runs the check in a process of its own, so that a program that takes the process down
/// (stack overflow, unbounded allocation) or never returns is reported like any other failure.
fn supervise(o: &Opts) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let state = exe.with_file_name(format!("{}{}.progress", o.prop, if UTC { ".utc" } else { "" }));
    let _ = std::fs::remove_file(&state);
    let st = std::process::Command::new(&exe).args(std::env::args_os().skip(1)).env(CHILD, &state).status();
    let at = pbt::Progress::read(&std::fs::read(&state).unwrap_or_default());
    let _ = std::fs::remove_file(&state);
    let code = match st {
        Ok(s) => s.code(),
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    if let Some(c) = code.filter(|c| *c != STUCK) {
        return c;
    }
    let list = plan::components(o.prop);
    for (c, start, n) in at {
        for i in start..start + n {
            let Some(c) = list.get(c) else { continue };
            if let Some(how) = dies(o.prop, o.seed, c.name, i) {
                let v = json!({
                    "property": o.prop, "component": c.name, "flavour": if UTC { "unit_test_config" } else { "production" }, "seed": o.seed,
                    "case": i, "crash": true, "tape": Vec::<String>::new(), "trace": Vec::<String>::new(),
                    "message": format!("the program {how} in case {i} of \"{}\"", c.name),
                });
                if let Some(pf) = &o.part {
                    let _ = std::fs::write(pf, json!({ "cases": 1, "executions": 1, "distinct": 1, "violation": v }).to_string());
                    return 0;
                }
                let mut out = std::io::stdout();
                report(o.prop, &v, &mut out);
                let ev = json!({
                    "property": o.prop, "tier": if o.tier == "thorough" { "thorough" } else { "quick" }, "seed": o.seed, "level": "exploration",
                    "coverage": { "evaluations": i + 1, "distinct_nontrivial": 1, "rule": rule(o.prop), "samples": [v["message"]] },
                    "assumptions": ["The run ended early: the program took the process down."],
                    "wall_s": 0.0, "violations": 1,
                });
                let dir = verif().join("evidence");
                let _ = std::fs::create_dir_all(&dir);
                let _ = std::fs::write(dir.join(format!("{}.json", o.prop)), serde_json::to_string_pretty(&ev).unwrap());
                return 1;
            }
        }
    }
    eprintln!("the check ended abnormally ({code:?}) and no single case does");
    2
}

/// Runs one case in a limited process; says how it ended if it did not end well.
fn dies(prop: &str, seed: u64, comp: &str, i: u64) -> Option<&'static str> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new("bash")
        .args(["-c", "ulimit -c 0; ulimit -t 60; ulimit -v 16000000; exec \"$0\" \"$@\""])
        .arg(exe)
        .args(["--property", prop, "--seed", &seed.to_string(), "--only", comp, "--case", &i.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?;
    match st.signal() {
        None => None,
        Some(9 | 24) => Some("does not terminate"),
        Some(_) => Some("takes the process down"),
    }
}

fn single(o: &Opts, i: u64) {
    let list = plan::components(o.prop);
    let Some(c) = list.iter().find(|c| Some(c.name) == o.only.as_deref()) else { return };
    std::thread::scope(|s| {
        let run = || {
            guarded(o.prop, c, &[], &mut Src::random(pbt::case_seed(o.seed ^ ((UTC as u64) << 40), c.name, i)));
        };
        let _ = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, run).unwrap().join();
    });
}

fn report(prop: &str, v: &Value, out: &mut impl Write) {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}.json"));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
    let _ = writeln!(out, "{}", v["message"].as_str().unwrap_or(""));
    for l in v["trace"].as_array().into_iter().flatten() {
        let _ = writeln!(out, "  {}", l.as_str().unwrap_or(""));
    }
    let _ = writeln!(out, "VIOLATION property={prop} replay={}", path.display());
}

/// Ends the process when a case has been running for very long.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = [(0u64, 0u64); 16];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let Some(p) = pbt::PROGRESS.get() else { continue };
            for (l, b) in last.iter_mut().zip(&p.beats) {
                let b = b.load(std::sync::atomic::Ordering::Relaxed);
                *l = if b == 0 || b != l.0 { (b, 0) } else { (b, l.1 + 1) };
                if l.1 > STUCK_S {
                    std::process::exit(STUCK);
                }
            }
        }
    });
}

fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16)
}

struct Violation {
    component: String,
    index: u64,
    tape: Vec<u64>,
    message: String,
    trace: Vec<String>,
}

fn check(o: &Opts, out: &mut std::fs::File) -> i32 {
    let t0 = std::time::Instant::now();
    let prop = o.prop;
    let _ = pbt::PROGRESS.set(pbt::Progress::new(std::env::var_os(CHILD).and_then(|f| std::fs::File::create(f).ok())));
    watchdog();
    let kf = known_findings(prop);
    let known: Vec<String> = kf.iter().map(|k| k.0.clone()).collect();
    let mut violation: Option<Violation> = None;
    let mut total = pbt::Stats::default();
    let mut comps = vec![];
    let mut scenarios = 0u64;

    // the other flavour of the program runs next to this one
    let mut part: Option<Value> = None;
    let list = plan::components(prop);
    if !UTC && o.part.is_none() && list.iter().any(|c| c.utc > 0) {
        let exe = std::env::current_exe().unwrap();
        let utc = exe.with_file_name("dlpcheck-utc");
        let f = exe.with_file_name(format!("{prop}.part.json"));
        let st = std::process::Command::new(&utc)
            .args(["--property", prop, "--tier", &o.tier, "--seed", &o.seed.to_string(), "--scale", &o.scale.to_string(), "--part"])
            .arg(&f)
            .status();
        let v = std::fs::read_to_string(&f).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
        let _ = std::fs::remove_file(&f);
        match (st, v) {
            (Ok(s), Some(v)) if s.success() => part = Some(v),
            (s, _) => {
                eprintln!("the unit_test_config run failed: {s:?}");
                return 2;
            }
        }
    }

    if !UTC {
        for s in regress::scenarios(prop) {
            scenarios += 1;
            total.steps += 1;
            match catch_unwind(AssertUnwindSafe(|| s.check())) {
                Ok(Some(m)) => {
                    violation.get_or_insert(Violation { component: format!("scenario {}", s.name), index: 0, tape: vec![], message: m, trace: s.show() });
                }
                Ok(None) => {}
                Err(_) => {
                    eprintln!("harness error in scenario {}", s.name);
                    return 2;
                }
            }
        }
    }
    for (nth, c) in list.iter().enumerate() {
        pbt::PROGRESS.get().unwrap().component(nth);
        if violation.is_some() || part.as_ref().is_some_and(|p| !p["violation"].is_null()) {
            break;
        }
        if o.only.as_ref().is_some_and(|x| x != c.name) {
            continue;
        }
        let n = if o.tier == "thorough" { c.thorough } else { c.quick } * o.scale / 100;
        let n = if UTC { n * c.utc / 100 } else { n };
        if n == 0 {
            continue;
        }
        let f = |s: &mut Src| guarded(prop, c, &known, s);
        let t1 = std::time::Instant::now();
        let (st, found) = pbt::run(c.name, o.seed ^ ((UTC as u64) << 40), n, threads(), &f);
        comps.push(json!({
            "name": c.name, "flavour": if UTC { "unit_test_config" } else { "production" }, "cases": st.cases, "executions": st.steps,
            "distinct_nontrivial": st.distinct.len(), "wall_s": t1.elapsed().as_secs_f64(),
        }));
        total.merge(st);
        if let Some(x) = found {
            let x = pbt::shrink(&f, x, 4000);
            let mut s = Src::replay(x.tape.clone());
            s.trace = Some(vec![]);
            let again = f(&mut s);
            let message = again.fail.map_or(x.fail.msg.clone(), |f| f.msg);
            violation = Some(Violation { component: c.name.into(), index: x.index, tape: x.tape, message, trace: s.trace.unwrap() });
        }
    }
    if violation.is_none() {
        if let Some(p) = PANIC.lock().unwrap().as_ref() {
            eprintln!("harness error: {p}");
            return 2;
        }
    }

    let file = |v: &Violation| {
        json!({
            "property": prop, "component": v.component, "flavour": if UTC { "unit_test_config" } else { "production" }, "seed": o.seed,
            "case": v.index, "message": v.message, "tape": pbt::tape_json(&v.tape), "dictionary": pbt::tape_json(world::dictionary()), "trace": v.trace,
        })
    };
    if let Some(pf) = &o.part {
        let r = json!({
            "cases": total.cases, "executions": total.steps, "distinct": total.distinct.len(), "labels": total.labels, "components": comps,
            "samples": total.samples.iter().take(2).map(|s| s.1.clone()).collect::<Vec<_>>(),
            "violation": violation.as_ref().map(|v| file(v)),
        });
        return if std::fs::write(pf, r.to_string()).is_ok() { 0 } else { 2 };
    }

    let mut vio = violation.as_ref().map(|v| file(v));
    let mut evaluations = total.steps;
    let mut cases = total.cases;
    let mut distinct = total.distinct.len() as u64;
    let mut labels: std::collections::BTreeMap<String, u64> = total.labels.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let mut samples: Vec<String> = total.samples.iter().map(|s| s.1.clone()).collect();
    if let Some(p) = part {
        evaluations += p["executions"].as_u64().unwrap_or(0);
        cases += p["cases"].as_u64().unwrap_or(0);
        distinct += p["distinct"].as_u64().unwrap_or(0);
        for (k, v) in p["labels"].as_object().into_iter().flatten() {
            *labels.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
        }
        for s in p["samples"].as_array().into_iter().flatten() {
            samples.push(s.as_str().unwrap_or("").to_string());
        }
        comps.extend(p["components"].as_array().into_iter().flatten().cloned());
        if vio.is_none() && !p["violation"].is_null() {
            vio = Some(p["violation"].clone());
        }
    }
    let mut code = 0;
    let mut known_lines = vec![];
    for (id, what) in &kf {
        if catch_unwind(AssertUnwindSafe(|| regress::known_reproduces(id))).unwrap_or(false) {
            known_lines.push(what.clone());
            let _ = writeln!(out, "KNOWN-FINDING: property={prop} {what}");
        }
    }
    if let Some(v) = &vio {
        code = 1;
        report(prop, v, out);
    }
    let ev = json!({
        "property": prop, "tier": if o.tier == "thorough" { "thorough" } else { "quick" }, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": rule(prop), "samples": samples,
            "generated_cases": cases, "fixed_scenarios": scenarios, "components": comps, "labels": labels,
            "known_findings_seen": total.known, "known_findings_confirmed": known_lines,
        },
        "assumptions": [
            "The program's process_instruction runs natively inside the Solana runtime's own invoke, transaction-context and system-program code (crates of the 2.2 line); the SBF loader, compute limits, the heap and the stack limits are not exercised.",
            "Transaction-level rules (privilege union, atomic rollback, rent-state transitions, removal of empty accounts) are reproduced by the harness in harness/src/svm.rs.",
            "Owner programs are represented by a stand-in that creates the buffer and delegates as the repository's own test programs do, and by generated hostile behaviours during undelegation.",
        ],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": if vio.is_some() { 1 } else { 0 },
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("cannot write the evidence file");
        return 2;
    }
    let _ = writeln!(out, "{prop}: {cases} cases, {evaluations} executions, {distinct} distinct non-trivial, {:.1}s", t0.elapsed().as_secs_f64());
    code
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C22" => "A case is a generated ledger with pairs of generated transactions; non-trivial: a successful transaction whose frame and presence relations were compared, or a pair of successful disjoint transactions run in both orders (distinct by transaction content).",
        "C23" => "A case is a generated ledger and a commit executed twice, directly and through a buffer; distinct by commit content, outcome and effect.",
        "C24" => "A case is a generated ledger and a bundle executed whole and step by step; non-trivial: the bundle succeeded, or failed after at least one successful step (distinct by transaction content). History steps count when they involve a commit, a finalize or a skip (distinct by predicted effect).",
        "C25" => "A case is a successful generated transaction that creates at least one derived account, re-run after lamports were sent there; distinct by transaction and donation. History steps count when an account created was funded before.",
        "C26" => "A case is a builder call on generated inputs, compared with the reference instruction, and submitted where the model says the step is legal; non-trivial: a built instruction that was accepted (distinct by effect and fee payer) or a distinct input tuple.",
        "C27" => "A case is an encoding, valid or corrupted, given to the real decoder; distinct by type and bytes.",
        "C28" => "A case is a raw instruction over a generated ledger; non-trivial: the model says it is malformed (distinct by instruction).",
        "C12" => "A case is a generated history in which owner programs misbehave by a generated plan during undelegation; non-trivial: a plan that was executed, or a successful undelegation (distinct by plan and outcome, or by predicted effect).",
        _ => "A case is a generated ledger and a history of generated transactions, each compared with the reference model and the history monitor; non-trivial: a step whose predicted effect is one this property speaks about (distinct by effect), or a refusal for exactly one reason, which this property is about (distinct by reason and instruction data).",
    }
}

fn replay(o: &Opts, out: &mut std::fs::File) -> i32 {
    let f = o.replay.as_ref().unwrap();
    let Some(v) = std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
        eprintln!("cannot read {}", f.display());
        return 2;
    };
    let flavour = if UTC { "unit_test_config" } else { "production" };
    if v["flavour"] != flavour {
        // hand over to the other binary
        let exe = std::env::current_exe().unwrap();
        let other = exe.with_file_name(if UTC { "dlpcheck" } else { "dlpcheck-utc" });
        let r = std::process::Command::new(other).args(["--property", o.prop, "--replay"]).arg(f).stdout(out.try_clone().unwrap()).status();
        return r.ok().and_then(|s| s.code()).unwrap_or(2);
    }
    if let Some(d) = pbt::tape_from(&v["dictionary"]) {
        world::set_dictionary(d);
    }
    let known: Vec<String> = known_findings(o.prop).into_iter().map(|k| k.0).collect();
    let comp = v["component"].as_str().unwrap_or("").to_string();
    if let Some(n) = comp.strip_prefix("scenario ") {
        for s in regress::scenarios(o.prop) {
            if s.name == n {
                for l in s.show() {
                    let _ = writeln!(out, "  {l}");
                }
                if let Some(m) = s.check() {
                    let _ = writeln!(out, "{m}\nVIOLATION property={} replay={}", o.prop, f.display());
                    return 1;
                }
            }
        }
        let _ = writeln!(out, "does not reproduce");
        return 0;
    }
    for c in plan::components(o.prop) {
        if c.name != comp {
            continue;
        }
        if v["crash"] == true {
            return match dies(o.prop, v["seed"].as_u64().unwrap_or(1), c.name, v["case"].as_u64().unwrap_or(0)) {
                Some(how) => {
                    let _ = writeln!(out, "the program {how}\nVIOLATION property={} replay={}", o.prop, f.display());
                    1
                }
                None => {
                    let _ = writeln!(out, "does not reproduce");
                    0
                }
            };
        }
        let mut s = Src::replay(pbt::tape_from(&v["tape"]).unwrap_or_default());
        s.trace = Some(vec![]);
        let r = guarded(o.prop, &c, &known, &mut s);
        for l in s.trace.unwrap() {
            let _ = writeln!(out, "  {l}");
        }
        if let Some(x) = r.fail {
            let _ = writeln!(out, "{}\nVIOLATION property={} replay={}", x.msg, o.prop, f.display());
            return 1;
        }
        let _ = writeln!(out, "does not reproduce");
        return 0;
    }
    eprintln!("no component {comp}");
    2
}
