//! The properties and what decides them.
pub mod crash;
pub mod dmg;
pub mod edit;
pub mod files;
pub mod kinds;
pub mod low;
pub mod registry;
pub mod rw;

use crate::ctx::{Ctx, Tier, R};
use crate::{dev, run_case, Outcome};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// counters that must not stay at zero
    pub required: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx) -> R,
}

const MODEL: &[&str] = &[
    "the independent codec and models of the harness read the UEFI rules and the documentation correctly",
    "in-memory devices behave as Read+Write+Seek devices do",
];

#[rustfmt::skip]
pub static ALL: &[Prop] = &[
    Prop { id: "C01", level: "exploration", quick: 100000, thorough: 2000000, rule: "a write succeeded and the reopened table was compared, distinct by operation history", required: &["writes_checked", "read_through_backup"], assumptions: MODEL, run: rw::c01 },
    Prop { id: "C02", level: "exploration", quick: 100000, thorough: 2000000, rule: "a successful write was decoded by the independent decoder, distinct by operation history", required: &["writes_checked", "backup_copies_decoded"], assumptions: MODEL, run: rw::c02 },
    Prop { id: "C03", level: "exploration", quick: 100000, thorough: 2000000, rule: "a write changed the device and its changed blocks were compared with the metadata blocks, distinct by history", required: &["writes_checked", "changed_blocks"], assumptions: MODEL, run: rw::c03 },
    Prop { id: "C04", level: "exploration", quick: 120000, thorough: 2400000, rule: "operations without an explicit write were observed on a device or a file, distinct by history", required: &["operations_without_write", "refused_writes", "copies_without_permission"], assumptions: MODEL, run: files::c04 },
    Prop { id: "C05", level: "exploration", quick: 120000, thorough: 2400000, rule: "an edit or write was made with an intact read-only backup, distinct by history", required: &["intact_backups_watched"], assumptions: MODEL, run: rw::c05 },
    Prop { id: "C06", level: "exploration", quick: 150000, thorough: 3000000, rule: "an addition succeeded and was checked, distinct by history", required: &["additions_checked"], assumptions: MODEL, run: edit::c06 },
    Prop { id: "C07", level: "exploration", quick: 150000, thorough: 3000000, rule: "a request was judged against the set of free gaps, distinct by history", required: &["must_be_granted", "must_be_refused", "placements_checked"], assumptions: MODEL, run: edit::c07 },
    Prop { id: "C08", level: "exploration", quick: 150000, thorough: 3000000, rule: "a report over a table with used partitions was compared with the exact gaps, distinct by table", required: &["reports_checked", "exhaustive_occupancies"], assumptions: MODEL, run: edit::c08 },
    Prop { id: "C09", level: "exploration", quick: 120000, thorough: 2400000, rule: "numbers and counts were compared with the model over a history, distinct by history", required: &["next_numbers_checked", "growths", "growth_refused"], assumptions: MODEL, run: edit::c09 },
    Prop { id: "C10", level: "exploration", quick: 80000, thorough: 1600000, rule: "an edit or write failed and the state was compared with the one before, distinct by history", required: &["refusals_checked", "refusals_on_a_smaller_device", "argument_errors", "later_writes"], assumptions: MODEL, run: edit::c10 },
    Prop { id: "C11", level: "exploration", quick: 200000, thorough: 4000000, rule: "a damaged image was opened, distinct by image and damage", required: &["damaged_disks", "rejected", "accepted"], assumptions: MODEL, run: dmg::c11 },
    Prop { id: "C12", level: "exploration", quick: 100000, thorough: 2000000, rule: "a disk with a damaged primary copy was opened, distinct by image and damage", required: &["primary_header_damaged", "only_primary_array_damaged", "repairs"], assumptions: MODEL, run: dmg::c12 },
    Prop { id: "C13", level: "exploration", quick: 120000, thorough: 2400000, rule: "hostile input was opened, or operations made on a disk opened from it, distinct by input and operations", required: &["operations_on_hostile_disks", "mbr_inputs"], assumptions: MODEL, run: dmg::c13 },
    Prop { id: "C14", level: "fault_enumeration", quick: 4000, thorough: 80000, rule: "a write was cut at every event with sampled reorderings, distinct by history", required: &["copies_differ", "crash_states", "writes_crashed"], assumptions: MODEL, run: crash::c14 },
    Prop { id: "C15", level: "fault_enumeration", quick: 2400, thorough: 48000, rule: "an operation was repeated with a fault at every device call, distinct by history", required: &["faults_in_writes", "faults_in_opens", "faults_in_mbr_operations", "faults_in_writes_by_path"], assumptions: MODEL, run: crash::c15 },
    Prop { id: "C16", level: "exploration", quick: 100000, thorough: 2000000, rule: "a successful write was observed with its flushes or syncs, distinct by history", required: &["flushes_observed", "syncs_observed", "failed_syncs"], assumptions: MODEL, run: files::c16 },
    Prop { id: "C17", level: "exploration", quick: 80000, thorough: 1600000, rule: "memory and device were compared after a write and a rewrite, distinct by history", required: &["rewrites", "unedited_write_backs"], assumptions: MODEL, run: rw::c17 },
    Prop { id: "C18", level: "exploration", quick: 1000000, thorough: 20000000, rule: "MBR values or device operations were compared byte for byte, distinct by input", required: &["device_operations_checked"], assumptions: MODEL, run: low::c18 },
    Prop { id: "C19", level: "exploration", quick: 200000, thorough: 4000000, rule: "names and GUID texts were resolved, distinct by text", required: &["known_types", "names_resolved", "unknown_types"], assumptions: MODEL, run: kinds::c19 },
    Prop { id: "C20", level: "exploration", quick: 2000000, thorough: 40000000, rule: "a header was built or refused, distinct by parameters", required: &["built", "refused"], assumptions: MODEL, run: low::c20 },
    Prop { id: "C21", level: "exploration", quick: 2000, thorough: 20000, rule: "a history was executed in every build and compared line by line, distinct by history", required: &[], assumptions: MODEL, run: kinds::any_kind },
    Prop { id: "C22", level: "exploration", quick: 2000, thorough: 20000, rule: "a history was executed under an engine detecting undefined behaviour, distinct by history", required: &[], assumptions: MODEL, run: kinds::c22 },
    Prop { id: "C23", level: "exploration", quick: 100000, thorough: 2000000, rule: "a GUID was set or generated and followed to the device, distinct by history", required: &["guids_set", "guids_generated"], assumptions: MODEL, run: edit::c23 },
    Prop { id: "C24", level: "exploration", quick: 80000, thorough: 1600000, rule: "a copy was made and edited beside its original, distinct by history", required: &["copies_made"], assumptions: MODEL, run: edit::c24 },
    Prop { id: "C25", level: "exploration", quick: 100000, thorough: 2000000, rule: "a low-level function was compared with the disk API or byte for byte, distinct by input", required: &["entries_written", "headers_written", "headers_compared"], assumptions: MODEL, run: low::c25 },
    Prop { id: "C26", level: "exploration", quick: 1000000, thorough: 20000000, rule: "a size or offset was compared with exact arithmetic, distinct by input", required: &["values_checked"], assumptions: MODEL, run: low::c26 },
    Prop { id: "C27", level: "exploration", quick: 120000, thorough: 2400000, rule: "an independently encoded disk with partitions was opened, distinct by image", required: &["foreign_disks", "foreign_entries"], assumptions: MODEL, run: dmg::c27 },
    Prop { id: "C28", level: "exploration", quick: 150000, thorough: 3000000, rule: "a removal, take or bulk update was compared with the model, distinct by history", required: &["tables_taken", "tables_installed"], assumptions: MODEL, run: edit::c28 },
];

/// Run cases one after another in this process; the caller watches for
/// undefined behaviour.
pub fn serial(p: &'static Prop, tier: Tier, seed: u64, from: u64, to: u64) -> i32 {
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut digests: HashSet<u64> = HashSet::new();
    let mut ran = 0;
    let t0 = std::time::Instant::now();
    let limit = std::env::var("VH_SERIAL_S").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    for i in from..to {
        if ran > 0 && t0.elapsed().as_secs() >= limit {
            break;
        }
        println!("I {i}");
        let _ = std::io::stdout().flush();
        let mut c = Ctx::new(p.id, tier, seed, i, vec![]);
        match run_case(p, &mut c) {
            Outcome::Held | Outcome::Skipped | Outcome::Known(..) => {}
            Outcome::Violation(m) => {
                println!("V {i} {}", m.replace('\n', " | "));
                return 1;
            }
            Outcome::Harness(m) => {
                println!("E {i} {}", m.replace('\n', " | "));
                return 2;
            }
        }
        ran += 1;
        if c.nontrivial && digests.insert(c.digest) {
            println!("G {:016x}", c.digest);
        }
        if ran <= 2 && !c.trace.is_empty() {
            let t: Vec<_> = c.trace.iter().take(6).map(|l| l.chars().take(120).collect::<String>()).collect();
            println!("S case {i}: {}", t.join("; ").replace('\n', " | "));
        }
        for (k, n) in &c.counts {
            *counts.entry(k).or_insert(0) += n;
        }
    }
    println!("N {ran} {}", digests.len());
    for (k, n) in counts {
        println!("C {n} {k}");
    }
    println!("D");
    0
}

/// Everything that can be observed of each history, as text.
pub fn transcript(seed: u64, from: u64, to: u64) -> i32 {
    let logger = logger::install();
    let p = ALL.iter().find(|p| p.id == "C21").unwrap();
    let out = std::io::stdout();
    for i in from..to {
        dev::reset_events();
        files::deterministic(Some(seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15)));
        let mut c = Ctx::new(p.id, Tier::Quick, seed, i, vec![]);
        let end = match run_case(p, &mut c) {
            Outcome::Held => "ended".to_string(),
            Outcome::Skipped => "skipped".to_string(),
            Outcome::Known(k, _) => format!("finding {k}"),
            Outcome::Violation(m) => format!("stopped: {m}"),
            Outcome::Harness(m) => format!("harness: {m}"),
        };
        files::deterministic(None);
        let (n, h) = dev::events();
        let mut o = out.lock();
        let _ = writeln!(o, "case {i}");
        for l in &c.trace {
            let _ = writeln!(o, "  {}", l.replace('\n', " | "));
        }
        let _ = writeln!(o, "  {}", end.replace('\n', " | "));
        let _ = writeln!(o, "  device events {n} {h:016x}");
        // not compared: coverage and logging only
        let _ = writeln!(o, "# {:016x} {}", c.digest, c.counts.keys().copied().collect::<Vec<_>>().join(","));
    }
    println!("# {logger} messages {}", logger::messages());
    0
}

mod logger {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static MESSAGES: AtomicU64 = AtomicU64::new(0);
    pub fn messages() -> u64 {
        MESSAGES.load(Relaxed)
    }
    #[allow(dead_code)]
    fn message(s: String) {
        std::hint::black_box(s);
        MESSAGES.fetch_add(1, Relaxed);
    }
    fn quiet() -> bool {
        std::env::var_os("VH_LOGGER").map_or(false, |v| v == "off")
    }
    /// Install loggers that format every message, or none if asked to.
    pub fn install() -> &'static str {
        if quiet() {
            return "no logger";
        }
        #[cfg(feature = "with_log")]
        {
            static L: l::Log = l::Log;
            log::set_logger(&L).expect("set the logger");
            log::set_max_level(log::LevelFilter::Trace);
        }
        #[cfg(feature = "with_tracing")]
        tracing::subscriber::set_global_default(t::Sub).expect("set the subscriber");
        "logger"
    }
    #[cfg(feature = "with_log")]
    mod l {
        pub struct Log;
        impl log::Log for Log {
            fn enabled(&self, _: &log::Metadata) -> bool {
                true
            }
            fn log(&self, r: &log::Record) {
                super::message(format!("{} {} {}", r.level(), r.target(), r.args()));
            }
            fn flush(&self) {}
        }
    }
    #[cfg(feature = "with_tracing")]
    mod t {
        use std::fmt::{Debug, Write as _};
        use tracing::field::{Field, Visit};
        use tracing::span::{Attributes, Id, Record};
        pub struct Sub;
        struct V(String);
        impl Visit for V {
            fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
                let _ = write!(self.0, "{}={v:?} ", f.name());
            }
        }
        impl tracing::Subscriber for Sub {
            fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
                true
            }
            fn new_span(&self, a: &Attributes<'_>) -> Id {
                let mut v = V(String::new());
                a.record(&mut v);
                super::message(v.0);
                Id::from_u64(1)
            }
            fn record(&self, _: &Id, r: &Record<'_>) {
                let mut v = V(String::new());
                r.record(&mut v);
                super::message(v.0);
            }
            fn record_follows_from(&self, _: &Id, _: &Id) {}
            fn event(&self, e: &tracing::Event<'_>) {
                let mut v = V(String::new());
                e.record(&mut v);
                super::message(v.0);
            }
            fn enter(&self, _: &Id) {}
            fn exit(&self, _: &Id) {}
        }
    }
}
