//! A save reports success only if the sink took the complete archive.
use super::c02;
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{self, Rng};
use kdbx_rs::binary::Unlocked;
use kdbx_rs::Kdbx;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Write};

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::WriteZero,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::StorageFull,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Fault {
    None,
    /// Error of the n-th kind once so many bytes were taken.
    Error(usize, usize),
    /// Takes no more bytes, without an error.
    Full(usize),
    /// Takes bytes, then one error, then works again.
    Once(usize, usize),
    Flush(usize),
}

struct Sink<'a> {
    /// What arrived for good.
    out: Vec<u8>,
    /// What is held back until the next flush, if the sink does that.
    held: Option<Vec<u8>>,
    taken: usize,
    plan: &'a [usize],
    step: usize,
    fault: Fault,
    fired: bool,
}

impl<'a> Sink<'a> {
    fn new(plan: &'a [usize], holds: bool, fault: Fault) -> Sink<'a> {
        Sink {
            out: Vec::new(),
            held: holds.then(Vec::new),
            taken: 0,
            plan,
            step: 0,
            fault,
            fired: false,
        }
    }
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.plan.get(self.step % self.plan.len().max(1)).copied().unwrap_or(usize::MAX);
        self.step += 1;
        if n == 0 {
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = n.min(buf.len());
        match self.fault {
            Fault::Error(at, k) | Fault::Once(at, k) => {
                let done = self.fired && matches!(self.fault, Fault::Once(..));
                if !done {
                    if self.taken >= at {
                        self.fired = true;
                        return Err(io::Error::new(KINDS[k % KINDS.len()], "the sink gave up"));
                    }
                    n = n.min(at - self.taken);
                }
            }
            Fault::Full(at) => {
                if self.taken >= at {
                    self.fired = true;
                    return Ok(0);
                }
                n = n.min(at - self.taken);
            }
            _ => {}
        }
        self.taken += n;
        self.held.as_mut().unwrap_or(&mut self.out).extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Fault::Flush(k) = self.fault {
            self.fired = true;
            return Err(io::Error::new(KINDS[k % KINDS.len()], "the sink gave up"));
        }
        if let Some(h) = &mut self.held {
            self.out.append(h);
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    bulk: Bulk,
    reopened: bool,
    /// KDF parameters chosen after the key was set.
    late_kdf: bool,
    plan: Vec<usize>,
    holds: bool,
    seed: u64,
    /// Number of faults tried; every byte if more than there are bytes.
    faults: usize,
}

fn state(k: &Kdbx<Unlocked>) -> (MDb, String) {
    (
        MDb::from_lib(k.database()),
        format!("{:?} {:?} {:?} {}.{}", k.header(), k.inner_header(), k.raw_xml().map(sha256), k.major_version(), k.minor_version()),
    )
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut db = c.db.clone();
    if c.bulk.len > 0 {
        db.root.name = c.bulk.text();
    }
    let mut k = lib_api::create(db.to_lib(), &c.set, &c.creds)?;
    let mut set = c.set.clone();
    if c.reopened {
        k = lib_api::unlock(&lib_api::write(&k).map_err(|e| format!("saving failed: {e:?}"))?, &c.creds)?;
        db = MDb::from_lib(k.database());
    }
    if c.late_kdf {
        set.kdf = RKdf::Aes {
            rounds: 3,
            salt: vec![9; 32],
        };
        k.header_mut().kdf_params = set.kdf.to_lib();
    }
    let good = lib_api::write(&k).map_err(|e| format!("saving failed: {e:?}"))?;
    c02::conforms(&good, &db, &set, &c.creds)?;
    let before = state(&k);
    let complete = |out: &[u8]| -> Verdict {
        if out == good {
            return Ok(());
        }
        c02::conforms(out, &db, &set, &c.creds).map(|_| ())
    };
    ctx.nt();
    ctx.label_if(c.plan.contains(&0), "interrupted");
    ctx.label_if(c.holds, "held back until flush");
    let mut s = Sink::new(&c.plan, c.holds, Fault::None);
    k.write(&mut s)
        .map_err(|e| format!("save to a sink that takes {:?} bytes at a time failed: {e:?}", c.plan))?;
    complete(&s.out).map_err(|e| format!("reported as saved, but the sink has {} bytes: {e}", s.out.len()))?;
    let mut r = Rng(c.seed);
    let head = split_header(&good).map_or(100, |h| h.3) + 64;
    for i in 0..c.faults {
        let at = if c.faults > good.len() {
            i % good.len()
        } else if r.pct(40) {
            r.below(head).min(good.len() - 1)
        } else if r.pct(20) {
            good.len() - 1 - r.below(good.len().min(80))
        } else {
            r.below(good.len())
        };
        let kind = r.below(KINDS.len());
        let fault = match r.below(8) {
            0..=3 => Fault::Error(at, kind),
            4 => Fault::Full(at),
            5 | 6 => Fault::Once(at, kind),
            _ => Fault::Flush(kind),
        };
        let mut s = Sink::new(&c.plan, c.holds, fault);
        let res = k.write(&mut s);
        ctx.eval(1);
        let what = format!("{fault:?} of {}", good.len());
        if !s.fired {
            // Only a sink that is never flushed
            if let Fault::Flush(_) = fault {
                if c.holds && res.is_ok() {
                    return Err("reported as saved without flushing".into());
                }
            }
            continue;
        }
        match res {
            Ok(()) => return Err(format!("reported as saved although the sink failed: {what}")),
            Err(_) => ctx.label(match fault {
                Fault::Error(..) => "failed",
                Fault::Full(_) => "full",
                Fault::Once(..) => "failed once",
                _ => "flush failed",
            }),
        }
        if i % 16 == 0 {
            if state(&k) != before {
                return Err(format!("archive in memory differs after a failed save ({what})"));
            }
            let again = lib_api::write(&k).map_err(|e| format!("save after a failed one failed ({what}): {e:?}"))?;
            complete(&again).map_err(|e| format!("save after a failed one ({what}): {e}"))?;
        }
    }
    if state(&k) != before {
        return Err("archive in memory differs after saving".into());
    }
    let again = lib_api::write(&k).map_err(|e| format!("later save failed: {e:?}"))?;
    complete(&again).map_err(|e| format!("later save: {e}"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LockedCase {
    db: MDb,
    set: Settings,
    creds: Creds,
    v3: bool,
    plan: Vec<usize>,
    holds: bool,
    seed: u64,
}

fn run_locked(c: &LockedCase, ctx: &mut Ctx) -> Verdict {
    let data = if c.v3 {
        ref_v3(&c.db, &c.set, &c.creds, &[3; 32])
    } else {
        ref_v4(&c.db, &c.set, &c.creds)
    };
    let k = lib_api::open(&data)?;
    ctx.nt();
    ctx.label(if c.v3 { "KDBX 3" } else { "KDBX 4" });
    let good = lib_api::write_locked(&k).map_err(|e| format!("writing failed: {e:?}"))?;
    let mut s = Sink::new(&c.plan, c.holds, Fault::None);
    k.write(&mut s).map_err(|e| format!("writing failed: {e:?}"))?;
    if s.out != good {
        return Err(format!("reported as written, but the sink has {} of {} bytes", s.out.len(), good.len()));
    }
    let mut r = Rng(c.seed);
    for _ in 0..60 {
        let at = r.below(good.len());
        let kind = r.below(KINDS.len());
        let fault = match r.below(8) {
            0..=3 => Fault::Error(at, kind),
            4 => Fault::Full(at),
            5 | 6 => Fault::Once(at, kind),
            _ => Fault::Flush(kind),
        };
        let mut s = Sink::new(&c.plan, c.holds, fault);
        let res = k.write(&mut s);
        ctx.eval(1);
        if res.is_ok() && (s.fired || (c.holds && s.out.len() != good.len())) {
            return Err(format!("reported as written although the sink failed: {fault:?} of {}", good.len()));
        }
    }
    if lib_api::write_locked(&k).ok().as_ref() != Some(&good) {
        return Err("later write differs".into());
    }
    let (_, got) = lib_api::load(&good, &c.creds)?;
    same_db(&as_read(&c.db), &got)
}

/// Export as XML. There is no promise that the sink is flushed.
fn run_xml(c: &LockedCase, ctx: &mut Ctx) -> Verdict {
    let db = c.db.to_lib();
    let stream = || c.set.inner.stream(&c.set.inner_key);
    let mut good = Vec::new();
    kdbx_rs::xml::write_xml(&mut good, &db, &mut *stream()).map_err(|e| format!("export failed: {e:?}"))?;
    ctx.nt();
    let mut s = Sink::new(&c.plan, false, Fault::None);
    kdbx_rs::xml::write_xml(&mut s, &db, &mut *stream()).map_err(|e| format!("export failed: {e:?}"))?;
    if s.out != good {
        let got = refxml::read(&s.out, &mut *stream()).map_err(|e| format!("incomplete export reported as success: {e}"))?;
        diff(&c.db.normal(), &got)?;
    }
    let mut r = Rng(c.seed);
    for _ in 0..40 {
        let at = r.below(good.len());
        let kind = r.below(KINDS.len());
        let fault = match r.below(6) {
            0..=2 => Fault::Error(at, kind),
            3 => Fault::Full(at),
            _ => Fault::Once(at, kind),
        };
        let mut s = Sink::new(&c.plan, false, fault);
        let res = kdbx_rs::xml::write_xml(&mut s, &db, &mut *stream());
        ctx.eval(1);
        if res.is_ok() && s.fired {
            return Err(format!("export reported as success although the sink failed: {fault:?} of {}", good.len()));
        }
    }
    if MDb::from_lib(&db) != MDb::from_lib(&c.db.to_lib()) {
        return Err("database differs after export".into());
    }
    Ok(())
}

fn plan() -> S<Vec<usize>> {
    prop_oneof![
        2 => Just(vec![usize::MAX]),
        2 => Just(vec![1usize]),
        1 => Just(vec![0, 1]),
        3 => vec(prop_oneof![2 => 0usize..2, 3 => 1usize..10, 2 => 10usize..600], 1..12)
            .prop_filter("progress", |v| v.iter().any(|n| *n > 0)),
        1 => vec(1usize..20_000, 1..4),
    ]
    .boxed()
}

fn case(len: S<usize>, faults: usize) -> S<Case> {
    (
        (small_db(), cheap_settings(), creds(), bulk(len)),
        (any::<bool>(), any::<bool>(), plan(), any::<bool>(), any::<u64>()),
    )
        .prop_map(move |((db, set, creds, bulk), (reopened, late_kdf, plan, holds, seed))| Case {
            db,
            set,
            creds,
            bulk,
            reopened,
            late_kdf,
            plan,
            holds,
            seed,
            faults,
        })
        .boxed()
}

fn locked_case() -> S<LockedCase> {
    (small_db(), cheap_settings(), creds(), any::<bool>(), plan(), any::<bool>(), any::<u64>())
        .prop_map(|(db, set, creds, v3, plan, holds, seed)| LockedCase {
            db,
            set,
            creds,
            v3,
            plan,
            holds,
            seed,
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C10",
        level: "exploration",
        rule: "the sink takes pieces, interrupts, holds data back or fails",
        assumptions: &["a sink that holds data back loses it unless it is flushed"],
        scenarios: vec![
            Box::new(Scn {
                name: "faults",
                quick: 3000,
                thorough: 60000,
                strategy: |_| case(Just(0usize).boxed(), 24),
                run,
                need: &["interrupted", "held back until flush", "failed", "full", "failed once", "flush failed"],
            }),
            Box::new(Scn {
                name: "every byte",
                quick: 40,
                thorough: 600,
                strategy: |_| {
                    case(Just(0usize).boxed(), 4500)
                        .prop_map(|mut c| {
                            c.db.root.entries.truncate(1);
                            c
                        })
                        .boxed()
                },
                run,
                need: &["failed", "full", "failed once"],
            }),
            Box::new(Scn {
                name: "large",
                quick: 24,
                thorough: 400,
                strategy: |_| case((50_000usize..2_500_000).boxed(), 8),
                run,
                need: &["failed"],
            }),
            Box::new(Scn {
                name: "locked",
                quick: 4000,
                thorough: 60000,
                strategy: |_| locked_case(),
                run: run_locked,
                need: &["KDBX 3", "KDBX 4"],
            }),
            Box::new(Scn {
                name: "XML",
                quick: 4000,
                thorough: 60000,
                strategy: |_| locked_case(),
                run: run_xml,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
