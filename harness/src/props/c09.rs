//! Opening does not depend on how the source delivers its bytes.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use kdbx_rs::binary::Locked;
use kdbx_rs::Kdbx;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Read};

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
];
const MARK: &str = "the source gave up (4711)";

/// Delivers data in pieces; 0 stands for an interrupted read.
pub struct Scripted<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: &'a [usize],
    pub step: usize,
    pub fail: Option<(usize, ErrorKind)>,
}

impl Read for Scripted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.plan.get(self.step % self.plan.len().max(1)).copied().unwrap_or(usize::MAX);
        self.step += 1;
        if n == 0 {
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut end = self.data.len();
        if let Some((at, kind)) = self.fail {
            if self.pos >= at {
                return Err(io::Error::new(kind, MARK));
            }
            end = end.min(at);
        }
        let n = n.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    lay: Layout,
    v3: bool,
    bulk: Bulk,
    /// Damage before reading.
    damage: usize,
    seed: u64,
    plan: Vec<usize>,
    /// Error positions tried.
    fails: usize,
}

fn data(c: &Case) -> Vec<u8> {
    let mut db = c.db.clone();
    if c.bulk.len > 0 {
        db.root.name = c.bulk.text();
    }
    let xml = render(&db, &Style::plain(), &c.set, None);
    let mut d = if c.v3 {
        let mut f = V3::simple(&c.set, &c.creds, &[1; 32], xml);
        f.fields = c.lay.v3_fields(&c.set, &[1; 32]);
        f.block_sizes = c.lay.blocks.clone();
        f.encode()
    } else {
        c.lay.v4(&c.set, &c.creds, xml).encode()
    };
    let mut r = Rng(c.seed);
    mutate_bytes(&mut d, &mut r, c.damage);
    d
}

fn kind_of(e: &kdbx_rs::errors::OpenError) -> String {
    // The variants, not the texts
    format!("{e:?}").chars().filter(|c| !c.is_whitespace()).collect()
}

type Opened = Result<Kdbx<Locked>, kdbx_rs::errors::OpenError>;

fn same(a: &Opened, b: &Opened, how: &str) -> Verdict {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            if format!("{x:?}") != format!("{y:?}")
                || format!("{:?}", x.header()) != format!("{:?}", y.header())
                || lib_api::write_locked(x).ok() != lib_api::write_locked(y).ok()
            {
                return Err(format!("{how}: another archive is read"));
            }
            Ok(())
        }
        (Err(x), Err(y)) if kind_of(x) == kind_of(y) => Ok(()),
        (x, y) => Err(format!(
            "{how}: {} instead of {}",
            y.as_ref().map_or_else(|e| format!("{e:?}"), |_| "an archive".into()),
            x.as_ref().map_or_else(|e| format!("{e:?}"), |_| "an archive".into()),
        )),
    }
}

/// Whether the error of the source is in the chain of causes.
fn reported(e: &kdbx_rs::errors::OpenError, kind: ErrorKind) -> bool {
    let mut cur: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = cur {
        if let Some(io) = x.downcast_ref::<io::Error>() {
            if io.kind() == kind {
                return true;
            }
        }
        cur = x.source();
    }
    format!("{e:?}").contains(MARK) || e.to_string().contains(MARK)
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let d = data(c);
    let whole = kdbx_rs::from_reader(&d[..]);
    ctx.nt_if(c.plan.len() > 1 || c.plan.first().is_some_and(|n| *n < 32));
    ctx.label(if whole.is_ok() { "opened" } else { "refused" });
    ctx.label(if c.v3 { "KDBX 3" } else { "KDBX 4" });
    ctx.label_if(c.plan.contains(&0), "interrupted");
    let split = kdbx_rs::from_reader(Scripted {
        data: &d,
        pos: 0,
        plan: &c.plan,
        step: 0,
        fail: None,
    });
    same(&whole, &split, &format!("read in pieces of {:?}", c.plan))?;
    ctx.eval(1);
    if let (Ok(a), Ok(b)) = (whole, split) {
        if affordable(&a.header().kdf_params) {
            let (a, b) = (a.unlock(&c.creds.to_lib()), b.unlock(&c.creds.to_lib()));
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    ctx.label("unlocked");
                    if a.database() != b.database() || a.raw_xml() != b.raw_xml() {
                        return Err("content depends on how the bytes were delivered".into());
                    }
                }
                (Err(a), Err(b)) if format!("{:?}", a.1) == format!("{:?}", b.1) => {}
                _ => return Err("unlocking depends on how the bytes were delivered".into()),
            }
        }
    }
    // A source that fails
    let mut r = Rng(c.seed ^ 77);
    let header = split_header(&d).map_or(64, |h| h.3).min(d.len());
    for i in 0..c.fails {
        let at = if c.fails > d.len() {
            i.min(d.len())
        } else if r.pct(50) {
            r.below(header + 80).min(d.len())
        } else {
            r.below(d.len() + 1)
        };
        let kind = *r.pick(&KINDS);
        let res = kdbx_rs::from_reader(Scripted {
            data: &d,
            pos: 0,
            plan: &c.plan,
            step: 0,
            fail: Some((at, kind)),
        });
        ctx.eval(1);
        match res {
            Ok(_) => return Err(format!("archive returned although the source failed ({kind:?}) at byte {at} of {}", d.len())),
            // Damaged files may be refused before the error is reached
            Err(e) if c.damage == 0 && !reported(&e, kind) => {
                return Err(format!("source failed with {kind:?} at byte {at} of {}, reported: {e:?}", d.len()))
            }
            Err(_) => ctx.label("source failed"),
        }
    }
    Ok(())
}

/// Files on disk.
fn run_file(c: &Case, ctx: &mut Ctx) -> Verdict {
    let d = data(c);
    let p = scratch().join(format!("c09-{:x}-{:?}", c.seed, std::thread::current().id()));
    std::fs::write(&p, &d).expect("scratch file");
    let from_file = kdbx_rs::open(&p);
    let from_string = kdbx_rs::open(p.to_str().unwrap());
    std::fs::remove_file(&p).expect("scratch file");
    ctx.nt();
    let whole = kdbx_rs::from_reader(&d[..]);
    same(&whole, &from_file, "opened from a file")?;
    same(&whole, &from_string, "opened from a file")?;
    match kdbx_rs::open(&p) {
        Err(e) if reported(&e, ErrorKind::NotFound) => {}
        Err(e) => return Err(format!("missing file reported as {e:?}")),
        Ok(_) => return Err("missing file opened".into()),
    }
    if kdbx_rs::open(scratch()).is_ok() {
        return Err("directory opened".into());
    }
    Ok(())
}

fn plan() -> S<Vec<usize>> {
    prop_oneof![
        2 => Just(vec![1usize]),
        1 => Just(vec![0, 1]),
        3 => vec(prop_oneof![2 => 0usize..2, 3 => 1usize..10, 2 => 10usize..600], 1..12)
            .prop_filter("progress", |v| v.iter().any(|n| *n > 0)),
        1 => vec(1usize..20_000, 1..4),
    ]
    .boxed()
}

fn case(len: S<usize>, fails: usize) -> S<Case> {
    (
        (small_db(), cheap_settings(), creds(), layout(), any::<bool>(), bulk(len)),
        (prop_oneof![3 => Just(0usize), 1 => 1usize..3], any::<u64>(), plan()),
    )
        .prop_map(move |((db, set, creds, mut lay, v3, bulk), (damage, seed, plan))| {
            if v3 {
                lay.outer.retain(|(i, _)| *i != 12);
            }
            Case {
                db,
                set,
                creds,
                lay,
                v3,
                bulk,
                damage,
                seed,
                plan,
                fails,
            }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C09",
        level: "exploration",
        rule: "the bytes are delivered in more than one piece, or from a file",
        assumptions: &["a source that has reported its end keeps reporting it"],
        scenarios: vec![
            Box::new(Scn {
                name: "pieces",
                quick: 20000,
                thorough: 400000,
                strategy: |_| case(Just(0usize).boxed(), 12),
                run,
                need: &["opened", "refused", "KDBX 3", "KDBX 4", "interrupted", "unlocked", "source failed"],
            }),
            Box::new(Scn {
                name: "failure at every byte",
                quick: 200,
                thorough: 4000,
                strategy: |_| {
                    case(Just(0usize).boxed(), 100_000)
                        .prop_map(|mut c| {
                            c.damage = 0;
                            c.db.root.entries.truncate(1);
                            c.fails = data(&c).len() + 1;
                            c
                        })
                        .boxed()
                },
                run,
                need: &["source failed"],
            }),
            Box::new(Scn {
                name: "large",
                quick: 60,
                thorough: 600,
                strategy: |_| case((50_000usize..2_000_000).boxed(), 6),
                run,
                need: &["unlocked"],
            }),
            Box::new(Scn {
                name: "files",
                quick: 400,
                thorough: 4000,
                strategy: |_| case(Just(0usize).boxed(), 0),
                run: run_file,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
