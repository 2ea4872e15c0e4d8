//! An archive unlocks with its own credentials and with no others.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::Rng;
use kdbx_rs::errors::UnlockError;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Source {
    Saved,
    RefV4,
    RefV3,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attempt {
    Other(Creds),
    /// A variation of the right credentials.
    Near(u8, u64),
    Right,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    source: Source,
    start: Vec<u8>,
    tries: Vec<Attempt>,
}

const NEAR: u8 = 22;

/// Something close to the right credentials (it may even be equivalent to them).
fn near(c: &Creds, kind: u8, seed: u64) -> Creds {
    let mut r = Rng(seed);
    let mut n = c.clone();
    let pw = c.pw.clone().unwrap_or_default();
    let kf = c.keyfile.clone().unwrap_or_default();
    match kind {
        0 => n.pw = Some(pw + " "),
        1 => n.pw = Some(format!(" {pw}")),
        2 => n.pw = Some(pw.to_uppercase()),
        3 => n.pw = Some(pw.to_lowercase()),
        4 => n.pw = Some(pw + "\0"),
        5 => n.pw = Some(pw.chars().take(pw.chars().count().saturating_sub(1)).collect()),
        6 => n.pw = Some(pw.chars().skip(1).collect()),
        7 => n.pw = Some(pw.chars().rev().collect()),
        8 => n.pw = None,
        9 => n.pw = Some(String::new()),
        10 => n.keyfile = None,
        11 => n.keyfile = Some(vec![]),
        12 => {
            let mut k = kf;
            k.push(r.next() as u8);
            n.keyfile = Some(k);
        }
        13 => {
            let mut k = kf;
            if k.is_empty() {
                k.push(0);
            }
            let i = r.below(k.len());
            k[i] ^= 1 << r.below(8);
            n.keyfile = Some(k);
        }
        14 => {
            let mut k = kf;
            k.pop();
            n.keyfile = Some(k);
        }
        // Password used as key file and the other way round: equivalent when it is the
        // only component
        15 => {
            n.keyfile = Some(pw.into_bytes());
            n.pw = None;
        }
        16 => {
            if let Ok(s) = String::from_utf8(kf.clone()) {
                n.pw = Some(s);
                n.keyfile = None;
            }
        }
        17 => {
            if let Ok(s) = String::from_utf8(kf.clone()) {
                n.pw = Some(s);
                n.keyfile = Some(pw.into_bytes());
            }
        }
        // The hash of the key file in place of the key file
        18 => n.keyfile = Some(sha256(&kf).to_vec()),
        19 => n.keyfile = Some(hex(&sha256(&kf)).into_bytes()),
        // The password, twice or joined with the key file
        20 => n.pw = Some(format!("{pw}{pw}")),
        _ => {
            if let Ok(s) = String::from_utf8(kf.clone()) {
                n.pw = Some(pw + &s);
                n.keyfile = None;
            }
        }
    }
    n
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let data = match c.source {
        Source::Saved => lib_api::save(&c.db, &c.set, &c.creds)?,
        Source::RefV4 => ref_v4(&c.db, &c.set, &c.creds),
        Source::RefV3 => ref_v3(&c.db, &c.set, &c.creds, &c.start),
    };
    ctx.label(&format!("{:?}", c.source));
    let want = if c.source == Source::Saved {
        c.db.normal()
    } else {
        as_read(&c.db)
    };
    let mut k = lib_api::open(&data)?;
    let before = (lib_api::write_locked(&k).map_err(|e| format!("{e:?}"))?, format!("{:?}", k.header()));
    let right = c.creds.composite();
    let mut tries = c.tries.clone();
    tries.push(Attempt::Right);
    for t in tries {
        let cr = match &t {
            Attempt::Other(o) => o.clone(),
            Attempt::Near(kind, seed) => near(&c.creds, *kind, *seed),
            Attempt::Right => c.creds.clone(),
        };
        let same = cr.composite() == right;
        ctx.label_if(!same, "wrong credentials");
        ctx.label_if(same && cr != c.creds, "equivalent credentials");
        ctx.nt_if(!same);
        ctx.eval(1);
        match k.unlock(&cr.to_lib()) {
            Ok(u) => {
                if !same {
                    return Err(format!("unlocked with {cr:?} instead of {:?}", c.creds));
                }
                same_db(&want, &MDb::from_lib(u.database()))?;
                k = lib_api::open(&data)?;
            }
            Err(e) => {
                if same {
                    return Err(format!("{cr:?} refused, archive has {:?}: {:?}", c.creds, e.1));
                }
                match (&e.1, c.source) {
                    (UnlockError::HmacInvalid, Source::Saved | Source::RefV4)
                    | (UnlockError::StartBytesInvalid, Source::RefV3) => {}
                    (x, _) => return Err(format!("wrong credentials lead to {x:?}")),
                }
                k = e.0;
                let after = (
                    lib_api::write_locked(&k).map_err(|e| format!("{e:?}"))?,
                    format!("{:?}", k.header()),
                );
                if after != before {
                    return Err("the archive handed back after a refusal differs".into());
                }
            }
        }
    }
    Ok(())
}

/// Keys the library derives from credentials depend on presence, order and every byte.
fn run_pairs(p: &(Settings, Vec<Creds>), ctx: &mut Ctx) -> Verdict {
    let (s, all) = p;
    let db = MDb::from_lib(&kdbx_rs::Database::default());
    for a in all {
        let data = lib_api::save(&db, s, a)?;
        for b in all {
            let same = a.composite() == b.composite();
            ctx.nt_if(!same);
            ctx.eval(1);
            if lib_api::unlock(&data, b).is_ok() != same {
                return Err(format!("archive of {a:?} with {b:?}: should unlock: {same}"));
            }
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C05",
        level: "exploration",
        rule: "at least one attempt uses wrong credentials",
        assumptions: &["no collisions of SHA-256 or HMAC-SHA-256 occur"],
        scenarios: vec![
            Box::new(Scn {
                name: "attempts",
                quick: 30000,
                thorough: 300000,
                strategy: |_| {
                    (
                        small_db(),
                        prop_oneof![2 => settings_of(aes_kdf()), 1 => settings()],
                        creds(),
                        prop_oneof![
                            2 => Just(Source::Saved),
                            1 => Just(Source::RefV4),
                            1 => Just(Source::RefV3)
                        ],
                        vec(any::<u8>(), 32),
                        vec(
                            prop_oneof![
                                1 => creds().prop_map(Attempt::Other),
                                6 => (0..NEAR, any::<u64>()).prop_map(|(k, s)| Attempt::Near(k, s)),
                                1 => Just(Attempt::Right),
                            ],
                            1..7,
                        ),
                    )
                        .prop_map(|(db, set, creds, source, start, tries)| {
                            let source = match (&set.kdf, source) {
                                (RKdf::Argon2 { .. }, Source::RefV3) => Source::RefV4,
                                (_, s) => s,
                            };
                            Case {
                                db,
                                set,
                                creds,
                                source,
                                start,
                                tries,
                            }
                        })
                        .boxed()
                },
                run,
                need: &[
                    "Saved",
                    "RefV4",
                    "RefV3",
                    "wrong credentials",
                    "equivalent credentials",
                ],
            }),
            Box::new(Scn {
                name: "pairs",
                quick: 4000,
                thorough: 40000,
                strategy: |_| {
                    (cheap_settings(), creds(), vec((0..NEAR, 0..NEAR, any::<u64>()), 6))
                        .prop_map(|(s, c, kinds)| {
                            let mut v = vec![c.clone()];
                            for (k, k2, seed) in kinds {
                                v.push(near(&near(&c, k, seed), k2, seed ^ 1));
                            }
                            (s, v)
                        })
                        .boxed()
                },
                run: run_pairs,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
