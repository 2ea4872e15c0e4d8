//! Saving a database and reopening it gives back the same database.
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use super::common::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
}

/// Save, reopen, compare. An unrepresentable text justifies a refusal.
pub fn round_trip(db: &MDb, set: &Settings, creds: &Creds, ctx: &mut Ctx) -> Verdict {
    let data = match lib_api::save(db, set, creds) {
        Ok(d) => d,
        Err(_) if !db.xml_representable() => {
            ctx.label("refused text");
            return Ok(());
        }
        Err(e) => return Err(e),
    };
    let (k, got) = lib_api::load(&data, creds)?;
    diff(&db.normal(), &{
        let mut g = got;
        g.norm_values();
        g
    })?;
    let h = lib_api::settings_of(k.header());
    if h != lib_api::want_settings(set) {
        return Err(format!("settings differ: {h:?}"));
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let n = c.db.count();
    ctx.nt_if(n.fields > 0);
    classes(&c.db, &c.set, &c.creds, ctx);
    round_trip(&c.db, &c.set, &c.creds, ctx)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    pub base: MDb,
    pub set: Settings,
    pub creds: Creds,
    parts: Vec<(Bulk, bool)>,
    /// Aim for a payload of this many bytes (uncompressed archives only).
    target: Option<usize>,
}

fn with_bulk(c: &Large, extra: usize) -> MDb {
    let mut db = c.base.clone();
    let mut fields: Vec<MField> = c
        .parts
        .iter()
        .enumerate()
        .map(|(i, (b, prot))| MField {
            key: format!("bulk{i}"),
            value: Some(b.text()),
            prot: *prot,
        })
        .collect();
    if c.target.is_some() {
        fields.push(MField::new("pad", &"p".repeat(extra), false));
    }
    db.root.entries.insert(
        0,
        MEntry {
            uuid: 99,
            fields,
            history: vec![],
            times: MTimes::zero(),
        },
    );
    db
}

/// Number of payload bytes in all blocks of an archive.
fn payload_len(data: &[u8]) -> usize {
    let Ok((_, _, _, at)) = split_header(data) else {
        return 0;
    };
    let mut p = at + 64;
    let mut total = 0;
    while p + 36 <= data.len() {
        let n = u32::from_le_bytes(data[p + 32..p + 36].try_into().unwrap()) as usize;
        total += n;
        p += 36 + n;
    }
    total
}

/// The database of a large case, padded to the size aimed at.
pub fn large_db(c: &Large) -> Result<MDb, String> {
    let mut db = with_bulk(c, 0);
    if let Some(t) = c.target {
        // Hit the size exactly: measure the archive without padding first
        let n = payload_len(&lib_api::save(&db, &c.set, &c.creds)?);
        if t > n {
            db = with_bulk(c, t - n);
        }
    }
    Ok(db)
}

fn run_large(c: &Large, ctx: &mut Ctx) -> Verdict {
    classes(&c.base, &c.set, &c.creds, ctx);
    let db = large_db(c)?;
    ctx.nt();
    ctx.label(if c.target.is_some() {
        "aimed at a block boundary"
    } else {
        "several MiB"
    });
    round_trip(&db, &c.set, &c.creds, ctx)
}

pub fn large(_: Tier) -> BoxedStrategy<Large> {
    const M: usize = 1 << 20;
    let free = (
        small_db(),
        cheap_settings(),
        creds(),
        proptest::collection::vec(
            (
                bulk(prop_oneof![
                    3 => 1000usize..200_000,
                    2 => (1usize..4, -40isize..40).prop_map(|(k, d)| ((k << 20) as isize + d) as usize),
                    1 => 1_000_000usize..3_000_000,
                ]),
                any::<bool>(),
            ),
            1..4,
        ),
    )
        .prop_map(|(base, set, creds, parts)| Large {
            base,
            set,
            creds,
            parts,
            target: None,
        });
    let aimed = (
        small_db(),
        cheap_settings(),
        creds(),
        select(vec![1usize, 1, 1, 2, 3]),
        -40isize..40,
        any::<bool>(),
    )
        .prop_map(|(base, mut set, creds, k, d, zero)| {
            set.gzip = false;
            Large {
                base,
                set,
                creds,
                parts: vec![],
                target: Some((k * M).wrapping_add_signed(if zero { 0 } else { d })),
            }
        });
    prop_oneof![free, aimed].boxed()
}

/// Archives larger than a 24-bit length.
fn huge(tier: Tier) -> BoxedStrategy<Large> {
    (
        small_db(),
        cheap_settings(),
        creds(),
        if tier == Tier::Quick {
            (16_900_000usize..17_500_000).boxed()
        } else {
            prop_oneof![16_900_000usize..20_000_000, 33_600_000usize..36_000_000].boxed()
        },
        any::<u64>(),
        any::<bool>(),
    )
        .prop_filter("Twofish takes too long", |c| c.1.cipher != RCipher::TwoFish)
        .prop_map(|(base, set, creds, len, seed, prot)| Large {
            // Random letters lose a quarter when compressed
            parts: vec![(
                Bulk {
                    len: if set.gzip { len * 4 / 3 } else { len },
                    kind: 1,
                    seed,
                },
                prot,
            )],
            base,
            set,
            creds,
            target: None,
        })
        .boxed()
}

/// Default settings of a new archive, which only vary in the random secrets.
fn run_default(c: &(MDb, Creds), ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let mut k = kdbx_rs::Kdbx::from_database(c.0.to_lib());
    k.set_key(c.1.to_lib())
        .map_err(|e| format!("setting the key failed: {e:?}"))?;
    let data = lib_api::write(&k).map_err(|e| format!("saving failed: {e:?}"))?;
    let (_, mut got) = lib_api::load(&data, &c.1)?;
    got.norm_values();
    diff(&c.0.normal(), &got)
}

pub fn property() -> Property {
    Property {
        id: "C01",
        level: "exploration",
        rule: "the saved database has at least one field, or is padded to MiB size",
        assumptions: &["KDF costs are kept small except in the default-settings scenario"],
        scenarios: vec![
            Box::new(Scn {
                name: "small",
                quick: 5000,
                thorough: 60000,
                strategy: |_| {
                    (prop_oneof![8 => db(), 1 => db_of(any_text())], settings(), creds())
                        .prop_map(|(db, set, creds)| Case { db, set, creds })
                        .boxed()
                },
                run,
                need: &[
                    "cipher Aes256",
                    "cipher TwoFish",
                    "cipher ChaCha20",
                    "inner Salsa20",
                    "inner ChaCha20",
                    "gzip",
                    "no compression",
                    "AES KDF",
                    "Argon2id",
                    "Argon2d",
                    "key file",
                    "history",
                    "protected values",
                    "deep tree",
                    "custom data",
                ],
            }),
            Box::new(Scn {
                name: "large",
                quick: 90,
                thorough: 1200,
                strategy: large,
                run: run_large,
                need: &["aimed at a block boundary", "several MiB", "gzip"],
            }),
            Box::new(Scn {
                name: "wide",
                quick: 80,
                thorough: 1500,
                strategy: |_| {
                    (wide_db(), cheap_settings(), creds())
                        .prop_map(|(db, set, creds)| Case { db, set, creds })
                        .boxed()
                },
                run,
                need: &["deep tree", "history", "custom data"],
            }),
            Box::new(Scn {
                name: "very wide",
                quick: 8,
                thorough: 40,
                strategy: |_| {
                    (very_wide_db(), cheap_settings(), creds())
                        .prop_map(|(db, mut set, creds)| {
                            if set.cipher == RCipher::TwoFish {
                                set.gzip = true;
                            }
                            Case { db, set, creds }
                        })
                        .boxed()
                },
                run,
                need: &[],
            }),
            Box::new(Scn {
                name: "long texts",
                quick: 160,
                thorough: 3000,
                strategy: |_| {
                    (bulk(2000usize..200_000), 0u8..12, cheap_settings(), creds(), text())
                        .prop_map(|(b, at, set, creds, t)| Case {
                            db: super::c12::one_text(&(b.text() + &t), at),
                            set,
                            creds,
                        })
                        .boxed()
                },
                run,
                need: &["history", "protected values", "custom data"],
            }),
            Box::new(Scn {
                name: "strong KDF",
                quick: 60,
                thorough: 1500,
                strategy: |_| {
                    (small_db(), settings_of(strong_kdf()), creds())
                        .prop_map(|(db, set, creds)| Case { db, set, creds })
                        .boxed()
                },
                run,
                need: &["AES KDF", "Argon2id", "Argon2d"],
            }),
            Box::new(Scn {
                name: "huge",
                quick: 6,
                thorough: 40,
                strategy: huge,
                run: run_large,
                need: &[],
            }),
            Box::new(Scn {
                name: "defaults",
                quick: 4,
                thorough: 16,
                strategy: |_| (small_db(), creds()).boxed(),
                run: run_default,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
