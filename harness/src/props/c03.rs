//! Every conforming KDBX 4 file opens with exactly its content.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    style: Style,
    lay: Layout,
    bulk: Option<Bulk>,
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut db = c.db.clone();
    if let Some(b) = &c.bulk {
        db.root.entries.push(MEntry {
            uuid: 5,
            fields: vec![MField::new("bulk", &b.text(), b.seed % 2 == 0)],
            history: vec![],
            times: MTimes::zero(),
        });
    }
    classes(&db, &c.set, &c.creds, ctx);
    ctx.label_if(c.style.iso_times, "ISO times");
    ctx.label_if(c.style.shuffle, "shuffled elements");
    ctx.label_if(c.style.bom, "BOM");
    ctx.label_if(!c.lay.outer.is_empty(), "extra header fields");
    ctx.label_if(!c.lay.inner.is_empty(), "extra inner fields");
    ctx.label_if(!c.lay.dict.is_empty(), "extra dictionary entries");
    ctx.label_if(matches!(c.set.kdf, RKdf::Aes { .. }) && !c.lay.aes4, "AES KDF with the old identifier");
    let xml = render(&db, &c.style, &c.set, None);
    let f = c.lay.v4(&c.set, &c.creds, xml.clone());
    let data = f.encode();
    // The reference reader agrees that this is a conforming file
    if let Err(e) = decode_v4(&data, &c.creds) {
        panic!("reference file is not conforming: {e}");
    }
    ctx.nt_if(db.count().fields > 0);
    let k = lib_api::open(&data)?;
    if (k.major_version(), k.minor_version()) != (4, c.lay.minor) {
        return Err(format!("version {}.{}", k.major_version(), k.minor_version()));
    }
    let (k, got) = lib_api::load(&data, &c.creds)?;
    same_db(&as_read(&db), &got)?;
    let (h, w) = (lib_api::settings_of(k.header()), lib_api::want_settings(&c.set));
    if h != w {
        return Err(format!("settings read {h:?}, file has {w:?}"));
    }
    if k.inner_header().inner_stream_cipher != c.set.inner.to_lib()
        || k.inner_header().inner_stream_key != c.set.inner_key
    {
        return Err("inner header differs".into());
    }
    if k.raw_xml() != Some(&xml[..]) {
        return Err("raw XML differs from the document in the file".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    db: MDb,
    set: Settings,
    creds: Creds,
    blocks: usize,
    size: usize,
    seed: u64,
}

/// More blocks than fit a 16-bit number.
fn run_many(c: &Many, ctx: &mut Ctx) -> Verdict {
    let mut db = c.db.clone();
    let bulk = Bulk {
        len: c.blocks * c.size * 4 / 3,
        kind: 1,
        seed: c.seed,
    };
    db.root.entries.push(MEntry {
        uuid: 5,
        fields: vec![MField::new("bulk", &bulk.text(), false)],
        history: vec![],
        times: MTimes::zero(),
    });
    let xml = render(&db, &Style::plain(), &c.set, None);
    let f = V4::simple(&c.set, &c.creds, xml);
    let keys = f.keys();
    let payload = f.payload();
    let plain = if c.set.gzip { gzip(&payload) } else { payload };
    let enc = c.set.cipher.encrypt(&keys.cipher, &c.set.iv, &plain);
    let mut data = f.header();
    let (sum, mac) = (sha256(&data), keys.header_mac(&data));
    data.extend(sum);
    data.extend(mac);
    let blocks: Vec<&[u8]> = enc.chunks(c.size).collect();
    ctx.nt();
    ctx.label_if(blocks.len() > 32768, "over 32768 blocks");
    ctx.label_if(blocks.len() > 65536, "over 65536 blocks");
    data.extend(v4_blocks(&keys, &blocks));
    let (_, got) = lib_api::load(&data, &c.creds).map_err(|e| format!("{} blocks: {e}", blocks.len()))?;
    same_db(&as_read(&db), &got)
}

/// Files made by other clients: the library and the reference reader agree on them.
fn run_sample(i: &usize, ctx: &mut Ctx) -> Verdict {
    let (name, data, creds) = samples()[*i].clone();
    ctx.nt();
    ctx.note = Some(name.into());
    let d = match decode_v4(data, &creds) {
        Ok(d) => d,
        Err(e) => panic!("reference reader on {name}: {e}"),
    };
    let want = match crate::refxml::read(&d.xml, &mut *d.inner.stream(&d.inner_key)) {
        Ok(d) => d,
        Err(e) => panic!("reference reader on {name}: {e}"),
    };
    let (k, got) = lib_api::load(data, &creds)?;
    same_db(&as_read(&want), &got).map_err(|e| format!("{name}: {e}"))?;
    if k.raw_xml() != Some(&d.xml[..]) {
        return Err(format!("{name}: raw XML differs"));
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C03",
        level: "exploration",
        rule: "the file holds at least one field",
        assumptions: &["the reference writer in refkdbx.rs and refxml.rs makes conforming files"],
        scenarios: vec![
            Box::new(Scn {
                name: "files",
                quick: 6000,
                thorough: 80000,
                strategy: |_| {
                    (db(), settings(), creds(), style(), layout())
                        .prop_map(|(db, set, creds, style, lay)| Case {
                            db,
                            set,
                            creds,
                            style,
                            lay,
                            bulk: None,
                        })
                        .boxed()
                },
                run,
                need: &[
                    "cipher Aes256",
                    "cipher TwoFish",
                    "cipher ChaCha20",
                    "inner Salsa20",
                    "inner ChaCha20",
                    "gzip",
                    "AES KDF",
                    "Argon2id",
                    "Argon2d",
                    "ISO times",
                    "shuffled elements",
                    "BOM",
                    "extra header fields",
                    "extra inner fields",
                    "extra dictionary entries",
                    "AES KDF with the old identifier",
                ],
            }),
            Box::new(Scn {
                name: "large",
                quick: 60,
                thorough: 600,
                strategy: |_| {
                    (
                        small_db(),
                        cheap_settings(),
                        creds(),
                        style(),
                        layout(),
                        bulk(prop_oneof![2 => 10_000usize..300_000, 1 => 1_000_000usize..3_000_000]),
                        prop_oneof![
                            Just(vec![1usize << 20]),
                            Just(vec![0]),
                            proptest::collection::vec(1usize..100_000, 1..8),
                        ],
                    )
                        .prop_map(|(db, set, creds, mut style, mut lay, bulk, blocks)| {
                            // Character references everywhere only cost time here
                            style.char_refs = style.char_refs.min(5);
                            style.cdata = style.cdata.min(10);
                            lay.blocks = blocks;
                            Case {
                                db,
                                set,
                                creds,
                                style,
                                lay,
                                bulk: Some(bulk),
                            }
                        })
                        .boxed()
                },
                run,
                need: &["gzip", "cipher TwoFish", "cipher ChaCha20"],
            }),
            Box::new(Scn {
                name: "long fields",
                quick: 300,
                thorough: 5000,
                strategy: |_| {
                    let len = || {
                        prop_oneof![
                            2 => (proptest::sample::select(vec![255usize, 256, 4096, 32767, 32768, 65535, 65536, 131072]), 0usize..3)
                                .prop_map(|(n, d)| n + d - 1),
                            1 => 0usize..300_000,
                        ]
                    };
                    (small_db(), cheap_settings(), creds(), layout(), len(), len(), len(), len())
                        .prop_map(|(db, set, creds, mut lay, a, b, d, e)| {
                            lay.outer.push((12, vec![0xA5; a]));
                            lay.inner.push((3, vec![0x5A; b]));
                            let at = d % (lay.dict.len() + 1);
                            lay.dict.insert(at, ("k".repeat(d), 0x42, vec![1; e]));
                            Case {
                                db,
                                set,
                                creds,
                                style: Style::plain(),
                                lay,
                                bulk: None,
                            }
                        })
                        .boxed()
                },
                run,
                need: &["extra header fields", "extra inner fields", "extra dictionary entries"],
            }),
            Box::new(Scn {
                name: "wide",
                quick: 60,
                thorough: 1000,
                strategy: |_| {
                    (wide_db(), cheap_settings(), creds(), style(), layout())
                        .prop_map(|(db, set, creds, style, lay)| Case {
                            db,
                            set,
                            creds,
                            style,
                            lay,
                            bulk: None,
                        })
                        .boxed()
                },
                run,
                need: &["deep tree", "history", "custom data"],
            }),
            Box::new(Scn {
                name: "many fields",
                quick: 80,
                thorough: 1500,
                strategy: |_| {
                    (
                        (small_db(), cheap_settings(), creds(), layout()),
                        (0usize..700, 0usize..700, 0usize..700, any::<u64>()),
                    )
                        .prop_map(|((db, set, creds, mut lay), (a, b, d, seed))| {
                            let mut r = Rng(seed);
                            lay.outer = (0..a).map(|_| { let n = r.below(5); (13 + r.below(240) as u8, r.bytes(n)) }).collect();
                            lay.inner = (0..b).map(|_| { let n = r.below(5); (3 + r.below(250) as u8, r.bytes(n)) }).collect();
                            lay.dict = (0..d).map(|i| { let n = r.below(5); (format!("x{i}"), 0x42, r.bytes(n)) }).collect();
                            Case {
                                db,
                                set,
                                creds,
                                style: Style::plain(),
                                lay,
                                bulk: None,
                            }
                        })
                        .boxed()
                },
                run,
                need: &["extra header fields", "extra inner fields", "extra dictionary entries"],
            }),
            Box::new(Scn {
                name: "strong KDF",
                quick: 60,
                thorough: 1500,
                strategy: |_| {
                    (small_db(), settings_of(strong_kdf()), creds(), layout())
                        .prop_map(|(db, set, creds, lay)| Case {
                            db,
                            set,
                            creds,
                            style: Style::plain(),
                            lay,
                            bulk: None,
                        })
                        .boxed()
                },
                run,
                need: &["AES KDF", "Argon2id", "Argon2d"],
            }),
            Box::new(Scn {
                name: "many blocks",
                quick: 8,
                thorough: 100,
                strategy: |_| {
                    (
                        small_db(),
                        cheap_settings(),
                        creds(),
                        prop_oneof![33_000usize..40_000, 66_000usize..80_000, Just(131_200usize)],
                        1usize..4,
                        any::<u64>(),
                    )
                        .prop_map(|(db, set, creds, blocks, size, seed)| Many {
                            db,
                            set,
                            creds,
                            blocks,
                            size,
                            seed,
                        })
                        .boxed()
                },
                run: run_many,
                need: &["over 32768 blocks", "over 65536 blocks"],
            }),
            Box::new(Scn {
                name: "samples",
                quick: 36,
                thorough: 72,
                strategy: |_| (0..samples().len()).boxed(),
                run: run_sample,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
