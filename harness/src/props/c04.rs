//! KDBX 3.1 files open faithfully, and damage to them is noticed.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use base64::prelude::{Engine, BASE64_STANDARD};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    style: Style,
    lay: Layout,
    start: Vec<u8>,
    hash: bool,
    bulk: Option<Bulk>,
    /// Drives the damage done.
    seed: u64,
    damage: usize,
}

struct Built {
    data: Vec<u8>,
    xml: Vec<u8>,
    header_len: usize,
    db: MDb,
}

fn build(c: &Case) -> Built {
    let mut db = c.db.clone();
    if let Some(b) = &c.bulk {
        db.root.entries.push(MEntry {
            uuid: 5,
            fields: vec![MField::new("bulk", &b.text(), b.seed % 2 == 0)],
            history: vec![],
            times: MTimes::zero(),
        });
    }
    let mut f = V3 {
        minor: c.lay.minor,
        fields: c.lay.v3_fields(&c.set, &c.start),
        end: c.lay.end.clone(),
        settings: &c.set,
        creds: &c.creds,
        start_bytes: c.start.clone(),
        xml: vec![],
        block_sizes: c.lay.blocks.clone(),
    };
    let header = f.header();
    let hash = c.hash.then(|| BASE64_STANDARD.encode(sha256(&header)));
    let xml = render(&db, &c.style, &c.set, hash.as_deref());
    f.xml = xml.clone();
    Built {
        data: f.encode(),
        xml,
        header_len: header.len(),
        db,
    }
}

fn faithful(c: &Case, b: &Built) -> Verdict {
    let k = lib_api::open(&b.data)?;
    if (k.major_version(), k.minor_version()) != (3, c.lay.minor) {
        return Err(format!("version {}.{}", k.major_version(), k.minor_version()));
    }
    let (k, got) = lib_api::load(&b.data, &c.creds)?;
    same_db(&as_read(&b.db), &got)?;
    let (h, w) = (lib_api::settings_of(k.header()), lib_api::want_settings(&c.set));
    if h != w {
        return Err(format!("settings read {h:?}, file has {w:?}"));
    }
    if k.inner_header().inner_stream_cipher != c.set.inner.to_lib()
        || k.inner_header().inner_stream_key != c.set.inner_key
    {
        return Err("inner stream settings differ".into());
    }
    if k.raw_xml() != Some(&b.xml[..]) {
        return Err("raw XML differs from the document in the file".into());
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let b = build(c);
    classes(&b.db, &c.set, &c.creds, ctx);
    ctx.label_if(c.hash, "header hash");
    ctx.nt_if(b.db.count().fields > 0);
    faithful(c, &b)
}

/// Damage must be refused, or (where it hits redundant bytes) change nothing.
fn rejected(c: &Case, b: &Built, data: &[u8], strict: bool, what: &str) -> Verdict {
    let Ok(k) = kdbx_rs::from_reader(data) else {
        return Ok(());
    };
    if !affordable(&k.header().kdf_params) {
        return Ok(());
    }
    match k.unlock(&c.creds.to_lib()) {
        Err(_) => Ok(()),
        Ok(k) => {
            if !strict && k.raw_xml() == Some(&b.xml[..]) {
                same_db(&as_read(&b.db), &MDb::from_lib(k.database()))
                    .map_err(|e| format!("{what}: accepted with other content, {e}"))
            } else {
                Err(format!("{what}: accepted"))
            }
        }
    }
}

fn run_damage(c: &Case, ctx: &mut Ctx) -> Verdict {
    let b = build(c);
    setting_classes(&c.set, ctx);
    ctx.label_if(c.hash, "header hash");
    faithful(c, &b)?;
    ctx.nt();
    let mut r = Rng(c.seed);
    let body = b.header_len..b.data.len();
    // Altered payload bytes
    let all = body.len() <= c.damage;
    let n = body.len().min(c.damage);
    for i in 0..n {
        let at = if all { body.start + i } else { body.start + r.below(body.len()) };
        let mut d = b.data.clone();
        let x = *r.pick(&[1u8, 2, 0x80, 0xFF, 0x20]);
        d[at] ^= if r.pct(50) { x } else { 1 + r.below(255) as u8 };
        // The start bytes are there to be compared
        let strict = at - body.start < 32;
        rejected(c, &b, &d, strict, &format!("payload byte {} of {} altered", at - body.start, body.len()))?;
        ctx.eval(1);
    }
    ctx.label("altered payload");
    // Runs of altered bytes
    for _ in 0..n / 8 + 1 {
        let mut d = b.data.clone();
        let at = body.start + r.below(body.len());
        let len = (1 + r.below(40)).min(d.len() - at);
        let junk = r.bytes(len);
        d[at..at + len].copy_from_slice(&junk);
        if d == b.data {
            continue;
        }
        rejected(c, &b, &d, false, &format!("{len} payload bytes from {} altered", at - body.start))?;
        ctx.eval(1);
    }
    // Files cut short
    let all = b.data.len() <= c.damage;
    for i in 0..b.data.len().min(c.damage) {
        let len = if all { i } else { r.below(b.data.len()) };
        rejected(c, &b, &b.data[..len], true, &format!("cut to {len} of {} bytes", b.data.len()))?;
        ctx.eval(1);
    }
    ctx.label("cut short");
    // Altered header
    if c.hash {
        for j in 0..b.header_len.min(c.damage) {
            let i = if c.damage < b.header_len { r.below(b.header_len) } else { j };
            let mut d = b.data.clone();
            d[i] ^= 1 << r.below(8);
            rejected(c, &b, &d, true, &format!("header byte {i} of {} altered", b.header_len))?;
            ctx.eval(1);
        }
        // Fields added, dropped or reordered
        if let Ok((minor, _, fields, _)) = split_header(&b.data) {
            for _ in 0..12 {
                let mut f = fields.clone();
                let i = r.below(f.len());
                match r.below(4) {
                    0 => f.insert(i, (1, b"note".to_vec())),
                    1 => {
                        let x = f.remove(i);
                        f.push(x);
                    }
                    2 => {
                        let x = f[i].clone();
                        f.push(x);
                    }
                    _ => {
                        f.remove(i);
                    }
                }
                let mut d = header_bytes(minor, 3, &f, &c.lay.end);
                if d == b.data[..b.header_len] {
                    continue;
                }
                d.extend(&b.data[b.header_len..]);
                rejected(c, &b, &d, true, "header fields rearranged")?;
                ctx.eval(1);
            }
        }
        ctx.label("altered header");
    }
    Ok(())
}

/// Header hashes that do not fit the header.
fn run_hash(c: &(Case, u8), ctx: &mut Ctx) -> Verdict {
    let mut r = Rng(c.0.seed);
    let c0 = Case { hash: true, ..c.0.clone() };
    let header = {
        let f = V3 {
            minor: c0.lay.minor,
            fields: c0.lay.v3_fields(&c0.set, &c0.start),
            end: c0.lay.end.clone(),
            settings: &c0.set,
            creds: &c0.creds,
            start_bytes: c0.start.clone(),
            xml: vec![],
            block_sizes: vec![0],
        };
        f.header()
    };
    let good = sha256(&header);
    let mut h = good.to_vec();
    match c.1 {
        0 => h[r.below(32)] ^= 1 << r.below(8),
        1 => h.truncate(r.below(32)),
        2 => h.push(0),
        3 => h = sha256(&header[..header.len() - 1]).to_vec(),
        4 => h = sha256(&header[12..]).to_vec(),
        _ => h = vec![0; 32],
    }
    if h.is_empty() {
        // Empty means that there is no hash
        return Ok(());
    }
    ctx.nt();
    ctx.label(&format!("kind {}", c.1));
    let xml = render(&c0.db, &c0.style, &c0.set, Some(&BASE64_STANDARD.encode(&h)));
    let f = V3 {
        minor: c0.lay.minor,
        fields: c0.lay.v3_fields(&c0.set, &c0.start),
        end: c0.lay.end.clone(),
        settings: &c0.set,
        creds: &c0.creds,
        start_bytes: c0.start.clone(),
        xml,
        block_sizes: vec![0],
    };
    if lib_api::unlock(&f.encode(), &c0.creds).is_ok() {
        return Err(format!("accepted with a header hash of {h:?} instead of {good:?}"));
    }
    Ok(())
}

/// Decrypted content with wrong start bytes, block hashes or block data.
fn run_inside(c: &Case, ctx: &mut Ctx) -> Verdict {
    let b = build(c);
    setting_classes(&c.set, ctx);
    faithful(c, &b)?;
    let f = V3 {
        minor: c.lay.minor,
        fields: c.lay.v3_fields(&c.set, &c.start),
        end: c.lay.end.clone(),
        settings: &c.set,
        creds: &c.creds,
        start_bytes: c.start.clone(),
        xml: b.xml.clone(),
        block_sizes: c.lay.blocks.clone(),
    };
    let plain = f.plain();
    // Where the hashes are, and the data under them
    let mut sums = vec![(0, 0..0)];
    let mut p = 32;
    while p < plain.len() {
        let n = u32::from_le_bytes(plain[p + 36..p + 40].try_into().unwrap()) as usize;
        sums.push((p + 4, p + 40..p + 40 + n));
        p += 40 + n;
    }
    ctx.nt();
    ctx.label_if(sums.len() > 3, "several blocks");
    let mut r = Rng(c.seed);
    for _ in 0..c.damage {
        let k = r.below(sums.len());
        let (at, data) = sums[k].clone();
        let mut m = plain.clone();
        let altered = !data.is_empty() && r.pct(50);
        if altered {
            let i = data.start + r.below(data.len());
            m[i] ^= 1 << r.below(8);
        }
        let (n, x) = (1 + r.below(31), 1 + r.below(255) as u8);
        let mut v = plain[at..at + 32].to_vec();
        let kind = r.below(15);
        match kind {
            0 => v = vec![0; 32],
            1 => v = vec![0xFF; 32],
            2 => v = sha256(&[]).to_vec(),
            3 => v = sha256(&sha256(&m[data.clone()])).to_vec(),
            4 => v.reverse(),
            5 => v.rotate_left(n),
            6 => v.sort(),
            7 => v.swap(n, n - 1),
            8 => {
                v[n] ^= x;
                v[n - 1] ^= x;
            }
            9 => v[n..].fill(0),
            10 => v[..n].fill(0),
            11 => v[n] ^= x,
            12 => v[31] ^= x,
            13 => v = plain[sums[1].0..sums[1].0 + 32].to_vec(),
            _ => v[0] ^= x,
        }
        m[at..at + 32].copy_from_slice(&v);
        let right = if k == 0 { m == plain } else { v == sha256(&m[data.clone()]) };
        if right || k > 0 && data.is_empty() {
            // The hash of the empty final block protects nothing
            continue;
        }
        ctx.eval(1);
        let what = format!("hash {k} of {} replaced in way {kind}, data altered: {altered}", sums.len());
        rejected(c, &b, &f.encode_plain(&m), true, &what)?;
    }
    Ok(())
}

fn case(db: S<MDb>, set: S<Settings>) -> S<Case> {
    (
        db,
        set,
        creds(),
        style(),
        layout(),
        proptest::collection::vec(any::<u8>(), 32),
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|(db, set, creds, style, mut lay, start, hash, seed)| {
            // Field 12 belongs to version 4
            lay.outer.retain(|(i, _)| *i != 12);
            Case {
                db,
                set,
                creds,
                style,
                lay,
                start,
                hash,
                bulk: None,
                seed,
                damage: 0,
            }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    db: MDb,
    set: Settings,
    creds: Creds,
    blocks: usize,
    size: usize,
    seed: u64,
}

/// More blocks than fit a 16-bit number.
fn run_many(c: &Many, ctx: &mut Ctx) -> Verdict {
    let mut db = c.db.clone();
    let bulk = Bulk {
        len: c.blocks * c.size * 4 / 3,
        kind: 1,
        seed: c.seed,
    };
    db.root.entries.push(MEntry {
        uuid: 5,
        fields: vec![MField::new("bulk", &bulk.text(), false)],
        history: vec![],
        times: MTimes::zero(),
    });
    let xml = render(&db, &Style::plain(), &c.set, None);
    let start = [9u8; 32];
    let data = if c.set.gzip { gzip(&xml) } else { xml.clone() };
    let blocks: Vec<&[u8]> = data.chunks(c.size).collect();
    ctx.nt();
    ctx.label_if(blocks.len() > 32768, "over 32768 blocks");
    ctx.label_if(blocks.len() > 65536, "over 65536 blocks");
    let mut plain = start.to_vec();
    plain.extend(v3_blocks(&blocks));
    let file = V3::simple(&c.set, &c.creds, &start, xml).encode_plain(&plain);
    let (_, got) = lib_api::load(&file, &c.creds).map_err(|e| format!("{} blocks: {e}", blocks.len()))?;
    same_db(&as_read(&db), &got)
}

fn sample(_: &u8, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let data = include_bytes!("../../fixtures/kdbx31-aes256.kdbx");
    let (k, got) = lib_api::load(data, &Creds::pw("kdbxrs"))?;
    if k.major_version() != 3 {
        return Err("major version".into());
    }
    if got.count().entries == 0 {
        return Err("no entries in the sample file".into());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C04",
        level: "exploration",
        rule: "the file holds at least one field, or is damaged",
        assumptions: &["the reference writer in refkdbx.rs and refxml.rs makes conforming files"],
        scenarios: vec![
            Box::new(Scn {
                name: "files",
                quick: 4000,
                thorough: 50000,
                strategy: |_| case(db(), v3_settings()),
                run,
                need: &[
                    "cipher Aes256",
                    "cipher TwoFish",
                    "cipher ChaCha20",
                    "inner Salsa20",
                    "inner ChaCha20",
                    "gzip",
                    "no compression",
                    "header hash",
                ],
            }),
            Box::new(Scn {
                name: "large",
                quick: 40,
                thorough: 400,
                strategy: |_| {
                    (
                        case(small_db(), cheap_settings()),
                        bulk(prop_oneof![2 => 10_000usize..300_000, 1 => 1_000_000usize..3_000_000]),
                        prop_oneof![
                            Just(vec![1usize << 20]),
                            Just(vec![0]),
                            proptest::collection::vec(1usize..100_000, 1..8),
                        ],
                    )
                        .prop_map(|(mut c, b, blocks)| {
                            c.style.char_refs = c.style.char_refs.min(5);
                            c.style.cdata = c.style.cdata.min(10);
                            c.bulk = Some(b);
                            c.lay.blocks = blocks;
                            c
                        })
                        .boxed()
                },
                run,
                need: &["gzip", "cipher TwoFish", "cipher ChaCha20"],
            }),
            Box::new(Scn {
                name: "damage",
                quick: 120,
                thorough: 2000,
                strategy: |_| {
                    (
                        case(small_db(), cheap_settings()),
                        prop_oneof![
                            2 => Just(vec![1usize << 20]),
                            1 => proptest::collection::vec(20usize..400, 1..4),
                        ],
                    )
                        .prop_map(|(mut c, blocks)| {
                            c.lay.blocks = blocks;
                            c.damage = 3000;
                            c
                        })
                        .boxed()
                },
                run: run_damage,
                need: &[
                    "altered payload",
                    "cut short",
                    "altered header",
                    "cipher ChaCha20",
                    "cipher Aes256",
                    "gzip",
                    "no compression",
                ],
            }),
            Box::new(Scn {
                name: "damage to large files",
                quick: 12,
                thorough: 160,
                strategy: |_| {
                    (
                        case(small_db(), cheap_settings()),
                        bulk(20_000usize..200_000),
                        select(vec![0usize, 4000, 50_000]),
                    )
                        .prop_map(|(mut c, b, block)| {
                            c.style.char_refs = 0;
                            c.bulk = Some(b);
                            c.lay.blocks = vec![block];
                            c.damage = 40;
                            c
                        })
                        .boxed()
                },
                run: run_damage,
                need: &["altered payload"],
            }),
            Box::new(Scn {
                name: "hashes inside",
                quick: 1500,
                thorough: 30000,
                strategy: |_| {
                    (case(small_db(), cheap_settings()), proptest::collection::vec(1usize..900, 1..4))
                        .prop_map(|(mut c, blocks)| {
                            c.lay.blocks = blocks;
                            c.damage = 24;
                            c
                        })
                        .boxed()
                },
                run: run_inside,
                need: &["several blocks", "gzip", "no compression"],
            }),
            Box::new(Scn {
                name: "header hash",
                quick: 600,
                thorough: 5000,
                strategy: |_| (case(small_db(), cheap_settings()), 0u8..6).boxed(),
                run: run_hash,
                need: &["kind 0", "kind 1", "kind 2", "kind 3", "kind 4", "kind 5"],
            }),
            Box::new(Scn {
                name: "wide",
                quick: 50,
                thorough: 800,
                strategy: |_| case(wide_db(), cheap_settings()),
                run,
                need: &["deep tree", "history", "custom data"],
            }),
            Box::new(Scn {
                name: "long and many fields",
                quick: 200,
                thorough: 3000,
                strategy: |_| {
                    let len = prop_oneof![
                        2 => (select(vec![255usize, 256, 4096, 32767, 32768, 65534]), 0usize..3)
                            .prop_map(|(n, d)| (n + d - 1).min(65535)),
                        1 => 0usize..65536,
                    ];
                    (case(small_db(), cheap_settings()), len, select(vec![1u8, 1, 13, 200, 255]), prop_oneof![Just(0usize), 100usize..700])
                        .prop_map(|(mut c, len, id, many)| {
                            c.lay.outer.push((id, vec![0xA5; len]));
                            let mut r = Rng(c.seed);
                            for _ in 0..many {
                                let n = r.below(5);
                                let b = r.bytes(n);
                                c.lay.outer.push((13 + r.below(240) as u8, b));
                            }
                            c
                        })
                        .boxed()
                },
                run,
                need: &[],
            }),
            Box::new(Scn {
                name: "strong KDF",
                quick: 40,
                thorough: 800,
                strategy: |_| {
                    let kdf = strong_kdf().prop_filter("AES", |k| matches!(k, RKdf::Aes { .. }));
                    case(small_db(), settings_of(kdf.boxed()))
                },
                run,
                need: &[],
            }),
            Box::new(Scn {
                name: "many blocks",
                quick: 8,
                thorough: 100,
                strategy: |_| {
                    (
                        small_db(),
                        cheap_settings(),
                        creds(),
                        prop_oneof![33_000usize..40_000, 66_000usize..80_000, Just(131_200usize)],
                        1usize..4,
                        any::<u64>(),
                    )
                        .prop_map(|(db, set, creds, blocks, size, seed)| Many {
                            db,
                            set,
                            creds,
                            blocks,
                            size,
                            seed,
                        })
                        .boxed()
                },
                run: run_many,
                need: &["over 32768 blocks", "over 65536 blocks"],
            }),
            Box::new(Scn {
                name: "sample",
                quick: 1,
                thorough: 1,
                strategy: |_| Just(0u8).boxed(),
                run: sample,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
