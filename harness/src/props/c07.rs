//! Malformed input is rejected cleanly.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{self, Rng, Style};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// Open, unlock, and use whatever comes out.
fn exercise(data: &[u8], creds: &Creds, ctx: &mut Ctx) -> Verdict {
    let k = match kdbx_rs::from_reader(data) {
        Ok(k) => k,
        Err(e) => {
            let _ = (format!("{e:?}"), e.to_string());
            ctx.label("refused when opened");
            return Ok(());
        }
    };
    ctx.label("opened");
    let _ = format!("{:?}", k.header());
    let _ = lib_api::write_locked(&k);
    if !affordable(&k.header().kdf_params) {
        return Ok(());
    }
    match k.unlock(&creds.to_lib()) {
        Err(f) => {
            let _ = (format!("{:?}", f.1), f.1.to_string());
            ctx.label("refused when unlocked");
            ctx.label_if(
                !matches!(
                    f.1,
                    kdbx_rs::errors::UnlockError::HmacInvalid | kdbx_rs::errors::UnlockError::StartBytesInvalid
                ),
                "refused after the credentials were accepted",
            );
            // The archive handed back is usable
            let _ = lib_api::write_locked(&f.0);
        }
        Ok(k) => {
            ctx.label("unlocked");
            used(&k);
        }
    }
    Ok(())
}

fn used(k: &kdbx_rs::Kdbx<kdbx_rs::binary::Unlocked>) {
    walk(k.database());
    let _ = k.raw_xml().map(|x| x.len());
    let _ = format!("{:?}", k.inner_header());
    let _ = lib_api::write(k);
}

// --- any bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes {
    /// 0.. a sample file, 9 KDBX 3 sample, 10 reference v4, 11 reference v3, 12 only junk
    base: u8,
    set: Settings,
    seed: u64,
    times: usize,
    junk: Vec<u8>,
    creds: Creds,
}

fn base(c: &Bytes) -> (Vec<u8>, Creds) {
    let db = MDb {
        meta: MMeta {
            generator: "g".into(),
            name: "n".into(),
            desc: String::new(),
            custom: vec![MField::new("c", "d", true)],
            mp: [false; 5],
        },
        root: MGroup {
            uuid: 1,
            name: "root".into(),
            entries: vec![MEntry {
                uuid: 2,
                fields: vec![MField::new("Title", "t", false), MField::new("Password", "p", true)],
                history: vec![],
                times: MTimes::zero(),
            }],
            groups: vec![],
            times: MTimes::zero(),
        },
    };
    match c.base {
        0..=8 => {
            let (_, d, creds) = samples().swap_remove(c.base as usize);
            (d.to_vec(), creds)
        }
        9 => (include_bytes!("../../fixtures/kdbx31-aes256.kdbx").to_vec(), Creds::pw("kdbxrs")),
        10 => (ref_v4(&db, &c.set, &c.creds), c.creds.clone()),
        11 => (ref_v3(&db, &c.set, &c.creds, &[3; 32]), c.creds.clone()),
        _ => {
            let mut d = Vec::new();
            let n = (c.seed % 14) as usize;
            d.extend(&MAGIC[..n.min(8)]);
            if n > 8 {
                d.extend([c.seed as u8 & 1, 0, 3 + (c.seed >> 8) as u8 % 3, 0]);
            }
            d.extend(&c.junk);
            (d, c.creds.clone())
        }
    }
}

fn run_bytes(c: &Bytes, ctx: &mut Ctx) -> Verdict {
    let (mut d, creds) = base(c);
    let mut r = Rng(c.seed);
    if c.base < 12 {
        if r.pct(60) {
            // The first part is where the structure is
            let n = d.len().min(if r.pct(50) { 300 } else { 60 });
            let tail = d.split_off(n);
            mutate_bytes(&mut d, &mut r, c.times);
            if r.pct(90) {
                d.extend(tail);
            }
        } else {
            mutate_bytes(&mut d, &mut r, c.times);
        }
        if r.pct(50) {
            // With the header checksum repaired
            if let Ok((_, 4, _, end)) = split_header(&d) {
                if d.len() >= end + 32 {
                    let s = sha256(&d[..end]);
                    d[end..end + 32].copy_from_slice(&s);
                    ctx.label("checksum repaired");
                }
            }
        }
    }
    ctx.nt();
    // The sample files ask for a lot of KDF work
    if c.base <= 9 {
        let k = match kdbx_rs::from_reader(&d[..]) {
            Ok(k) => k,
            Err(_) => return Ok(()),
        };
        let _ = format!("{:?}", k.header());
        if !affordable(&k.header().kdf_params) || c.seed % 16 != 0 {
            let _ = lib_api::write_locked(&k);
            return Ok(());
        }
    }
    exercise(&d, &creds, ctx)
}

// --- right checksums and signatures around malformed parts

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    db: MDb,
    set: Settings,
    creds: Creds,
    lay: Layout,
    style: Style,
    v3: bool,
    seed: u64,
    /// 0 header fields, 1 dictionary, 2 inner header, 3 payload bytes, 4 blocks, 5 ciphertext
    part: u8,
    times: usize,
}

fn mangle_fields(f: &mut Fields, r: &mut Rng, times: usize) {
    for _ in 0..times {
        if f.is_empty() {
            f.push((r.next() as u8, vec![]));
            continue;
        }
        let i = r.below(f.len());
        match r.below(8) {
            0 => {
                f.remove(i);
            }
            1 => {
                let x = f[i].clone();
                f.push(x);
            }
            2 => f[i].1.clear(),
            3 => {
                let n = r.below(f[i].1.len() + 1);
                f[i].1.truncate(n);
            }
            4 => {
                let n = *r.pick(&[1usize, 3, 4, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 200]);
                f[i].1 = r.bytes(n);
            }
            5 => f[i].0 = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 255]),
            6 => mutate_bytes(&mut f[i].1, r, 1),
            _ => {
                let n = r.below(20);
                let b = r.bytes(n);
                f.insert(i, (*r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), b));
            }
        }
    }
}

fn mangle_dict(d: &mut Vec<(String, u8, Vec<u8>)>, r: &mut Rng, times: usize) {
    for _ in 0..times {
        if d.is_empty() {
            return;
        }
        let i = r.below(d.len());
        match r.below(7) {
            0 => {
                d.remove(i);
            }
            1 => {
                let x = d[i].clone();
                d.push(x);
            }
            2 => d[i].1 = *r.pick(&[1u8, 4, 5, 8, 0xC, 0xD, 0x18, 0x42, 0x7F, 0xFF]),
            3 => {
                let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 32]);
                d[i].2 = r.bytes(n);
            }
            4 => {
                // Small and large numbers
                let v = *r.pick(&[0u64, 1, 2, 7, 8, 100, 1 << 31, u32::MAX as u64, 1 << 32, u64::MAX]);
                d[i].2 = v.to_le_bytes()[..if d[i].1 == 4 { 4 } else { 8 }].to_vec();
            }
            5 => d[i].0 = r.pick(&["", "S", "M", "I", "P", "V", "R", "$UUID", "K", "A", "é"]).to_string(),
            _ => mutate_bytes(&mut d[i].2, r, 1),
        }
    }
}

fn run_shape(c: &Shape, ctx: &mut Ctx) -> Verdict {
    let mut r = Rng(c.seed);
    ctx.nt();
    ctx.label(&format!("v{} part {}", if c.v3 { 3 } else { 4 }, c.part));
    let xml = render(&c.db, &c.style, &c.set, None);
    if c.v3 {
        let mut f = V3::simple(&c.set, &c.creds, &[9; 32], xml);
        match c.part {
            0 | 1 => mangle_fields(&mut f.fields, &mut r, c.times),
            _ => f.fields = c.lay.v3_fields(&c.set, &[9; 32]),
        }
        f.block_sizes = c.lay.blocks.clone();
        let mut plain = f.plain();
        match c.part {
            2 => mutate_bytes(&mut f.xml, &mut r, c.times),
            3 => {
                // Beyond the start bytes
                let mut tail = plain.split_off(if r.pct(80) { 32 } else { r.below(40) }.min(plain.len()));
                mutate_bytes(&mut tail, &mut r, c.times);
                plain.extend(tail);
            }
            4 => {
                // Blocks with right hashes and wrong lengths or ids
                plain.truncate(32);
                let n = r.below(4);
                for i in 0..n {
                    let len = r.below(60);
                    let b = r.bytes(len);
                    plain.extend((i as u32).to_le_bytes());
                    plain.extend(if r.pct(80) { sha256(&b) } else { [0; 32] });
                    let claim = if r.pct(50) { b.len() as u32 } else { *r.pick(&[0u32, 1, 100, 0xFFFF_FFFF, 0x7FFF_FFFF]) };
                    plain.extend(claim.to_le_bytes());
                    plain.extend(b);
                }
            }
            _ => {}
        }
        if c.part == 2 {
            plain = f.plain();
        }
        let mut d = f.encode_plain(&plain);
        if c.part == 5 {
            let n = d.len();
            let cut = r.below(40).min(n);
            d.truncate(n - cut);
            if r.pct(50) {
                let j = r.below(40);
                let j = r.bytes(j);
                d.extend(j);
            }
        }
        return exercise(&d, &c.creds, ctx);
    }
    let mut f = c.lay.v4(&c.set, &c.creds, xml);
    let mut set = c.set.clone();
    match c.part {
        0 => mangle_fields(&mut f.fields, &mut r, c.times),
        1 => {
            let mut d = c.set.kdf.dict(c.lay.aes4);
            mangle_dict(&mut d, &mut r, c.times);
            let mut b = write_dict(&d);
            if r.pct(40) {
                mutate_bytes(&mut b, &mut r, c.times);
            }
            for x in f.fields.iter_mut().filter(|x| x.0 == 0xB) {
                x.1 = b.clone();
            }
        }
        2 => mangle_fields(&mut f.inner_fields, &mut r, c.times),
        _ => {}
    }
    // Keys as a reader would derive them from the fields that are there
    for (id, v) in &f.fields {
        match id {
            4 => set.seed = v.clone(),
            7 if v.len() == set.cipher.iv_len() => set.iv = v.clone(),
            0xB => {
                if let Ok(k) = read_dict(v).and_then(|d| RKdf::from_dict(&d)) {
                    let lib = k.to_lib();
                    if affordable(&lib) && k.master(&[0; 32]).is_ok() {
                        set.kdf = k;
                    }
                }
            }
            _ => {}
        }
    }
    f.settings = &set;
    let keys = f.keys();
    let mut payload = f.payload();
    if c.part == 3 {
        if r.pct(50) {
            mutate_bytes(&mut payload, &mut r, c.times);
        } else {
            let head = inner_header_bytes(&f.inner_fields, &f.inner_end);
            let mut h = head.clone();
            mutate_bytes(&mut h, &mut r, c.times);
            payload = h;
            payload.extend(&f.xml);
        }
    }
    let d = match c.part {
        4 | 5 => {
            let mut plain = if set.gzip { gzip(&payload) } else { payload };
            if c.part == 4 {
                mutate_bytes(&mut plain, &mut r, c.times);
            }
            let mut enc = set.cipher.encrypt(&keys.cipher, &set.iv, &plain);
            if c.part == 5 {
                match r.below(4) {
                    0 => enc.clear(),
                    1 => {
                        let n = r.below(enc.len() + 1);
                        enc.truncate(n);
                    }
                    2 => mutate_bytes(&mut enc, &mut r, c.times),
                    _ => {
                        let n = r.below(40);
                        enc = r.bytes(n);
                    }
                }
            }
            let mut o = f.header();
            let (sum, mac) = (sha256(&o), keys.header_mac(&o));
            o.extend(sum);
            o.extend(mac);
            let mut b = v4_blocks(&keys, &cut(&enc, &c.lay.blocks));
            if r.pct(20) {
                let n = b.len() - r.below(80).min(b.len());
                b.truncate(n);
            }
            o.extend(b);
            o
        }
        _ => f.encode_payload(&keys, &payload),
    };
    exercise(&d, &c.creds, ctx)
}

// --- XML

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Xml {
    db: MDb,
    style: Style,
    foreign: u8,
    seed: u64,
    tree: usize,
    bytes: usize,
    /// 0 none, 1 ChaCha20, 2 Salsa20
    cipher: u8,
    key: Vec<u8>,
}

fn run_xml(c: &Xml, ctx: &mut Ctx) -> Verdict {
    use kdbx_rs::binary::InnerStreamCipherAlgorithm as I;
    let mut r = Rng(c.seed);
    let mut st = c.style.clone();
    st.foreign = c.foreign;
    let (mut f, _, _) = refxml::build(&c.db, &st, None);
    mutate_tree(&mut f, &mut r, c.tree);
    let mut d = match c.cipher {
        0 => refxml::serialise(&f, &st, &mut kdbx_rs::utils::NullStreamCipher),
        1 => refxml::serialise(&f, &st, &mut *RInner::ChaCha20.stream(&c.key)),
        _ => refxml::serialise(&f, &st, &mut *RInner::Salsa20.stream(&c.key)),
    };
    mutate_bytes(&mut d, &mut r, c.bytes);
    ctx.nt_if(c.tree + c.bytes > 0);
    let res = match c.cipher {
        0 => kdbx_rs::xml::parse_xml(&d[..], &mut kdbx_rs::utils::NullStreamCipher),
        n => {
            let i = if n == 1 { I::ChaCha20 } else { I::Salsa20 };
            let mut s = i.stream_cipher(&c.key).map_err(|e| format!("no stream cipher: {e:?}"))?;
            kdbx_rs::xml::parse_xml(&d[..], s.as_mut())
        }
    };
    match res {
        Err(e) => {
            let _ = (format!("{e:?}"), e.to_string());
            ctx.label("refused");
        }
        Ok(db) => {
            ctx.label("accepted");
            walk(&db);
            let mut out = Vec::new();
            let _ = kdbx_rs::xml::write_xml(&mut out, &db, &mut kdbx_rs::utils::NullStreamCipher);
            let mut db2 = db.clone();
            for e in db2.root_mut().recursive_entries_mut() {
                e.set_title("t");
                e.set_password("p");
                e.new_version();
                e.remove_field("Title");
            }
            let _ = db2.root_mut().remove_group(uuid::Uuid::nil());
            db2.add_entry(Default::default());
        }
    }
    Ok(())
}

fn run_junk_xml(c: &Vec<u8>, ctx: &mut Ctx) -> Verdict {
    ctx.nt_if(!c.is_empty());
    if let Ok(db) = kdbx_rs::xml::parse_xml(&c[..], &mut kdbx_rs::utils::NullStreamCipher) {
        walk(&db);
        ctx.label("accepted");
    }
    Ok(())
}

/// XML put together from pieces of markup.
fn soup() -> S<Vec<u8>> {
    let tok = prop_oneof![
        6 => select(NAMES7.to_vec()).prop_map(|n| format!("<{n}>")),
        6 => select(NAMES7.to_vec()).prop_map(|n| format!("</{n}>")),
        1 => select(NAMES7.to_vec()).prop_map(|n| format!("<{n} Protected=\"True\">")),
        1 => select(NAMES7.to_vec()).prop_map(|n| format!("<{n}/>")),
        3 => select(vec![
            "AAAAAAAAAAAAAAAAAAAAAA==", "True", "0", "text", "<![CDATA[", "]]>", "<!--", "-->", "<?x", "?>", "&lt;",
            "&#0;", "&#xD800;", "&#x110000;", "&bogus;", "<!DOCTYPE a [<!ENTITY b \"cc\">]>", "&b;", "<", ">", "\"", "'",
            "<a:b>", "</a:b>", "<a xmlns=\"urn:x\">", "</a>", " ", "\n", "\u{FEFF}", "<?xml version=\"1.1\"?>", "\0", "=",
        ]).prop_map(|s| s.to_string()),
    ];
    (any::<bool>(), vec(tok, 0..30))
        .prop_map(|(start, t)| {
            let mut s = if start { "<KeePassFile>".to_string() } else { String::new() };
            t.iter().for_each(|x| s.push_str(x));
            s.into_bytes()
        })
        .boxed()
}

const NAMES7: &[&str] = &[
    "KeePassFile", "Meta", "Root", "Group", "Entry", "String", "Key", "Value", "UUID", "Times", "History", "Name",
    "CustomData", "Item", "ExpiryTime", "UsageCount", "MemoryProtection", "Foo",
];

/// Nested documents, far beyond what other clients write.
fn run_nested(c: &(u8, usize), ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let d = nested(c.0, c.1);
    if let Ok(db) = kdbx_rs::xml::parse_xml(&d[..], &mut kdbx_rs::utils::NullStreamCipher) {
        ctx.label("accepted");
        walk(&db);
        let mut out = Vec::new();
        let _ = kdbx_rs::xml::write_xml(&mut out, &db, &mut kdbx_rs::utils::NullStreamCipher);
    }
    Ok(())
}

pub fn nested(kind: u8, n: usize) -> Vec<u8> {
    let id = "<UUID>AAAAAAAAAAAAAAAAAAAAAA==</UUID>";
    let (pre, a, b, post) = match kind {
        0 => (String::new(), format!("<Group>{id}<Name>n</Name>"), "</Group>", ""),
        1 => (
            format!("<Group>{id}"),
            format!("<Entry>{id}<History>"),
            "</History></Entry>",
            "</Group>",
        ),
        2 => (format!("<Group>{id}"), "<Foo>".to_string(), "</Foo>", "</Group>"),
        _ => (format!("<Group>{id}<Entry>{id}"), "<AutoType>".to_string(), "</AutoType>", "</Entry></Group>"),
    };
    format!(
        "<KeePassFile><Meta></Meta><Root>{pre}{}{}{post}</Root></KeePassFile>",
        a.repeat(n),
        b.repeat(n)
    )
    .into_bytes()
}

fn run_text(c: &String, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let _ = kdbx_rs::xml::decode_uuid(c);
    let _ = kdbx_rs::xml::decode_datetime(c);
    let mut e = kdbx_rs::database::Entry::default();
    e.add_field(kdbx_rs::database::Field::new("otp", c));
    if let Some(o) = e.otp() {
        let _ = (o.secret(), o.period(), o.digits());
    }
    let _ = kdbx_rs::CompositeKey::from_password(c);
    Ok(())
}

/// The deep documents of the known finding, each in a process of its own.
fn known() -> Vec<(String, bool)> {
    let fails = [0u8, 1].iter().any(|kind| {
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["helper", "nested", &kind.to_string(), "200000"])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        use std::os::unix::process::ExitStatusExt;
        matches!(st, Ok(s) if s.signal().is_some())
    });
    vec![(
        "a document nested 10000 or more groups (or history entries) deep overflows the stack while it is parsed and aborts the process".into(),
        fails,
    )]
}

pub fn helper(args: &[String]) -> i32 {
    let kind = args[0].parse().unwrap_or(0);
    let n = args[1].parse().unwrap_or(0);
    let d = nested(kind, n);
    let db = kdbx_rs::xml::parse_xml(&d[..], &mut kdbx_rs::utils::NullStreamCipher);
    println!("{}", db.is_ok());
    0
}

pub fn property() -> Property {
    Property {
        id: "C07",
        level: "exploration",
        rule: "the input was damaged or made up",
        assumptions: &[
            "archives whose KDF settings ask for more than 8 MiB or 20000 rounds are opened but not unlocked",
            "documents are nested at most 600 levels deep (see the known finding)",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "bytes",
                quick: 150000,
                thorough: 1500000,
                strategy: |_| {
                    (
                        prop_oneof![2 => 0u8..10, 4 => 10u8..12, 1 => Just(12u8)],
                        cheap_settings(),
                        any::<u64>(),
                        1usize..6,
                        vec(any::<u8>(), 0..200),
                        creds(),
                    )
                        .prop_map(|(base, set, seed, times, junk, creds)| Bytes {
                            base,
                            set,
                            seed,
                            times,
                            junk,
                            creds,
                        })
                        .boxed()
                },
                run: run_bytes,
                need: &["opened", "refused when opened", "refused when unlocked", "checksum repaired"],
            }),
            Box::new(Scn {
                name: "right signatures",
                quick: 120000,
                thorough: 1500000,
                strategy: |_| {
                    (
                        (small_db(), settings_of(prop_oneof![3 => cheap_kdf(), 1 => kdf()].boxed()), creds(), layout()),
                        (style(), any::<bool>(), any::<u64>(), 0u8..6, 1usize..4),
                    )
                        .prop_map(|((db, set, creds, lay), (style, v3, seed, part, times))| {
                            let v3 = v3 && matches!(set.kdf, RKdf::Aes { .. });
                            Shape {
                                db,
                                set,
                                creds,
                                lay,
                                style,
                                v3,
                                seed,
                                part,
                                times,
                            }
                        })
                        .boxed()
                },
                run: run_shape,
                need: &[
                    "refused after the credentials were accepted",
                    "unlocked",
                    "v3 part 0",
                    "v3 part 3",
                    "v3 part 4",
                    "v4 part 0",
                    "v4 part 1",
                    "v4 part 2",
                    "v4 part 3",
                    "v4 part 5",
                ],
            }),
            Box::new(Scn {
                name: "documents",
                quick: 150000,
                thorough: 1500000,
                strategy: |_| {
                    (
                        (prop_oneof![3 => small_db(), 1 => db()], style(), select(vec![0u8, 0, 15])),
                        (
                            any::<u64>(),
                            prop_oneof![1 => Just(0usize), 4 => 1usize..6],
                            prop_oneof![3 => Just(0usize), 1 => 1usize..4],
                            0u8..3,
                            inner_key(),
                        ),
                    )
                        .prop_map(|((db, style, foreign), (seed, tree, bytes, cipher, key))| Xml {
                            db,
                            style,
                            foreign,
                            seed,
                            tree,
                            bytes,
                            cipher,
                            key,
                        })
                        .boxed()
                },
                run: run_xml,
                need: &["accepted", "refused"],
            }),
            Box::new(Scn {
                name: "markup",
                quick: 200000,
                thorough: 1000000,
                strategy: |_| prop_oneof![6 => soup(), 1 => vec(any::<u8>(), 0..100)].boxed(),
                run: run_junk_xml,
                need: &[],
            }),
            Box::new(Scn {
                name: "nested",
                quick: 200,
                thorough: 2000,
                strategy: |_| (0u8..4, 1usize..600).boxed(),
                run: run_nested,
                need: &["accepted"],
            }),
            Box::new(Scn {
                name: "texts",
                quick: 200000,
                thorough: 1000000,
                strategy: |_| {
                    prop_oneof![
                        2 => any_text(),
                        2 => "[A-Za-z0-9+/]{0,30}={0,3}",
                        2 => "[+-]?[0-9]{1,7}-[0-9]{1,2}-[0-9]{1,2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]{1,12})?(Z|[+-][0-9]{2}:[0-9]{2})?",
                        2 => "otpauth://[?&=a-z0-9%#]{0,30}",
                        1 => vec(any::<u8>(), 8).prop_map(|b| {
                            use base64::prelude::{Engine, BASE64_STANDARD};
                            BASE64_STANDARD.encode(b)
                        }),
                    ]
                    .boxed()
                },
                run: run_text,
                need: &[],
            }),
        ],
        hang_is_violation: true,
        known,
    }
}
