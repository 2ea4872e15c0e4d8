//! Pieces shared by several properties.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{self, El, Node, Rng, Style};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub fn classes(db: &MDb, s: &Settings, c: &Creds, ctx: &mut Ctx) {
    let n = db.count();
    setting_classes(s, ctx);
    ctx.label_if(c.keyfile.is_some(), "key file");
    ctx.label_if(n.history > 0, "history");
    ctx.label_if(n.prot > 0, "protected values");
    ctx.label_if(db.root.depth() > 3, "deep tree");
    ctx.label_if(!db.meta.custom.is_empty(), "custom data");
}

pub fn setting_classes(s: &Settings, ctx: &mut Ctx) {
    ctx.label(&format!("cipher {:?}", s.cipher));
    ctx.label(&format!("inner {:?}", s.inner));
    ctx.label(if s.gzip { "gzip" } else { "no compression" });
    ctx.label(match &s.kdf {
        RKdf::Aes { .. } => "AES KDF",
        RKdf::Argon2 { id: true, .. } => "Argon2id",
        RKdf::Argon2 { .. } => "Argon2d",
    });
}

/// What reading a document made from this model has to give.
pub fn as_read(db: &MDb) -> MDb {
    let mut d = db.clone();
    d.norm_values();
    d
}

pub fn same_db(want: &MDb, got: &MDb) -> Verdict {
    let mut g = got.clone();
    g.norm_values();
    diff(want, &g)
}

/// Choices a KDBX writer is free to make around the content.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layout {
    pub minor: u16,
    /// Order of header fields and dictionary entries.
    pub order: u64,
    /// Extra outer header fields, inner header fields.
    pub outer: Fields,
    pub inner: Fields,
    pub end: Vec<u8>,
    pub inner_end: Vec<u8>,
    pub aes4: bool,
    /// Extra entries of the KDF dictionary.
    pub dict: Vec<(String, u8, Vec<u8>)>,
    pub blocks: Vec<usize>,
}

pub fn shuffle<T>(v: &mut [T], r: &mut Rng) {
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
}

/// Spread `extra` over `v`, keeping the order inside `extra`.
fn interleave<T: Clone>(v: &mut Vec<T>, extra: &[T], r: &mut Rng) {
    let mut at: Vec<usize> = extra.iter().map(|_| r.below(v.len() + 1)).collect();
    at.sort_unstable();
    for (i, (p, x)) in at.iter().zip(extra).enumerate() {
        v.insert(p + i, x.clone());
    }
}

impl Layout {
    pub fn v4<'a>(&self, s: &'a Settings, c: &'a Creds, xml: Vec<u8>) -> V4<'a> {
        let mut r = Rng(self.order);
        let mut f = v4_header_fields(s, self.aes4);
        let mut d = s.kdf.dict(self.aes4);
        let mut inner = v4_inner_fields(s);
        d.extend(self.dict.iter().cloned());
        if self.order != 0 {
            shuffle(&mut d, &mut r);
        }
        let mut b = write_dict(&d);
        if self.order % 4 == 1 {
            // Minor version of the dictionary format
            b[0] = (self.order >> 8) as u8;
        }
        f.last_mut().unwrap().1 = b;
        if self.order != 0 {
            shuffle(&mut f, &mut r);
            shuffle(&mut inner, &mut r);
        }
        interleave(&mut f, &self.outer, &mut r);
        interleave(&mut inner, &self.inner, &mut r);
        V4 {
            minor: self.minor,
            fields: f,
            end: self.end.clone(),
            settings: s,
            creds: c,
            inner_fields: inner,
            inner_end: self.inner_end.clone(),
            xml,
            block_sizes: self.blocks.clone(),
        }
    }
    pub fn v3_fields(&self, s: &Settings, start: &[u8]) -> Fields {
        let mut r = Rng(self.order);
        let mut f = v3_header_fields(s, start);
        if self.order != 0 {
            shuffle(&mut f, &mut r);
        }
        interleave(&mut f, &self.outer, &mut r);
        f
    }
}

pub fn small_bytes() -> S<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        3 => vec(any::<u8>(), 1..20),
        1 => vec(any::<u8>(), 20..300),
    ]
    .boxed()
}

pub fn outer_extra() -> S<Fields> {
    prop_oneof![
        2 => Just(vec![]),
        2 => vec(
            (prop_oneof![3 => select(vec![1u8, 1, 12, 12]), 2 => 13u8..=255], small_bytes()),
            1..5
        ),
    ]
    .boxed()
}

pub fn inner_extra() -> S<Fields> {
    prop_oneof![
        2 => Just(vec![]),
        2 => vec((prop_oneof![3 => Just(3u8), 1 => 4u8..=255], small_bytes()), 1..5),
    ]
    .boxed()
}

/// Sizes of data blocks; 0 stands for everything that is left.
pub fn block_sizes() -> S<Vec<usize>> {
    prop_oneof![
        2 => Just(vec![1usize << 20]),
        1 => Just(vec![0usize]),
        1 => Just(vec![1usize]),
        2 => vec(prop_oneof![1usize..40, 40usize..2000, select(vec![15usize, 16, 17, 31, 32, 33, 8191, 8192, 8193])], 1..6),
    ]
    .boxed()
}

fn dict_extra() -> S<Vec<(String, u8, Vec<u8>)>> {
    let one = prop_oneof![
        any::<u32>().prop_map(|v| (0x04u8, v.to_le_bytes().to_vec())),
        any::<u64>().prop_map(|v| (0x05u8, v.to_le_bytes().to_vec())),
        any::<bool>().prop_map(|v| (0x08u8, vec![v as u8])),
        any::<i32>().prop_map(|v| (0x0Cu8, v.to_le_bytes().to_vec())),
        any::<i64>().prop_map(|v| (0x0Du8, v.to_le_bytes().to_vec())),
        text().prop_map(|v| (0x18u8, v.into_bytes())),
        small_bytes().prop_map(|v| (0x42u8, v)),
    ];
    prop_oneof![
        3 => Just(vec![]),
        1 => vec(one, 1..4).prop_map(|v| {
            v.into_iter().enumerate().map(|(i, (t, d))| (format!("X{i}é"), t, d)).collect()
        }),
    ]
    .boxed()
}

pub fn layout() -> S<Layout> {
    (
        prop_oneof![Just(0u16), Just(1u16), any::<u16>()],
        prop_oneof![1 => Just(0u64), 3 => any::<u64>()],
        outer_extra(),
        inner_extra(),
        prop_oneof![2 => Just(b"\r\n\r\n".to_vec()), 1 => small_bytes()],
        small_bytes(),
        any::<bool>(),
        dict_extra(),
        block_sizes(),
    )
        .prop_map(
            |(minor, order, outer, inner, end, inner_end, aes4, dict, blocks)| Layout {
                minor,
                order,
                outer,
                inner,
                end,
                inner_end,
                aes4,
                dict,
                blocks,
            },
        )
        .boxed()
}

pub fn render(db: &MDb, st: &Style, s: &Settings, hash: Option<&str>) -> Vec<u8> {
    refxml::render(db, st, &mut *s.inner.stream(&s.inner_key), hash).xml
}

/// Reference-made KDBX 4 file with no special choices.
pub fn ref_v4(db: &MDb, s: &Settings, c: &Creds) -> Vec<u8> {
    V4::simple(s, c, render(db, &Style::plain(), s, None)).encode()
}

/// Reference-made KDBX 3.1 file.
pub fn ref_v3(db: &MDb, s: &Settings, c: &Creds, start: &[u8]) -> Vec<u8> {
    V3::simple(s, c, start, render(db, &Style::plain(), s, None)).encode()
}

/// Whether deriving keys with these parameters is cheap enough to do it in a test.
pub fn affordable(k: &kdbx_rs::binary::KdfParams) -> bool {
    use kdbx_rs::binary::KdfParams as K;
    match k {
        K::Argon2 {
            memory_bytes,
            lanes,
            iterations,
            ..
        } => {
            *memory_bytes <= 8 << 20
                && *lanes <= 64
                && *iterations <= 100
                && memory_bytes.saturating_mul(*iterations) <= 32 << 20
        }
        K::Aes { rounds, .. } => *rounds <= 20_000,
        K::Unknown { .. } => true,
    }
}

pub fn v3_settings() -> S<Settings> {
    settings_of(aes_kdf())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Position of a sequence of bytes in a longer one.
pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.is_empty() || needle.len() > hay.len() {
        return None;
    }
    hay.windows(needle.len()).position(|w| w == needle)
}

/// KDBX 4 files made by other clients, and their credentials.
pub fn samples() -> Vec<(&'static str, &'static [u8], Creds)> {
    macro_rules! s {
        ($($n:literal),*) => {
            vec![$(($n, &include_bytes!(concat!("../../fixtures/", $n))[..], Creds::pw("kdbxrs"))),*]
        };
    }
    let mut v = s![
        "kdbx4-aes256-legacy.kdbx",
        "kdbx4-aes256.kdbx",
        "kdbx4-argon2d-chacha20.kdbx",
        "kdbx4-argon2d-key-file.kdbx",
        "kdbx4-argon2d-twofish.kdbx",
        "kdbx4-argon2d-uncompressed.kdbx",
        "kdbx4-argon2d.kdbx",
        "kdbx4-argon2id.kdbx",
        "keepassxc-otp.kdbx"
    ];
    v[3].2.keyfile = Some(b"key-file".to_vec());
    v
}

/// Byte-level damage: bit flips, interesting numbers, pieces inserted, removed, repeated.
pub fn mutate_bytes(d: &mut Vec<u8>, r: &mut Rng, times: usize) {
    for _ in 0..times {
        if d.is_empty() {
            d.extend(r.bytes(4));
            continue;
        }
        let at = r.below(d.len());
        match r.below(9) {
            0 => d[at] ^= 1 << r.below(8),
            1 => d[at] = *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, b'<', b'&', b'=']),
            2 => {
                let n = 1 + r.below(8);
                let j = r.bytes(n);
                d.splice(at..at, j);
            }
            3 => {
                let n = (1 + r.below(12)).min(d.len() - at);
                d.drain(at..at + n);
            }
            4 => {
                let n = (1 + r.below(64)).min(d.len() - at);
                let piece = d[at..at + n].to_vec();
                let to = r.below(d.len() + 1);
                d.splice(to..to, piece);
            }
            5 => d.truncate(at),
            6 | 7 => {
                let v = *r.pick(&[
                    0u32, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFF_FFFF,
                    0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF,
                ]);
                let w = *r.pick(&[1usize, 2, 4, 8]);
                let b = if r.pct(50) { (v as u64).to_le_bytes() } else { (v as i32 as i64).to_le_bytes() };
                for (i, x) in b[..w].iter().enumerate() {
                    if let Some(p) = d.get_mut(at + i) {
                        *p = *x;
                    }
                }
            }
            _ => {
                let n = (1 + r.below(32)).min(d.len() - at);
                let j = r.bytes(n);
                d[at..at + n].copy_from_slice(&j);
            }
        }
    }
}

const NAMES: &[&str] = &[
    "KeePassFile", "Meta", "Root", "Group", "Entry", "String", "Key", "Value", "UUID", "Times", "History",
    "Name", "Item", "CustomData", "ExpiryTime", "Expires", "UsageCount", "MemoryProtection", "ProtectTitle",
    "Generator", "DatabaseName", "HeaderHash", "CreationTime", "LastModificationTime", "LocationChanged",
    "LastAccessTime", "DatabaseDescription", "Binary", "Foo",
];

const JUNK: &[&str] = &[
    "", " ", "x", "True", "tru", "AAAA", "AAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAAAA==", "=", "////////////", "-1",
    "4294967296", "99999999999999999999", "2020-13-45T99:99:99Z", "2020-01-01T00:00:00Z", "-262144-01-01T00:00:00Z",
    "+262143-12-31T23:59:60Z", "////////fw8=", "//////////8=", "AAAAAAAAAIA=", "/////////38=", "\u{1F600}", "0",
    "2020-01-01T00:00:00+99:99", "20200101T000000Z", "NaN", "é", "not base64!", "gA==", "/w==", "\t\n",
];

fn nodes<'a>(e: &'a mut El, out: &mut Vec<*mut El>) {
    out.push(e as *mut El);
    for k in &mut e.kids {
        if let Node::El(c) = k {
            nodes(c, out);
        }
    }
}

/// Structural damage to a document: elements renamed, moved, repeated, dropped, filled with
/// text that does not belong there.
pub fn mutate_tree(root: &mut El, r: &mut Rng, times: usize) {
    for _ in 0..times {
        let mut all = Vec::new();
        nodes(root, &mut all);
        if all.len() > 3000 {
            return;
        }
        let (i, j) = (r.below(all.len()), r.below(all.len()));
        // Only one of the pointers is used at a time, and nothing else borrows the tree
        let donor = unsafe { (*all[i]).clone() };
        let e = unsafe { &mut *all[j] };
        match r.below(11) {
            0 => e.name = r.pick(NAMES).to_string(),
            1 if !e.kids.is_empty() => {
                let i = r.below(e.kids.len());
                e.kids.remove(i);
            }
            2 if !e.kids.is_empty() => {
                let i = r.below(e.kids.len());
                let k = e.kids[i].clone();
                e.kids.insert(r.below(e.kids.len() + 1), k);
            }
            3 => {
                e.secret = None;
                e.kids = vec![Node::Text(r.pick(JUNK).to_string())];
            }
            4 => {
                e.secret = Some({
                    let n = r.below(40);
                    r.bytes(n)
                });
            }
            5 => {
                let v = *r.pick(&["True", "true", "False", "", "1", "yes"]);
                e.attrs.retain(|(k, _)| k != "Protected");
                e.attrs.push(("Protected".into(), v.into()));
                e.secret = None;
            }
            6 => {
                let i = r.below(e.kids.len() + 1);
                e.kids.insert(i, Node::El(donor));
            }
            7 => {
                let i = r.below(e.kids.len() + 1);
                e.kids.insert(i, Node::Text(r.pick(JUNK).to_string()));
            }
            8 => e.kids.clear(),
            9 => {
                let j = r.below(e.kids.len().max(1));
                if j > 0 {
                    e.kids.swap(0, j);
                }
            }
            _ => {
                let n = r.pick(NAMES).to_string();
                let mut w = El::new(&n);
                std::mem::swap(&mut w, e);
                let n = w.name.clone();
                e.name = if r.pct(50) { n } else { e.name.clone() };
                e.kids.push(Node::El(w));
            }
        }
    }
}

/// Use every accessor of a database.
pub fn walk(db: &kdbx_rs::Database) -> usize {
    use kdbx_rs::database::{Entry, Group};
    fn entry(e: &Entry) -> usize {
        let mut n: usize = e.fields().map(|f| f.key().len() + f.value().map_or(0, |v| v.len()) + f.protected() as usize).sum();
        for t in [e.title(), e.username(), e.url(), e.password()] {
            n += t.map_or(0, |t| t.len());
        }
        if let Some(o) = e.otp() {
            n += o.secret().map_or(0, |s| s.len()) + o.period().is_some() as usize + o.digits().is_some() as usize;
        }
        n += e.find("Title").is_some() as usize + e.history().len();
        for (i, h) in e.history().entries().enumerate() {
            n += entry(h);
            n += e.history()[i].fields().count() + e.history().get(i).is_some() as usize;
        }
        n + kdbx_rs::xml::encode_uuid(e.uuid()).len() + times(e.times())
    }
    fn times(t: &kdbx_rs::database::Times) -> usize {
        [t.last_modification_time, t.creation_time, t.last_access_time, t.expiry_time, t.location_changed]
            .iter()
            .map(|d| kdbx_rs::xml::encode_datetime(*d).len() + d.to_string().len())
            .sum()
    }
    fn group(g: &Group) -> usize {
        let mut n = g.name().len() + g.entry_count() + g.group_count() + times(g.times());
        n += g.entries().map(entry).sum::<usize>();
        n += g.groups().map(group).sum::<usize>();
        n
    }
    let mut n = group(db.root());
    n += db.name().len() + db.description().len() + db.meta().generator.len();
    n += db.meta().custom_data.iter().map(|f| f.key().len() + f.value().map_or(0, |v| v.len())).sum::<usize>();
    n += db.root().recursive_entries().count() + db.root().recursive_groups().count();
    n += db.find_entry(|e| e.uuid() == uuid::Uuid::nil()).is_some() as usize;
    n += db.find_group(|g| g.name() == "no such group").is_some() as usize;
    n + format!("{db:?}").len()
}
