//! Generators.
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub type S<T> = BoxedStrategy<T>;

/// Text that XML can carry.
pub fn text() -> S<String> {
    prop_oneof![
        2 => Just(String::new()),
        6 => "[a-zA-Z0-9 ._-]{1,12}",
        3 => vec(tricky_char(), 1..10).prop_map(|v| v.into_iter().collect()),
        2 => vec(xml_char(), 1..8).prop_map(|v| v.into_iter().collect()),
        1 => select(vec![
            "]]>", "<![CDATA[x]]>", "&amp;", "&#0;", "<!-- -->", "\r\n", "\r", " ", "\n", "\t",
            " lead", "trail ", "\u{85}", "\u{2028}", "\u{FFFD}", "\u{FEFF}", "\u{10FFFF}", "e\u{301}",
            "\u{1F469}\u{200D}\u{1F4BB}", "True", "-", "0", "\u{7f}", "\u{80}", "\u{9f}", "%00", "\"'", "&lt;b&gt;",
            "</Value>", "</KeePassFile>", "\u{E000}", "\u{A0}x\u{A0}", "\u{D7FF}",
        ]).prop_map(|s| s.to_string()),
        1 => ("[ -~]{0,3}", 1usize..400, any::<u64>()).prop_map(|(p, n, s)| {
            let mut r = Rng(s);
            let alpha: Vec<char> = "abcXYZ 019\n\t<&>\"'\r]é\u{4e2d}\u{1F600}".chars().collect();
            p + &(0..n).map(|_| *r.pick(&alpha)).collect::<String>()
        }),
    ]
    .boxed()
}

pub fn tricky_char() -> S<char> {
    select(
        "<>&'\"]\r\n\t \u{a0}\u{85}\u{2028}\u{feff}\u{fffd}[!-=/aé\u{7f}\u{1F600}\u{e000};#x"
            .chars()
            .collect::<Vec<_>>(),
    )
    .boxed()
}

pub fn xml_char() -> S<char> {
    any::<char>().prop_filter("XML", |c| is_xml_char(*c)).boxed()
}

/// Text that may contain characters XML cannot carry.
pub fn any_text() -> S<String> {
    prop_oneof![
        8 => text(),
        1 => (text(), select(vec!['\0', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{e}', '\u{1b}', '\u{1f}', '\u{fffe}', '\u{ffff}']), any::<bool>())
            .prop_map(|(t, c, front)| if front { format!("{c}{t}") } else { format!("{t}{c}") }),
        1 => vec(any::<char>(), 1..6).prop_map(|v| v.into_iter().collect::<String>()),
    ]
    .boxed()
}

pub fn key() -> S<String> {
    prop_oneof![
        4 => select(vec!["Title", "UserName", "Password", "URL", "Notes", "otp", "title", "Key"]).prop_map(|s| s.to_string()),
        2 => text().prop_map(|t| if t.is_empty() { "k".to_string() } else { t }),
    ]
    .boxed()
}

pub fn field() -> S<MField> {
    field_of(text())
}

pub fn field_of(t: S<String>) -> S<MField> {
    (key(), t, any::<bool>(), 0u8..8)
        .prop_map(|(key, v, prot, absent)| MField {
            key,
            value: (absent != 0).then_some(v),
            prot,
        })
        .boxed()
}

pub fn secs() -> S<i64> {
    prop_oneof![
        4 => (0i64..2_000_000_000).prop_map(|s| s + EPOCH_OFFSET),
        2 => 0i64..315_537_897_600, // years 1 to 9999
        1 => select(vec![0, 1, -1, EPOCH_OFFSET, EPOCH_OFFSET - 1, 315_537_897_599, 315_537_897_600, 1 << 31, 1 << 32, (1 << 32) + EPOCH_OFFSET]),
        1 => min_secs()..=max_secs(),
        1 => select(vec![min_secs(), max_secs(), min_secs() + 1, max_secs() - 1]),
    ]
    .boxed()
}

/// Times every client can express.
pub fn plain_secs() -> S<i64> {
    prop_oneof![
        3 => (0i64..2_000_000_000).prop_map(|s| s + EPOCH_OFFSET),
        1 => 0i64..315_537_897_600,
    ]
    .boxed()
}

pub fn times() -> S<MTimes> {
    (
        [secs(), secs(), secs(), secs(), secs()],
        prop_oneof![3 => Just(0u32), 1 => 0u32..1_000_000_000],
        any::<bool>(),
        prop_oneof![Just(0u32), 1u32..100, any::<u32>(), Just(u32::MAX)],
    )
        .prop_map(|(t, nanos, expires, usage)| MTimes {
            t,
            nanos,
            expires,
            usage,
        })
        .boxed()
}

pub fn uuid() -> S<u128> {
    prop_oneof![6 => any::<u128>(), 1 => select(vec![0, 1, u128::MAX, 0x80])].boxed()
}

fn entry_flat(t: S<String>) -> S<MEntry> {
    (uuid(), vec(field_of(t), 0..5), times())
        .prop_map(|(uuid, fields, times)| MEntry {
            uuid,
            fields,
            history: vec![],
            times,
        })
        .boxed()
}

pub fn entry_of(t: S<String>) -> S<MEntry> {
    (
        entry_flat(t.clone()),
        prop_oneof![
            3 => Just(vec![]),
            1 => vec(entry_flat(t.clone()), 1..3),
            1 => (entry_flat(t.clone()), entry_flat(t)).prop_map(|(mut a, b)| {
                // History inside history
                a.history.push(b);
                vec![a]
            }),
        ],
    )
        .prop_map(|(mut e, history)| {
            e.history = history;
            e
        })
        .prop_flat_map(|e| {
            prop_oneof![
                9 => Just(e.clone()),
                1 => (0usize..3, any::<bool>()).prop_map(move |(n, same)| {
                    // Versions that equal the entry, as after saving without a change
                    let mut e = e.clone();
                    let mut old = e.clone();
                    old.history.clear();
                    if !same {
                        old.times.t[0] = old.times.t[1];
                    }
                    e.history.extend(vec![old; n]);
                    e
                }),
            ]
        })
        .boxed()
}

pub fn entry() -> S<MEntry> {
    entry_of(text())
}

pub fn group_of(t: S<String>) -> S<MGroup> {
    let leaf = (uuid(), t.clone(), vec(entry_of(t.clone()), 0..4), times()).prop_map(
        |(uuid, name, entries, times)| MGroup {
            uuid,
            name,
            entries,
            groups: vec![],
            times,
        },
    );
    leaf.clone()
        .prop_recursive(3, 12, 3, move |inner| {
            (leaf.clone(), vec(inner, 0..4)).prop_map(|(mut g, groups)| {
                g.groups = groups;
                g
            })
        })
        .boxed()
}

pub fn meta_of(t: S<String>) -> S<MMeta> {
    (
        t.clone(),
        t.clone(),
        t.clone(),
        prop_oneof![2 => Just(vec![]), 1 => vec(field_of(t), 1..4)],
        any::<[bool; 5]>(),
    )
        .prop_map(|(generator, name, desc, custom, mp)| MMeta {
            generator,
            name,
            desc,
            custom,
            mp,
        })
        .boxed()
}

pub fn db_of(t: S<String>) -> S<MDb> {
    (meta_of(t.clone()), group_of(t))
        .prop_map(|(meta, root)| MDb { meta, root })
        .boxed()
}

/// The database with parts that occur more than once.
fn repeated() -> S<MDb> {
    (db_of(text()), vec((0u8..9, any::<usize>(), any::<bool>()), 1..4))
        .prop_map(|(mut d, ops)| {
            for (what, at, end) in ops {
                repeat(&mut d, what, at, end);
            }
            d
        })
        .boxed()
}

fn repeat(d: &mut MDb, what: u8, at: usize, end: bool) {
    fn put<T: Clone>(v: &mut Vec<T>, at: usize, end: bool) {
        if !v.is_empty() {
            let i = at % v.len();
            let x = v[i].clone();
            v.insert(if end { v.len() } else { i }, x);
        }
    }
    match what {
        0 => put(&mut d.root.entries, at, end),
        1 => put(&mut d.root.groups, at, end),
        2 => put(&mut d.meta.custom, at, end),
        3 => d.root.entries.iter_mut().for_each(|e| put(&mut e.fields, at, end)),
        4 => d.root.entries.iter_mut().for_each(|e| put(&mut e.history, at, end)),
        5 => {
            // One identifier for everything
            let u = d.root.uuid;
            d.root.entries.iter_mut().for_each(|e| {
                e.uuid = u;
                e.history.iter_mut().for_each(|h| h.uuid = u);
            });
            d.root.groups.iter_mut().for_each(|g| g.uuid = u);
        }
        6 => {
            // Each field twice, once protected and once not
            for e in &mut d.root.entries {
                let mut more = e.fields.clone();
                more.iter_mut().for_each(|f| f.prot = !f.prot);
                e.fields.extend(more);
            }
        }
        7 => {
            // The same entry in a group and in the group above
            let e = d.root.entries.first().cloned();
            if let Some(g) = d.root.groups.first_mut() {
                g.entries.extend(e);
            }
        }
        _ => {
            // One value for every field
            let v = d.root.entries.iter().flat_map(|e| &e.fields).find_map(|f| f.value.clone());
            for f in d.root.entries.iter_mut().flat_map(|e| &mut e.fields) {
                f.value = v.clone();
            }
        }
    }
}

/// A database XML can carry.
pub fn db() -> S<MDb> {
    prop_oneof![
        12 => db_of(text()),
        1 => text().prop_flat_map(|t| db_of(Just(t).boxed())),
        1 => repeated(),
        1 => chain(),
    ]
    .boxed()
}

/// Deep but narrow trees.
fn chain() -> S<MDb> {
    (db_of(text()), 4usize..100)
        .prop_map(|(mut d, n)| {
            let mut g = MGroup {
                uuid: 7,
                name: "leaf".into(),
                entries: std::mem::take(&mut d.root.entries),
                groups: vec![],
                times: MTimes::zero(),
            };
            for i in 0..n {
                g = MGroup {
                    uuid: i as u128,
                    name: format!("level {i}"),
                    entries: vec![],
                    groups: vec![g],
                    times: MTimes::zero(),
                };
            }
            d.root.groups.insert(0, g);
            d
        })
        .boxed()
}

/// A database with very many of one thing: entries, groups, fields, earlier versions, custom
/// data or levels.
pub fn wide_db() -> S<MDb> {
    wide_of(
        prop_oneof![
            4 => (select(vec![127usize, 255, 256, 511, 1023]), 0usize..4).prop_map(|(n, d)| n + d),
            2 => 100usize..1500,
            1 => (select(vec![4095usize, 4096]), 0usize..3).prop_map(|(n, d)| n + d),
        ]
        .boxed(),
        (0u8..7).prop_map(|k| vec![k]).boxed(),
    )
}

/// More of something than 16 bits can count.
pub fn very_wide_db() -> S<MDb> {
    wide_of((65_534usize..65_540).boxed(), (0u8..5).prop_map(|k| vec![k]).boxed())
}

fn wide_of(n: S<usize>, kinds: S<Vec<u8>>) -> S<MDb> {
    (small_db(), kinds, n, any::<u64>())
        .prop_map(|(mut d, kinds, n, seed)| {
            let mut r = Rng(seed);
            let entry = |i: usize, r: &mut Rng| MEntry {
                uuid: (r.next() as u128) << 64 | i as u128,
                fields: vec![MField::new("Title", &format!("entry {i}"), r.pct(30))],
                history: vec![],
                times: MTimes::zero(),
            };
            let group = |i: usize, r: &mut Rng| MGroup {
                uuid: (r.next() as u128) << 64 | i as u128,
                name: format!("group {i}"),
                entries: vec![],
                groups: vec![],
                times: MTimes::zero(),
            };
            for what in kinds {
                match what {
                    0 => d.root.entries.extend((0..n).map(|i| entry(i, &mut r))),
                    1 => d.root.groups.extend((0..n).map(|i| group(i, &mut r))),
                    2 => {
                        let mut e = entry(0, &mut r);
                        e.fields = (0..if n > 60_000 { n } else { 4 * n }).map(|i| MField::new(&format!("key {i}"), &format!("{}", r.next()), r.pct(30))).collect();
                        d.root.entries.push(e);
                    }
                    3 => {
                        let mut e = entry(0, &mut r);
                        e.history = (1..=n).map(|i| entry(i, &mut r)).collect();
                        d.root.entries.insert(0, e);
                    }
                    4 => d.meta.custom = (0..n).map(|i| MField::new(&format!("key {i}"), &format!("{}", r.next()), false)).collect(),
                    5 => {
                        let n = n.min(550);
                        let mut g = group(0, &mut r);
                        for i in 1..n {
                            let mut up = group(i, &mut r);
                            if r.pct(30) {
                                up.entries.push(entry(i, &mut r));
                            }
                            up.groups.push(g);
                            g = up;
                        }
                        d.root.groups.push(g);
                    }
                    _ => {
                        // Earlier versions inside earlier versions
                        let mut e = entry(0, &mut r);
                        for i in 1..n.min(400) {
                            let mut up = entry(i, &mut r);
                            up.history.push(e);
                            e = up;
                        }
                        d.root.entries.push(e);
                    }
                }
            }
            d
        })
        .boxed()
}

/// Small database for cases where content is not the point.
pub fn small_db() -> S<MDb> {
    (
        text(),
        "[a-z]{0,6}",
        vec(entry_flat(text()), 0..3),
        times(),
        uuid(),
        any::<[bool; 5]>(),
    )
        .prop_map(|(name, root, entries, times, uuid, mp)| MDb {
            meta: MMeta {
                generator: "gen".into(),
                name,
                desc: String::new(),
                custom: vec![],
                mp,
            },
            root: MGroup {
                uuid,
                name: root,
                entries,
                groups: vec![],
                times,
            },
        })
        .boxed()
}

pub fn password() -> S<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9]{1,12}",
        1 => Just(String::new()),
        2 => vec(any::<char>(), 1..8).prop_map(|v| v.into_iter().collect::<String>()),
        1 => select(vec!["kdbxrs", " ", "a ", " a", "\0", "é", "e\u{301}", "pass\n", "\u{FEFF}x", "Ａ"]).prop_map(|s| s.to_string()),
        1 => ("[a-z]{1}", 30usize..300).prop_map(|(c, n)| c.repeat(n)),
        1 => (long_len(), any::<u64>()).prop_map(|(n, seed)| {
            let mut r = Rng(seed);
            let alpha: Vec<char> = "abcXYZ 019é\u{4e2d}\u{1F600}".chars().collect();
            (0..n).map(|_| *r.pick(&alpha)).collect()
        }),
    ]
    .boxed()
}

/// Mostly hundreds, sometimes more than 64 Ki.
fn long_len() -> S<usize> {
    prop_oneof![
        12 => 64usize..600,
        6 => (select(vec![127usize, 255, 511, 1023, 4095]), 0usize..4).prop_map(|(n, d)| n + d),
        2 => 600usize..9000,
        1 => (select(vec![16_384usize, 65_535]), 0usize..4).prop_map(|(n, d)| n + d),
    ]
    .boxed()
}

pub fn keyfile() -> S<Vec<u8>> {
    prop_oneof![
        2 => vec(any::<u8>(), 0..40),
        1 => Just(vec![]),
        1 => vec(any::<u8>(), 32),
        1 => vec(any::<u8>(), 60..70),
        1 => vec(select(b"0123456789abcdef".to_vec()), 64),
        1 => (long_len(), any::<u64>()).prop_map(|(n, seed)| Rng(seed).bytes(n)),
        1 => Just(b"<?xml version=\"1.0\"?><KeyFile><Key><Data>AAAA</Data></Key></KeyFile>".to_vec()),
    ]
    .boxed()
}

pub fn creds() -> S<Creds> {
    prop_oneof![
        4 => password().prop_map(|p| Creds { pw: Some(p), keyfile: None }),
        2 => (password(), keyfile()).prop_map(|(p, k)| Creds { pw: Some(p), keyfile: Some(k) }),
        1 => keyfile().prop_map(|k| Creds { pw: None, keyfile: Some(k) }),
        1 => Just(Creds { pw: None, keyfile: None }),
    ]
    .boxed()
}

pub fn rcipher() -> S<RCipher> {
    select(vec![RCipher::Aes256, RCipher::TwoFish, RCipher::ChaCha20]).boxed()
}

pub fn rinner() -> S<RInner> {
    select(vec![RInner::Salsa20, RInner::ChaCha20]).boxed()
}

/// Bytes of a salt, seed or key: mostly anything, but also text, repetitions and zeros.
pub fn secret_bytes(n: usize) -> S<Vec<u8>> {
    prop_oneof![
        16 => vec(any::<u8>(), n),
        1 => vec(0x20u8..0x7f, n),
        1 => any::<u8>().prop_map(move |b| std::vec![b; n]),
        1 => (vec(any::<u8>(), n), 0..=n, any::<bool>(), select(std::vec![0u8, 0xff])).prop_map(move |(mut v, at, front, b)| {
            if front {
                v[..at].fill(b);
            } else {
                v[at..].fill(b);
            }
            v
        }),
    ]
    .boxed()
}

pub fn aes_kdf() -> S<RKdf> {
    (
        prop_oneof![Just(0u64), Just(1), 0u64..50, 50u64..2000],
        secret_bytes(32),
    )
        .prop_map(|(rounds, salt)| RKdf::Aes { rounds, salt })
        .boxed()
}

pub fn argon2_kdf() -> S<RKdf> {
    (
        any::<bool>(),
        select(vec![0x10u32, 0x13]),
        prop_oneof![3 => Just(1u32), 2 => Just(2u32), 1 => 3u32..9],
        0u64..40,
        0u64..1024,
        1u64..4,
        prop_oneof![2 => secret_bytes(32), 1 => vec(any::<u8>(), 8..70)],
    )
        .prop_map(|(id, version, lanes, extra, odd, iterations, salt)| RKdf::Argon2 {
            id,
            version,
            memory: (8 * lanes as u64 + extra) * 1024 + odd,
            iterations,
            lanes,
            salt,
        })
        .boxed()
}

pub fn kdf() -> S<RKdf> {
    prop_oneof![aes_kdf(), argon2_kdf()].boxed()
}

pub fn cheap_kdf() -> S<RKdf> {
    (0u64..4, secret_bytes(32))
        .prop_map(|(rounds, salt)| RKdf::Aes { rounds, salt })
        .boxed()
}

/// Costs that programs really use, and values around the widths of integer types.
pub fn strong_kdf() -> S<RKdf> {
    let around = |v: Vec<u64>| (select(v), 0u64..3).prop_map(|(n, d)| n + d - 1).boxed();
    let salt = || {
        prop_oneof![
            3 => vec(any::<u8>(), 32),
            1 => vec(any::<u8>(), 8..100),
            1 => (select(vec![255usize, 256, 257, 300, 65535, 65536, 70_000]), any::<u8>()).prop_map(|(n, b)| std::vec![b; n]),
        ]
    };
    let aes = (
        prop_oneof![
            3 => around(std::vec![256, 32768, 65536]),
            1 => Just(60_000u64),
            1 => Just(100_000u64),
            1 => around(std::vec![1 << 17, 1 << 20]),
        ],
        vec(any::<u8>(), 32),
    )
        .prop_map(|(rounds, salt)| RKdf::Aes { rounds, salt });
    let argon2 = (
        any::<bool>(),
        select(std::vec![0x10u32, 0x13]),
        prop_oneof![
            // memory in KiB, iterations, lanes
            3 => (around(std::vec![128, 256, 1024, 4096]), Just(2u64), 1u64..5),
            1 => (around(std::vec![32768, 65536]), Just(1u64), 1u64..9),
            3 => (8u64..12, around(std::vec![128, 256, 1000]), Just(1u64)),
            1 => (Just(8u64), around(std::vec![65536]), Just(1u64)),
            3 => around(std::vec![16, 128, 256, 300]).prop_map(|l| (8 * l + 3, 1u64, l)),
        ],
        salt(),
    )
        .prop_map(|(id, version, (kib, iterations, lanes), salt)| RKdf::Argon2 {
            id,
            version,
            memory: kib.max(8 * lanes) * 1024,
            iterations,
            lanes: lanes as u32,
            salt,
        });
    prop_oneof![aes, argon2].boxed()
}

pub fn inner_key() -> S<Vec<u8>> {
    prop_oneof![
        2 => secret_bytes(64),
        2 => secret_bytes(32),
        1 => secret_bytes(44),
        1 => vec(any::<u8>(), 0..100),
    ]
    .boxed()
}

pub fn settings_of(kdf: S<RKdf>) -> S<Settings> {
    (
        rcipher(),
        any::<bool>(),
        kdf,
        rinner(),
        secret_bytes(32),
        secret_bytes(16),
        inner_key(),
    )
        .prop_map(|(cipher, gzip, kdf, inner, seed, mut iv, inner_key)| {
            iv.truncate(cipher.iv_len());
            Settings {
                cipher,
                gzip,
                kdf,
                inner,
                seed,
                iv,
                inner_key,
            }
        })
        .boxed()
}

pub fn settings() -> S<Settings> {
    settings_of(kdf())
}

pub fn cheap_settings() -> S<Settings> {
    settings_of(cheap_kdf())
}

pub fn style() -> S<Style> {
    (
        any::<u64>(),
        0u8..4,
        any::<[bool; 6]>(),
        0u8..4,
        select(vec![0u8, 0, 10, 60]),
        select(vec![0u8, 0, 10, 60]),
        select(vec![0u8, 0, 10, 40]),
    )
        .prop_map(
            |(seed, indent, [decl, bom, shuffle, iso_times, omit_empty, self_close], bool_case, cdata, char_refs, comments)| {
                Style {
                    seed,
                    indent,
                    decl,
                    bom,
                    shuffle,
                    iso_times,
                    bool_case,
                    cdata,
                    char_refs,
                    comments,
                    foreign: 0,
                    omit_empty,
                    self_close,
                }
            },
        )
        .boxed()
}

/// Long text, generated from three numbers so that cases stay small.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Bulk {
    pub len: usize,
    /// 0 one letter, 1 random base64-like letters, 2 mixed Unicode and markup
    pub kind: u8,
    pub seed: u64,
}

impl Bulk {
    pub fn text(&self) -> String {
        let mut r = Rng(self.seed);
        match self.kind {
            0 => "a".repeat(self.len),
            1 => {
                const A: &[u8; 64] =
                    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
                let mut s = String::with_capacity(self.len);
                let mut n = 0;
                let mut x = 0;
                while s.len() < self.len {
                    if n == 0 {
                        x = r.next();
                        n = 10;
                    }
                    s.push(A[(x & 63) as usize] as char);
                    x >>= 6;
                    n -= 1;
                }
                s
            }
            _ => {
                let alpha: Vec<char> = "ab <&>\n\r\t\"é\u{4e2d}\u{1F600}".chars().collect();
                let mut s = String::with_capacity(self.len);
                while s.len() + 4 <= self.len {
                    s.push(alpha[(r.next() % alpha.len() as u64) as usize]);
                }
                while s.len() < self.len {
                    s.push('x');
                }
                s
            }
        }
    }
}

pub fn bulk(len: impl Strategy<Value = usize> + 'static) -> S<Bulk> {
    (len, 0u8..3, any::<u64>())
        .prop_map(|(len, kind, seed)| Bulk { len, kind, seed })
        .boxed()
}
