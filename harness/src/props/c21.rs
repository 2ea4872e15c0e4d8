//! Settings that cannot be honoured are refused.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::Style;
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdbxHeader, KdfParams, VariantDict, VariantDictValue};
use kdbx_rs::errors::UnlockError;
use kdbx_rs::Kdbx;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Flaw {
    Cipher([u8; 16]),
    Compression(u32),
    Inner(u32),
    Iv(Vec<u8>),
    Kdf([u8; 16]),
    /// The one Argon2 variant that has no place in a file
    Argon2i,
    Version(u32),
    Memory(u64),
    Iterations(u64),
    Lanes(u32),
    Salt(Vec<u8>),
    AesSalt(Vec<u8>),
}
use Flaw::*;

impl Flaw {
    fn kdf(&self) -> bool {
        !matches!(self, Cipher(_) | Compression(_) | Inner(_) | Iv(_))
    }
    fn name(&self) -> &'static str {
        match self {
            Cipher(_) => "cipher",
            Compression(_) => "compression",
            Inner(_) => "inner cipher",
            Iv(_) => "IV",
            Kdf(_) => "KDF",
            Argon2i => "Argon2 variant",
            Version(_) => "Argon2 version",
            Memory(_) => "Argon2 memory",
            Iterations(_) => "Argon2 iterations",
            Lanes(_) => "Argon2 lanes",
            Salt(_) => "Argon2 salt",
            AesSalt(_) => "AES salt",
        }
    }
}

/// Base settings that suit the flaw.
fn base(s: &Settings, f: &Flaw) -> Settings {
    let mut s = s.clone();
    match f {
        Argon2i | Version(_) | Memory(_) | Iterations(_) | Lanes(_) | Salt(_) => {
            if let RKdf::Aes { salt, rounds } = &s.kdf {
                s.kdf = RKdf::Argon2 {
                    id: rounds % 2 == 1,
                    version: 0x13,
                    memory: 16 * 1024,
                    iterations: 1,
                    lanes: 1,
                    salt: salt.clone(),
                };
            }
        }
        AesSalt(_) => {
            if let RKdf::Argon2 { iterations, .. } = &s.kdf {
                s.kdf = RKdf::Aes {
                    rounds: *iterations,
                    salt: vec![7; 32],
                };
            }
        }
        _ => {}
    }
    s
}

/// KDF settings with the flaw, where the reference can express them.
fn flawed_kdf(k: &RKdf, f: &Flaw) -> RKdf {
    let mut k = k.clone();
    match &mut k {
        RKdf::Argon2 {
            version,
            memory,
            iterations,
            lanes,
            salt,
            ..
        } => match f {
            Version(v) => *version = *v,
            Memory(v) => *memory = *v,
            Iterations(v) => *iterations = *v,
            Lanes(v) => *lanes = *v,
            Salt(v) => *salt = v.clone(),
            _ => {}
        },
        RKdf::Aes { salt, .. } => {
            if let AesSalt(v) = f {
                *salt = v.clone();
            }
        }
    }
    k
}

/// Memory that is too large for 32 bits keeps its low part small, so that cutting it off would
/// give something usable.
fn wide(base: u64) -> S<u64> {
    (1u64..1 << 20, 0u64..4).prop_map(move |(k, e)| (k << 32 | e) * base.max(1)).boxed()
}

fn foreign_uuid() -> S<[u8; 16]> {
    prop_oneof![
        2 => any::<[u8; 16]>(),
        2 => select(vec![[0; 16], [0xFF; 16], UUID_KDF_AES4, UUID_ARGON2D]),
        2 => (select(vec![UUID_AES256, UUID_TWOFISH, UUID_CHACHA20, UUID_KDF_AES31, UUID_KDF_AES4, UUID_ARGON2D, UUID_ARGON2ID]), 0usize..16, 0u32..8)
            .prop_map(|(mut u, i, b)| {
                u[i] ^= 1 << b;
                u
            }),
        // ids with another byte order
        1 => select(vec![UUID_AES256, UUID_TWOFISH, UUID_CHACHA20, UUID_ARGON2D]).prop_map(|mut u| {
            u[..4].reverse();
            u[4..6].reverse();
            u[6..8].reverse();
            u
        }),
    ]
    .boxed()
}

const CIPHERS: [[u8; 16]; 3] = [UUID_AES256, UUID_TWOFISH, UUID_CHACHA20];
const KDFS: [[u8; 16]; 4] = [UUID_KDF_AES31, UUID_KDF_AES4, UUID_ARGON2D, UUID_ARGON2ID];

fn flaw(api: bool) -> S<Flaw> {
    let all = prop_oneof![
        3 => prop_oneof![1 => Just(UUID_AES128), 3 => foreign_uuid()]
            .prop_filter("known cipher", |u| !CIPHERS.contains(u))
            .prop_map(Cipher),
        3 => prop_oneof![2 => 2u32..10, 1 => any::<u32>(), 1 => select(vec![256u32, 257, 65536, 65537, 1 << 24, 1 << 24 | 1, u32::MAX])]
            .prop_filter("known compression", |c| *c > 1)
            .prop_map(Compression),
        3 => prop_oneof![2 => select(vec![0u32, 1, 4]), 1 => 5u32..20, 1 => any::<u32>(), 1 => select(vec![258u32, 259, 65538, 1 << 24 | 3, 3 << 8, 3 << 24, u32::MAX])]
            .prop_filter("known inner cipher", |c| *c != 2 && *c != 3)
            .prop_map(Inner),
        3 => prop_oneof![3 => vec(any::<u8>(), 0..40), 1 => vec(any::<u8>(), 8), 1 => vec(any::<u8>(), 24), 1 => Just(vec![0u8; 16]), 1 => Just(vec![0u8; 12])].prop_map(Iv),
        3 => foreign_uuid().prop_filter("known KDF", |u| !KDFS.contains(u)).prop_map(Kdf),
        2 => prop_oneof![select(vec![0u32, 1, 0x11, 0x12, 0x14, 0x20, 0x113, 0x110, 0x10013, 19 << 24, 1 << 31 | 0x13, u32::MAX]), any::<u32>()]
            .prop_filter("known version", |v| *v != 0x10 && *v != 0x13)
            .prop_map(Version),
        3 => prop_oneof![
            1 => 0u64..8192,
            2 => wide(1024).prop_flat_map(|m| (0u64..100).prop_map(move |e| m + 8192 + e * 1024)),
            1 => wide(1024),
        ]
        .prop_map(Memory),
        3 => prop_oneof![1 => Just(0u64), 3 => wide(1)].prop_map(Iterations),
        3 => prop_oneof![
            1 => Just(0u32),
            1 => 20u32..1000,
            2 => select(vec![256u32, 257, 65536, 65537, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX]),
        ]
        .prop_map(Lanes),
        2 => vec(any::<u8>(), 0..8).prop_map(Salt),
        3 => prop_oneof![3 => vec(any::<u8>(), 0..32), 1 => vec(any::<u8>(), 33..70), 1 => vec(any::<u8>(), 16), 1 => vec(any::<u8>(), 24), 1 => vec(any::<u8>(), 64)].prop_map(AesSalt),
    ];
    if api {
        prop_oneof![12 => all, 1 => Just(Argon2i)].boxed()
    } else {
        all.boxed()
    }
}

fn real(s: &Settings, f: &Flaw) -> bool {
    match f {
        Iv(v) => v.len() != s.cipher.iv_len(),
        _ => true,
    }
}

/// Put the flaw into a header of the library.
fn spoil(h: &mut KdbxHeader, s: &Settings, f: &Flaw) {
    match f {
        Cipher(u) => h.cipher = if *u == UUID_AES128 { Cipher::Aes128 } else { Cipher::Unknown(uuid::Uuid::from_bytes(*u)) },
        Compression(c) => h.compression_type = CompressionType::Unknown(*c),
        Iv(v) => h.encryption_iv = v.clone(),
        Kdf(u) => {
            // With the parameters of the real one, and perhaps those of others
            let mut d = VariantDict::new();
            for (k, t, v) in s.kdf.dict(true) {
                let v = match t {
                    0x42 => VariantDictValue::Array(v),
                    0x05 => VariantDictValue::Uint64(u64::from_le_bytes(v.try_into().unwrap())),
                    _ => VariantDictValue::Uint32(u32::from_le_bytes(v.try_into().unwrap())),
                };
                if k != "$UUID" {
                    d.insert(k, v);
                }
            }
            h.kdf_params = KdfParams::Unknown {
                uuid: uuid::Uuid::from_bytes(*u),
                params: d,
            };
        }
        Argon2i => {
            if let KdfParams::Argon2 { variant, .. } = &mut h.kdf_params {
                *variant = argon2::Variant::Argon2i;
            }
        }
        Inner(_) => {}
        _ => h.kdf_params = flawed_kdf(&s.kdf, f).to_lib(),
    }
}

fn inner_of(id: u32) -> InnerStreamCipherAlgorithm {
    if id == 1 {
        InnerStreamCipherAlgorithm::ArcFour
    } else {
        InnerStreamCipherAlgorithm::Unknown(id)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    other: Creds,
    flaw: Flaw,
    second: Option<Flaw>,
    /// Set the key first, then spoil the settings
    late: bool,
    v3: bool,
}

fn run_api(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = base(&c.set, &c.flaw);
    if !real(&s, &c.flaw) {
        ctx.label("no flaw");
        return Ok(());
    }
    ctx.nt();
    ctx.label(c.flaw.name());
    let mut k = Kdbx::from_database(c.db.to_lib());
    lib_api::apply(&mut k, &s);
    if c.late {
        ctx.label("spoiled later");
        k.set_key(c.creds.to_lib()).map_err(|e| format!("setting the key failed: {e:?}"))?;
    }
    let good = k.header().clone();
    spoil(k.header_mut(), &s, &c.flaw);
    if let Some(f) = &c.second {
        spoil(k.header_mut(), &base(&s, f), f);
        if !f.kdf() || c.flaw.kdf() {
            // The first flaw is what is looked for
            spoil(k.header_mut(), &s, &c.flaw);
        }
    }
    if let Inner(i) = c.flaw {
        k.inner_header_mut().inner_stream_cipher = inner_of(i);
        if inner_of(i).stream_cipher(&s.inner_key).is_ok() {
            return Err(format!("inner cipher {i} gives a cipher"));
        }
    }
    let mine = match k.set_key(c.other.to_lib()) {
        Ok(()) if c.flaw.kdf() => return Err(format!("a key could be set with {:?} ({})", k.header().kdf_params, c.flaw.name())),
        Ok(()) => &c.other,
        Err(_) => &c.creds,
    };
    if lib_api::write(&k).is_ok() {
        return Err(format!("an archive with unusable settings was saved: {:?}, header {:?}", c.flaw, k.header()));
    }
    // With good settings again, the archive is protected by one of the keys or not written
    *k.header_mut() = good;
    k.inner_header_mut().inner_stream_cipher = s.inner.to_lib();
    if let Ok(d) = lib_api::write(&k) {
        ctx.label("saved later");
        if decode_v4(&d, mine).is_err() && decode_v4(&d, &c.creds).is_err() {
            return Err("after a failed attempt an archive was saved that has none of the keys".into());
        }
    }
    Ok(())
}

/// Settings at the edge of what is possible are honoured exactly, or refused.
fn run_edge(c: &(MDb, Settings, Creds, Creds), ctx: &mut Ctx) -> Verdict {
    let (db, s, creds, other) = c;
    let mut k = Kdbx::from_database(db.to_lib());
    lib_api::apply(&mut k, s);
    let usable = s.kdf.master(&creds.composite()).is_ok() && s.iv.len() == s.cipher.iv_len();
    ctx.nt();
    ctx.label(if usable { "usable" } else { "not usable" });
    let data = match k.set_key(creds.to_lib()).map_err(|e| e.to_string()).and_then(|_| lib_api::write(&k).map_err(|e| e.to_string())) {
        Ok(d) => d,
        Err(_) => {
            ctx.label("refused");
            return Ok(());
        }
    };
    if !usable {
        return Err(format!("an archive was saved with {s:?}"));
    }
    let d = decode_v4(&data, creds).map_err(|e| format!("the settings were not honoured: {e}, {s:?}"))?;
    if d.kdf != s.kdf || d.iv != s.iv || d.seed != s.seed || d.gzip != s.gzip || d.cipher != s.cipher || d.inner != s.inner || d.inner_key != s.inner_key {
        return Err(format!("the archive has other settings than {s:?}"));
    }
    if creds.composite() != other.composite() && lib_api::unlock(&data, other).is_ok() {
        return Err(format!("the archive opens with other credentials, {s:?}"));
    }
    Ok(())
}

/// More rounds than can be computed: a key that is there after a moment has had fewer.
fn run_rounds(c: &(Settings, Creds, u64), ctx: &mut Ctx) -> Verdict {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static LEFT_BEHIND: AtomicUsize = AtomicUsize::new(0);
    let (s, creds, rounds) = c.clone();
    if LEFT_BEHIND.load(Ordering::SeqCst) > 12 {
        return Ok(());
    }
    ctx.nt();
    ctx.label("rounds");
    let (tx, rx) = std::sync::mpsc::channel();
    // The thread ends with the process
    std::thread::spawn(move || {
        let mut k = Kdbx::from_database(kdbx_rs::Database::default());
        lib_api::apply(&mut k, &s);
        k.header_mut().kdf_params = KdfParams::Aes { rounds, salt: vec![7; 32] };
        let _ = tx.send(k.set_key(creds.to_lib()).is_ok());
    });
    match rx.recv_timeout(std::time::Duration::from_millis(1500)) {
        Ok(true) => Err(format!("a key was derived with {rounds} rounds of AES in less than two seconds")),
        Ok(false) => Ok(()),
        Err(_) => {
            LEFT_BEHIND.fetch_add(1, Ordering::SeqCst);
            Ok(())
        }
    }
}

/// Bodies that an implementation papering over the flaw would accept.
fn forgeries(c: &Case, s: &Settings) -> Vec<(String, Vec<u8>)> {
    let xml = render(&c.db, &Style::plain(), s, None);
    let start = [3u8; 32];
    let mut out = Vec::new();
    let comp = c.creds.composite();
    let v3 = c.v3;
    let true_master = s.kdf.master(&comp).expect("reference KDF");
    let mut fields = if v3 { v3_header_fields(s, &start) } else { v4_header_fields(s, true) };
    let mut inner = v4_inner_fields(s);
    let set = |f: &mut Fields, id: u8, d: Vec<u8>| f.iter_mut().find(|x| x.0 == id).expect("field").1 = d;
    let fk = flawed_kdf(&s.kdf, &c.flaw);
    match &c.flaw {
        Cipher(u) => set(&mut fields, 2, u.to_vec()),
        Compression(n) => set(&mut fields, 3, n.to_le_bytes().to_vec()),
        Inner(n) if v3 => set(&mut fields, 0xA, n.to_le_bytes().to_vec()),
        Inner(n) => set(&mut inner, 1, n.to_le_bytes().to_vec()),
        Iv(v) => set(&mut fields, 7, v.clone()),
        Kdf(u) => {
            let mut d = s.kdf.dict(true);
            d[0].2 = u.to_vec();
            set(&mut fields, 0xB, write_dict(&d));
        }
        AesSalt(v) if v3 => set(&mut fields, 5, v.clone()),
        _ => set(&mut fields, 0xB, write_dict(&fk.dict(true))),
    }
    let pad = |v: &[u8], n: usize| {
        let mut v = v.to_vec();
        v.resize(n, 0);
        v
    };
    // Keys
    let mut masters = vec![("the right key".to_string(), true_master)];
    if c.flaw.kdf() {
        for (n, m) in [
            ("the composite key", comp.to_vec()),
            ("a hash of the composite key", sha256(&comp).to_vec()),
            ("zeros", vec![0; 32]),
            ("nothing", vec![]),
            ("a hash of nothing", sha256(&[]).to_vec()),
            ("a hash of zeros", sha256(&[0; 32]).to_vec()),
        ] {
            masters.push((n.into(), m));
        }
        let mut alt: Vec<RKdf> = Vec::new();
        match &fk {
            RKdf::Argon2 {
                id,
                version,
                memory,
                iterations,
                lanes,
                salt,
            } => {
                let m8 = |m: u64| m.max(8 * *lanes.min(&8) as u64 * 1024).max(8192);
                let cut = *memory & 0x3FF_FFFF_FFFF;
                for version in if [0x10, 0x13].contains(version) { vec![*version] } else { vec![0x10, 0x13] } {
                    for lanes in [*lanes & 0xFF, *lanes & 0xFFFF, *lanes & 0xFF_FFFF, 1, 2] {
                        for iterations in [*iterations as u32 as u64, 1, 10] {
                            for memory in [cut, m8(cut), 8192, 65536] {
                                for salt in [salt.clone(), pad(salt, salt.len().max(8)), pad(salt, salt.len().max(16)), pad(salt, salt.len().max(32))] {
                                    for id in if matches!(c.flaw, Kdf(_)) { vec![false, true] } else { vec![*id] } {
                                        if alt.len() < 400 {
                                            alt.push(RKdf::Argon2 {
                                                id,
                                                version,
                                                memory,
                                                iterations,
                                                lanes,
                                                salt: salt.clone(),
                                            });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            RKdf::Aes { rounds, salt } => {
                for r in [*rounds, 0, 1] {
                    for k in [pad(salt, 32), sha256(salt).to_vec(), vec![0; 32]] {
                        alt.push(RKdf::Aes { rounds: r, salt: k });
                    }
                    let mut k = vec![0; 32usize.saturating_sub(salt.len())];
                    k.extend(salt);
                    k.truncate(32);
                    alt.push(RKdf::Aes { rounds: r, salt: k });
                    alt.push(RKdf::Aes {
                        rounds: r,
                        salt: salt.iter().rev().take(32).rev().copied().chain(std::iter::repeat_n(0, 32usize.saturating_sub(salt.len()))).collect(),
                    });
                }
            }
        }
        alt.dedup();
        let mut seen = std::collections::HashSet::new();
        for a in alt {
            if seen.len() >= 24 || !seen.insert(a.clone()) || !affordable(&a.to_lib()) {
                continue;
            }
            if let Ok(m) = a.master(&comp) {
                masters.push((format!("{a:?}"), m));
            }
        }
    }
    // Bodies
    for (n, m) in &masters {
        let keys = Keys::new(&s.seed, m);
        let payload = if v3 {
            xml.clone()
        } else {
            let mut p = inner_header_bytes(&inner, &[]);
            p.extend(&xml);
            p
        };
        let zips: Vec<bool> = if matches!(c.flaw, Compression(_)) { vec![false, true] } else { vec![s.gzip] };
        for z in zips {
            let mut plain = if z { gzip(&payload) } else { payload.clone() };
            if v3 {
                let mut p = start.to_vec();
                p.extend(v3_blocks(&[&plain]));
                plain = p;
            }
            let mut bodies = Vec::new();
            match &c.flaw {
                Cipher(_) => {
                    bodies.push(("no cipher", plain.clone()));
                    for a in [RCipher::Aes256, RCipher::TwoFish, RCipher::ChaCha20] {
                        bodies.push(("another cipher", a.encrypt(&keys.cipher, &pad(&s.iv, a.iv_len()), &plain)));
                    }
                    use aes::cipher::{block_padding::Pkcs7, BlockEncryptMut, KeyIvInit};
                    for part in [&keys.cipher[..16], &keys.cipher[16..]] {
                        if let Ok(e) = cbc::Encryptor::<aes::Aes128>::new_from_slices(part, &pad(&s.iv, 16)) {
                            let mut b = plain.clone();
                            b.resize(plain.len() + 16, 0);
                            let len = e.encrypt_padded_mut::<Pkcs7>(&mut b, plain.len()).expect("room").len();
                            b.truncate(len);
                            bodies.push(("half a key", b));
                        }
                    }
                }
                Iv(v) => {
                    let n = s.cipher.iv_len();
                    let mut left = vec![0; n.saturating_sub(v.len())];
                    left.extend(v);
                    for iv in [pad(v, n), left[left.len() - n..].to_vec(), vec![0; n], left[..n].to_vec(), sha256(v)[..n].to_vec()] {
                        bodies.push(("another IV", s.cipher.encrypt(&keys.cipher, &iv, &plain)));
                    }
                    bodies.push(("no cipher", plain.clone()));
                }
                _ => bodies.push(("the right cipher", s.cipher.encrypt(&keys.cipher, &s.iv, &plain))),
            }
            for (b, enc) in bodies {
                let mut o = header_bytes(if v3 { 1 } else { 0 }, if v3 { 3 } else { 4 }, &fields, b"\r\n\r\n");
                if v3 {
                    o.extend(enc);
                } else {
                    let (sum, mac) = (sha256(&o), keys.header_mac(&o));
                    o.extend(sum);
                    o.extend(mac);
                    o.extend(v4_blocks(&keys, &cut(&enc, &[1 << 20])));
                }
                out.push((format!("{n}, {b}"), o));
            }
        }
    }
    if matches!(c.flaw, Inner(_)) && !v3 {
        // Values protected by nothing at all
        let mut plain_xml = Vec::new();
        kdbx_rs::xml::write_xml(&mut plain_xml, &c.db.to_lib(), &mut kdbx_rs::utils::NullStreamCipher).expect("null cipher");
        let mut f = V4::simple(s, &c.creds, plain_xml);
        f.inner_fields = inner;
        out.push(("no inner cipher".into(), f.encode()));
    }
    out
}

fn run_file(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut s = base(&c.set, &c.flaw);
    let mut case = c.clone();
    if c.v3 {
        if matches!(c.flaw, Version(_) | Memory(_) | Iterations(_) | Lanes(_) | Salt(_) | Kdf(_)) {
            case.v3 = false;
        } else if let RKdf::Argon2 { iterations, .. } = s.kdf {
            s.kdf = RKdf::Aes {
                rounds: iterations,
                salt: vec![9; 32],
            };
        }
    }
    if !real(&s, &c.flaw) {
        ctx.label("no flaw");
        return Ok(());
    }
    ctx.nt();
    ctx.label(&format!("{} {}", c.flaw.name(), if case.v3 { "v3" } else { "v4" }));
    for (n, data) in forgeries(&case, &s) {
        ctx.eval(1);
        let Ok(k) = kdbx_rs::from_reader(&data[..]) else {
            ctx.label("refused on opening");
            continue;
        };
        match k.unlock(&c.creds.to_lib()) {
            Ok(_) => return Err(format!("a file with an unusable {} ({:?}) is opened when made with {n}", c.flaw.name(), c.flaw)),
            Err(e) => {
                if c.flaw.kdf() && !matches!(e.1, UnlockError::KeyGen(_)) {
                    return Err(format!("a key was derived with an unusable {} ({:?}): {:?}", c.flaw.name(), c.flaw, e.1));
                }
            }
        }
    }
    Ok(())
}

/// A locked archive whose settings are replaced before unlocking.
fn run_locked(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut s = base(&c.set, &c.flaw);
    if matches!(c.flaw, Inner(_)) || !real(&s, &c.flaw) {
        ctx.label("no flaw");
        return Ok(());
    }
    let v3 = c.v3 && !matches!(s.kdf, RKdf::Argon2 { .. });
    ctx.nt();
    ctx.label(c.flaw.name());
    s.gzip = c.set.gzip;
    let data = if v3 { ref_v3(&c.db, &s, &c.creds, &[5; 32]) } else { ref_v4(&c.db, &s, &c.creds) };
    let mut k = lib_api::open(&data)?;
    spoil(k.header_mut(), &s, &c.flaw);
    match k.unlock(&c.creds.to_lib()) {
        Ok(_) => Err(format!("unlocking ignored an unusable {} ({:?})", c.flaw.name(), c.flaw)),
        Err(e) if c.flaw.kdf() && !matches!(e.1, UnlockError::KeyGen(_)) => Err(format!("a key was derived with {:?}: {:?}", c.flaw, e.1)),
        Err(_) => Ok(()),
    }
}

fn case(api: bool) -> S<Case> {
    (small_db(), prop_oneof![2 => cheap_settings(), 1 => settings()], creds(), creds(), flaw(api), proptest::option::weighted(0.2, flaw(api)), any::<bool>(), any::<bool>())
        .prop_map(|(db, set, creds, other, flaw, second, late, v3)| Case {
            db,
            set,
            creds,
            other,
            flaw,
            second,
            late,
            v3,
        })
        .boxed()
}

/// Around the limits of what Argon2 and the ciphers accept.
fn edge() -> S<(MDb, Settings, Creds, Creds)> {
    (
        small_db(),
        settings(),
        creds(),
        creds(),
        (0u32..20, 0u64..170, 0u64..1024, 0u64..5, vec(any::<u8>(), 0..20), 0u32..6),
        prop_oneof![Just(0usize), Just(1), Just(2), 0usize..40],
    )
        .prop_map(|(db, mut s, c, o, (lanes, kib, odd, iterations, salt, version), what)| {
            match what {
                0 => {
                    s.kdf = RKdf::Argon2 {
                        id: odd % 2 == 0,
                        version: [0x13, 0x10, 0x13, 0x12, 0x11, 0x13][version as usize],
                        memory: kib * 1024 + odd,
                        iterations,
                        lanes,
                        salt,
                    }
                }
                1 => s.kdf = RKdf::Aes { rounds: odd, salt: [&salt[..], &salt[..], &[1; 12][..]].concat() },
                2 => s.iv = [&salt[..], &[2; 6][..]].concat(),
                n => s.seed = vec![n as u8; n],
            }
            (db, s, c, o)
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C21",
        level: "exploration",
        rule: "the settings have something that cannot be honoured, or are near a limit",
        assumptions: &[
            "AES-128 counts as unsupported: KDBX keys have 256 bits",
            "memory sizes are rounded down to whole KiB, as other programs do",
            "memory sizes over 64 MiB are not tried; 2^32 rounds of AES take more than 1.5 seconds",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "saving",
                quick: 60_000,
                thorough: 600_000,
                strategy: |_| case(true),
                run: run_api,
                need: &["cipher", "compression", "inner cipher", "IV", "KDF", "Argon2 variant", "Argon2 version", "Argon2 memory", "Argon2 iterations", "Argon2 lanes", "Argon2 salt", "AES salt", "saved later"],
            }),
            Box::new(Scn {
                name: "limits",
                quick: 40_000,
                thorough: 400_000,
                strategy: |_| edge(),
                run: run_edge,
                need: &["usable", "not usable", "refused"],
            }),
            Box::new(Scn {
                name: "forged files",
                quick: 20_000,
                thorough: 200_000,
                strategy: |_| case(false),
                run: run_file,
                need: &["cipher v3", "cipher v4", "compression v3", "compression v4", "inner cipher v3", "inner cipher v4", "IV v3", "IV v4", "KDF v4", "AES salt v3", "AES salt v4", "Argon2 lanes v4"],
            }),
            Box::new(Scn {
                name: "replaced settings",
                quick: 40_000,
                thorough: 400_000,
                strategy: |_| case(true),
                run: run_locked,
                need: &["cipher", "compression", "IV", "KDF"],
            }),
            Box::new(Scn {
                name: "costs",
                quick: 60,
                thorough: 1500,
                strategy: |_| (small_db(), settings_of(strong_kdf()), creds(), creds()).boxed(),
                run: run_edge,
                need: &["usable"],
            }),
            // Last, because of the threads it leaves behind
            Box::new(Scn {
                name: "rounds without end",
                quick: 6,
                thorough: 8,
                strategy: |_| {
                    let many = prop_oneof![
                        (0u64..5).prop_map(|k| (1 << 32) + k),
                        (33u32..64, 0u64..1000).prop_map(|(b, k)| (1 << b) + k),
                        Just(1 << 63),
                        Just(u64::MAX << 32),
                        Just(u64::MAX),
                    ];
                    (cheap_settings(), creds(), many).boxed()
                },
                run: run_rounds,
                need: &["rounds"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
