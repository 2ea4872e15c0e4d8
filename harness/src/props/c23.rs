//! What a header says before unlocking, and which files are refused why.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use kdbx_rs::binary::{Cipher, CompressionType, InnerHeaderId, KdfParams, OuterHeaderId, VariantDict, VariantDictValue};
use kdbx_rs::errors::{HeaderError, OpenError, UnlockError};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

type Dict = Vec<(String, u8, Vec<u8>)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Head {
    minor: u16,
    v3: bool,
    cipher: [u8; 16],
    compression: u32,
    seed: Vec<u8>,
    iv: Vec<u8>,
    kdf: [u8; 16],
    /// Entries of the KDF dictionary, for every kind of KDF
    argon2: (u32, u64, u64, u32, Vec<u8>),
    aes: (u64, Vec<u8>),
    other: Dict,
    /// Comments and the like
    extra: Fields,
    start: Vec<u8>,
    order: u64,
    end: Vec<u8>,
    rest: Vec<u8>,
}

fn value(t: u8, v: &[u8]) -> VariantDictValue {
    use VariantDictValue as V;
    match t {
        0x04 => V::Uint32(u32::from_le_bytes(v.try_into().unwrap())),
        0x05 => V::Uint64(u64::from_le_bytes(v.try_into().unwrap())),
        0x08 => V::Boolean(v[0] != 0),
        0x0C => V::Int32(i32::from_le_bytes(v.try_into().unwrap())),
        0x0D => V::Int64(i64::from_le_bytes(v.try_into().unwrap())),
        0x18 => V::String(String::from_utf8(v.to_vec()).unwrap()),
        0x42 => V::Array(v.to_vec()),
        _ => V::Unknown(t, v.to_vec()),
    }
}

impl Head {
    fn dict(&self) -> Dict {
        let mut d: Dict = vec![("$UUID".into(), 0x42, self.kdf.to_vec())];
        match self.kdf {
            UUID_ARGON2D | UUID_ARGON2ID => {
                let (v, m, i, p, s) = &self.argon2;
                d.push(("V".into(), 4, v.to_le_bytes().to_vec()));
                d.push(("M".into(), 5, m.to_le_bytes().to_vec()));
                d.push(("I".into(), 5, i.to_le_bytes().to_vec()));
                d.push(("P".into(), 4, p.to_le_bytes().to_vec()));
                d.push(("S".into(), 0x42, s.clone()));
            }
            UUID_KDF_AES31 | UUID_KDF_AES4 => {
                d.push(("R".into(), 5, self.aes.0.to_le_bytes().to_vec()));
                d.push(("S".into(), 0x42, self.aes.1.clone()));
            }
            _ => {}
        }
        for e in &self.other {
            if !d.iter().any(|x| x.0 == e.0) {
                d.push(e.clone());
            }
        }
        d
    }
    fn kdf(&self) -> KdfParams {
        if self.v3 {
            return KdfParams::Aes {
                rounds: self.aes.0,
                salt: self.aes.1.clone(),
            };
        }
        match self.kdf {
            u @ (UUID_ARGON2D | UUID_ARGON2ID) => {
                let (v, m, i, p, s) = self.argon2.clone();
                KdfParams::Argon2 {
                    variant: if u == UUID_ARGON2D { argon2::Variant::Argon2d } else { argon2::Variant::Argon2id },
                    version: v,
                    memory_bytes: m,
                    iterations: i,
                    lanes: p,
                    salt: s,
                }
            }
            UUID_KDF_AES31 | UUID_KDF_AES4 => KdfParams::Aes {
                rounds: self.aes.0,
                salt: self.aes.1.clone(),
            },
            u => KdfParams::Unknown {
                uuid: uuid::Uuid::from_bytes(u),
                params: self
                    .dict()
                    .into_iter()
                    .filter(|e| e.0 != "$UUID")
                    .map(|(k, t, v)| (k, value(t, &v)))
                    .collect::<VariantDict>(),
            },
        }
    }
    fn fields(&self) -> Fields {
        let mut r = Rng(self.order);
        let mut f: Fields = vec![
            (2, self.cipher.to_vec()),
            (3, self.compression.to_le_bytes().to_vec()),
            (4, self.seed.clone()),
            (7, self.iv.clone()),
        ];
        if self.v3 {
            f.push((5, self.aes.1.clone()));
            f.push((6, self.aes.0.to_le_bytes().to_vec()));
            f.push((8, vec![1; 32]));
            f.push((9, self.start.clone()));
            f.push((0xA, vec![2, 0, 0, 0]));
        } else {
            let mut d = self.dict();
            if self.order != 0 {
                shuffle(&mut d, &mut r);
            }
            f.push((0xB, write_dict(&d)));
        }
        if self.order != 0 {
            shuffle(&mut f, &mut r);
        }
        for e in &self.extra {
            f.insert(r.below(f.len() + 1), e.clone());
        }
        f
    }
    fn encode(&self, fields: &Fields) -> Vec<u8> {
        let mut o = header_bytes(self.minor, if self.v3 { 3 } else { 4 }, fields, &self.end);
        if !self.v3 {
            let sum = sha256(&o);
            o.extend(sum);
            o.extend([0x55; 32]);
        }
        o.extend(&self.rest);
        o
    }
}

fn cipher_of(u: [u8; 16]) -> Cipher {
    match u {
        UUID_AES128 => Cipher::Aes128,
        UUID_AES256 => Cipher::Aes256,
        UUID_TWOFISH => Cipher::TwoFish,
        UUID_CHACHA20 => Cipher::ChaCha20,
        u => Cipher::Unknown(uuid::Uuid::from_bytes(u)),
    }
}

fn run_head(c: &Head, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    ctx.label(if c.v3 { "v3" } else { "v4" });
    let k = lib_api::open(&c.encode(&c.fields()))?;
    let h = k.header();
    let wrong = |what: &str, got: String, want: String| Err(format!("{what} reads as {got}, the file says {want}"));
    let v = (k.major_version(), k.minor_version());
    if v != (if c.v3 { 3 } else { 4 }, c.minor) {
        return wrong("the version", format!("{v:?}"), format!("{}", c.minor));
    }
    ctx.label_if(matches!(cipher_of(c.cipher), Cipher::Unknown(_)), "unknown cipher");
    if h.cipher != cipher_of(c.cipher) {
        return wrong("the cipher", format!("{:?}", h.cipher), format!("{:?}", cipher_of(c.cipher)));
    }
    if uuid::Uuid::from(h.cipher).as_bytes() != &c.cipher {
        return wrong("the cipher", format!("{}", uuid::Uuid::from(h.cipher)), hex(&c.cipher));
    }
    let comp = match c.compression {
        0 => CompressionType::None,
        1 => CompressionType::Gzip,
        n => CompressionType::Unknown(n),
    };
    ctx.label_if(c.compression > 1, "unknown compression");
    if h.compression_type != comp || u32::from(h.compression_type) != c.compression {
        return wrong("the compression", format!("{:?}", h.compression_type), format!("{comp:?}"));
    }
    if h.master_seed != c.seed {
        return wrong("the master seed", hex(&h.master_seed), hex(&c.seed));
    }
    if h.encryption_iv != c.iv {
        return wrong("the IV", hex(&h.encryption_iv), hex(&c.iv));
    }
    let kdf = c.kdf();
    ctx.label(match kdf {
        KdfParams::Argon2 { .. } => "Argon2",
        KdfParams::Aes { .. } => "AES KDF",
        _ => "unknown KDF",
    });
    if h.kdf_params != kdf {
        return wrong("the KDF", format!("{:?}", h.kdf_params), format!("{kdf:?}"));
    }
    if c.v3 && h.stream_start_bytes.as_deref() != Some(&c.start) {
        return wrong("the start of the data", format!("{:?}", h.stream_start_bytes), hex(&c.start));
    }
    // Comments and unknown fields are listed, in their order
    let listed: Vec<String> = h.other_headers.iter().map(|f| format!("{f:?}")).collect();
    let mut at = 0;
    for (id, d) in c.fields().iter().filter(|f| c.extra.contains(f)) {
        let id = OuterHeaderId::from(*id);
        match listed[at..].iter().position(|l| l.contains(&format!("{id:?}")) && l.contains(&format!("{d:?}"))) {
            Some(i) => at += i + 1,
            None => return wrong("the list of other fields", listed.join(" "), format!("{id:?} {d:?}")),
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    Magic1([u8; 4]),
    Magic2([u8; 4]),
    BothMagic([u8; 8]),
    Major(u16),
    Missing(u8),
    Size(u8, Vec<u8>),
    KdfMissing(usize),
    KdfType(usize, u8),
    KdfBroken(u8, u64),
    Checksum(usize, u8),
    /// A bit of the header changed without a new checksum
    Changed(usize, u8),
    Cut(usize),
}

fn id(n: u8) -> OuterHeaderId {
    OuterHeaderId::from(n)
}

fn refused(data: &[u8], what: &str, ok: impl Fn(&OpenError) -> bool) -> Verdict {
    match kdbx_rs::from_reader(data) {
        Ok(_) => Err(format!("a file with {what} is opened")),
        Err(e) if ok(&e) => Ok(()),
        Err(e) => Err(format!("a file with {what} is refused with {e:?}")),
    }
}

fn run_fault(c: &(Head, Fault), ctx: &mut Ctx) -> Verdict {
    use HeaderError as H;
    use OpenError::*;
    let (h, fault) = c;
    let mut fields = h.fields();
    let good = h.encode(&fields);
    lib_api::open(&good)?;
    ctx.nt();
    let skip = |ctx: &mut Ctx| {
        ctx.nontrivial = false;
        ctx.label("does not apply");
        Ok(())
    };
    match fault {
        Fault::Magic1(m) => {
            let mut d = good;
            if d[..4] == m[..] {
                return skip(ctx);
            }
            ctx.label("not KeePass");
            d[..4].copy_from_slice(m);
            refused(&d, "a wrong first signature", |e| matches!(e, NonKeepassFormat))
        }
        Fault::Magic2(m) => {
            let mut d = good;
            if d[4..8] == m[..] {
                return skip(ctx);
            }
            ctx.label("not KDBX");
            d[4..8].copy_from_slice(m);
            refused(&d, "a wrong second signature", |e| matches!(e, UnsupportedFileFormat))
        }
        Fault::BothMagic(m) => {
            let mut d = good;
            if d[..4] == m[..4] {
                return skip(ctx);
            }
            d[..8].copy_from_slice(m);
            refused(&d, "two wrong signatures", |e| matches!(e, NonKeepassFormat))
        }
        Fault::Major(v) => {
            if [3, 4].contains(v) {
                return skip(ctx);
            }
            ctx.label("version");
            let mut d = good;
            d[10..12].copy_from_slice(&v.to_le_bytes());
            refused(&d, &format!("version {v}"), |e| matches!(e, UnsupportedMajorVersion(x) if x == v))
        }
        Fault::Missing(n) => {
            if !fields.iter().any(|f| f.0 == *n) || [8, 9, 0xA].contains(n) {
                return skip(ctx);
            }
            fields.retain(|f| f.0 != *n);
            ctx.label(&format!("without field {n}"));
            refused(&h.encode(&fields), &format!("field {n} missing"), |e| match e {
                InvalidHeader(H::MissingRequiredField(f)) => *f == id(*n) || ([5, 6].contains(n) && *f == OuterHeaderId::KdfParameters),
                _ => false,
            })
        }
        Fault::Size(n, v) => {
            let right = match n {
                2 => 16,
                3 => 4,
                6 if h.v3 => 8,
                _ => return skip(ctx),
            };
            if v.len() == right {
                return skip(ctx);
            }
            ctx.label(&format!("size of field {n}"));
            fields.iter_mut().find(|f| f.0 == *n).expect("field").1 = v.clone();
            refused(&h.encode(&fields), &format!("field {n} of {} bytes", v.len()), |e| {
                matches!(e, InvalidHeader(H::MalformedField(f, _)) if *f == id(*n))
            })
        }
        Fault::KdfMissing(i) => {
            if h.v3 {
                return skip(ctx);
            }
            let mut d = h.dict();
            let known = !matches!(h.kdf(), KdfParams::Unknown { .. });
            let n = if known { if d[1].0 == "V" { 6 } else { 3 } } else { 1 };
            let (k, ..) = d.remove(i % n);
            ctx.label(if k == "$UUID" { "KDF without id" } else { "KDF without parameter" });
            fields.iter_mut().find(|f| f.0 == 0xB).expect("field").1 = write_dict(&d);
            refused(&h.encode(&fields), &format!("KDF parameter {k} missing"), |e| match e {
                InvalidHeader(H::MissingKdfParam(p, _)) => *p == k,
                InvalidHeader(H::MalformedField(f, _)) => k == "$UUID" && *f == OuterHeaderId::KdfParameters,
                _ => false,
            })
        }
        Fault::KdfType(i, t) => {
            if h.v3 {
                return skip(ctx);
            }
            let mut d = h.dict();
            let known = !matches!(h.kdf(), KdfParams::Unknown { .. });
            let n = if known { if d[1].0 == "V" { 6 } else { 3 } } else { 1 };
            let e = &mut d[i % n];
            if e.1 == *t {
                return skip(ctx);
            }
            e.1 = *t;
            e.2 = match t {
                4 | 0xC => vec![1, 0, 0, 0],
                5 | 0xD => vec![1, 0, 0, 0, 0, 0, 0, 0],
                8 => vec![1],
                _ => b"12345678".to_vec(),
            };
            let k = e.0.clone();
            ctx.label("KDF parameter of another type");
            fields.iter_mut().find(|f| f.0 == 0xB).expect("field").1 = write_dict(&d);
            refused(&h.encode(&fields), &format!("KDF parameter {k} of type {t:#x}"), |e| match e {
                InvalidHeader(H::MissingKdfParam(p, _)) => *p == k,
                InvalidHeader(H::MalformedField(f, _)) => *f == OuterHeaderId::KdfParameters,
                _ => false,
            })
        }
        Fault::KdfBroken(kind, seed) => {
            if h.v3 {
                return skip(ctx);
            }
            let mut r = Rng(*seed);
            let d = h.dict();
            let mut b = write_dict(&d);
            match kind % 5 {
                0 => b.truncate(r.below(b.len())),
                1 => b[1] = 2 + r.below(254) as u8,
                2 => {
                    // A value of the wrong size for its type
                    let i = d.iter().position(|e| [4, 5, 8, 0xC, 0xD].contains(&e.1));
                    let Some(i) = i else { return skip(ctx) };
                    let mut d = d.clone();
                    let n = d[i].2.len();
                    let m = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16][r.below(10)];
                    if n == m {
                        return skip(ctx);
                    }
                    d[i].2 = vec![0; m];
                    b = write_dict(&d);
                }
                3 => {
                    // A name that is not text
                    b = write_dict(&d);
                    b[7] = 0xFF;
                }
                _ => b.clear(),
            }
            ctx.label("KDF dictionary broken");
            fields.iter_mut().find(|f| f.0 == 0xB).expect("field").1 = b;
            refused(&h.encode(&fields), &format!("a broken KDF dictionary ({kind})"), |e| {
                matches!(e, InvalidHeader(H::MalformedField(OuterHeaderId::KdfParameters, _)))
            })
        }
        Fault::Checksum(i, b) => {
            if h.v3 {
                return skip(ctx);
            }
            ctx.label("checksum");
            let mut d = good;
            let at = header_bytes(h.minor, 4, &fields, &h.end).len();
            d[at + i % 32] ^= 1 << (b % 8);
            refused(&d, "a wrong checksum", |e| matches!(e, InvalidHeader(H::ChecksumFailed)))
        }
        Fault::Changed(i, b) => {
            // Parts whose content does not matter for reading the header
            if h.v3 {
                return skip(ctx);
            }
            let mut d = good;
            let pick = [4, 7, 1, 0xC][i % 4];
            let mut at = 12;
            let mut found = None;
            for f in &fields {
                if f.0 == pick && !f.1.is_empty() {
                    found = Some(at + 5 + (i / 4) % f.1.len());
                }
                at += 5 + f.1.len();
            }
            // Or the minor version
            let p = found.unwrap_or(8 + i % 2);
            ctx.label("changed without checksum");
            d[p] ^= 1 << (b % 8);
            refused(&d, "a header not matching its checksum", |e| matches!(e, InvalidHeader(H::ChecksumFailed)))
        }
        Fault::Cut(i) => {
            let full = header_bytes(h.minor, if h.v3 { 3 } else { 4 }, &fields, &h.end).len() + if h.v3 { 0 } else { 64 };
            let n = i % full;
            ctx.label("cut off");
            refused(&good[..n], &format!("only {n} of {full} bytes of its header"), |e| {
                matches!(e, Io(x) | InvalidHeader(H::Io(x)) if x.kind() == std::io::ErrorKind::UnexpectedEof)
            })
        }
    }
}

/// Fields that are only needed for unlocking.
fn run_inner(c: &(MDb, Settings, Creds, u8, Vec<u8>, bool), ctx: &mut Ctx) -> Verdict {
    let (db, s, creds, n, v, missing) = c;
    let start = [6u8; 32];
    let xml = render(db, &Style::plain(), s, None);
    let mut s = s.clone();
    let v3 = n % 5 >= 2;
    if let (true, RKdf::Argon2 { iterations, .. }) = (v3, &s.kdf) {
        s.kdf = RKdf::Aes {
            rounds: *iterations,
            salt: vec![1; 32],
        };
    }
    let field = [1u8, 2, 8, 9, 0xA][(n % 5) as usize];
    let sized = [1, 0xA].contains(&field);
    if !missing && (!sized || v.len() == 4) {
        ctx.label("does not apply");
        return Ok(());
    }
    ctx.nt();
    ctx.label(&format!("{} {field}", if *missing { "without" } else { "size of" }));
    let spoil = |f: &mut Fields| {
        if *missing {
            f.retain(|x| x.0 != field)
        } else {
            f.iter_mut().find(|x| x.0 == field).expect("field").1 = v.clone()
        }
    };
    let data = if v3 {
        let mut f = V3::simple(&s, creds, &start, xml);
        spoil(&mut f.fields);
        f.encode()
    } else {
        let mut f = V4::simple(&s, creds, xml);
        spoil(&mut f.inner_fields);
        f.encode()
    };
    let says_so = |e: &HeaderError| match e {
        HeaderError::MissingRequiredField(f) => v3 && *missing && *f == id(field),
        HeaderError::MalformedField(f, _) => v3 && !missing && *f == id(field),
        HeaderError::MissingRequiredInnerField(f) => !v3 && *missing && *f == InnerHeaderId::from(field),
        HeaderError::MalformedInnerField(f, _) => !v3 && !missing && *f == InnerHeaderId::from(field),
        _ => false,
    };
    match kdbx_rs::from_reader(&data[..]) {
        Err(OpenError::InvalidHeader(e)) if says_so(&e) => Ok(()),
        Err(e) => Err(format!("a file with field {field} wrong is refused with {e:?}")),
        Ok(k) => match k.unlock(&creds.to_lib()) {
            Ok(_) => Err(format!("a file with field {field} wrong is unlocked")),
            Err(e) => match e.1 {
                UnlockError::InvalidInnerHeader(h) if says_so(&h) => Ok(()),
                e => Err(format!("a file with field {field} wrong is refused with {e:?}")),
            },
        },
    }
}

/// Files that have nothing to do with KeePass.
fn run_alien(c: &Vec<u8>, ctx: &mut Ctx) -> Verdict {
    ctx.nt_if(!c.is_empty());
    let r = kdbx_rs::from_reader(&c[..]);
    let e = match r {
        Ok(_) => return Err("an arbitrary file is opened".into()),
        Err(e) => e,
    };
    let right = if c.len() < 4 {
        matches!(e, OpenError::Io(_))
    } else if c[..4] != MAGIC[..4] {
        ctx.label("not KeePass");
        matches!(e, OpenError::NonKeepassFormat)
    } else if c.len() < 8 {
        matches!(e, OpenError::Io(_))
    } else if c[4..8] != MAGIC[4..] {
        ctx.label("not KDBX");
        matches!(e, OpenError::UnsupportedFileFormat)
    } else if c.len() < 12 {
        matches!(e, OpenError::Io(_))
    } else {
        let v = u16::from_le_bytes([c[10], c[11]]);
        if [3, 4].contains(&v) {
            ctx.label("right version");
            matches!(e, OpenError::InvalidHeader(_) | OpenError::Io(_))
        } else {
            ctx.label("wrong version");
            matches!(e, OpenError::UnsupportedMajorVersion(x) if x == v)
        }
    };
    if !right {
        return Err(format!("{} is refused with {e:?}", hex(&c[..c.len().min(16)])));
    }
    Ok(())
}

fn any_uuid(known: &'static [[u8; 16]]) -> S<[u8; 16]> {
    prop_oneof![
        4 => select(known),
        2 => any::<[u8; 16]>(),
        1 => (select(known), 0usize..16, 0u32..8).prop_map(|(mut u, i, b)| {
            u[i] ^= 1 << b;
            u
        }),
        1 => select(vec![[0u8; 16], [0xFF; 16]]),
    ]
    .boxed()
}

fn big() -> S<u64> {
    prop_oneof![
        2 => any::<u64>(),
        1 => 0u64..100_000,
        1 => select(vec![0, 1, u64::MAX, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 63, 255, 256, 65535, 65536, 0x0102_0304_0506_0708]),
    ]
    .boxed()
}

fn dict() -> S<Dict> {
    let one = prop_oneof![
        any::<u32>().prop_map(|v| (0x04u8, v.to_le_bytes().to_vec())),
        big().prop_map(|v| (0x05u8, v.to_le_bytes().to_vec())),
        any::<bool>().prop_map(|v| (0x08u8, vec![v as u8])),
        any::<i32>().prop_map(|v| (0x0Cu8, v.to_le_bytes().to_vec())),
        any::<i64>().prop_map(|v| (0x0Du8, v.to_le_bytes().to_vec())),
        any_text().prop_map(|v| (0x18u8, v.into_bytes())),
        small_bytes().prop_map(|v| (0x42u8, v)),
    ];
    vec((prop_oneof![1 => select(vec!["V", "M", "I", "P", "S", "R", "K", "A", ""]).prop_map(|s| s.to_string()), 2 => any_text()], one), 0..6)
        .prop_map(|v| {
            let mut d: Dict = Vec::new();
            for (k, (t, v)) in v {
                if k != "$UUID" && !d.iter().any(|e| e.0 == k) {
                    d.push((k, t, v));
                }
            }
            d
        })
        .boxed()
}

fn head() -> S<Head> {
    (
        (any::<u16>(), proptest::bool::weighted(0.3)),
        any_uuid(&[UUID_AES128, UUID_AES256, UUID_TWOFISH, UUID_CHACHA20]),
        prop_oneof![2 => 0u32..3, 1 => any::<u32>(), 1 => select(vec![256u32, 65536, 1 << 24, u32::MAX])],
        (prop_oneof![3 => vec(any::<u8>(), 32), 1 => small_bytes()], prop_oneof![2 => vec(any::<u8>(), 16), 1 => vec(any::<u8>(), 12), 1 => small_bytes()]),
        any_uuid(&[UUID_KDF_AES31, UUID_KDF_AES4, UUID_ARGON2D, UUID_ARGON2ID]),
        (any::<u32>(), big(), big(), any::<u32>(), small_bytes()),
        (big(), prop_oneof![2 => vec(any::<u8>(), 32), 1 => small_bytes()]),
        dict(),
        outer_extra(),
        (small_bytes(), any::<u64>(), small_bytes(), small_bytes()),
    )
        .prop_map(|((minor, v3), cipher, compression, (seed, iv), kdf, argon2, aes, other, extra, (start, order, end, rest))| Head {
            minor,
            v3,
            cipher,
            compression,
            seed,
            iv,
            kdf,
            argon2,
            aes,
            other,
            extra,
            start,
            order,
            end,
            rest,
        })
        .boxed()
}

fn fault() -> S<Fault> {
    let flip = |m: [u8; 4]| (0usize..4, 0u32..8).prop_map(move |(i, b)| {
        let mut m = m;
        m[i] ^= 1 << b;
        m
    });
    prop_oneof![
        1 => prop_oneof![any::<[u8; 4]>(), flip([0x03, 0xD9, 0xA2, 0x9A]), Just([0x9A, 0xA2, 0xD9, 0x03]), Just(*b"PK\x03\x04")].prop_map(Fault::Magic1),
        // Including those of KeePass 1 and of a pre-release of KeePass 2
        1 => prop_oneof![any::<[u8; 4]>(), flip([0x67, 0xFB, 0x4B, 0xB5]), select(vec![[0x65, 0xFB, 0x4B, 0xB5], [0x66, 0xFB, 0x4B, 0xB5], [0x68, 0xFB, 0x4B, 0xB5]])].prop_map(Fault::Magic2),
        1 => any::<[u8; 8]>().prop_map(Fault::BothMagic),
        1 => prop_oneof![0u16..10, any::<u16>(), select(vec![0x0300u16, 0x0400, 0x0103, 0x0104, 0x8003, 0x8004])].prop_map(Fault::Major),
        3 => select(vec![2u8, 3, 4, 5, 6, 7, 0xB, 0xB]).prop_map(Fault::Missing),
        2 => (select(vec![2u8, 3, 6]), vec(any::<u8>(), 0..20)).prop_map(|(n, v)| Fault::Size(n, v)),
        2 => (0usize..30).prop_map(Fault::KdfMissing),
        2 => (0usize..30, select(vec![4u8, 5, 8, 0xC, 0xD, 0x18, 0x42, 0x43])).prop_map(|(i, t)| Fault::KdfType(i, t)),
        2 => (any::<u8>(), any::<u64>()).prop_map(|(k, s)| Fault::KdfBroken(k, s)),
        1 => (any::<usize>(), any::<u8>()).prop_map(|(i, b)| Fault::Checksum(i, b)),
        2 => (0usize..10000, any::<u8>()).prop_map(|(i, b)| Fault::Changed(i, b)),
        2 => (0usize..1_000_000).prop_map(Fault::Cut),
    ]
    .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C23",
        level: "exploration",
        rule: "every header and every faulty file",
        assumptions: &[
            "no required field and no dictionary key occurs twice",
            "fields of KDBX 3 that are only needed for unlocking may be reported missing then",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "headers",
                quick: 400_000,
                thorough: 4_000_000,
                strategy: |_| head(),
                run: run_head,
                need: &["v3", "v4", "unknown cipher", "unknown compression", "Argon2", "AES KDF", "unknown KDF"],
            }),
            Box::new(Scn {
                name: "faults",
                quick: 400_000,
                thorough: 4_000_000,
                strategy: |_| (head(), fault()).boxed(),
                run: run_fault,
                need: &[
                    "not KeePass", "not KDBX", "version", "without field 2", "without field 3", "without field 4", "without field 5", "without field 6",
                    "without field 7", "without field 11", "size of field 2", "size of field 3", "size of field 6", "KDF without id", "KDF without parameter",
                    "KDF parameter of another type", "KDF dictionary broken", "checksum", "changed without checksum", "cut off",
                ],
            }),
            Box::new(Scn {
                name: "fields for unlocking",
                quick: 20_000,
                thorough: 200_000,
                strategy: |_| (small_db(), cheap_settings(), creds(), any::<u8>(), vec(any::<u8>(), 0..9), any::<bool>()).boxed(),
                run: run_inner,
                need: &["without 1", "without 2", "without 8", "without 9", "without 10", "size of 1", "size of 10"],
            }),
            Box::new(Scn {
                name: "other files",
                quick: 200_000,
                thorough: 2_000_000,
                strategy: |_| {
                    (0usize..13, vec(any::<u8>(), 0..60), prop_oneof![Just(3u16), Just(4), any::<u16>()])
                        .prop_map(|(n, tail, v)| {
                            let mut d = MAGIC.to_vec();
                            d.extend([0, 0]);
                            d.extend(v.to_le_bytes());
                            d.truncate(n);
                            d.extend(tail);
                            d
                        })
                        .prop_filter("too close to an archive", |d| d.len() < 200)
                        .boxed()
                },
                run: run_alien,
                need: &["not KeePass", "not KDBX", "right version", "wrong version"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
