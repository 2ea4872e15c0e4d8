//! Reference implementation of the KDBX 3.1 and 4 containers, written from the format
//! description and from cryptographic primitives; it shares no code with the library.
use aes::cipher::{block_padding::Pkcs7, BlockDecryptMut, BlockEncrypt, BlockEncryptMut, KeyInit, KeyIvInit, StreamCipher};
use hmac::{Hmac, Mac};
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256, Sha512};
use std::io::{Read, Write};

pub const MAGIC: [u8; 8] = [0x03, 0xD9, 0xA2, 0x9A, 0x67, 0xFB, 0x4B, 0xB5];

pub const UUID_AES128: [u8; 16] = *b"\x61\xab\x05\xa1\x94\x64\x41\xc3\x8d\x74\x3a\x56\x3d\xf8\xdd\x35";
pub const UUID_AES256: [u8; 16] = *b"\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff";
pub const UUID_TWOFISH: [u8; 16] = *b"\xad\x68\xf2\x9f\x57\x6f\x4b\xb9\xa3\x6a\xd4\x7a\xf9\x65\x34\x6c";
pub const UUID_CHACHA20: [u8; 16] = *b"\xd6\x03\x8a\x2b\x8b\x6f\x4c\xb5\xa5\x24\x33\x9a\x31\xdb\xb5\x9a";
pub const UUID_KDF_AES31: [u8; 16] = *b"\xc9\xd9\xf3\x9a\x62\x8a\x44\x60\xbf\x74\x0d\x08\xc1\x8a\x4f\xea";
pub const UUID_KDF_AES4: [u8; 16] = *b"\x7c\x02\xbb\x82\x79\xa7\x4a\xc0\x92\x7d\x11\x4a\x00\x64\x82\x38";
pub const UUID_ARGON2D: [u8; 16] = *b"\xef\x63\x6d\xdf\x8c\x29\x44\x4b\x91\xf7\xa9\xa4\x03\xe3\x0a\x0c";
pub const UUID_ARGON2ID: [u8; 16] = *b"\x9e\x29\x8b\x19\x56\xdb\x47\x73\xb2\x3d\xfc\x3e\xc6\xf0\xa1\xe6";

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Creds {
    pub pw: Option<String>,
    pub keyfile: Option<Vec<u8>>,
}

impl Creds {
    pub fn pw(p: &str) -> Creds {
        Creds {
            pw: Some(p.into()),
            keyfile: None,
        }
    }
    pub fn composite(&self) -> [u8; 32] {
        let mut h = Sha256::new();
        if let Some(p) = &self.pw {
            h.update(sha256(p.as_bytes()));
        }
        if let Some(k) = &self.keyfile {
            h.update(sha256(k));
        }
        h.finalize().into()
    }
    pub fn to_lib(&self) -> kdbx_rs::CompositeKey {
        kdbx_rs::CompositeKey::new(self.pw.clone(), self.keyfile.clone())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum RCipher {
    Aes256,
    TwoFish,
    ChaCha20,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum RInner {
    Salsa20,
    ChaCha20,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum RKdf {
    Argon2 {
        id: bool,
        version: u32,
        memory: u64,
        iterations: u64,
        lanes: u32,
        salt: Vec<u8>,
    },
    Aes {
        rounds: u64,
        salt: Vec<u8>,
    },
}

fn cbc_enc<E: BlockEncryptMut>(e: E, data: &[u8]) -> Vec<u8> {
    let mut b = data.to_vec();
    b.resize(data.len() + 16, 0);
    let n = e
        .encrypt_padded_mut::<Pkcs7>(&mut b, data.len())
        .expect("room for padding")
        .len();
    b.truncate(n);
    b
}

fn cbc_dec<D: BlockDecryptMut>(d: D, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut b = data.to_vec();
    let n = d
        .decrypt_padded_mut::<Pkcs7>(&mut b)
        .map_err(|_| "bad padding".to_string())?
        .len();
    b.truncate(n);
    Ok(b)
}

impl RCipher {
    pub fn uuid(self) -> [u8; 16] {
        match self {
            RCipher::Aes256 => UUID_AES256,
            RCipher::TwoFish => UUID_TWOFISH,
            RCipher::ChaCha20 => UUID_CHACHA20,
        }
    }
    pub fn iv_len(self) -> usize {
        match self {
            RCipher::ChaCha20 => 12,
            _ => 16,
        }
    }
    pub fn from_uuid(u: &[u8]) -> Option<RCipher> {
        [RCipher::Aes256, RCipher::TwoFish, RCipher::ChaCha20]
            .into_iter()
            .find(|c| c.uuid() == u)
    }
    pub fn to_lib(self) -> kdbx_rs::binary::Cipher {
        use kdbx_rs::binary::Cipher as C;
        match self {
            RCipher::Aes256 => C::Aes256,
            RCipher::TwoFish => C::TwoFish,
            RCipher::ChaCha20 => C::ChaCha20,
        }
    }
    pub fn encrypt(self, key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
        match self {
            RCipher::Aes256 => cbc_enc(
                cbc::Encryptor::<aes::Aes256>::new_from_slices(key, iv).expect("cipher parameters"),
                data,
            ),
            RCipher::TwoFish => cbc_enc(
                cbc::Encryptor::<twofish::Twofish>::new_from_slices(key, iv).expect("cipher parameters"),
                data,
            ),
            RCipher::ChaCha20 => {
                let mut v = data.to_vec();
                chacha20::ChaCha20::new_from_slices(key, iv)
                    .expect("cipher parameters")
                    .apply_keystream(&mut v);
                v
            }
        }
    }
    pub fn decrypt(self, key: &[u8], iv: &[u8], data: &[u8]) -> Result<Vec<u8>, String> {
        match self {
            RCipher::Aes256 => cbc_dec(
                cbc::Decryptor::<aes::Aes256>::new_from_slices(key, iv)
                    .map_err(|_| "IV length".to_string())?,
                data,
            ),
            RCipher::TwoFish => cbc_dec(
                cbc::Decryptor::<twofish::Twofish>::new_from_slices(key, iv)
                    .map_err(|_| "IV length".to_string())?,
                data,
            ),
            RCipher::ChaCha20 => {
                let mut v = data.to_vec();
                chacha20::ChaCha20::new_from_slices(key, iv)
                    .map_err(|_| "IV length".to_string())?
                    .apply_keystream(&mut v);
                Ok(v)
            }
        }
    }
}

impl RInner {
    pub fn id(self) -> u32 {
        match self {
            RInner::Salsa20 => 2,
            RInner::ChaCha20 => 3,
        }
    }
    pub fn to_lib(self) -> kdbx_rs::binary::InnerStreamCipherAlgorithm {
        use kdbx_rs::binary::InnerStreamCipherAlgorithm as I;
        match self {
            RInner::Salsa20 => I::Salsa20,
            RInner::ChaCha20 => I::ChaCha20,
        }
    }
    pub fn stream(self, key: &[u8]) -> Box<dyn StreamCipher> {
        match self {
            RInner::Salsa20 => Box::new(
                salsa20::Salsa20::new_from_slices(
                    &sha256(key),
                    &[0xE8, 0x30, 0x09, 0x4B, 0x97, 0x20, 0x5D, 0x2A],
                )
                .unwrap(),
            ),
            RInner::ChaCha20 => {
                let h = Sha512::digest(key);
                Box::new(chacha20::ChaCha20::new_from_slices(&h[..32], &h[32..44]).unwrap())
            }
        }
    }
}

impl RKdf {
    pub fn master(&self, composite: &[u8; 32]) -> Result<Vec<u8>, String> {
        match self {
            RKdf::Argon2 {
                id,
                version,
                memory,
                iterations,
                lanes,
                salt,
            } => {
                let cfg = argon2::Config {
                    variant: if *id {
                        argon2::Variant::Argon2id
                    } else {
                        argon2::Variant::Argon2d
                    },
                    version: match version {
                        0x10 => argon2::Version::Version10,
                        0x13 => argon2::Version::Version13,
                        _ => return Err("argon2 version".into()),
                    },
                    mem_cost: u32::try_from(memory / 1024).map_err(|_| "memory")?,
                    time_cost: u32::try_from(*iterations).map_err(|_| "iterations")?,
                    lanes: *lanes,
                    hash_length: 32,
                    ..Default::default()
                };
                argon2::hash_raw(composite, salt, &cfg).map_err(|e| e.to_string())
            }
            RKdf::Aes { rounds, salt } => {
                let c = aes::Aes256::new_from_slice(salt).map_err(|_| "AES-KDF salt size")?;
                let mut a = *aes::Block::from_slice(&composite[..16]);
                let mut b = *aes::Block::from_slice(&composite[16..]);
                for _ in 0..*rounds {
                    c.encrypt_block(&mut a);
                    c.encrypt_block(&mut b);
                }
                let mut h = Sha256::new();
                h.update(a);
                h.update(b);
                Ok(h.finalize().to_vec())
            }
        }
    }
    pub fn to_lib(&self) -> kdbx_rs::binary::KdfParams {
        match self.clone() {
            RKdf::Argon2 {
                id,
                version,
                memory,
                iterations,
                lanes,
                salt,
            } => kdbx_rs::binary::KdfParams::Argon2 {
                variant: if id {
                    argon2::Variant::Argon2id
                } else {
                    argon2::Variant::Argon2d
                },
                version,
                memory_bytes: memory,
                iterations,
                lanes,
                salt,
            },
            RKdf::Aes { rounds, salt } => kdbx_rs::binary::KdfParams::Aes { rounds, salt },
        }
    }
    /// Dictionary entries: key, type, value bytes.
    pub fn dict(&self, aes4: bool) -> Vec<(String, u8, Vec<u8>)> {
        match self {
            RKdf::Argon2 {
                id,
                version,
                memory,
                iterations,
                lanes,
                salt,
            } => vec![
                (
                    "$UUID".into(),
                    0x42,
                    if *id { UUID_ARGON2ID } else { UUID_ARGON2D }.to_vec(),
                ),
                ("I".into(), 0x05, iterations.to_le_bytes().to_vec()),
                ("M".into(), 0x05, memory.to_le_bytes().to_vec()),
                ("P".into(), 0x04, lanes.to_le_bytes().to_vec()),
                ("S".into(), 0x42, salt.clone()),
                ("V".into(), 0x04, version.to_le_bytes().to_vec()),
            ],
            RKdf::Aes { rounds, salt } => vec![
                (
                    "$UUID".into(),
                    0x42,
                    if aes4 { UUID_KDF_AES4 } else { UUID_KDF_AES31 }.to_vec(),
                ),
                ("R".into(), 0x05, rounds.to_le_bytes().to_vec()),
                ("S".into(), 0x42, salt.clone()),
            ],
        }
    }
    pub fn from_dict(d: &[(String, u8, Vec<u8>)]) -> Result<RKdf, String> {
        let get = |k: &str, ty: u8| -> Result<Vec<u8>, String> {
            let mut it = d.iter().filter(|(n, _, _)| n == k);
            let (_, t, v) = it.next().ok_or(format!("KDF dictionary has no {k}"))?;
            if it.next().is_some() {
                return Err(format!("KDF dictionary has {k} twice"));
            }
            if *t != ty {
                return Err(format!("KDF dictionary {k} has type {t:#x}"));
            }
            Ok(v.clone())
        };
        let u64v = |k: &str| -> Result<u64, String> {
            Ok(u64::from_le_bytes(
                get(k, 5)?.try_into().map_err(|_| format!("size of {k}"))?,
            ))
        };
        let u32v = |k: &str| -> Result<u32, String> {
            Ok(u32::from_le_bytes(
                get(k, 4)?.try_into().map_err(|_| format!("size of {k}"))?,
            ))
        };
        let uuid: [u8; 16] = get("$UUID", 0x42)?.try_into().map_err(|_| "size of $UUID")?;
        match uuid {
            UUID_ARGON2D | UUID_ARGON2ID => Ok(RKdf::Argon2 {
                id: uuid == UUID_ARGON2ID,
                version: u32v("V")?,
                memory: u64v("M")?,
                iterations: u64v("I")?,
                lanes: u32v("P")?,
                salt: get("S", 0x42)?,
            }),
            UUID_KDF_AES31 | UUID_KDF_AES4 => Ok(RKdf::Aes {
                rounds: u64v("R")?,
                salt: get("S", 0x42)?,
            }),
            _ => Err("unknown KDF".into()),
        }
    }
}

pub fn write_dict(entries: &[(String, u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![0u8, 1];
    for (k, t, v) in entries {
        o.push(*t);
        o.extend((k.len() as u32).to_le_bytes());
        o.extend(k.as_bytes());
        o.extend((v.len() as u32).to_le_bytes());
        o.extend(v);
    }
    o.push(0);
    o
}

struct Cur<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let r = self
            .d
            .get(self.p..self.p.checked_add(n).ok_or("overflow")?)
            .ok_or_else(|| format!("data ends at {} instead of {}", self.d.len(), self.p + n))?;
        self.p += n;
        Ok(r)
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn rest(&self) -> usize {
        self.d.len() - self.p
    }
}

pub fn read_dict(data: &[u8]) -> Result<Vec<(String, u8, Vec<u8>)>, String> {
    let mut c = Cur { d: data, p: 0 };
    let v = c.u16()?;
    if v >> 8 != 1 {
        return Err(format!("dictionary version {v:#x}"));
    }
    let mut out = Vec::new();
    loop {
        let t = c.u8()?;
        if t == 0 {
            break;
        }
        let n = c.u32()? as usize;
        let k = String::from_utf8(c.take(n)?.to_vec()).map_err(|_| "dictionary key")?;
        let n = c.u32()? as usize;
        out.push((k, t, c.take(n)?.to_vec()));
    }
    if c.rest() != 0 {
        return Err("data after the dictionary".into());
    }
    Ok(out)
}

pub fn sha256(d: &[u8]) -> [u8; 32] {
    Sha256::digest(d).into()
}

pub fn hmac256(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut h = <Hmac<Sha256> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        h.update(p);
    }
    h.finalize().into_bytes().into()
}

#[derive(Clone)]
pub struct Keys {
    pub master: Vec<u8>,
    pub cipher: [u8; 32],
    pub hmac: [u8; 64],
}

impl Keys {
    pub fn new(seed: &[u8], master: &[u8]) -> Keys {
        let mut c = Sha256::new();
        c.update(seed);
        c.update(master);
        let mut h = Sha512::new();
        h.update(seed);
        h.update(master);
        h.update([1]);
        Keys {
            master: master.to_vec(),
            cipher: c.finalize().into(),
            hmac: h.finalize().into(),
        }
    }
    pub fn block(&self, idx: u64) -> [u8; 64] {
        let mut h = Sha512::new();
        h.update(idx.to_le_bytes());
        h.update(self.hmac);
        h.finalize().into()
    }
    pub fn block_mac(&self, idx: u64, data: &[u8]) -> [u8; 32] {
        hmac256(
            &self.block(idx),
            &[
                &idx.to_le_bytes(),
                &(data.len() as u32).to_le_bytes(),
                data,
            ],
        )
    }
    pub fn header_mac(&self, header: &[u8]) -> [u8; 32] {
        hmac256(&self.block(u64::MAX), &[header])
    }
}

pub fn gzip(data: &[u8]) -> Vec<u8> {
    let mut e = libflate::gzip::Encoder::new(Vec::new()).unwrap();
    e.write_all(data).unwrap();
    e.finish().into_result().unwrap()
}

pub fn gunzip(data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut d = libflate::gzip::Decoder::new(data).map_err(|e| format!("gzip: {e}"))?;
    d.read_to_end(&mut out).map_err(|e| format!("gzip: {e}"))?;
    if !d.into_inner().is_empty() {
        return Err("data after the gzip stream".into());
    }
    Ok(out)
}

pub type Fields = Vec<(u8, Vec<u8>)>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Settings {
    pub cipher: RCipher,
    pub gzip: bool,
    pub kdf: RKdf,
    pub inner: RInner,
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
    pub inner_key: Vec<u8>,
}

/// Where header fields are cut up in the file.
pub fn v4_header_fields(s: &Settings, aes4: bool) -> Fields {
    vec![
        (2, s.cipher.uuid().to_vec()),
        (3, (s.gzip as u32).to_le_bytes().to_vec()),
        (4, s.seed.clone()),
        (7, s.iv.clone()),
        (0xB, write_dict(&s.kdf.dict(aes4))),
    ]
}

pub fn v4_inner_fields(s: &Settings) -> Fields {
    vec![
        (1, s.inner.id().to_le_bytes().to_vec()),
        (2, s.inner_key.clone()),
    ]
}

/// Magic, version and header fields with 32 bit (v4) or 16 bit (v3) lengths.
pub fn header_bytes(minor: u16, major: u16, fields: &Fields, end: &[u8]) -> Vec<u8> {
    let mut o = MAGIC.to_vec();
    o.extend(minor.to_le_bytes());
    o.extend(major.to_le_bytes());
    let mut put = |id: u8, d: &[u8]| {
        o.push(id);
        if major >= 4 {
            o.extend((d.len() as u32).to_le_bytes());
        } else {
            o.extend((d.len() as u16).to_le_bytes());
        }
        o.extend(d);
    };
    for (id, d) in fields {
        put(*id, d);
    }
    put(0, end);
    o
}

pub fn inner_header_bytes(fields: &Fields, end: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for (id, d) in fields.iter().map(|(i, d)| (*i, &d[..])).chain([(0u8, end)]) {
        o.push(id);
        o.extend((d.len() as u32).to_le_bytes());
        o.extend(d);
    }
    o
}

/// Cut data into pieces: `sizes` are used cyclically (0 = everything that is left).
pub fn cut<'a>(data: &'a [u8], sizes: &[usize]) -> Vec<&'a [u8]> {
    let mut out = Vec::new();
    let mut rest = data;
    let mut i = 0;
    while !rest.is_empty() {
        let n = sizes.get(i % sizes.len().max(1)).copied().unwrap_or(0);
        let n = if n == 0 { rest.len() } else { n.min(rest.len()) };
        // Tiny blocks only at the start, or large payloads would take forever
        let n = if out.len() > 400 { rest.len() } else { n };
        out.push(&rest[..n]);
        rest = &rest[n..];
        i += 1;
    }
    out
}

pub fn v4_blocks(keys: &Keys, blocks: &[&[u8]]) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, b) in blocks.iter().copied().chain([&[][..]]).enumerate() {
        o.extend(keys.block_mac(i as u64, b));
        o.extend((b.len() as u32).to_le_bytes());
        o.extend(b);
    }
    o
}

/// Everything a KDBX 4 writer is free to choose, and the content.
pub struct V4<'a> {
    pub minor: u16,
    pub fields: Fields,
    pub end: Vec<u8>,
    pub settings: &'a Settings,
    pub creds: &'a Creds,
    pub inner_fields: Fields,
    pub inner_end: Vec<u8>,
    pub xml: Vec<u8>,
    pub block_sizes: Vec<usize>,
}

impl<'a> V4<'a> {
    pub fn simple(settings: &'a Settings, creds: &'a Creds, xml: Vec<u8>) -> V4<'a> {
        V4 {
            minor: 0,
            fields: v4_header_fields(settings, true),
            end: b"\r\n\r\n".to_vec(),
            settings,
            creds,
            inner_fields: v4_inner_fields(settings),
            inner_end: vec![],
            xml,
            block_sizes: vec![1 << 20],
        }
    }
    pub fn keys(&self) -> Keys {
        let m = self
            .settings
            .kdf
            .master(&self.creds.composite())
            .expect("reference KDF");
        Keys::new(&self.settings.seed, &m)
    }
    pub fn header(&self) -> Vec<u8> {
        header_bytes(self.minor, 4, &self.fields, &self.end)
    }
    pub fn payload(&self) -> Vec<u8> {
        let mut p = inner_header_bytes(&self.inner_fields, &self.inner_end);
        p.extend(&self.xml);
        p
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_payload(&self.keys(), &self.payload())
    }
    pub fn encode_payload(&self, keys: &Keys, payload: &[u8]) -> Vec<u8> {
        let z;
        let plain = if self.settings.gzip {
            z = gzip(payload);
            &z[..]
        } else {
            payload
        };
        let enc = self
            .settings
            .cipher
            .encrypt(&keys.cipher, &self.settings.iv, plain);
        let mut o = self.header();
        let (sum, mac) = (sha256(&o), keys.header_mac(&o));
        o.extend(sum);
        o.extend(mac);
        o.extend(v4_blocks(keys, &cut(&enc, &self.block_sizes)));
        o
    }
}

/// What the reference reader finds in a KDBX 4 file.
pub struct Decoded {
    pub minor: u16,
    pub fields: Fields,
    pub kdf: RKdf,
    pub cipher: RCipher,
    pub gzip: bool,
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
    pub keys: Keys,
    pub header_len: usize,
    /// Offsets and data lengths of all blocks, the last one empty.
    pub blocks: Vec<(usize, usize)>,
    pub plain: Vec<u8>,
    pub payload: Vec<u8>,
    pub inner_fields: Fields,
    pub inner: RInner,
    pub inner_key: Vec<u8>,
    pub xml: Vec<u8>,
}

fn only(fields: &Fields, id: u8) -> Result<&[u8], String> {
    let mut it = fields.iter().filter(|(i, _)| *i == id);
    let f = it.next().ok_or(format!("header field {id} missing"))?;
    if it.next().is_some() {
        return Err(format!("header field {id} occurs twice"));
    }
    Ok(&f.1)
}

fn read_fields(c: &mut Cur, wide: bool) -> Result<(Fields, Vec<u8>), String> {
    let mut v = Vec::new();
    loop {
        let id = c.u8()?;
        let n = if wide { c.u32()? as usize } else { c.u16()? as usize };
        let d = c.take(n)?.to_vec();
        if id == 0 {
            return Ok((v, d));
        }
        v.push((id, d));
    }
}

/// Header fields of any KDBX file, and the offset after the header.
pub fn split_header(data: &[u8]) -> Result<(u16, u16, Fields, usize), String> {
    let mut c = Cur { d: data, p: 0 };
    if c.take(8)? != MAGIC {
        return Err("magic numbers".into());
    }
    let (minor, major) = (c.u16()?, c.u16()?);
    let (f, _) = read_fields(&mut c, major >= 4)?;
    Ok((minor, major, f, c.p))
}

/// Strict reader for KDBX 4 files.
pub fn decode_v4(data: &[u8], creds: &Creds) -> Result<Decoded, String> {
    let (minor, major, fields, header_len) = split_header(data)?;
    if major != 4 {
        return Err(format!("major version {major}"));
    }
    let mut c = Cur {
        d: data,
        p: header_len,
    };
    let header = &data[..header_len];
    if c.take(32)? != sha256(header) {
        return Err("header checksum is wrong".into());
    }
    let cipher = RCipher::from_uuid(only(&fields, 2)?).ok_or("unknown cipher")?;
    let gz = match only(&fields, 3)? {
        [0, 0, 0, 0] => false,
        [1, 0, 0, 0] => true,
        _ => return Err("compression field".into()),
    };
    let seed = only(&fields, 4)?.to_vec();
    let iv = only(&fields, 7)?.to_vec();
    if iv.len() != cipher.iv_len() {
        return Err(format!("IV of {} bytes", iv.len()));
    }
    let kdf = RKdf::from_dict(&read_dict(only(&fields, 0xB)?)?)?;
    let keys = Keys::new(&seed, &kdf.master(&creds.composite())?);
    if c.take(32)? != keys.header_mac(header) {
        return Err("header HMAC is wrong".into());
    }
    let mut enc = Vec::new();
    let mut blocks = Vec::new();
    loop {
        let at = c.p;
        let mac = c.take(32)?;
        let n = c.u32()? as usize;
        let d = c.take(n)?;
        if mac != keys.block_mac(blocks.len() as u64, d) {
            return Err(format!("HMAC of block {} is wrong", blocks.len()));
        }
        blocks.push((at, n));
        if n == 0 {
            break;
        }
        enc.extend_from_slice(d);
    }
    if c.rest() != 0 {
        return Err(format!("{} bytes after the final block", c.rest()));
    }
    let plain = cipher.decrypt(&keys.cipher, &iv, &enc)?;
    let payload = if gz { gunzip(&plain)? } else { plain.clone() };
    let mut c = Cur { d: &payload, p: 0 };
    let (inner_fields, _) = read_fields(&mut c, true)?;
    let inner = match only(&inner_fields, 1)? {
        [2, 0, 0, 0] => RInner::Salsa20,
        [3, 0, 0, 0] => RInner::ChaCha20,
        x => return Err(format!("inner cipher id {x:?}")),
    };
    let inner_key = only(&inner_fields, 2)?.to_vec();
    let xml = payload[c.p..].to_vec();
    Ok(Decoded {
        minor,
        fields,
        kdf,
        cipher,
        gzip: gz,
        seed,
        iv,
        keys,
        header_len,
        blocks,
        plain,
        payload,
        inner_fields,
        inner,
        inner_key,
        xml,
    })
}

/// KDBX 3.1 file.
pub struct V3<'a> {
    pub minor: u16,
    pub fields: Fields,
    pub end: Vec<u8>,
    pub settings: &'a Settings,
    pub creds: &'a Creds,
    pub start_bytes: Vec<u8>,
    pub xml: Vec<u8>,
    pub block_sizes: Vec<usize>,
}

pub fn v3_header_fields(s: &Settings, start_bytes: &[u8]) -> Fields {
    let (rounds, salt) = match &s.kdf {
        RKdf::Aes { rounds, salt } => (*rounds, salt.clone()),
        _ => panic!("KDBX 3 needs the AES KDF"),
    };
    vec![
        (2, s.cipher.uuid().to_vec()),
        (3, (s.gzip as u32).to_le_bytes().to_vec()),
        (4, s.seed.clone()),
        (5, salt),
        (6, rounds.to_le_bytes().to_vec()),
        (7, s.iv.clone()),
        (8, s.inner_key.clone()),
        (9, start_bytes.to_vec()),
        (0xA, s.inner.id().to_le_bytes().to_vec()),
    ]
}

pub fn v3_blocks(blocks: &[&[u8]]) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, b) in blocks.iter().enumerate() {
        o.extend((i as u32).to_le_bytes());
        o.extend(sha256(b));
        o.extend((b.len() as u32).to_le_bytes());
        o.extend(*b);
    }
    o.extend((blocks.len() as u32).to_le_bytes());
    o.extend([0u8; 32]);
    o.extend([0u8; 4]);
    o
}

impl<'a> V3<'a> {
    pub fn simple(
        settings: &'a Settings,
        creds: &'a Creds,
        start_bytes: &[u8],
        xml: Vec<u8>,
    ) -> V3<'a> {
        V3 {
            minor: 1,
            fields: v3_header_fields(settings, start_bytes),
            end: b"\r\n\r\n".to_vec(),
            settings,
            creds,
            start_bytes: start_bytes.to_vec(),
            xml,
            block_sizes: vec![1 << 20],
        }
    }
    pub fn header(&self) -> Vec<u8> {
        header_bytes(self.minor, 3, &self.fields, &self.end)
    }
    pub fn cipher_key(&self) -> [u8; 32] {
        let m = self
            .settings
            .kdf
            .master(&self.creds.composite())
            .expect("reference KDF");
        Keys::new(&self.settings.seed, &m).cipher
    }
    /// Decrypted content of the file after the header.
    pub fn plain(&self) -> Vec<u8> {
        let z;
        let data = if self.settings.gzip {
            z = gzip(&self.xml);
            &z[..]
        } else {
            &self.xml[..]
        };
        let mut p = self.start_bytes.clone();
        p.extend(v3_blocks(&cut(data, &self.block_sizes)));
        p
    }
    pub fn encode_plain(&self, plain: &[u8]) -> Vec<u8> {
        let mut o = self.header();
        o.extend(
            self.settings
                .cipher
                .encrypt(&self.cipher_key(), &self.settings.iv, plain),
        );
        o
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_plain(&self.plain())
    }
}
