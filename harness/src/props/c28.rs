//! Failures are reported as what they are and keep their cause.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{self, El, Node, Rng, Style};
use kdbx_rs::binary::{InnerHeaderId, InnerStreamCipherAlgorithm, KdfAlgorithm, KdfParams, OuterHeaderId};
use kdbx_rs::errors::*;
use kdbx_rs::{Database, Error, Kdbx};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io;
use uuid::Uuid;

const KINDS: [io::ErrorKind; 9] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::Other,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Made {
    /// Which error, and what is in it
    top: u8,
    mid: u8,
    low: u8,
    kind: usize,
    n: u32,
    text: String,
}

/// What is expected somewhere along the causes of an error.
#[derive(Default)]
struct Want {
    kind: Option<io::ErrorKind>,
    /// Has to occur in every message, from the error made to the outermost
    detail: Option<String>,
}

impl Made {
    fn io(&self, w: &mut Want) -> io::Error {
        w.kind = Some(KINDS[self.kind]);
        w.detail = Some(self.text.clone());
        io::Error::new(KINDS[self.kind], self.text.clone())
    }
    fn header(&self, w: &mut Want) -> HeaderError {
        w.detail = Some(self.text.clone());
        let o = OuterHeaderId::from(self.n as u8);
        let i = InnerHeaderId::from(self.n as u8);
        match self.low % 8 {
            0 => HeaderError::Io(self.io(w)),
            1 => HeaderError::MalformedField(o, self.text.clone()),
            2 => HeaderError::MalformedInnerField(i, self.text.clone()),
            3 => {
                w.detail = Some(format!("{o:?}"));
                HeaderError::MissingRequiredField(o)
            }
            4 => {
                w.detail = Some(format!("{i:?}"));
                HeaderError::MissingRequiredInnerField(i)
            }
            5 => {
                let t = format!("p{}", self.n);
                w.detail = Some(t.clone());
                HeaderError::MissingKdfParam(t, KdfAlgorithm::Argon2d)
            }
            6 => {
                w.detail = None;
                HeaderError::ChecksumFailed
            }
            _ => {
                let u = Uuid::from_u128(self.n as u128);
                w.detail = Some(u.to_string());
                HeaderError::UnknownCipher(u)
            }
        }
    }
    fn keys(&self, w: &mut Want) -> KeyGenerationError {
        if self.low % 2 == 0 {
            w.detail = Some(self.text.clone());
            KeyGenerationError::KeyGeneration(self.text.clone())
        } else {
            w.detail = Some(self.n.to_string());
            KeyGenerationError::UnimplementedKdfOptions(KdfParams::Aes {
                rounds: self.n as u64,
                salt: vec![],
            })
        }
    }
    fn inner(&self, w: &mut Want) -> InnerStreamError {
        w.detail = Some(self.n.to_string());
        InnerStreamError::UnsupportedCipher(InnerStreamCipherAlgorithm::Unknown(self.n))
    }
    fn xml_read(&self, w: &mut Want) -> XmlReadError {
        match self.low % 6 {
            0 => {
                w.detail = Some(self.text.clone());
                XmlReadError::Xml(self.text.clone())
            }
            1 => XmlReadError::KeyEmptyName,
            2 => XmlReadError::InvalidUuid,
            3 => XmlReadError::InvalidDatetime,
            4 => XmlReadError::InvalidNumber,
            _ => {
                w.detail = Some(self.text.clone());
                XmlReadError::DecryptFailed(self.text.clone())
            }
        }
    }
    fn xml_write(&self, w: &mut Want) -> XmlWriteError {
        match self.low % 3 {
            0 => {
                w.detail = Some(self.text.clone());
                XmlWriteError::Cipher(self.text.clone())
            }
            1 => XmlWriteError::UnsupportedCharacter('\u{1}'),
            _ => XmlWriteError::KeyEmptyName,
        }
    }
    fn open(&self, w: &mut Want) -> OpenError {
        match self.mid % 5 {
            0 => OpenError::NonKeepassFormat,
            1 => OpenError::UnsupportedFileFormat,
            2 => {
                w.detail = Some((self.n as u16).to_string());
                OpenError::UnsupportedMajorVersion(self.n as u16)
            }
            3 => self.header(w).into(),
            _ => self.io(w).into(),
        }
    }
    fn unlock(&self, w: &mut Want) -> UnlockError {
        match self.mid % 7 {
            0 => UnlockError::HmacInvalid,
            1 => UnlockError::StartBytesInvalid,
            2 => self.keys(w).into(),
            3 => self.io(w).into(),
            4 => self.header(w).into(),
            5 => self.inner(w).into(),
            _ => self.xml_read(w).into(),
        }
    }
    fn write(&self, w: &mut Want) -> WriteError {
        match self.mid % 6 {
            0 => self.io(w).into(),
            1 => self.xml_write(w).into(),
            2 => WriteError::MissingKeys,
            3 => {
                w.detail = Some((self.n as u16).to_string());
                WriteError::UnsupportedMajorVersion(self.n as u16)
            }
            4 => self.keys(w).into(),
            _ => self.inner(w).into(),
        }
    }
}

/// Debug forms of an error and of all its causes.
fn chain(e: &(dyn std::error::Error + 'static)) -> Vec<(String, String, Option<io::ErrorKind>)> {
    let mut v = vec![];
    let mut e = Some(e);
    while let Some(x) = e {
        v.push((format!("{x:?}"), x.to_string(), x.downcast_ref::<io::Error>().map(|i| i.kind())));
        e = x.source();
    }
    v
}

fn locked() -> Kdbx<kdbx_rs::binary::Locked> {
    thread_local!(static DATA: Vec<u8> = {
        let s = Settings {
            cipher: RCipher::ChaCha20,
            gzip: false,
            kdf: RKdf::Aes { rounds: 1, salt: vec![7; 32] },
            seed: vec![1; 32],
            iv: vec![2; 12],
            inner: RInner::ChaCha20,
            inner_key: vec![3; 64],
        };
        ref_v4(&MDb::from_lib(&Database::default()), &s, &Creds::pw("x"))
    });
    DATA.with(|d| kdbx_rs::from_reader(&d[..])).expect("reference file")
}

fn run_made(c: &Made, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let mut w = Want::default();
    // The same error twice, as errors can not be copied
    let (e, inside): (Error, Box<dyn std::error::Error>) = match c.top % 8 {
        0 => (c.open(&mut w).into(), Box::new(c.open(&mut w))),
        1 => (c.unlock(&mut w).into(), Box::new(c.unlock(&mut w))),
        2 => (c.write(&mut w).into(), Box::new(c.write(&mut w))),
        3 => (c.xml_read(&mut w).into(), Box::new(c.xml_read(&mut w))),
        4 => (c.xml_write(&mut w).into(), Box::new(c.xml_write(&mut w))),
        5 => (c.keys(&mut w).into(), Box::new(c.keys(&mut w))),
        6 => (FailedUnlock(locked(), c.unlock(&mut w)).into(), Box::new(c.unlock(&mut w))),
        _ => {
            let e = UnlockError::from(FailedUnlock(locked(), c.unlock(&mut w)));
            (e.into(), Box::new(c.unlock(&mut w)))
        }
    };
    let right = match (&e, c.top % 8) {
        (Error::Open(_), 0) | (Error::Unlock(_), 1 | 6 | 7) | (Error::Write(_), 2) => true,
        (Error::XmlRead(_), 3) | (Error::XmlWrite(_), 4) | (Error::KeyGeneration(_), 5) => true,
        _ => false,
    };
    ctx.label(["open", "unlock", "write", "XML read", "XML write", "keys", "failed unlock", "failed unlock"][c.top as usize % 8]);
    if !right {
        return Err(format!("{inside:?} became {e:?}"));
    }
    let v = chain(&e);
    let want = chain(&*inside);
    if v.len() != want.len() + 1 || v[1..].iter().zip(&want).any(|(a, b)| a != b) {
        return Err(format!("causes of {e:?} are {v:?}, expected {want:?}"));
    }
    if v.iter().any(|x| x.1.trim().is_empty()) {
        return Err(format!("an error without a message among {v:?}"));
    }
    if let Some(k) = w.kind {
        ctx.label("input or output");
        if v.iter().all(|x| x.2 != Some(k)) {
            return Err(format!("the kind {k:?} is lost in {v:?}"));
        }
    }
    // The general error about keys does not go into detail
    let from = if c.top % 8 == 5 { 1 } else { 0 };
    for x in &v[from..] {
        let t = w.detail.clone().unwrap_or_default();
        let shown = x.1.contains(&t) || x.1.contains(t.escape_debug().to_string().as_str());
        if !shown {
            return Err(format!("{t:?} is lost in the message {:?}", x.1));
        }
    }
    if from == 0 && !v[0].1.contains(&v[1].1) {
        return Err(format!("message {:?} does not tell {:?}", v[0].1, v[1].1));
    }
    Ok(())
}

/// One value of a document is replaced by something that is none.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    db: MDb,
    what: u8,
    place: u64,
    text: String,
    set: Settings,
    v3: bool,
}

fn spots<'a>(e: &'a mut El, names: &[&str], within: &[&str], out: &mut Vec<&'a mut El>) {
    let here = within.contains(&e.name.as_str());
    for k in &mut e.kids {
        if let Node::El(k) = k {
            if here && names.contains(&k.name.as_str()) {
                out.push(k);
            } else {
                spots(k, names, within, out);
            }
        }
    }
}

fn run_bad(c: &Bad, ctx: &mut Ctx) -> Verdict {
    let st = Style::plain();
    let (mut f, _, _) = refxml::build(&c.db, &st, None);
    let mut key = None;
    {
        let (names, within): (&[&str], &[&str]) = match c.what {
            0 => (&["UUID"], &["Group", "Entry"]),
            1 => (&["CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "LocationChanged"], &["Times"]),
            2 => (&["UsageCount"], &["Times"]),
            3 => (&["Key"], &["String"]),
            _ => (&["String"], &["Entry"]),
        };
        let mut v = vec![];
        spots(&mut f, names, within, &mut v);
        if c.what == 4 {
            v.retain(|s| s.els().any(|e| e.secret.is_some()));
        }
        if v.is_empty() {
            return Ok(());
        }
        let n = Rng(c.place).below(v.len());
        let e = &mut v[n];
        if c.what < 3 {
            e.kids = vec![Node::Text(c.text.clone())];
        } else if c.what == 3 {
            e.kids.clear();
        } else {
            key = e.els().find(|k| k.name == "Key").map(|k| k.full_text());
            for k in &mut e.kids {
                if let Node::El(k) = k {
                    if k.name == "Value" {
                        k.secret = None;
                        k.attrs.retain(|a| a.0 != "Protected");
                        k.attrs.push(("Protected".into(), "True".into()));
                        k.kids = vec![Node::Text(c.text.clone())];
                    }
                }
            }
        }
    }
    ctx.nt();
    ctx.label(["identifier", "time", "number", "key", "protected value"][c.what as usize]);
    let xml = refxml::serialise(&f, &st, &mut *c.set.inner.stream(&c.set.inner_key));
    let right = |e: &XmlReadError| match c.what {
        0 => matches!(e, XmlReadError::InvalidUuid),
        1 => matches!(e, XmlReadError::InvalidDatetime),
        2 => matches!(e, XmlReadError::InvalidNumber),
        3 => matches!(e, XmlReadError::KeyEmptyName),
        _ => matches!(e, XmlReadError::DecryptFailed(k) if Some(k) == key.as_ref()),
    };
    match kdbx_rs::xml::parse_xml(&xml[..], &mut *c.set.inner.stream(&c.set.inner_key)) {
        Ok(_) => return Err(format!("{:?} was taken for a value", c.text)),
        Err(e) if right(&e) => {}
        Err(e) => return Err(format!("a value that is none is reported as {e:?}")),
    }
    let creds = Creds::pw("bad");
    let data = if c.v3 { V3::simple(&c.set, &creds, &[9; 32], xml).encode() } else { V4::simple(&c.set, &creds, xml).encode() };
    match lib_api::open(&data)?.unlock(&creds.to_lib()) {
        Ok(_) => Err(format!("an archive with the value {:?} unlocked", c.text)),
        Err(FailedUnlock(_, UnlockError::InvalidXml(e))) if right(&e) => Ok(()),
        Err(e) => Err(format!("a value that is none is reported as {:?}", e.1)),
    }
}

fn bad_text(what: u8) -> S<String> {
    match what {
        0 => prop_oneof![
            select(vec!["x", "AAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAA", "{0}", "No UUID", "00000000-0000-0000-0000-000000000000"])
                .prop_map(String::from),
            "[!-,:;]{1,30}",
        ]
        .boxed(),
        1 => prop_oneof![
            select(vec!["now", "2020-13-01T00:00:00Z", "2020-01-01", "2020-02-30T00:00:00Z", "2020-01-01T00:00:00", "/////////38=", "-", "12:00"])
                .prop_map(String::from),
            "[!-,:;]{1,30}",
        ]
        .boxed(),
        2 => prop_oneof![
            select(vec!["-1", "4294967296", "1.5", "0x10", "1 2", "one", "1e3", "18446744073709551616", "True"]).prop_map(String::from),
            "[a-z:;]{1,30}",
        ]
        .boxed(),
        3 => Just(String::new()).boxed(),
        _ => prop_oneof![select(vec!["secret!", "AAA", "AA=A", "=", "A"]).prop_map(String::from), "[!-*:;]{1,30}"].boxed(),
    }
}

/// Things the library is asked for and can not do.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ask {
    what: u8,
    db: MDb,
    set: Settings,
    n: u32,
    id: String,
    bad: u8,
    at: usize,
    kind: usize,
}

struct Fails(usize, io::ErrorKind);
impl io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(self.1.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.0 == 0 {
            return Err(self.1.into());
        }
        Ok(())
    }
}

struct Broken<'a>(&'a [u8], io::ErrorKind);
impl io::Read for Broken<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() {
            return Err(self.1.into());
        }
        let n = b.len().min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn run_ask(c: &Ask, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let creds = Creds::pw("ask");
    let id = u128::from_str_radix(&c.id, 16).expect("hexadecimal");
    let kind = KINDS[c.kind];
    let unknown_kdf = KdfParams::Unknown {
        uuid: Uuid::from_u128(id),
        params: Default::default(),
    };
    // Numbers no inner cipher has that the library implements
    let n = if [2, 3].contains(&c.n) { 1 } else { c.n };
    let made = || lib_api::create(c.db.to_lib(), &c.set, &creds);
    let got = match c.what {
        0 => {
            ctx.label("no key");
            let k = Kdbx::from_database(c.db.to_lib());
            match lib_api::write(&k) {
                Err(WriteError::MissingKeys) => return Ok(()),
                r => format!("{:?}", r.map(|_| ())),
            }
        }
        1 => {
            ctx.label("3.1");
            let data = ref_v3(&c.db, &c.set, &creds, &[5; 32]);
            match lib_api::write(&lib_api::unlock(&data, &creds)?) {
                Err(WriteError::UnsupportedMajorVersion(3)) => return Ok(()),
                r => format!("{:?}", r.map(|_| ())),
            }
        }
        2 => {
            ctx.label("character");
            let mut k = made()?;
            let bad = char::from(c.bad % 9);
            let mut e = kdbx_rs::database::Entry::default();
            e.set_title(format!("a{bad}b"));
            k.add_entry(e);
            match lib_api::write(&k) {
                Err(WriteError::XmlWrite(XmlWriteError::UnsupportedCharacter(x))) if x == bad => return Ok(()),
                r => format!("{:?}", r.map(|_| ())),
            }
        }
        3 => {
            ctx.label("empty key");
            let mut k = made()?;
            let mut e = kdbx_rs::database::Entry::default();
            e.add_field(kdbx_rs::database::Field::new("", "x"));
            k.add_entry(e);
            match lib_api::write(&k) {
                Err(WriteError::XmlWrite(XmlWriteError::KeyEmptyName)) => return Ok(()),
                r => format!("{:?}", r.map(|_| ())),
            }
        }
        4 => {
            ctx.label("unknown KDF");
            let mut k = made()?;
            k.header_mut().kdf_params = unknown_kdf.clone();
            let w = match lib_api::write(&k) {
                Err(WriteError::KeyGen(KeyGenerationError::UnimplementedKdfOptions(p))) if p == unknown_kdf => None,
                r => Some(format!("{:?}", r.map(|_| ()))),
            };
            match (w, k.set_key(creds.to_lib())) {
                (None, Err(KeyGenerationError::UnimplementedKdfOptions(p))) if p == unknown_kdf => return Ok(()),
                (w, r) => format!("{w:?}, {r:?}"),
            }
        }
        5 => {
            ctx.label("unknown KDF in a file");
            let xml = render(&c.db, &Style::plain(), &c.set, None);
            let mut v = V4::simple(&c.set, &creds, xml);
            let dict = write_dict(&[("$UUID".into(), 0x42, Uuid::from_u128(id).as_bytes().to_vec())]);
            v.fields.iter_mut().filter(|f| f.0 == 11).for_each(|f| f.1 = dict.clone());
            match lib_api::open(&v.encode())?.unlock(&creds.to_lib()) {
                Err(FailedUnlock(_, UnlockError::KeyGen(KeyGenerationError::UnimplementedKdfOptions(p)))) if p == unknown_kdf => return Ok(()),
                r => format!("{:?}", r.map(|_| ()).map_err(|e| e.1)),
            }
        }
        6 => {
            ctx.label("inner cipher");
            let mut k = made()?;
            let a = InnerStreamCipherAlgorithm::from(n);
            k.inner_header_mut().inner_stream_cipher = a;
            match lib_api::write(&k) {
                Err(WriteError::InnerStream(InnerStreamError::UnsupportedCipher(x))) if x == a => return Ok(()),
                r => format!("{:?}", r.map(|_| ())),
            }
        }
        7 => {
            ctx.label("inner cipher of a file");
            let a = InnerStreamCipherAlgorithm::from(n);
            let xml = render(&c.db, &Style::plain(), &c.set, None);
            let mut v = V4::simple(&c.set, &creds, xml);
            v.inner_fields.iter_mut().filter(|f| f.0 == 1).for_each(|f| f.1 = n.to_le_bytes().to_vec());
            match lib_api::open(&v.encode())?.unlock(&creds.to_lib()) {
                Err(FailedUnlock(_, UnlockError::InnerStream(InnerStreamError::UnsupportedCipher(x)))) if x == a => return Ok(()),
                r => format!("{:?}", r.map(|_| ()).map_err(|e| e.1)),
            }
        }
        8 => {
            ctx.label("broken sink");
            let k = made()?;
            let len = lib_api::write(&k).map_err(|e| format!("saving failed: {e:?}"))?.len();
            match k.write(Fails(c.at % len, kind)) {
                Err(WriteError::Io(e)) if e.kind() == kind => return Ok(()),
                r => format!("{r:?} for {kind:?}"),
            }
        }
        9 => {
            ctx.label("broken source");
            let data = ref_v4(&c.db, &c.set, &creds);
            let at = c.at % data.len();
            match kdbx_rs::from_reader(Broken(&data[..at], kind)) {
                Err(OpenError::Io(e)) | Err(OpenError::InvalidHeader(HeaderError::Io(e))) if e.kind() == kind => return Ok(()),
                r => format!("{:?} for {kind:?}", r.map(|_| ())),
            }
        }
        10 => {
            ctx.label("no file");
            let p = scratch().join(format!("none-{}", c.n)).join("x.kdbx");
            match kdbx_rs::open(&p) {
                Err(OpenError::Io(e)) if e.kind() == io::ErrorKind::NotFound => return Ok(()),
                r => format!("{:?}", r.map(|_| ())),
            }
        }
        11 => {
            ctx.label("header hash");
            let xml = render(&c.db, &Style::plain(), &c.set, Some("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA="));
            let data = V3::simple(&c.set, &creds, &[5; 32], xml).encode();
            match lib_api::open(&data)?.unlock(&creds.to_lib()) {
                Err(FailedUnlock(_, UnlockError::InvalidInnerHeader(HeaderError::ChecksumFailed))) => return Ok(()),
                r => format!("{:?}", r.map(|_| ()).map_err(|e| e.1)),
            }
        }
        _ => {
            ctx.label("salt of the AES KDF");
            let mut k = made()?;
            let len = c.at % 70;
            let len = if len == 32 { 31 } else { len };
            k.header_mut().kdf_params = KdfParams::Aes {
                rounds: 1,
                salt: vec![1; len],
            };
            match k.set_key(creds.to_lib()) {
                Err(KeyGenerationError::KeyGeneration(t)) if !t.is_empty() => return Ok(()),
                r => format!("{r:?}"),
            }
        }
    };
    Err(format!("asked for {}: {got}", c.what))
}

pub fn property() -> Property {
    Property {
        id: "C28",
        level: "exploration",
        rule: "there was a failure to report",
        assumptions: &["what an error stands for is what its documentation says"],
        scenarios: vec![
            Box::new(Scn {
                name: "conversions",
                quick: 240_000,
                thorough: 2_400_000,
                strategy: |_| {
                    (0u8..8, any::<u8>(), any::<u8>(), 0..KINDS.len(), any::<u32>(), "[a-z][a-zA-Z0-9 äß]{0,20}")
                        .prop_map(|(top, mid, low, kind, n, text)| Made {
                            top,
                            mid,
                            low,
                            kind,
                            n,
                            text,
                        })
                        .boxed()
                },
                run: run_made,
                need: &["open", "unlock", "write", "XML read", "XML write", "keys", "failed unlock", "input or output"],
            }),
            Box::new(Scn {
                name: "malformed values",
                quick: 80_000,
                thorough: 800_000,
                strategy: |_| {
                    (0u8..5)
                        .prop_flat_map(|what| (Just(what), small_db(), bad_text(what), any::<u64>(), cheap_settings(), any::<bool>()))
                        .prop_map(|(what, db, text, place, mut set, v3)| {
                            if v3 {
                                v3_kdf(&mut set);
                            }
                            Bad {
                                db,
                                what,
                                place,
                                text,
                                set,
                                v3,
                            }
                        })
                        .boxed()
                },
                run: run_bad,
                need: &["identifier", "time", "number", "key", "protected value"],
            }),
            Box::new(Scn {
                name: "requests",
                quick: 80_000,
                thorough: 800_000,
                strategy: |_| {
                    (
                        0u8..13,
                        small_db(),
                        cheap_settings(),
                        prop_oneof![0u32..6, any::<u32>()],
                        any::<u128>(),
                        any::<u8>(),
                        any::<usize>(),
                        0..KINDS.len(),
                    )
                        .prop_map(|(what, db, mut set, n, id, bad, at, kind)| {
                            if [1, 11].contains(&what) {
                                v3_kdf(&mut set);
                            }
                            Ask {
                                what,
                                db,
                                set,
                                n,
                                id: format!("{id:x}"),
                                bad,
                                at,
                                kind,
                            }
                        })
                        .boxed()
                },
                run: run_ask,
                need: &[
                    "no key",
                    "3.1",
                    "character",
                    "empty key",
                    "unknown KDF",
                    "unknown KDF in a file",
                    "inner cipher",
                    "inner cipher of a file",
                    "broken sink",
                    "broken source",
                    "no file",
                    "header hash",
                    "salt of the AES KDF",
                ],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}

/// KDBX 3.1 has only one KDF.
fn v3_kdf(s: &mut Settings) {
    if !matches!(s.kdf, RKdf::Aes { .. }) {
        s.kdf = RKdf::Aes {
            rounds: 2,
            salt: vec![4; 32],
        };
    }
}
