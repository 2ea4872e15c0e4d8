//! A saved archive gives nothing away.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use base64::prelude::{Engine, BASE64_STANDARD};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    /// Attachments and public fields of an archive that is opened and saved
    lay: Option<Layout>,
    bulk: Bulk,
    change: u64,
}

/// Enough different bytes not to be found by chance.
fn telling(b: &[u8]) -> bool {
    b.len() >= 8 && b.iter().collect::<HashSet<_>>().len() >= 5
}

/// Everything that must not be readable, with names.
fn secrets(c: &Case, db: &MDb) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = Vec::new();
    let mut text = |what: &str, t: &str| {
        let b = t.as_bytes();
        v.push((what.into(), b.to_vec()));
        v.push((format!("{what} in UTF-16"), t.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()));
        v.push((format!("{what} in base64"), BASE64_STANDARD.encode(b).into_bytes()));
        v.push((format!("hash of {what}"), sha256(b).to_vec()));
    };
    for (t, prot) in db.texts() {
        text(if prot { "a protected value" } else { "a text" }, t);
    }
    if let Some(p) = &c.creds.pw {
        text("the password", p);
    }
    db.root.visit(&mut |g| v.push(("a group's identifier".into(), g.uuid.to_be_bytes().to_vec())));
    db.root.visit(&mut |g| {
        for e in &g.entries {
            v.push(("an entry's identifier".into(), e.uuid.to_be_bytes().to_vec()));
        }
    });
    if let Some(k) = &c.creds.keyfile {
        v.push(("the key file".into(), k.clone()));
        v.push(("the hash of the key file".into(), sha256(k).to_vec()));
    }
    let comp = c.creds.composite();
    let m = c.set.kdf.master(&comp).expect("reference KDF");
    let keys = Keys::new(&c.set.seed, &m);
    v.push(("the composite key".into(), comp.to_vec()));
    v.push(("the master key".into(), m.clone()));
    v.push(("a hash of the master key".into(), sha256(&m).to_vec()));
    v.push(("the cipher key".into(), keys.cipher.to_vec()));
    v.push(("the HMAC key".into(), keys.hmac.to_vec()));
    for i in [0, 1, u64::MAX] {
        v.push(("a block key".into(), keys.block(i).to_vec()));
    }
    v.push(("the inner stream key".into(), c.set.inner_key.clone()));
    if let Some(l) = &c.lay {
        for f in &l.inner {
            v.push(("an attachment".into(), f.1.clone()));
        }
    }
    v.retain(|x| telling(&x.1));
    v
}

fn archive(c: &Case) -> Result<(MDb, kdbx_rs::Kdbx<kdbx_rs::binary::Unlocked>), String> {
    let mut db = c.db.clone();
    if c.bulk.len > 0 {
        db.root.entries.push(MEntry {
            uuid: 0x0123_4567_89AB_CDEF_1020_3040_5060_7080,
            times: MTimes::zero(),
            fields: vec![MField::new("Notes", &c.bulk.text(), c.change % 2 == 0)],
            history: vec![],
        });
    }
    let k = match &c.lay {
        Some(l) => {
            let f = l.v4(&c.set, &c.creds, render(&db, &Style::plain(), &c.set, None)).encode();
            lib_api::unlock(&f, &c.creds)?
        }
        None => lib_api::create(db.to_lib(), &c.set, &c.creds)?,
    };
    Ok((db, k))
}

/// What may be read by everyone.
fn public(c: &Case) -> Vec<Vec<u8>> {
    let mut v = vec![c.set.seed.clone(), c.set.iv.clone()];
    match &c.set.kdf {
        RKdf::Argon2 { salt, .. } | RKdf::Aes { salt, .. } => v.push(salt.clone()),
    }
    if let Some(l) = &c.lay {
        v.extend(l.outer.iter().map(|f| f.1.clone()));
        v.extend(l.dict.iter().map(|d| [d.0.as_bytes(), &d.2].concat()));
    }
    v
}

fn run_hidden(c: &Case, ctx: &mut Ctx) -> Verdict {
    let (db, k) = archive(c)?;
    let data = match lib_api::write(&k) {
        Ok(d) => d,
        Err(_) if !db.xml_representable() => {
            ctx.label("not written");
            return Ok(());
        }
        Err(e) => return Err(format!("saving failed: {e:?}")),
    };
    let open = public(c);
    let s = secrets(c, &db);
    ctx.nt_if(!s.is_empty());
    ctx.eval(s.len() as u64);
    setting_classes(&c.set, ctx);
    ctx.label(if c.lay.is_some() { "opened and saved" } else { "new" });
    let shown = |w: &[u8]| open.iter().any(|p| find(p, w).is_some());
    // Any part of a secret will do
    let mut parts: HashMap<&[u8], usize> = HashMap::new();
    for (i, (_, b)) in s.iter().enumerate() {
        if b.len() < 16 {
            if find(&data, b).is_some() && !shown(b) {
                return Err(format!("{} is readable in the archive: {}", s[i].0, hex(b)));
            }
        } else if b.len() <= 4096 {
            for w in b.windows(12) {
                parts.insert(w, i);
            }
        } else {
            for w in b.windows(12).step_by(97) {
                parts.insert(w, i);
            }
        }
    }
    for w in data.windows(12) {
        if let Some(i) = parts.get(w) {
            if telling(w) && !shown(w) {
                return Err(format!("part of {} is readable in the archive: {}", s[*i].0, hex(w)));
            }
        }
    }
    // The header has the settings and nothing else
    let (_, _, fields, len) = split_header(&data)?;
    let extra = c.lay.as_ref().map(|l| l.outer.clone()).unwrap_or_default();
    let mut known: Fields = extra;
    known.extend(v4_header_fields(&c.set, true).into_iter().take(4));
    for f in &fields {
        if f.0 == 0xB {
            let d = read_dict(&f.1)?;
            let want = c.set.kdf.dict(true);
            for e in &d {
                let foreign = c.lay.as_ref().is_some_and(|l| l.dict.contains(e));
                if !foreign && !want.iter().any(|w| w == e || (e.0 == "$UUID" && w.0 == e.0)) {
                    return Err(format!("the KDF dictionary of the archive has an entry {e:?}"));
                }
            }
        } else if !known.contains(f) {
            return Err(format!("the archive has a header field {f:?}"));
        }
    }
    let room = len - 12 - 5 - fields.iter().map(|f| 5 + f.1.len()).sum::<usize>();
    if room > 4 && c.lay.as_ref().is_none_or(|l| l.end.len() < room) {
        return Err(format!("{room} bytes at the end of the header"));
    }
    // Whatever repeats in the content does not in the file
    if let Ok(d) = decode_v4(&data, &c.creds) {
        let mut body = Vec::new();
        for (at, n) in &d.blocks {
            body.extend_from_slice(&data[at + 36..at + 36 + n]);
        }
        let mut seen = HashSet::new();
        for b in body.chunks_exact(16) {
            if !seen.insert(b) {
                return Err(format!("encrypted data repeats: {}", hex(b)));
            }
        }
        ctx.label_if(body.len() > 4096, "long");
        let parts: HashSet<&[u8]> = d.payload.windows(16).step_by(if d.payload.len() > 20000 { 13 } else { 1 }).collect();
        for w in data.windows(16) {
            if parts.contains(w) && telling(w) && !shown(w) {
                return Err(format!("part of the content is readable in the archive: {}", hex(w)));
            }
        }
    }
    Ok(())
}

/// Settings and credentials with one thing changed.
fn change(c: &Case) -> (&'static str, Settings, Creds) {
    let mut r = Rng(c.change);
    let mut s = c.set.clone();
    let mut k = c.creds.clone();
    let flip = |v: &mut Vec<u8>, r: &mut Rng| {
        if v.is_empty() {
            v.push(1);
        } else {
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
        }
    };
    let what = match r.below(9) {
        0 => {
            let p = k.pw.get_or_insert_with(String::new);
            match r.below(3) {
                0 => p.push('x'),
                1 => p.insert(0, ' '),
                _ => {
                    if p.pop().is_none() {
                        p.push('\u{0}');
                    }
                }
            }
            "password"
        }
        1 => {
            flip(k.keyfile.get_or_insert_with(Vec::new), &mut r);
            "key file"
        }
        2 => {
            k = match (k.pw, k.keyfile) {
                (Some(p), Some(_)) => Creds { pw: Some(p), keyfile: None },
                (None, f) => Creds {
                    pw: Some(String::new()),
                    keyfile: f,
                },
                (p, None) => Creds {
                    pw: p,
                    keyfile: Some(vec![]),
                },
            };
            "kind of credentials"
        }
        3 | 4 => {
            flip(&mut s.seed, &mut r);
            "master seed"
        }
        5 => {
            flip(&mut s.iv, &mut r);
            "IV"
        }
        _ => match &mut s.kdf {
            RKdf::Aes { rounds, salt } => {
                // Without rounds the salt is not used
                if *rounds > 0 && r.pct(50) {
                    flip(salt, &mut r);
                    "KDF salt"
                } else {
                    *rounds += 1 + r.below(3) as u64;
                    "KDF rounds"
                }
            }
            RKdf::Argon2 {
                id,
                version,
                memory,
                iterations,
                lanes,
                salt,
            } => match r.below(6) {
                0 => {
                    *id = !*id;
                    "Argon2 variant"
                }
                1 => {
                    *version ^= 3;
                    "Argon2 version"
                }
                2 => {
                    *memory += 4096 * *lanes as u64;
                    "Argon2 memory"
                }
                3 => {
                    *iterations += 1;
                    "Argon2 iterations"
                }
                4 => {
                    *lanes += 1;
                    *memory += 1 << 17;
                    "Argon2 lanes"
                }
                _ => {
                    flip(salt, &mut r);
                    "KDF salt"
                }
            },
        },
    };
    (what, s, k)
}

/// Encrypted data, the signature of the header and those of the blocks.
fn pieces(d: &[u8]) -> Result<(Vec<u8>, Vec<u8>, Vec<Vec<u8>>), String> {
    let (_, _, _, mut p) = split_header(d)?;
    let mut body = Vec::new();
    let mut macs = Vec::new();
    let at = |a: usize, n: usize| d.get(a..a + n).ok_or("the archive ends too early".to_string());
    let head = at(p + 32, 32)?.to_vec();
    p += 64;
    loop {
        macs.push(at(p, 32)?.to_vec());
        let n = u32::from_le_bytes(at(p + 32, 4)?.try_into().unwrap()) as usize;
        body.extend_from_slice(at(p + 36, n)?);
        p += 36 + n;
        if n == 0 {
            return Ok((body, head, macs));
        }
    }
}

fn run_change(c: &Case, ctx: &mut Ctx) -> Verdict {
    let (db, mut k) = archive(c)?;
    let (what, s, creds) = change(c);
    if creds.composite() == c.creds.composite() && s == c.set {
        ctx.label("nothing changed");
        return Ok(());
    }
    let Ok(a) = lib_api::write(&k) else {
        if db.xml_representable() {
            return Err("saving failed".into());
        }
        return Ok(());
    };
    ctx.nt();
    ctx.label(what);
    // In the same archive, or in another one
    let b = if c.change & 1 == 0 {
        ctx.label("same object");
        lib_api::apply(&mut k, &s);
        if creds != c.creds || c.change & 2 == 0 {
            k.set_key(creds.to_lib()).map_err(|e| format!("setting the key failed: {e:?}"))?;
        }
        lib_api::write(&k)
    } else {
        lib_api::create(k.database().clone(), &s, &creds)
            .and_then(|mut n| {
                n.inner_header_mut().other_headers = k.inner_header().other_headers.clone();
                n.header_mut().other_headers = k.header().other_headers.clone();
                Ok(n)
            })
            .map(|n| lib_api::write(&n))?
    }
    .map_err(|e| format!("saving failed: {e:?}"))?;
    let (x, hx, mx) = pieces(&a)?;
    let (y, hy, my) = pieces(&b)?;
    if hx == hy {
        return Err(format!("the signature of the header is the same with another {what}"));
    }
    if let Some(m) = mx.iter().find(|m| my.contains(m)) {
        // The final, empty block is signed with the key alone
        if what != "IV" || Some(m) != mx.last() {
            return Err(format!("the signature of a block is the same with another {what}"));
        }
    }
    let n = x.len().min(y.len());
    let same = x.iter().zip(&y).filter(|(a, b)| a == b).count() as f64;
    let p = n as f64 / 256.0;
    if same > p + 8.0 * p.sqrt() + 6.0 {
        return Err(format!("{same} of {n} encrypted bytes are the same with another {what}"));
    }
    if let Some(b) = x.chunks_exact(16).zip(y.chunks_exact(16)).find(|(a, b)| a == b) {
        return Err(format!("encrypted data is the same with another {what}: {}", hex(b.0)));
    }
    Ok(())
}

fn secret_text() -> S<String> {
    prop_oneof![
        1 => text(),
        3 => "[A-Za-z0-9]{8,40}",
        1 => vec(tricky_char(), 8..30).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

fn case(kdf: fn() -> S<RKdf>, max: usize) -> S<Case> {
    (
        prop_oneof![1 => db_of(secret_text()), 1 => small_db()],
        settings_of(kdf()),
        prop_oneof![2 => creds(), 2 => ("[!-~]{8,30}", proptest::option::of(vec(any::<u8>(), 8..100))).prop_map(|(p, keyfile)| Creds { pw: Some(p), keyfile })],
        proptest::option::weighted(
            0.4,
            (layout(), vec(vec(any::<u8>(), 8..200), 0..3)).prop_map(|(mut l, files)| {
                l.inner.extend(files.into_iter().map(|f| (3u8, f)));
                l
            }),
        ),
        bulk(prop_oneof![3 => Just(0usize), 2 => 1usize..5000, 1 => 1usize..max]),
        any::<u64>(),
    )
        .prop_map(|(db, set, creds, lay, bulk, change)| Case {
            db,
            set,
            creds,
            lay,
            bulk,
            change,
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C24",
        level: "exploration",
        rule: "the archive has secrets long enough to be recognised, or something was changed",
        assumptions: &[
            "secrets of less than eight bytes or with fewer than five different bytes are not looked for",
            "public fields of the header that an opened archive had are kept and public",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "nothing is readable",
                quick: 9_000,
                thorough: 120_000,
                strategy: |_| case(kdf, 60_000),
                run: run_hidden,
                need: &["new", "opened and saved", "long"],
            }),
            Box::new(Scn {
                name: "nothing is readable in large archives",
                quick: 30,
                thorough: 300,
                strategy: |_| case(cheap_kdf, 3 << 20),
                run: run_hidden,
                need: &[],
            }),
            Box::new(Scn {
                name: "everything depends on the secrets",
                quick: 17_000,
                thorough: 200_000,
                strategy: |_| case(kdf, 60_000),
                run: run_change,
                need: &[
                    "password", "key file", "kind of credentials", "master seed", "IV", "KDF salt", "KDF rounds", "Argon2 variant", "Argon2 version", "Argon2 memory",
                    "Argon2 iterations", "Argon2 lanes", "same object",
                ],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
