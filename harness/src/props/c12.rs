//! XML export and import are lossless for every text, or refused.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{parse_xml, write_xml};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    /// None: no stream cipher
    inner: Option<(RInner, Vec<u8>)>,
}

struct Plain;
impl cipher::StreamCipher for Plain {
    fn try_apply_keystream_inout(
        &mut self,
        mut buf: cipher::inout::InOutBuf<'_, '_, u8>,
    ) -> Result<(), cipher::StreamCipherError> {
        let same = buf.get_in().to_vec();
        buf.get_out().copy_from_slice(&same);
        Ok(())
    }
}

fn export(db: &MDb, inner: &Option<(RInner, Vec<u8>)>) -> Result<Result<Vec<u8>, String>, String> {
    let mut out = Vec::new();
    let lib = db.to_lib();
    let r = match inner {
        None => write_xml(&mut out, &lib, &mut NullStreamCipher),
        Some((a, k)) => {
            let mut s = a.to_lib().stream_cipher(k).map_err(|e| format!("inner cipher refused: {e:?}"))?;
            write_xml(&mut out, &lib, s.as_mut())
        }
    };
    Ok(r.map(|_| out).map_err(|e| format!("{e:?}")))
}

fn import(xml: &[u8], inner: &Option<(RInner, Vec<u8>)>) -> Result<MDb, String> {
    let r = match inner {
        None => parse_xml(xml, &mut NullStreamCipher),
        Some((a, k)) => {
            let mut s = a.to_lib().stream_cipher(k).map_err(|e| format!("inner cipher refused: {e:?}"))?;
            parse_xml(xml, s.as_mut())
        }
    };
    r.map(|d| MDb::from_lib(&d)).map_err(|e| format!("{e:?}"))
}

/// The same without other parsers, for large databases.
fn run_large(c: &Case, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let r = &c.db.root;
    for (n, what) in [
        (r.entries.len(), "entries"),
        (r.groups.len(), "groups"),
        (c.db.meta.custom.len(), "custom data"),
        (r.entries.iter().map(|e| e.fields.len()).max().unwrap_or(0), "fields"),
        (r.entries.iter().map(|e| e.history.len()).max().unwrap_or(0), "versions"),
    ] {
        ctx.label_if(n > 60_000, what);
    }
    let xml = export(&c.db, &c.inner)?.map_err(|e| format!("export failed: {e}"))?;
    let back = import(&xml, &c.inner).map_err(|e| format!("import of the export failed: {e}"))?;
    same_db(&c.db.normal(), &back)
}

fn check(db: &MDb, inner: &Option<(RInner, Vec<u8>)>, ctx: &mut Ctx) -> Verdict {
    let ok = db.xml_representable();
    ctx.label(match inner {
        None => "no cipher",
        Some((RInner::Salsa20, _)) => "Salsa20",
        Some(_) => "ChaCha20",
    });
    let xml = match (export(db, inner)?, ok) {
        (Ok(x), true) => x,
        (Err(_), false) => {
            ctx.label("refused");
            return Ok(());
        }
        (Err(e), true) => return Err(format!("export failed: {e}")),
        (Ok(x), false) => {
            return Err(format!(
                "export of a text XML cannot carry succeeded; reading it back: {}",
                short(&format!("{:?}", import(&x, inner).map(|_| ())), 300)
            ))
        }
    };
    ctx.label("exported");
    // Another parser accepts it and reads the same
    let got = match inner {
        None => refxml::read(&xml, &mut Plain)?,
        Some((a, k)) => refxml::read(&xml, &mut *a.stream(k))?,
    };
    diff(&db.normal(), &got).map_err(|e| format!("another parser reads: {e}"))?;
    let back = import(&xml, inner).map_err(|e| format!("import of the export failed: {e}"))?;
    same_db(&db.normal(), &back)?;
    // Exporting what was imported is stable
    let again = export(&back, inner)?.map_err(|e| format!("second export failed: {e}"))?;
    same_db(&db.normal(), &import(&again, inner)?).map_err(|e| format!("second import: {e}"))
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    ctx.nt_if(c.db.texts().iter().any(|(t, _)| t.contains(|c: char| !c.is_ascii_alphanumeric())));
    check(&c.db, &c.inner, ctx)
}

/// Documents with more than one group at the top, which other programs may produce.
fn run_roots(c: &(Vec<MDb>, Option<(RInner, Vec<u8>)>), ctx: &mut Ctx) -> Verdict {
    let (dbs, inner) = c;
    let mut doc = String::new();
    for (i, db) in dbs.iter().enumerate() {
        let mut db = db.clone();
        if !db.xml_representable() {
            return Ok(());
        }
        db.root.name = format!("root {i}");
        let x = match export(&db, &None)? {
            Ok(x) => String::from_utf8_lossy(&x).into_owned(),
            Err(e) => return Err(format!("export failed: {e}")),
        };
        let (Some(from), Some(to)) = (x.find("<Group>"), x.rfind("</Group>")) else {
            return Err(format!("no group in {x}"));
        };
        doc += &x[from..to + 8];
    }
    ctx.nt();
    ctx.label(match inner {
        None => "no cipher",
        Some((RInner::Salsa20, _)) => "Salsa20",
        Some(_) => "ChaCha20",
    });
    let doc = format!("<KeePassFile><Meta/><Root>{doc}</Root></KeePassFile>");
    let db = parse_xml(doc.as_bytes(), &mut NullStreamCipher).map_err(|e| format!("import failed: {e:?}"))?;
    if db.root().name() != "root 0" {
        return Err(format!("the root group is {:?}, not the first", db.root().name()));
    }
    let stream = |f: &mut dyn FnMut(&mut dyn cipher::StreamCipher) -> Result<(), String>| match inner {
        None => f(&mut Plain),
        Some((a, k)) => f(&mut *a.stream(k)),
    };
    let mut out = Vec::new();
    stream(&mut |s| write_xml(&mut out, &db, s).map_err(|e| format!("export failed: {e:?}")))?;
    let mut back = None;
    stream(&mut |s| {
        back = Some(parse_xml(&out[..], s).map_err(|e| format!("import of the export failed: {e:?}"))?);
        Ok(())
    })?;
    let mut want = db.clone();
    let back = back.expect("parsed");
    want.meta_mut().generator = back.meta().generator.clone();
    if back != want {
        return Err(format!("read back {back:?} instead of {want:?}"));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Place {
    text: String,
    /// Database name, description, group name, key, value, protected value, custom key,
    /// custom value, protected custom value, and the same in history
    at: u8,
    inner: Option<(RInner, Vec<u8>)>,
}

pub fn one_text(text: &str, at: u8) -> MDb {
    let mut db = MDb {
        meta: MMeta {
            generator: "g".into(),
            name: "n".into(),
            desc: "d".into(),
            custom: vec![],
            mp: [false; 5],
        },
        root: MGroup {
            uuid: 1,
            name: "root".into(),
            entries: vec![],
            groups: vec![],
            times: MTimes::zero(),
        },
    };
    let t = text.to_string();
    let f = match at {
        3 | 6 | 9 => MField::new(&t, "v", false),
        4 | 7 | 10 => MField::new("k", &t, false),
        _ => MField::new("k", &t, true),
    };
    let mut e = MEntry {
        uuid: 2,
        fields: vec![],
        history: vec![],
        times: MTimes::zero(),
    };
    match at {
        0 => db.meta.name = t,
        1 => db.meta.desc = t,
        2 => db.root.name = t,
        3..=5 => e.fields.push(f),
        6..=8 => db.meta.custom.push(f),
        _ => {
            let mut h = e.clone();
            h.fields.push(f);
            e.history.push(h);
        }
    }
    db.root.entries.push(e);
    db
}

fn run_place(c: &Place, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    ctx.label(&format!("place {}", c.at));
    check(&one_text(&c.text, c.at), &c.inner, ctx)
}

/// Every character there is: 64 consecutive code points in one text.
fn run_chars(c: &(u32, u8), ctx: &mut Ctx) -> Verdict {
    let chars: Vec<char> = (c.0 * 64..(c.0 + 1) * 64).filter_map(char::from_u32).collect();
    if chars.is_empty() {
        return Ok(());
    }
    ctx.nt();
    let good: String = chars.iter().filter(|c| is_xml_char(**c)).collect();
    for at in [c.1, 5] {
        // Together, and at both ends of a text
        if !good.is_empty() {
            check(&one_text(&good, at), &None, ctx)?;
            ctx.eval(1);
        }
        if c.0 < 64 || good.chars().count() != chars.len() {
            for ch in &chars {
                for text in [ch.to_string(), format!("{ch}a{ch}"), format!("a{ch}{ch}b")] {
                    check(&one_text(&text, at), &None, ctx).map_err(|e| format!("{ch:?}: {e}"))?;
                    ctx.eval(1);
                }
            }
        }
    }
    Ok(())
}

fn inner() -> S<Option<(RInner, Vec<u8>)>> {
    proptest::option::of((rinner(), inner_key())).boxed()
}

/// A key that may be anything, even empty.
fn wild_db() -> S<MDb> {
    (db_of(any_text()), vec(field_of(any_text()), 0..3), any_text(), any::<u8>())
        .prop_map(|(mut db, f, k, w)| {
            db.root.entries.push(MEntry {
                uuid: 1,
                fields: f,
                history: vec![],
                times: MTimes::zero(),
            });
            if w < 40 {
                if let Some(f) = db.root.entries.last_mut().unwrap().fields.last_mut() {
                    f.key = k;
                }
            }
            db
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        rule: "some text is not just letters and digits",
        assumptions: &["the XML 1.0 character range decides what XML can carry; field names must not be empty"],
        scenarios: vec![
            Box::new(Scn {
                name: "databases",
                quick: 16000,
                thorough: 300000,
                strategy: |_| (prop_oneof![2 => db(), 1 => wild_db()], inner()).prop_map(|(db, inner)| Case { db, inner }).boxed(),
                run,
                need: &["no cipher", "Salsa20", "ChaCha20", "refused", "exported"],
            }),
            Box::new(Scn {
                name: "several root groups",
                quick: 600,
                thorough: 6000,
                strategy: |_| (vec(small_db(), 2..5), inner()).boxed(),
                run: run_roots,
                need: &["no cipher", "Salsa20", "ChaCha20"],
            }),
            Box::new(Scn {
                name: "places",
                quick: 60000,
                thorough: 1000000,
                strategy: |_| {
                    (any_text(), 0u8..12, inner())
                        .prop_map(|(text, at, inner)| Place { text, at, inner })
                        .boxed()
                },
                run: run_place,
                need: &[
                    "place 0", "place 1", "place 2", "place 3", "place 4", "place 5", "place 6", "place 7", "place 8",
                    "place 9", "place 10", "place 11", "refused", "exported",
                ],
            }),
            Box::new(Scn {
                name: "characters",
                quick: 2500,
                thorough: 40000,
                strategy: |_| {
                    (
                        prop_oneof![
                            3 => 0u32..4,
                            4 => 0u32..1024,
                            2 => 0u32..(0x110000 / 64),
                            1 => proptest::sample::select(vec![0xD7FFu32 / 64, 0xE000 / 64, 0xFFFF / 64, 0x10000 / 64, 0x10FFFF / 64, 0xFDD0 / 64, 0x1FFFF / 64]),
                        ],
                        0u8..12,
                    )
                        .boxed()
                },
                run: run_chars,
                need: &["refused", "exported"],
            }),
            Box::new(Scn {
                name: "wide",
                quick: 60,
                thorough: 600,
                strategy: |_| (wide_db(), inner()).prop_map(|(db, inner)| Case { db, inner }).boxed(),
                run,
                need: &["no cipher", "Salsa20", "ChaCha20", "exported"],
            }),
            Box::new(Scn {
                name: "very wide",
                quick: 16,
                thorough: 60,
                strategy: |_| (very_wide_db(), inner()).prop_map(|(db, inner)| Case { db, inner }).boxed(),
                run: run_large,
                need: &[],
            }),
            Box::new(Scn {
                name: "long texts",
                quick: 300,
                thorough: 4000,
                strategy: |_| {
                    (bulk(2000usize..200_000), 0u8..12, inner(), any_text())
                        .prop_map(|(b, at, inner, t)| Place { text: b.text() + &t, at, inner })
                        .boxed()
                },
                run: run_place,
                need: &["exported"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
