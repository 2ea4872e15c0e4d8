//! Saved archives follow the KDBX 4 format: an independent reader recovers everything.
use super::c01;
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
}

/// The independent reader finds this content and these settings in the archive.
pub fn conforms(data: &[u8], db: &MDb, s: &Settings, c: &Creds) -> Result<Decoded, String> {
    let d = decode_v4(data, c)?;
    let (_, _, fields, _) = split_header(data)?;
    for f in fields.iter().filter(|f| f.0 == 0xB) {
        if f.1[..2] != [0, 1] {
            return Err(format!("dictionary version {:?}", &f.1[..2]));
        }
    }
    if (d.cipher, d.gzip, &d.kdf, &d.seed, &d.iv) != (s.cipher, s.gzip, &s.kdf, &s.seed, &s.iv) {
        return Err(format!(
            "settings in the file: {:?} gzip {} {:?} {:?} {:?}, chosen: {s:?}",
            d.cipher, d.gzip, d.kdf, d.seed, d.iv
        ));
    }
    if (d.inner, &d.inner_key) != (s.inner, &s.inner_key) {
        return Err(format!("inner cipher in the file: {:?} {:?}", d.inner, d.inner_key));
    }
    let got = refxml::read(&d.xml, &mut *s.inner.stream(&s.inner_key))?;
    diff(&db.normal(), &got)?;
    Ok(d)
}

fn check(db: &MDb, s: &Settings, c: &Creds, ctx: &mut Ctx) -> Verdict {
    let k = lib_api::create(db.to_lib(), s, c)?;
    let data = match lib_api::write(&k) {
        Ok(d) => d,
        Err(_) if !db.xml_representable() => return Ok(()),
        Err(e) => return Err(format!("saving failed: {e:?}")),
    };
    let d = conforms(&data, db, s, c)?;
    if d.minor != k.minor_version() {
        return Err(format!("minor version {} in the file", d.minor));
    }
    ctx.label_if(d.blocks.len() > 2, "several blocks");
    ctx.eval(1);
    // What the library hands out as XML is the payload
    let (mut u, _) = lib_api::load(&data, c)?;
    if u.raw_xml() != Some(&d.xml[..]) {
        return Err("raw XML of the reopened archive is not the decrypted payload".into());
    }
    if u.inner_header().inner_stream_key != s.inner_key
        || u.inner_header().inner_stream_cipher != s.inner.to_lib()
    {
        return Err("inner header of the reopened archive differs".into());
    }
    // A second generation conforms as well
    u.database_mut().add_entry(kdbx_rs::database::Entry::default());
    let mut want = MDb::from_lib(u.database());
    want.norm_values();
    let data = lib_api::write(&u).map_err(|e| format!("saving again failed: {e:?}"))?;
    conforms(&data, &want, s, c).map_err(|e| format!("saved again: {e}"))?;
    ctx.eval(1);
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    ctx.nt_if(c.db.count().fields > 0);
    classes(&c.db, &c.set, &c.creds, ctx);
    check(&c.db, &c.set, &c.creds, ctx)
}

fn run_large(c: &c01::Large, ctx: &mut Ctx) -> Verdict {
    setting_classes(&c.set, ctx);
    let db = c01::large_db(c)?;
    ctx.nt();
    check(&db, &c.set, &c.creds, ctx)
}

/// A new archive with its default settings.
fn run_default(c: &(MDb, Creds), ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let mut k = kdbx_rs::Kdbx::from_database(c.0.to_lib());
    k.set_key(c.1.to_lib())
        .map_err(|e| format!("setting the key failed: {e:?}"))?;
    let data = lib_api::write(&k).map_err(|e| format!("saving failed: {e:?}"))?;
    let d = decode_v4(&data, &c.1)?;
    let got = refxml::read(&d.xml, &mut *d.inner.stream(&d.inner_key))?;
    diff(&c.0.normal(), &got)
}

pub fn property() -> Property {
    Property {
        id: "C02",
        level: "exploration",
        rule: "the saved database has at least one field, or is padded to MiB size",
        assumptions: &[
            "the reference reader in refkdbx.rs and refxml.rs states the format correctly (validated against the sample files of other clients)",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "small",
                quick: 4000,
                thorough: 50000,
                strategy: |_| {
                    (db(), settings(), creds())
                        .prop_map(|(db, set, creds)| Case { db, set, creds })
                        .boxed()
                },
                run,
                need: &[
                    "cipher Aes256",
                    "cipher TwoFish",
                    "cipher ChaCha20",
                    "inner Salsa20",
                    "inner ChaCha20",
                    "gzip",
                    "no compression",
                    "AES KDF",
                    "Argon2id",
                    "Argon2d",
                    "key file",
                    "history",
                    "protected values",
                    "deep tree",
                    "custom data",
                ],
            }),
            Box::new(Scn {
                name: "large",
                quick: 18,
                thorough: 600,
                strategy: c01::large,
                run: run_large,
                need: &["gzip"],
            }),
            Box::new(Scn {
                name: "wide",
                quick: 60,
                thorough: 1000,
                strategy: |_| {
                    (wide_db(), cheap_settings(), creds())
                        .prop_map(|(db, set, creds)| Case { db, set, creds })
                        .boxed()
                },
                run,
                need: &["deep tree", "history", "custom data"],
            }),
            Box::new(Scn {
                name: "strong KDF",
                quick: 60,
                thorough: 1500,
                strategy: |_| {
                    (small_db(), settings_of(strong_kdf()), creds())
                        .prop_map(|(db, set, creds)| Case { db, set, creds })
                        .boxed()
                },
                run,
                need: &["AES KDF", "Argon2id", "Argon2d"],
            }),
            Box::new(Scn {
                name: "defaults",
                quick: 3,
                thorough: 12,
                strategy: |_| (small_db(), creds()).boxed(),
                run: run_default,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
