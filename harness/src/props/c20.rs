//! One-time-password settings.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use kdbx_rs::database::{Entry, Field, Otp};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Code {
    secret: String,
    period: u32,
    digits: u32,
}

fn same(o: &Otp, c: &Code) -> Verdict {
    if o.secret() != Some(&c.secret) || o.period() != Some(c.period) || o.digits() != Some(c.digits) {
        return Err(format!("{c:?} reads as {:?} {:?} {:?}", o.secret(), o.period(), o.digits()));
    }
    Ok(())
}

fn code() -> S<Code> {
    (
        prop_oneof![
            4 => "[A-Z2-7]{1,40}",
            3 => ("[A-Z2-7]{1,40}", 1usize..7).prop_map(|(s, n)| s + &"=".repeat(n)),
            1 => ("[A-Z2-7]{8,64}").prop_map(|s| {
                let n = (8 - s.len() % 8) % 8;
                s + &"=".repeat(n)
            }),
            1 => "[A-Z2-7]{200,2000}",
            1 => "[a-z2-7]{1,40}",
            1 => select(vec!["JBSWY3DPEHPK3PXP", "PERIOD", "DIGITS", "SECRET", "A=", "A======"]).prop_map(|s| s.to_string()),
        ],
        number(),
        number(),
    )
        .prop_map(|(secret, period, digits)| Code { secret, period, digits })
        .boxed()
}

fn number() -> S<u32> {
    prop_oneof![
        3 => select(vec![0u32, 1, 6, 7, 8, 10, 30, 60, 255, 256, 65535, 65536, u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32]),
        2 => 0u32..100,
        2 => any::<u32>(),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stored {
    code: Code,
    /// Fields of the entry before and after the one-time password
    before: Vec<MField>,
    /// What is stored there already
    old: Option<(String, bool)>,
    after: Vec<MField>,
    second: Option<Code>,
}

fn fields(e: &Entry) -> Vec<(String, Option<String>, bool)> {
    e.fields().map(|f| (f.key().to_string(), f.value().map(|v| v.to_string()), f.protected())).collect()
}

fn build(c: &Stored) -> Entry {
    let mut e = Entry::default();
    let add = |e: &mut Entry, k: &str, v: &str, p: bool| {
        e.add_field(if p { Field::new_protected(k, v) } else { Field::new(k, v) });
    };
    for f in c.before.iter().filter(|f| f.key != "otp") {
        add(&mut e, &f.key, f.value.as_deref().unwrap_or(""), f.prot);
    }
    if let Some((v, p)) = &c.old {
        add(&mut e, "otp", v, *p);
    }
    for f in c.after.iter().filter(|f| f.key != "otp") {
        add(&mut e, &f.key, f.value.as_deref().unwrap_or(""), f.prot);
    }
    e
}

fn run_stored(c: &Stored, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    ctx.label_if(c.code.secret.contains('='), "padded");
    ctx.label(if c.old.is_some() { "replaced" } else { "new" });
    same(&Otp::new(&c.code.secret, c.code.period, c.code.digits), &c.code)?;
    same(&Otp::new(c.code.secret.clone(), c.code.period, c.code.digits), &c.code)?;
    let mut e = build(c);
    if c.old.is_none() && e.otp().is_some() {
        return Err("an entry without one-time password has one".into());
    }
    let old = fields(&e);
    e.set_otp(Otp::new(&c.code.secret, c.code.period, c.code.digits));
    let mut last = &c.code;
    if let Some(s) = &c.second {
        e.set_otp(Otp::new(&s.secret, s.period, s.digits));
        last = s;
    }
    same(&e.otp().ok_or("the stored settings are missing")?, last)?;
    stored(&e)?;
    // Everything else is as before
    let rest = |v: Vec<(String, Option<String>, bool)>| v.into_iter().filter(|f| f.0 != "otp").collect::<Vec<_>>();
    if rest(fields(&e)) != rest(old) {
        return Err("setting a one-time password changed other fields".into());
    }
    Ok(())
}

fn stored(e: &Entry) -> Verdict {
    let f: Vec<_> = e.fields().filter(|f| f.key() == "otp").collect();
    if f.len() != 1 || !f[0].protected() {
        return Err(format!("the one-time password is stored in {} fields, protected: {}", f.len(), f.iter().all(|f| f.protected())));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Saved {
    entries: Vec<Stored>,
    history: Vec<Code>,
    s: Settings,
    c: Creds,
}

fn run_saved(c: &Saved, ctx: &mut Ctx) -> Verdict {
    use kdbx_rs::database::{Database, Group};
    ctx.nt();
    let mut db = Database::default();
    let mut sub = Group::new("sub");
    for (i, s) in c.entries.iter().enumerate() {
        let mut e = build(s);
        e.set_title(format!("{i}"));
        e.set_otp(Otp::new(&s.code.secret, s.code.period, s.code.digits));
        for h in &c.history {
            let mut o = Entry::default();
            o.set_otp(Otp::new(&h.secret, h.period, h.digits));
            e.history_mut().push(o);
        }
        if i % 2 == 0 {
            db.root_mut().add_entry(e);
        } else {
            sub.add_entry(e);
        }
    }
    db.root_mut().add_group(sub);
    let mut k = lib_api::create(db, &c.s, &c.c)?;
    for round in 0..2 {
        let data = lib_api::write(&k).map_err(|e| format!("saving failed: {e:?}"))?;
        // Stored protected in the file, too
        let d = decode_v4(&data, &c.c)?;
        for s in &c.entries {
            if s.code.secret.len() >= 8 && find(&d.xml, s.code.secret.as_bytes()).is_some() && !elsewhere(c, &s.code.secret) {
                return Err("the secret is stored without protection".into());
            }
        }
        k = lib_api::unlock(&data, &c.c)?;
        let all: Vec<&Entry> = k.root().recursive_entries().collect();
        if all.len() != c.entries.len() {
            return Err("entries were lost".into());
        }
        for e in all {
            let i: usize = e.title().and_then(|t| t.parse().ok()).ok_or("an entry lost its title")?;
            let s = &c.entries[i];
            same(&e.otp().ok_or("the settings are missing after reopening")?, &s.code).map_err(|e| format!("after save {round}: {e}"))?;
            stored(e)?;
            let h: Vec<&Entry> = e.history().entries().collect();
            if h.len() != c.history.len() {
                return Err("earlier versions were lost".into());
            }
            for (o, h) in h.iter().zip(&c.history) {
                same(&o.otp().ok_or("the settings of an earlier version are missing")?, h)?;
                stored(o)?;
            }
        }
    }
    Ok(())
}

fn elsewhere(c: &Saved, secret: &str) -> bool {
    c.entries
        .iter()
        .flat_map(|e| e.before.iter().chain(&e.after))
        .any(|f| f.key.contains(secret) || f.value.as_deref().unwrap_or("").contains(secret))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Url {
    head: String,
    /// Parameters, without repeating any of the three names
    params: Vec<(String, Option<String>)>,
    prot: bool,
    saved: bool,
}

fn run_url(c: &Url, ctx: &mut Ctx) -> Verdict {
    ctx.nt_if(!c.params.is_empty());
    let q: Vec<String> = c
        .params
        .iter()
        .map(|(k, v)| match v {
            Some(v) => format!("{k}={v}"),
            None => k.clone(),
        })
        .collect();
    let url = if c.params.is_empty() { c.head.clone() } else { format!("{}?{}", c.head, q.join("&")) };
    let get = |k: &str| c.params.iter().find(|p| p.0 == k).and_then(|p| p.1.clone());
    let num = |k: &str| get(k).and_then(|v| v.parse::<u32>().ok());
    let mut e = Entry::default();
    e.add_field(if c.prot { Field::new_protected("otp", &url) } else { Field::new("otp", &url) });
    let e = if c.saved {
        // Through the document
        let mut db = kdbx_rs::Database::default();
        db.root_mut().add_entry(e);
        let mut x = Vec::new();
        let mut n = kdbx_rs::utils::NullStreamCipher;
        kdbx_rs::xml::write_xml(&mut x, &db, &mut n).map_err(|e| format!("writing: {e:?}"))?;
        let db = kdbx_rs::xml::parse_xml(&x[..], &mut n).map_err(|e| format!("reading: {e:?}"))?;
        let found = db.root().entries().next().cloned();
        found.ok_or("the entry was lost")?
    } else {
        e
    };
    let o = e.otp().ok_or("a stored URL is not found")?;
    let secret = get("secret");
    ctx.label(if secret.is_some() { "secret" } else { "no secret" });
    ctx.label(if num("period").is_some() {
        "period"
    } else if get("period").is_some() {
        "period not a number"
    } else {
        "no period"
    });
    let same_secret = o.secret().map(|s| s.to_string()) == secret || (secret.as_deref() == Some("") && o.secret().is_none());
    if !same_secret || o.period() != num("period") || o.digits() != num("digits") {
        return Err(format!(
            "{url} reads as secret {:?}, period {:?}, digits {:?}",
            o.secret(),
            o.period(),
            o.digits()
        ));
    }
    // Reading does not use anything up
    if o.period() != num("period") || o.digits() != num("digits") {
        return Err(format!("{url} reads differently the second time"));
    }
    Ok(())
}

fn numeric() -> S<Option<String>> {
    prop_oneof![
        5 => number().prop_map(|n| Some(n.to_string())),
        1 => number().prop_map(|n| Some(format!("00{n}"))),
        1 => Just(None),
        3 => select(vec!["", "-1", "-30", "30s", "3.5", "0x1e", "4294967296", "18446744073709551616", "thirty", "3 0", "3e1", "١٢", "=", "=30", "30=", "30=6", "%33", "99999999999999999999"])
            .prop_map(|s| Some(s.to_string())),
    ]
    .boxed()
}

fn url() -> S<Url> {
    let other = (
        prop_oneof![
            3 => select(vec!["issuer", "algorithm", "encoder", "image", "counter", "secrets", "xsecret", "period2", "aperiod", "digit", "digitss", "se", "p", "", "secret%20", "secret "]).prop_map(|s| s.to_string()),
            1 => "[a-z]{1,10}",
        ]
        .prop_filter("one of the three", |k| !["secret", "period", "digits"].contains(&&k[..])),
        proptest::option::weighted(
            0.85,
            prop_oneof![
                2 => select(vec!["SHA1", "SHA256", "steam", "kdbxrs", "secret", "secret=OTHER", "period=5", "digits=9", "", "=", "==", "a=b=c", "ACME%20Co", "é", "30", "period", "digits", "a;secret=OTHER", "b;period=5;digits=9", ",digits=9", "x secret=OTHER", "%26secret=OTHER", "%26period=5", "/secret=OTHER", ":digits=9"]).prop_map(|s| s.to_string()),
                1 => "[A-Za-z0-9%=+/:@. ;,!$'()*~_|-]{0,20}",
            ],
        ),
    );
    (
        select(vec![
            "otpauth://totp/kdbxrs:kdbxrs",
            "otpauth://totp/ACME%20Co:john@example.com",
            "otpauth://totp/secret=AAAA&period=1&digits=2",
            "otpauth://totp/",
            "otpauth://hotp/x",
            "otpauth://totp/é",
            "otpauth://totp/a=b",
            "otpauth://totp/digits=3",
        ]),
        vec(other, 0..5),
        proptest::option::weighted(
            0.85,
            prop_oneof![
                5 => code().prop_map(|c| Some(c.secret)),
                1 => Just(None),
                1 => Just(Some(String::new())),
            ],
        ),
        proptest::option::weighted(0.85, numeric()),
        proptest::option::weighted(0.85, numeric()),
        any::<u64>(),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(head, mut params, secret, period, digits, order, prot, saved)| {
            for (k, v) in [("secret", secret), ("period", period), ("digits", digits)] {
                if let Some(v) = v {
                    params.push((k.into(), v));
                }
            }
            shuffle(&mut params, &mut crate::refxml::Rng(order));
            Url {
                head: head.into(),
                params,
                prot,
                saved,
            }
        })
        .boxed()
}

fn stored_of() -> S<Stored> {
    (
        code(),
        vec(field(), 0..3),
        proptest::option::of((
            prop_oneof![
                1 => any_text().prop_filter("representable", |s| s.chars().all(is_xml_char)),
                1 => code().prop_map(|c| format!("otpauth://totp/x?digits={}&secret={}&period={}", c.digits, c.secret, c.period)),
            ],
            any::<bool>(),
        )),
        vec(field(), 0..3),
        proptest::option::weighted(0.3, code()),
    )
        .prop_map(|(code, before, old, after, second)| Stored {
            code,
            before,
            old,
            after,
            second,
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C20",
        level: "exploration",
        rule: "settings were stored, or the URL has parameters",
        assumptions: &[
            "each of the three parameters occurs at most once in a URL; values do not contain '?' or '&' and are not percent-encoded",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "stored in an entry",
                quick: 200_000,
                thorough: 2_000_000,
                strategy: |_| stored_of(),
                run: run_stored,
                need: &["padded", "replaced", "new"],
            }),
            Box::new(Scn {
                name: "saved and reopened",
                quick: 8_000,
                thorough: 80_000,
                strategy: |_| {
                    (vec(stored_of(), 1..5), vec(code(), 0..3), cheap_settings(), creds())
                        .prop_map(|(entries, history, s, c)| Saved { entries, history, s, c })
                        .boxed()
                },
                run: run_saved,
                need: &[],
            }),
            Box::new(Scn {
                name: "URLs",
                quick: 300_000,
                thorough: 3_000_000,
                strategy: |_| url(),
                run: run_url,
                need: &["secret", "no secret", "period", "period not a number", "no period"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
