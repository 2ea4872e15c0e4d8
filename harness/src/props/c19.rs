//! Identifier and time codecs are exact inverses and total.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use base64::prelude::{Engine, BASE64_STANDARD};
use chrono::{NaiveDateTime, Timelike};
use kdbx_rs::database::{Entry, Group, Times};
use kdbx_rs::xml::{decode_datetime, decode_uuid, encode_datetime, encode_uuid};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use uuid::Uuid;

/// Base64 written out, so that it does not depend on the crate the library uses.
fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

fn run_uuid(c: &Vec<u8>, ctx: &mut Ctx) -> Verdict {
    let b: [u8; 16] = c[..16].try_into().unwrap();
    ctx.nt();
    let u = Uuid::from_bytes(b);
    let s = encode_uuid(u);
    if s != base64(&b) {
        return Err(format!("{u} is encoded as {s}, expected {}", base64(&b)));
    }
    if decode_uuid(&s) != Some(u) {
        return Err(format!("{s} decodes to {:?}, expected {u}", decode_uuid(&s)));
    }
    Ok(())
}

/// Times by their number of seconds since year 1.
fn check_time(secs: i64, nanos: u32) -> Verdict {
    let d = to_datetime(secs, nanos);
    let s = encode_datetime(d);
    let want = base64(&secs.to_le_bytes());
    if s != want {
        return Err(format!("{d} is encoded as {s}, expected {want}"));
    }
    let got = decode_datetime(&s);
    if got != Some(to_datetime(secs, 0)) {
        return Err(format!("{s} decodes to {got:?}, expected {}", to_datetime(secs, 0)));
    }
    Ok(())
}

fn run_time(c: &(i64, u32), ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    ctx.label_if(c.0 < 0, "before year 1");
    ctx.label_if(c.0 > 315_537_897_600, "after year 9999");
    check_time(c.0, if c.0 >= 0 { c.1 } else { 0 })?;
    // Neighbours and the ends of the range
    for k in [c.0.saturating_add(1), c.0.saturating_sub(1)] {
        if (min_secs()..=max_secs()).contains(&k) {
            check_time(k, 0)?;
        }
    }
    Ok(())
}

/// Seconds that do not fit a date are no time.
fn run_range(c: &i64, ctx: &mut Ctx) -> Verdict {
    let got = decode_datetime(&base64(&c.to_le_bytes()));
    let inside = (min_secs()..=max_secs()).contains(c);
    ctx.nt();
    ctx.label(if inside { "inside" } else { "outside" });
    let want = inside.then(|| to_datetime(*c, 0));
    if got != want {
        return Err(format!("{c} seconds decode to {got:?}, expected {want:?}"));
    }
    Ok(())
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Iso {
    secs: i64,
    offset: i32,
    /// Fraction digits, style of the offset and of the letters
    frac: String,
    style: u8,
}

fn run_iso(c: &Iso, ctx: &mut Ctx) -> Verdict {
    let local = to_datetime(c.secs + c.offset as i64 * 60, 0);
    use chrono::Datelike;
    if !(1..=9999).contains(&local.year()) || !(0..315_537_897_600).contains(&c.secs) {
        ctx.label("year out of range");
        return Ok(());
    }
    ctx.nt();
    let off = match (c.style % 4, c.offset) {
        (0, 0) => "Z".to_string(),
        (1, 0) => "z".to_string(),
        (2, 0) => "-00:00".to_string(),
        (_, o) => format!("{}{:02}:{:02}", if o < 0 { '-' } else { '+' }, o.abs() / 60, o.abs() % 60),
    };
    ctx.label(if c.offset == 0 {
        "UTC"
    } else if c.offset < 0 {
        "west"
    } else {
        "east"
    });
    let t = if c.style & 4 == 0 { 'T' } else { 't' };
    let frac = if c.frac.is_empty() { String::new() } else { format!(".{}", c.frac) };
    let s = format!("{}{t}{}{frac}{off}", local.format("%Y-%m-%d"), local.format("%H:%M:%S"));
    let Some(got) = decode_datetime(&s) else {
        return Err(format!("{s} is refused"));
    };
    let got = got.with_nanosecond(0).unwrap();
    if got != to_datetime(c.secs, 0) {
        return Err(format!("{s} decodes to {got}, expected {}", to_datetime(c.secs, 0)));
    }
    Ok(())
}

/// Nothing panics, and what is accepted is what it says.
fn run_text(s: &String, ctx: &mut Ctx) -> Verdict {
    ctx.nt_if(!s.is_empty());
    let u = decode_uuid(s);
    let bytes = BASE64_STANDARD.decode(s).ok();
    let want = bytes.as_ref().and_then(|b| <[u8; 16]>::try_from(&b[..]).ok()).map(Uuid::from_bytes);
    if u != want {
        return Err(format!("{s:?} decodes to identifier {u:?}, expected {want:?}"));
    }
    ctx.label_if(u.is_some(), "identifier");
    let d = decode_datetime(s);
    ctx.label_if(d.is_some(), "time");
    if let Some(b) = bytes.as_ref().filter(|b| b.len() == 8) {
        let n = i64::from_le_bytes(b[..].try_into().unwrap());
        let want = (min_secs()..=max_secs()).contains(&n).then(|| to_datetime(n, 0));
        if d != want {
            return Err(format!("{s:?} decodes to time {d:?}, expected {want:?}"));
        }
    }
    if bytes.is_none() && !s.contains('-') && d.is_some() {
        return Err(format!("{s:?} decodes to time {d:?}"));
    }
    if let Some(d) = d {
        // Encoding never panics either
        let _ = encode_datetime(d);
    }
    Ok(())
}

fn all_times(t: &Times) -> [NaiveDateTime; 5] {
    [
        t.last_modification_time,
        t.creation_time,
        t.last_access_time,
        t.expiry_time,
        t.location_changed,
    ]
}

pub fn helper(_: &[String]) -> i32 {
    use kdbx_rs::utils::NullStreamCipher;
    let doc = "<KeePassFile><Root><Group><Entry/></Group></Root></KeePassFile>";
    let db = kdbx_rs::xml::parse_xml(doc.as_bytes(), &mut NullStreamCipher).ok();
    let mut all = vec![
        Entry::default().times().clone(),
        Group::new("x").times().clone(),
        Group::default().times().clone(),
        Times::default(),
        kdbx_rs::Database::default().root().times().clone(),
    ];
    if let Some(db) = db {
        all.push(db.root().times().clone());
        all.extend(db.root().entries().map(|e| e.times().clone()));
    }
    for t in all {
        for d in all_times(&t) {
            println!("{} {}", d.and_utc().timestamp(), d.nanosecond());
        }
    }
    // A local time of this process, to show that the zone is in effect
    println!("local {}", chrono::Local::now().offset().local_minus_utc());
    println!("iso {}", decode_datetime("2020-06-01T12:00:00Z").map_or(0, |d| d.and_utc().timestamp()));
    println!("enc {}", encode_datetime(to_datetime(EPOCH_OFFSET + 86400, 0)));
    0
}

fn unix() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).expect("clock").as_secs() as i64
}

fn run_now(zone: &String, ctx: &mut Ctx) -> Verdict {
    let before = unix();
    let out = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["helper", "now"])
        .env("TZ", zone)
        .output()
        .expect("helper process");
    let after = unix();
    if !out.status.success() {
        return Err(format!("creating items failed with TZ={zone}: {}", String::from_utf8_lossy(&out.stderr)));
    }
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut n = 0;
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "local" => {
                ctx.label(if w[1] == "0" { "UTC" } else { "other zone" });
                ctx.nt_if(w[1] != "0");
            }
            "iso" => {
                if w[1] != "1591012800" {
                    return Err(format!("with TZ={zone} an ISO time decodes to {}", w[1]));
                }
            }
            "enc" => {
                if w[1] != base64(&(EPOCH_OFFSET + 86400).to_le_bytes()) {
                    return Err(format!("with TZ={zone} a time is encoded as {}", w[1]));
                }
            }
            _ => {
                n += 1;
                let (s, nanos): (i64, u32) = (w[0].parse().expect("number"), w[1].parse().expect("number"));
                if nanos != 0 || s < before || s > after {
                    return Err(format!("with TZ={zone} a new item has time {s}.{nanos:09}, the clock says {before} to {after}"));
                }
            }
        }
    }
    assert!(n >= 25, "helper printed {text}");
    ctx.eval(n);
    Ok(())
}

fn texts() -> S<String> {
    prop_oneof![
        2 => any_text(),
        2 => vec(any::<u8>(), 0..30).prop_map(|b| BASE64_STANDARD.encode(b)),
        2 => vec(any::<u8>(), 16).prop_map(|b| BASE64_STANDARD.encode(b)),
        2 => vec(any::<u8>(), 8).prop_map(|b| BASE64_STANDARD.encode(b)),
        2 => (vec(any::<u8>(), 5), any::<i8>()).prop_map(|(mut b, s)| {
            b.extend([if s < 0 { 0xFF } else { 0 }; 3]);
            BASE64_STANDARD.encode(b)
        }),
        1 => vec(any::<u8>(), 6..20).prop_map(|b| BASE64_STANDARD.encode(b).trim_end_matches('=').to_string()),
        2 => "[A-Za-z0-9+/=]{0,30}",
        3 => "[+-]?[0-9]{0,6}-[0-9]{0,2}-[0-9]{0,2}[Tt ][0-9]{0,2}:[0-9]{0,2}:[0-9]{0,2}(\\.[0-9]{0,12})?(Z|z|[+-][0-9]{2}:?[0-9]{2})?",
        2 => (1i32..9999, 1u32..14, 0u32..33, 0u32..26, 0u32..62, 0u32..62, "(Z|z|[+-][0-2][0-9]:[0-6][0-9])")
            .prop_map(|(y, m, d, h, mi, s, z)| format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{z}")),
        1 => select(vec![
            "", "-", "=", "==", "====", "A", "AA==", "AA", "AAAAAAAAAAA=", "AAAAAAAAAAA", "AAAAAAAAgH8=", "/////////38=",
            "AAAAAAAAAIA=", "2020-02-30T00:00:00Z", "2020-01-01", "2016-12-31T23:59:60Z", "0000-01-01T00:00:00Z",
            "9999-12-31T23:59:59-23:59", "0001-01-01T00:00:00+23:59", "-262144-01-01T00:00:00Z", "2020-01-01T00:00:00",
            "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAB==", " AAAAAAAAAAAAAAAAAAAAAA==", "é-é",
            "99999-01-01T00:00:00Z", "2020-01-01T00:00:00.999999999999Z", "2020-1-1T0:0:0Z", "\u{661}-\u{661}",
        ]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C19",
        level: "exploration",
        rule: "every identifier, time and time zone other than UTC; texts that are not empty",
        assumptions: &["a representable date is one chrono's NaiveDateTime can hold"],
        scenarios: vec![
            Box::new(Scn {
                name: "identifiers",
                quick: 200_000,
                thorough: 3_000_000,
                strategy: |_| {
                    prop_oneof![
                        4 => vec(any::<u8>(), 16),
                        1 => (0usize..16, any::<u8>()).prop_map(|(i, b)| {
                            let mut v = vec![0; 16];
                            v[i] = b;
                            v
                        }),
                        1 => select(vec![vec![0u8; 16], vec![0xFF; 16], vec![0xFB; 16], vec![0x3E; 16]]),
                    ]
                    .boxed()
                },
                run: run_uuid,
                need: &[],
            }),
            Box::new(Scn {
                name: "times",
                quick: 300_000,
                thorough: 5_000_000,
                strategy: |_| (secs(), prop_oneof![Just(0u32), 0u32..1_000_000_000, Just(999_999_999)]).boxed(),
                run: run_time,
                need: &["before year 1", "after year 9999"],
            }),
            Box::new(Scn {
                name: "seconds",
                quick: 200_000,
                thorough: 3_000_000,
                strategy: |_| {
                    prop_oneof![
                        2 => any::<i64>(),
                        2 => secs(),
                        1 => select(vec![i64::MIN, i64::MAX, min_secs(), max_secs(), min_secs() - 1, max_secs() + 1, i64::MAX / 1000, i64::MIN / 1000, i64::MAX / 1000 + 1]),
                        1 => (max_secs() - 1000)..(max_secs() + 1000),
                        1 => (min_secs() - 1000)..(min_secs() + 1000),
                        1 => (0u32..64).prop_map(|b| 1i64 << b),
                    ]
                    .boxed()
                },
                run: run_range,
                need: &["inside", "outside"],
            }),
            Box::new(Scn {
                name: "ISO 8601",
                quick: 300_000,
                thorough: 5_000_000,
                strategy: |_| {
                    (
                        prop_oneof![
                            3 => (0i64..4_000_000_000).prop_map(|s| s + EPOCH_OFFSET),
                            2 => 0i64..315_537_897_600,
                        ],
                        prop_oneof![2 => Just(0i32), 3 => -1439i32..1440, 1 => select(vec![60, -60, 330, -210, 840, -720, 1439, -1439])],
                        prop_oneof![3 => Just(String::new()), 1 => "[0-9]{1,9}"],
                        any::<u8>(),
                    )
                        .prop_map(|(secs, offset, frac, style)| Iso {
                            secs,
                            offset,
                            frac,
                            style,
                        })
                        .boxed()
                },
                run: run_iso,
                need: &["UTC", "west", "east"],
            }),
            Box::new(Scn {
                name: "texts",
                quick: 300_000,
                thorough: 5_000_000,
                strategy: |_| texts(),
                run: run_text,
                need: &["identifier", "time"],
            }),
            Box::new(Scn {
                name: "now",
                quick: 60,
                thorough: 300,
                strategy: |_| {
                    prop_oneof![
                        1 => select(vec!["UTC0", "XST+5", "XST-5:30", "XST+12", "XST-14", "XST-0:45", "EST5EDT,M3.2.0,M11.1.0", "XST-1XDT,M3.5.0,M10.5.0/3", "XST+23:59", ""]).prop_map(|s| s.to_string()),
                        1 => (-23i32..24, 0u32..60).prop_map(|(h, m)| format!("XST{h:+}:{m:02}")),
                    ]
                    .boxed()
                },
                run: run_now,
                need: &["other zone"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
