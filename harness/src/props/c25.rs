//! Attachments and foreign header fields survive opening and saving.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::Style;
use kdbx_rs::binary::Unlocked;
use kdbx_rs::Kdbx;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Key(Creds),
    Cipher(RCipher, Vec<u8>),
    Iv(Vec<u8>),
    Gzip(bool),
    Kdf(RKdf),
    Seed(Vec<u8>),
    Inner(RInner, Vec<u8>),
    AddEntry(MEntry),
    Name(String),
    Root(MGroup),
    /// Remove one of the extra fields, or repeat it, in the outer or inner header
    Remove(bool, u8),
    Repeat(bool, u8),
    Move(bool, u8),
    Save,
    Reopen,
    ReopenHard(Creds),
    ReopenCopy,
}

fn op() -> S<Op> {
    prop_oneof![
        2 => creds().prop_map(Op::Key),
        1 => (rcipher(), vec(any::<u8>(), 16)).prop_map(|(a, b)| Op::Cipher(a, b)),
        1 => vec(any::<u8>(), 16).prop_map(Op::Iv),
        1 => any::<bool>().prop_map(Op::Gzip),
        2 => prop_oneof![3 => cheap_kdf(), 1 => argon2_kdf(), 1 => aes_kdf()].prop_map(Op::Kdf),
        1 => vec(any::<u8>(), 32).prop_map(Op::Seed),
        1 => (rinner(), inner_key()).prop_map(|(a, b)| Op::Inner(a, b)),
        2 => entry().prop_map(Op::AddEntry),
        1 => text().prop_map(Op::Name),
        1 => group_of(text()).prop_map(Op::Root),
        1 => (any::<bool>(), any::<u8>()).prop_map(|(a, b)| Op::Remove(a, b)),
        1 => (any::<bool>(), any::<u8>()).prop_map(|(a, b)| Op::Repeat(a, b)),
        1 => (any::<bool>(), any::<u8>()).prop_map(|(a, b)| Op::Move(a, b)),
        2 => Just(Op::Save),
        3 => Just(Op::Reopen),
        1 => creds().prop_map(Op::ReopenHard),
        1 => Just(Op::ReopenCopy),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    lay: Layout,
    /// More fields: outer?, id, length and content
    more: Vec<(bool, u8, Bulk)>,
    ops: Vec<Op>,
}

/// Fields that are not settings, in order.
fn extras(f: &Fields, own: &[u8]) -> Fields {
    f.iter().filter(|x| !own.contains(&x.0)).cloned().collect()
}

const OUTER: &[u8] = &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
const INNER: &[u8] = &[0, 1, 2];

struct Life {
    k: Kdbx<Unlocked>,
    db: MDb,
    set: Settings,
    creds: Creds,
    outer: Fields,
    inner: Fields,
}

fn compare(what: &str, want: &Fields, got: &Fields) -> Verdict {
    let name = |f: &(u8, Vec<u8>)| format!("field {} of {} bytes {}", f.0, f.1.len(), short(&hex(&f.1), 60));
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if g == w => {}
            Some(g) => return Err(format!("{what} header: extra field {i} was {} and is now {}", name(w), name(g))),
            None => return Err(format!("{what} header: {} of {} extra fields are left, the next was {}", got.len(), want.len(), name(w))),
        }
    }
    match got.get(want.len()) {
        Some(g) => Err(format!("{what} header: there were {} extra fields, now there is also {}", want.len(), name(g))),
        None => Ok(()),
    }
}

impl Life {
    fn save(&self, ctx: &mut Ctx) -> Result<Vec<u8>, String> {
        ctx.eval(1);
        let data = lib_api::write(&self.k).map_err(|e| format!("saving failed: {e:?}"))?;
        let d = decode_v4(&data, &self.creds)?;
        compare("outer", &self.outer, &extras(&d.fields, OUTER))?;
        compare("inner", &self.inner, &extras(&d.inner_fields, INNER))?;
        let s = &self.set;
        let got = Settings {
            cipher: d.cipher,
            gzip: d.gzip,
            kdf: d.kdf.clone(),
            inner: d.inner,
            seed: d.seed.clone(),
            iv: d.iv.clone(),
            inner_key: d.inner_key.clone(),
        };
        if &got != s {
            return Err(format!("the settings were {s:?} and are now {got:?}"));
        }
        if d.fields.iter().filter(|f| OUTER.contains(&f.0)).count() != 5 || d.inner_fields.iter().filter(|f| INNER.contains(&f.0)).count() != 2 {
            return Err("a setting is there twice".into());
        }
        Ok(data)
    }
    /// The fields as the library shows them.
    fn shown(&self, other: &Kdbx<Unlocked>) -> Verdict {
        let a = format!("{:?}", self.k.header().other_headers);
        let b = format!("{:?}", other.header().other_headers);
        let c = format!("{:?}", self.k.inner_header().other_headers);
        let d = format!("{:?}", other.inner_header().other_headers);
        if other.header().other_headers.len() != self.outer.len() || other.inner_header().other_headers.len() != self.inner.len() || a != b || c != d {
            return Err(format!("extra fields were {} / {} and are now {} / {}", short(&a, 200), short(&c, 200), short(&b, 200), short(&d, 200)));
        }
        Ok(())
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut lay = c.lay.clone();
    for (o, id, b) in &c.more {
        let v = b.text().into_bytes();
        if *o {
            lay.outer.push((if OUTER.contains(id) { 12 } else { *id }, v));
        } else {
            lay.inner.push((if INNER.contains(id) { 3 } else { *id }, v));
        }
    }
    let file = lay.v4(&c.set, &c.creds, render(&c.db, &Style::plain(), &c.set, None)).encode();
    let mut l = Life {
        k: lib_api::unlock(&file, &c.creds)?,
        db: c.db.clone(),
        set: c.set.clone(),
        creds: c.creds.clone(),
        outer: lay.outer.clone(),
        inner: lay.inner.clone(),
    };
    if l.k.header().other_headers.len() != l.outer.len() || l.k.inner_header().other_headers.len() != l.inner.len() {
        return Err(format!(
            "{} and {} extra fields of {} and {} are shown",
            l.k.header().other_headers.len(),
            l.k.inner_header().other_headers.len(),
            l.outer.len(),
            l.inner.len()
        ));
    }
    ctx.nt_if(!l.outer.is_empty() || !l.inner.is_empty());
    ctx.label_if(!l.outer.is_empty(), "outer fields");
    ctx.label_if(l.inner.iter().any(|f| f.0 == 3), "attachments");
    ctx.label_if(l.inner.iter().any(|f| f.0 > 3), "unknown inner fields");
    ctx.label_if(l.inner.iter().chain(&l.outer).any(|f| f.1.is_empty()), "empty field");
    ctx.label_if(l.inner.iter().chain(&l.outer).any(|f| f.1.len() > 65536), "field over 64 KiB");
    ctx.label_if(l.inner.iter().map(|f| f.1.len()).sum::<usize>() > 1 << 20, "over 1 MiB of attachments");
    l.save(ctx)?;
    for op in &c.ops {
        match op {
            Op::Key(k) => {
                l.k.set_key(k.to_lib()).map_err(|e| format!("setting the key failed: {e:?}"))?;
                l.creds = k.clone();
                ctx.label("new key");
            }
            Op::Cipher(x, iv) => {
                l.set.cipher = *x;
                l.set.iv = iv[..x.iv_len()].to_vec();
                l.k.header_mut().cipher = x.to_lib();
                l.k.header_mut().encryption_iv = l.set.iv.clone();
            }
            Op::Iv(iv) => {
                l.set.iv = iv[..l.set.cipher.iv_len()].to_vec();
                l.k.header_mut().encryption_iv = l.set.iv.clone();
            }
            Op::Gzip(on) => {
                l.set.gzip = *on;
                lib_api::apply_header(l.k.header_mut(), &l.set);
            }
            Op::Kdf(kdf) => {
                l.set.kdf = kdf.clone();
                l.k.header_mut().kdf_params = kdf.to_lib();
                ctx.label("new KDF");
            }
            Op::Seed(s) => {
                l.set.seed = s.clone();
                l.k.header_mut().master_seed = s.clone();
            }
            Op::Inner(i, k) => {
                l.set.inner = *i;
                l.set.inner_key = k.clone();
                l.k.inner_header_mut().inner_stream_cipher = i.to_lib();
                l.k.inner_header_mut().inner_stream_key = k.clone();
            }
            Op::AddEntry(e) => {
                l.k.root_mut().add_entry(e.to_lib());
                l.db.root.entries.push(e.clone());
                ctx.label("edited");
            }
            Op::Name(n) => {
                l.k.set_name(n.clone());
                l.db.meta.name = n.clone();
            }
            Op::Root(g) => {
                *l.k.root_mut() = g.to_lib();
                l.db.root = g.clone();
            }
            Op::Remove(outer, i) => {
                let f = if *outer { &mut l.outer } else { &mut l.inner };
                if !f.is_empty() {
                    let i = *i as usize % f.len();
                    f.remove(i);
                    if *outer {
                        l.k.header_mut().other_headers.remove(i);
                    } else {
                        l.k.inner_header_mut().other_headers.remove(i);
                    }
                    ctx.label("field removed");
                }
            }
            Op::Repeat(outer, i) => {
                let f = if *outer { &mut l.outer } else { &mut l.inner };
                if !f.is_empty() && f.len() < 40 {
                    let i = *i as usize % f.len();
                    f.push(f[i].clone());
                    if *outer {
                        let o = &mut l.k.header_mut().other_headers;
                        o.push(o[i].clone());
                    } else {
                        let o = &mut l.k.inner_header_mut().other_headers;
                        o.push(o[i].clone());
                    }
                    ctx.label("field repeated");
                }
            }
            Op::Move(outer, i) => {
                let f = if *outer { &mut l.outer } else { &mut l.inner };
                if !f.is_empty() {
                    let i = *i as usize % f.len();
                    f.rotate_left(i);
                    if *outer {
                        l.k.header_mut().other_headers.rotate_left(i);
                    } else {
                        l.k.inner_header_mut().other_headers.rotate_left(i);
                    }
                }
            }
            Op::Save => {
                l.save(ctx)?;
            }
            Op::Reopen => {
                let d = l.save(ctx)?;
                let k = lib_api::unlock(&d, &l.creds)?;
                l.shown(&k)?;
                l.k = k;
                ctx.label("reopened");
            }
            Op::ReopenHard(wrong) => {
                let d = l.save(ctx)?;
                let mut locked = lib_api::open(&d)?;
                if wrong.composite() != l.creds.composite() {
                    locked = match locked.unlock(&wrong.to_lib()) {
                        Ok(_) => return Err("opened with wrong credentials".into()),
                        Err(e) => e.0,
                    };
                    ctx.label("failed attempt");
                }
                let k = locked.unlock(&l.creds.to_lib()).map_err(|e| format!("unlocking failed: {:?}", e.1))?;
                l.shown(&k)?;
                l.k = k;
            }
            Op::ReopenCopy => {
                let d = l.save(ctx)?;
                let copy = lib_api::write_locked(&lib_api::open(&d)?).map_err(|e| format!("copying failed: {e:?}"))?;
                let k = lib_api::unlock(&copy, &l.creds)?;
                l.shown(&k)?;
                l.k = k;
                ctx.label("copied");
            }
        }
    }
    let d = l.save(ctx)?;
    let k = lib_api::unlock(&d, &l.creds)?;
    l.shown(&k)?;
    let mut got = MDb::from_lib(k.database());
    got.norm_values();
    diff(&l.db.normal(), &got).map_err(|e| format!("the database changed: {e}"))
}

fn field(len: S<usize>) -> S<(bool, u8, Bulk)> {
    (any::<bool>(), prop_oneof![2 => select(vec![1u8, 3, 3, 12]), 1 => any::<u8>()], bulk(len)).boxed()
}

fn case(more: S<Vec<(bool, u8, Bulk)>>, ops: usize) -> S<Case> {
    (small_db(), cheap_settings(), creds(), layout(), more, vec(op(), 0..ops))
        .prop_map(|(db, set, creds, lay, more, ops)| Case {
            db,
            set,
            creds,
            lay,
            more,
            ops,
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C25",
        level: "exploration",
        rule: "the opened archive has at least one field that is not a setting",
        assumptions: &["old-format fields in a KDBX 4 header and entries other programs add to the KDF dictionary are not counted as foreign fields"],
        scenarios: vec![
            Box::new(Scn {
                name: "lives with foreign fields",
                quick: 12_000,
                thorough: 90_000,
                strategy: |_| case(vec(field((0usize..300).boxed()), 0..6).boxed(), 12),
                run,
                need: &[
                    "outer fields", "attachments", "unknown inner fields", "empty field", "new key", "new KDF", "edited", "field removed", "field repeated", "reopened", "failed attempt",
                    "copied",
                ],
            }),
            Box::new(Scn {
                name: "many fields",
                quick: 300,
                thorough: 3_000,
                strategy: |_| case(vec(field((0usize..2000).boxed()), 20..300).boxed(), 4),
                run,
                need: &["attachments"],
            }),
            Box::new(Scn {
                name: "large fields",
                quick: 24,
                thorough: 400,
                strategy: |t| {
                    let n = if t == Tier::Quick { 3usize << 20 } else { 12 << 20 };
                    case(
                        vec(field(prop_oneof![select(vec![65535usize, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]), 1..n].boxed()), 1..4).boxed(),
                        4,
                    )
                },
                run,
                need: &["field over 64 KiB", "over 1 MiB of attachments"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
