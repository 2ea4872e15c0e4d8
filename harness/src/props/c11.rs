//! Protected values stay protected and decrypt in document order.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{self, El, Rng, Style};
use base64::prelude::{Engine, BASE64_STANDARD};
use kdbx_rs::database::{Database, Entry, Field};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    lens: Vec<usize>,
    seed: u64,
}

/// Give every value a text of its own that can not be confused with anything else.
fn mark(c: &Case) -> MDb {
    let mut r = Rng(c.seed);
    let mut n = 0;
    let mut fix = |f: &mut MField| {
        if f.value.is_some() {
            let len = c.lens[n % c.lens.len()];
            n += 1;
            if len == 0 {
                f.value = Some(String::new());
                return;
            }
            let mut s = format!("s{n}q");
            while s.len() < len {
                s.push(*r.pick(b"abcdefghijklmnopqrstuvwxyz<&>\n0123456789") as char);
            }
            f.value = Some(s);
        }
    };
    fn ent(e: &mut MEntry, fix: &mut dyn FnMut(&mut MField)) {
        e.fields.iter_mut().for_each(&mut *fix);
        e.history.iter_mut().for_each(|h| ent(h, fix));
    }
    fn grp(g: &mut MGroup, fix: &mut dyn FnMut(&mut MField)) {
        g.entries.iter_mut().for_each(|e| ent(e, fix));
        g.groups.iter_mut().for_each(|g| grp(g, fix));
    }
    let mut db = c.db.clone();
    db.meta.custom.iter_mut().for_each(&mut fix);
    grp(&mut db.root, &mut fix);
    db
}

fn values(e: &El, out: &mut Vec<(bool, String)>) {
    if e.name == "Value" {
        let p = e.attrs.iter().any(|(k, v)| k == "Protected" && v.eq_ignore_ascii_case("true"));
        out.push((p, e.full_text()));
    }
    e.els().for_each(|c| values(c, out));
}

fn run_save(c: &Case, ctx: &mut Ctx) -> Verdict {
    let db = mark(c);
    let n = db.count();
    ctx.nt_if(n.prot > 1);
    classes(&db, &c.set, &c.creds, ctx);
    ctx.label_if(n.prot_bytes > 64, "several cipher blocks");
    let data = lib_api::save(&db, &c.set, &c.creds)?;
    let d = decode_v4(&data, &c.creds)?;
    // All protected values share one keystream in document order: the concatenation of all
    // of them decrypts with it
    let mut found = Vec::new();
    values(&refxml::parse_tree(&d.xml)?, &mut found);
    let mut cipher_text = Vec::new();
    let mut ends = vec![];
    for (_, t) in found.iter().filter(|v| v.0) {
        cipher_text.extend(
            BASE64_STANDARD
                .decode(t.trim())
                .map_err(|_| format!("protected value {t:?} is not base64"))?,
        );
        ends.push(cipher_text.len());
    }
    c.set.inner.stream(&c.set.inner_key).apply_keystream(&mut cipher_text);
    let mut got: Vec<String> = Vec::new();
    let mut at = 0;
    for e in ends {
        got.push(String::from_utf8(cipher_text[at..e].to_vec()).map_err(|_| "protected value does not decrypt in document order")?);
        at = e;
    }
    let mut open: Vec<String> = found.into_iter().filter(|v| !v.0).map(|v| v.1).collect();
    let (mut want, mut want_open) = (Vec::new(), Vec::new());
    db.visit_fields(&mut |f| {
        let v = f.value.clone().unwrap_or_default();
        if f.prot {
            want.push(v);
        } else {
            want_open.push(v);
        }
    });
    for v in [&mut got, &mut open, &mut want, &mut want_open] {
        v.sort();
    }
    if got != want {
        return Err(format!("protected values in the XML: {}, expected {}", short(&format!("{got:?}"), 500), short(&format!("{want:?}"), 500)));
    }
    if open != want_open {
        return Err(format!("unprotected values in the XML: {}, expected {}", short(&format!("{open:?}"), 500), short(&format!("{want_open:?}"), 500)));
    }
    // And they appear in no other form
    for w in want.iter().filter(|w| w.len() > 5).take(20) {
        let w = &w[..w.len().min(40)];
        let esc = w.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
        let b64 = BASE64_STANDARD.encode(w);
        let b64 = &b64[..w.len() / 3 * 4];
        for x in [w, &esc, b64] {
            if find(&d.xml, x.as_bytes()).is_some() {
                return Err(format!("protected value {w:?} can be read in the XML"));
            }
        }
    }
    diff(&db.normal(), &refxml::read(&d.xml, &mut *c.set.inner.stream(&c.set.inner_key))?)?;
    let (_, back) = lib_api::load(&data, &c.creds)?;
    same_db(&db.normal(), &back)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReadCase {
    case: Case,
    style: Style,
    lay: Layout,
    how: u8,
}

fn run_read(c: &ReadCase, ctx: &mut Ctx) -> Verdict {
    let db = mark(&c.case);
    let n = db.count();
    ctx.nt_if(n.prot > 1);
    ctx.label(["XML", "KDBX 4", "KDBX 3"][c.how as usize]);
    let s = &c.case.set;
    ctx.label(&format!("inner {:?}", s.inner));
    let xml = render(&db, &c.style, s, None);
    let got = match c.how {
        0 => {
            let mut st = s
                .inner
                .to_lib()
                .stream_cipher(&s.inner_key)
                .map_err(|e| format!("inner cipher refused: {e:?}"))?;
            let got = kdbx_rs::xml::parse_xml(&xml[..], st.as_mut()).map_err(|e| format!("parsing failed: {e:?}"))?;
            MDb::from_lib(&got)
        }
        1 => lib_api::load(&c.lay.v4(s, &c.case.creds, xml).encode(), &c.case.creds)?.1,
        _ => {
            let mut f = V3::simple(s, &c.case.creds, &[3; 32], xml);
            f.block_sizes = c.lay.blocks.clone();
            lib_api::load(&f.encode(), &c.case.creds)?.1
        }
    };
    same_db(&as_read(&db), &got)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Value(usize, String),
    Clear(usize),
    Protect(usize, bool),
    Key(usize, String),
    Add(String, String, bool),
    Password(String),
    Version,
    Swap(usize, usize),
    Reopen,
}

fn op() -> S<Op> {
    prop_oneof![
        4 => (any::<usize>(), text()).prop_map(|(i, v)| Op::Value(i, v)),
        4 => any::<usize>().prop_map(Op::Clear),
        4 => (any::<usize>(), any::<bool>()).prop_map(|(i, v)| Op::Protect(i, v)),
        1 => (any::<usize>(), key()).prop_map(|(i, v)| Op::Key(i, v)),
        3 => (key(), text(), any::<bool>()).prop_map(|(k, v, p)| Op::Add(k, v, p)),
        1 => text().prop_map(Op::Password),
        1 => Just(Op::Version),
        1 => (any::<usize>(), any::<usize>()).prop_map(|(a, b)| Op::Swap(a, b)),
        3 => Just(Op::Reopen),
    ]
    .boxed()
}

/// Operations on fields of an entry and of the custom data, with saves in between.
fn run_ops(c: &(Vec<Op>, Settings, Creds, bool), ctx: &mut Ctx) -> Verdict {
    let (ops, set, creds, custom) = c;
    let mut k = lib_api::create(Database::default(), set, creds)?;
    if !custom {
        k.database_mut().add_entry(Entry::default());
    }
    let mut model: Vec<MField> = Vec::new();
    let mut hist: Vec<Vec<MField>> = Vec::new();
    let mut reopened = 0;
    let norm = |v: &[MField]| -> Vec<MField> {
        v.iter()
            .cloned()
            .map(|mut f| {
                f.value = f.value.filter(|v| !v.is_empty());
                f
            })
            .collect()
    };
    ctx.label(if *custom { "custom data" } else { "entry" });
    for (n, o) in ops.iter().enumerate() {
        let db = k.database_mut();
        {
            let mut fields: Vec<&mut Field> = if *custom {
                db.meta_mut().custom_data.iter_mut().collect()
            } else {
                db.root_mut().entries_mut().next().ok_or("entry lost")?.fields_mut().collect()
            };
            if fields.len() != model.len() {
                return Err(format!("{} fields, expected {}", fields.len(), model.len()));
            }
            let len = fields.len();
            match o {
                Op::Value(i, v) if len > 0 => {
                    ctx.label_if(model[i % len].value.is_none() && model[i % len].prot, "refilled protected");
                    fields[i % len].set_value(v);
                    model[i % len].value = Some(v.clone());
                }
                Op::Clear(i) if len > 0 => {
                    fields[i % len].clear();
                    model[i % len].value = None;
                    ctx.label_if(model[i % len].prot, "cleared protected");
                }
                Op::Protect(i, p) if len > 0 => {
                    fields[i % len].set_protected(*p);
                    model[i % len].prot = *p;
                }
                Op::Key(i, v) if len > 0 => {
                    fields[i % len].set_key(v);
                    model[i % len].key = v.clone();
                }
                Op::Swap(a, b) if len > 0 && a % len != b % len => {
                    let (a, b) = ((a % len).min(b % len), (a % len).max(b % len));
                    let (x, y) = fields.split_at_mut(b);
                    std::mem::swap(x[a], y[0]);
                    model.swap(a, b);
                }
                _ => {}
            }
        }
        match o {
            Op::Add(key, v, p) => {
                let f = MField::new(key, v, *p);
                if *custom {
                    db.meta_mut().custom_data.push(f.to_lib());
                } else {
                    db.root_mut().entries_mut().next().unwrap().add_field(f.to_lib());
                }
                model.push(f);
            }
            Op::Password(p) if !custom => {
                db.root_mut().entries_mut().next().unwrap().set_password(p);
                match model.iter_mut().find(|f| f.key == "Password") {
                    Some(f) => {
                        f.value = Some(p.clone());
                        f.prot = true;
                    }
                    None => model.push(MField::new("Password", p, true)),
                }
            }
            Op::Version if !custom => {
                db.root_mut().entries_mut().next().unwrap().new_version();
                hist.push(model.clone());
            }
            Op::Reopen => {
                let data = lib_api::write(&k).map_err(|e| format!("saving failed after {n} operations: {e:?}"))?;
                k = lib_api::unlock(&data, creds)?;
                reopened += 1;
                model = norm(&model);
                hist.iter_mut().for_each(|h| *h = norm(h));
            }
            _ => {}
        }
        let m = MDb::from_lib(k.database());
        let got = if *custom { &m.meta.custom } else { &m.root.entries[0].fields };
        if norm(got) != norm(&model) {
            return Err(format!("after {o:?}: {got:?}, expected {model:?}"));
        }
        // A value that was set is reported as such
        for (g, w) in got.iter().zip(&model) {
            if w.value.as_deref().is_some_and(|v| !v.is_empty()) && g.value != w.value {
                return Err(format!("after {o:?}: value {:?}, expected {:?}", g.value, w.value));
            }
        }
        if !custom {
            let h: Vec<Vec<MField>> = m.root.entries[0].history.iter().map(|e| norm(&e.fields)).collect();
            if h != hist.iter().map(|h| norm(h)).collect::<Vec<_>>() {
                return Err(format!("after {o:?}: history {h:?}, expected {hist:?}"));
            }
        }
        ctx.eval(1);
    }
    ctx.nt_if(reopened > 0 && model.iter().any(|f| f.prot));
    Ok(())
}

fn lens() -> S<Vec<usize>> {
    vec(
        prop_oneof![
            4 => 0usize..40,
            2 => select(vec![0usize, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
            1 => 100usize..3000,
        ],
        1..8,
    )
    .boxed()
}

fn case() -> S<Case> {
    (db(), cheap_settings(), creds(), lens(), any::<u64>())
        .prop_map(|(db, set, creds, lens, seed)| Case {
            db,
            set,
            creds,
            lens,
            seed,
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C11",
        level: "exploration",
        rule: "at least two protected values in the document; for operation sequences: a protected value and a reopening",
        assumptions: &["an empty value and an absent one are the same in a file"],
        scenarios: vec![
            Box::new(Scn {
                name: "saved",
                quick: 12000,
                thorough: 200000,
                strategy: |_| case(),
                run: run_save,
                need: &["inner Salsa20", "inner ChaCha20", "history", "protected values", "custom data", "several cipher blocks"],
            }),
            Box::new(Scn {
                name: "many values",
                quick: 30,
                thorough: 600,
                strategy: |_| {
                    (case(), vec(field(), 300..1500), 4000usize..90_000)
                        .prop_map(|(mut c, f, long)| {
                            c.lens.push(long);
                            c.db.root.entries.push(MEntry {
                                uuid: 3,
                                fields: f,
                                history: vec![],
                                times: MTimes::zero(),
                            });
                            c.lens = vec![c.lens[0], 7, 12, 0, 64, 33, 20, 3];
                            let big = MField::new("big", "x", true);
                            c.db.root.entries.insert(0, MEntry { uuid: 4, fields: vec![big], history: vec![], times: MTimes::zero() });
                            c
                        })
                        .boxed()
                },
                run: run_save,
                need: &["several cipher blocks"],
            }),
            Box::new(Scn {
                name: "read",
                quick: 12000,
                thorough: 200000,
                strategy: |_| {
                    (case(), style(), layout(), 0u8..3)
                        .prop_map(|(case, style, lay, how)| ReadCase {
                            case,
                            style,
                            lay,
                            how,
                        })
                        .boxed()
                },
                run: run_read,
                need: &["XML", "KDBX 4", "KDBX 3", "inner Salsa20", "inner ChaCha20"],
            }),
            Box::new(Scn {
                name: "operations",
                quick: 12000,
                thorough: 200000,
                strategy: |_| (vec(op(), 1..30), cheap_settings(), creds(), any::<bool>()).boxed(),
                run: run_ops,
                need: &["entry", "custom data", "refilled protected", "cleared protected"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
