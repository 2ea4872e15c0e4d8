//! Entry fields and history behave like ordered lists with keyed lookup.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::refxml::Rng;
use kdbx_rs::database::{Entry, Field, Otp};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use uuid::Uuid;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(String, String, bool),
    Remove(String),
    /// Title, user name, URL, password
    Set(u8, String),
    Otp(String, u32, u32),
    FindValue(String, String),
    FindClear(String),
    FindProtect(String, bool),
    FindKey(String, String),
    NthValue(usize, String),
    NthKey(usize, String),
    Version,
    Push(MEntry),
    RemoveVersion(usize),
    EditVersion(usize, String, String),
    EditAllVersions(String),
    Id(u64, u64),
    Times(MTimes),
    Clone,
}

const KEYS: [&str; 9] = ["Title", "UserName", "URL", "Password", "otp", "title", "Notes", "Title ", ""];

fn k() -> S<String> {
    prop_oneof![6 => select(KEYS.to_vec()).prop_map(|s| s.to_string()), 1 => text()].boxed()
}

fn op() -> S<Op> {
    prop_oneof![
        6 => (k(), text(), any::<bool>()).prop_map(|(a, b, c)| Op::Add(a, b, c)),
        3 => k().prop_map(Op::Remove),
        6 => (0u8..4, text()).prop_map(|(a, b)| Op::Set(a, b)),
        2 => ("[A-Z2-7]{1,16}=?", any::<u32>(), any::<u32>()).prop_map(|(a, b, c)| Op::Otp(a, b, c)),
        2 => (k(), text()).prop_map(|(a, b)| Op::FindValue(a, b)),
        2 => k().prop_map(Op::FindClear),
        2 => (k(), any::<bool>()).prop_map(|(a, b)| Op::FindProtect(a, b)),
        2 => (k(), k()).prop_map(|(a, b)| Op::FindKey(a, b)),
        2 => (any::<usize>(), text()).prop_map(|(a, b)| Op::NthValue(a, b)),
        2 => (any::<usize>(), k()).prop_map(|(a, b)| Op::NthKey(a, b)),
        5 => Just(Op::Version),
        1 => entry().prop_map(Op::Push),
        2 => any::<usize>().prop_map(Op::RemoveVersion),
        2 => (any::<usize>(), k(), text()).prop_map(|(a, b, c)| Op::EditVersion(a, b, c)),
        1 => text().prop_map(Op::EditAllVersions),
        1 => uuid().prop_map(|u| Op::Id((u >> 64) as u64, u as u64)),
        1 => times().prop_map(Op::Times),
        1 => Just(Op::Clone),
    ]
    .boxed()
}

fn norm(e: &MEntry) -> MEntry {
    let mut e = e.clone();
    for f in &mut e.fields {
        f.value = f.value.take().filter(|v| !v.is_empty());
    }
    e.history = e.history.iter().map(norm).collect();
    e
}

fn lookups(e: &mut Entry, m: &MEntry, extra: &str) -> Verdict {
    let ne = |v: Option<&str>| v.filter(|v| !v.is_empty()).map(|s| s.to_string());
    for key in KEYS.iter().copied().chain([extra]) {
        let want = m.fields.iter().find(|f| f.key == key);
        let got = e.find(key).map(MField::from_lib);
        let got_mut = e.find_mut(key).map(|f| MField::from_lib(f));
        if got != got_mut {
            return Err(format!("find({key:?}) gives {got:?}, find_mut {got_mut:?}"));
        }
        let same = match (want, &got) {
            (None, None) => true,
            (Some(w), Some(g)) => {
                w.key == g.key && w.prot == g.prot && ne(w.value.as_deref()) == ne(g.value.as_deref())
            }
            _ => false,
        };
        if !same {
            return Err(format!("find({key:?}) gives {got:?}, expected {want:?}"));
        }
    }
    for (key, got) in [
        ("Title", e.title()),
        ("UserName", e.username()),
        ("URL", e.url()),
        ("Password", e.password()),
    ] {
        let want = m.fields.iter().find(|f| f.key == key).and_then(|f| f.value.as_deref());
        if ne(got) != ne(want) {
            return Err(format!("getter for {key} gives {got:?}, expected {want:?}"));
        }
    }
    let otp = m.fields.iter().find(|f| f.key == "otp").and_then(|f| f.value.as_deref());
    if otp.is_some_and(|v| !v.is_empty()) && e.otp().is_none() {
        return Err("otp() gives nothing although the field is there".into());
    }
    if otp.is_none() && e.otp().is_some() {
        return Err("otp() gives something although the field is not there".into());
    }
    let h = e.history();
    if h.len() != m.history.len() || h.is_empty() != m.history.is_empty() {
        return Err(format!("history length {}, expected {}", h.len(), m.history.len()));
    }
    for (i, w) in m.history.iter().enumerate() {
        let g = h.get(i).map(MEntry::from_lib).ok_or(format!("history has no version {i}"))?;
        if norm(&g) != norm(w) || norm(&MEntry::from_lib(&h[i])) != norm(w) {
            return Err(format!("version {i} is {g:?}, expected {w:?}"));
        }
    }
    if h.get(m.history.len()).is_some() {
        return Err("history has one version too many".into());
    }
    if e.history_mut().get_mut(m.history.len()).is_some() {
        return Err("history has one version too many".into());
    }
    Ok(())
}

fn run(ops: &Vec<Op>, ctx: &mut Ctx) -> Verdict {
    let e = Entry::default();
    let m = MEntry::from_lib(&e);
    if !m.fields.is_empty() || !m.history.is_empty() {
        return Err("a new entry is not empty".into());
    }
    run_on(e, m, ops, ctx)
}

/// An entry that has many fields and versions before the operations begin.
fn run_big(c: &(usize, usize, u64, Vec<Op>), ctx: &mut Ctx) -> Verdict {
    let (fields, versions, seed, ops) = c;
    let mut r = Rng(*seed);
    let mut m = MEntry {
        uuid: 1,
        fields: vec![],
        history: vec![],
        times: MTimes::zero(),
    };
    let f = |i: usize, r: &mut Rng| {
        let key = if r.pct(5) { r.pick(&KEYS).to_string() } else { format!("key {i}") };
        MField::new(&key, &format!("value {}", r.next()), r.pct(30))
    };
    m.fields = (0..*fields).map(|i| f(i, &mut r)).collect();
    for i in 0..*versions {
        let mut v = m.clone();
        v.history.clear();
        v.fields = vec![f(i, &mut r)];
        m.history.push(v);
    }
    let mut e = Entry::default();
    e.set_uuid(Uuid::from_u128(1));
    *e.times_mut() = m.times.to_lib();
    m.fields.iter().for_each(|f| e.add_field(f.to_lib()));
    m.history.iter().for_each(|v| e.history_mut().push(v.to_lib()));
    // Every field is found by its key
    for f in &m.fields {
        let want = m.fields.iter().find(|x| x.key == f.key);
        let got = e.find(&f.key).map(MField::from_lib);
        if got.as_ref() != want || e.find_mut(&f.key).map(|f| MField::from_lib(f)).as_ref() != want {
            return Err(format!("find({:?}) gives {got:?}, expected {want:?}", f.key));
        }
    }
    ctx.label_if(*fields > 256, "over 256 fields");
    ctx.label_if(*versions > 256, "over 256 versions");
    run_on(e, m, ops, ctx)
}

fn run_on(mut e: Entry, mut m: MEntry, ops: &[Op], ctx: &mut Ctx) -> Verdict {
    for o in ops {
        // Positions whose protection a setter may choose
        let mut free = None;
        match o {
            Op::Add(k, v, p) => {
                e.add_field(if *p { Field::new_protected(k, v) } else { Field::new(k, v) });
                ctx.label_if(m.fields.iter().any(|f| f.key == *k), "key twice");
                m.fields.push(MField::new(k, v, *p));
            }
            Op::Remove(k) => {
                e.remove_field(k);
                let n = m.fields.len();
                m.fields.retain(|f| f.key != *k);
                ctx.label_if(n > m.fields.len() + 1, "several removed");
            }
            Op::Set(which, v) => {
                let key = KEYS[*which as usize];
                match which {
                    0 => e.set_title(v),
                    1 => e.set_username(v),
                    2 => e.set_url(v),
                    _ => e.set_password(v),
                }
                match m.fields.iter().position(|f| f.key == key) {
                    Some(i) => {
                        m.fields[i].value = Some(v.clone());
                        if *which == 3 {
                            m.fields[i].prot = true;
                        } else {
                            free = Some(i);
                        }
                        ctx.label("setter changed a field");
                    }
                    None => m.fields.push(MField::new(key, v, *which == 3)),
                }
            }
            Op::Otp(s, p, d) => {
                e.set_otp(Otp::new(s, *p, *d));
                let i = m.fields.iter().position(|f| f.key == "otp");
                let got = e.find("otp").map(MField::from_lib).ok_or("otp field missing after set_otp")?;
                let otp = e.otp().ok_or("no otp after set_otp")?;
                if otp.secret() != Some(s) || otp.period() != Some(*p) || otp.digits() != Some(*d) {
                    return Err("set_otp stored other settings".into());
                }
                if !got.prot {
                    return Err("one-time-password settings are not protected".into());
                }
                match i {
                    Some(i) => m.fields[i] = got,
                    None => m.fields.push(got),
                }
            }
            Op::FindValue(k, v) => {
                let i = m.fields.iter().position(|f| f.key == *k);
                match (i, e.find_mut(k)) {
                    (Some(i), Some(f)) => {
                        f.set_value(v);
                        m.fields[i].value = Some(v.clone());
                    }
                    (None, None) => {}
                    (_, x) => return Err(format!("find_mut({k:?}) gives {x:?}")),
                }
            }
            Op::FindClear(k) => {
                if let (Some(i), Some(f)) = (m.fields.iter().position(|f| f.key == *k), e.find_mut(k)) {
                    f.clear();
                    m.fields[i].value = None;
                }
            }
            Op::FindProtect(k, p) => {
                if let (Some(i), Some(f)) = (m.fields.iter().position(|f| f.key == *k), e.find_mut(k)) {
                    f.set_protected(*p);
                    m.fields[i].prot = *p;
                }
            }
            Op::FindKey(k, n) => {
                if let (Some(i), Some(f)) = (m.fields.iter().position(|f| f.key == *k), e.find_mut(k)) {
                    f.set_key(n);
                    m.fields[i].key = n.clone();
                }
            }
            Op::NthValue(i, v) => {
                if !m.fields.is_empty() {
                    let i = i % m.fields.len();
                    e.fields_mut().nth(i).ok_or("field missing")?.set_value(v);
                    m.fields[i].value = Some(v.clone());
                }
            }
            Op::NthKey(i, v) => {
                if !m.fields.is_empty() {
                    let i = i % m.fields.len();
                    e.fields_mut().nth(i).ok_or("field missing")?.set_key(v);
                    m.fields[i].key = v.clone();
                }
            }
            Op::Version => {
                e.new_version();
                let mut v = m.clone();
                v.history.clear();
                m.history.push(v);
                ctx.label_if(m.history.len() > 1, "several versions");
            }
            Op::Push(v) => {
                e.history_mut().push(v.to_lib());
                m.history.push(MEntry::from_lib(&v.to_lib()));
            }
            Op::RemoveVersion(i) => {
                if !m.history.is_empty() {
                    let i = i % m.history.len();
                    let got = MEntry::from_lib(&e.history_mut().remove(i));
                    let want = m.history.remove(i);
                    if norm(&got) != norm(&want) {
                        return Err(format!("removed version {got:?}, expected {want:?}"));
                    }
                    ctx.label("version removed");
                }
            }
            Op::EditVersion(i, k, v) => {
                if !m.history.is_empty() {
                    let n = i % m.history.len();
                    let x = if i % 2 == 0 {
                        &mut e.history_mut()[n]
                    } else {
                        e.history_mut().get_mut(n).ok_or("version missing")?
                    };
                    x.add_field(Field::new(k, v));
                    m.history[n].fields.push(MField::new(k, v, false));
                }
            }
            Op::EditAllVersions(v) => {
                for x in e.history_mut().entries_mut() {
                    x.add_field(Field::new("all", v));
                }
                for x in &mut m.history {
                    x.fields.push(MField::new("all", v, false));
                }
            }
            Op::Id(a, b) => {
                m.uuid = (*a as u128) << 64 | *b as u128;
                e.set_uuid(Uuid::from_u128(m.uuid));
            }
            Op::Times(t) => {
                *e.times_mut() = t.to_lib();
                m.times = MTimes::from_lib(&t.to_lib());
            }
            Op::Clone => {
                let c = e.clone();
                if c != e {
                    return Err("copy differs from the entry".into());
                }
                e = c;
            }
        }
        let got = MEntry::from_lib(&e);
        if let Some(i) = free {
            if let Some(f) = got.fields.get(i) {
                m.fields[i].prot = f.prot;
            }
        }
        if norm(&got) != norm(&m) {
            return Err(format!("after {o:?}: {}, expected {}", short(&format!("{got:?}"), 1500), short(&format!("{m:?}"), 1500)));
        }
        let extra = match o {
            Op::Add(k, ..) | Op::Remove(k) | Op::FindValue(k, _) => k.as_str(),
            _ => "nothing",
        };
        lookups(&mut e, &m, extra).map_err(|x| format!("after {o:?}: {x}"))?;
        ctx.eval(1);
    }
    ctx.nt_if(m.fields.len() > 1 || !m.history.is_empty());
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C15",
        level: "exploration",
        rule: "the entry ends up with several fields or a history",
        assumptions: &[
            "whether the title, user name and URL setters keep the protection of an existing field is not fixed",
            "an empty value and an absent one are not told apart",
        ],
        scenarios: vec![Box::new(Scn {
            name: "operations",
            quick: 150000,
            thorough: 800000,
            strategy: |_| vec(op(), 1..50).boxed(),
            run,
            need: &["key twice", "several removed", "setter changed a field", "several versions", "version removed"],
        }),
        Box::new(Scn {
            name: "many fields and versions",
            quick: 600,
            thorough: 6000,
            strategy: |_| {
                let n = || prop_oneof![
                    (select(vec![127usize, 255, 256, 511, 1023]), 0usize..4).prop_map(|(n, d)| n + d),
                    20usize..600,
                ];
                (n(), n(), any::<u64>(), vec(op(), 1..12)).boxed()
            },
            run: run_big,
            need: &["over 256 fields", "over 256 versions", "version removed"],
        })],
        hang_is_violation: false,
        known: no_known,
    }
}
