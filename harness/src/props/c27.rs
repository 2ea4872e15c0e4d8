//! Copies and comparisons are about content.
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::Rng;
use kdbx_rs::binary::KdbxHeader;
use kdbx_rs::database::{Database, Entry, Field, Group};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// Where something is changed: the n-th of all the places there are.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Change {
    place: u64,
    text: String,
}

fn edit_text(s: &mut String, r: &mut Rng, text: &str) -> bool {
    let old = s.clone();
    match r.below(5) {
        0 => s.push(' '),
        1 => *s = text.to_string(),
        2 => {
            s.pop();
        }
        3 => *s = s.to_uppercase(),
        _ => s.insert(0, '\u{301}'),
    }
    *s != old
}

fn edit_field(f: &mut MField, r: &mut Rng, text: &str) -> bool {
    match r.below(4) {
        0 => edit_text(&mut f.key, r, text),
        1 => match &mut f.value {
            Some(v) => edit_text(v, r, text),
            None => {
                f.value = Some(text.into());
                true
            }
        },
        2 => {
            f.prot = !f.prot;
            // Nothing is protected where there is nothing
            f.value.is_some()
        }
        _ => f.value.take().is_some(),
    }
}

fn edit_times(t: &mut MTimes, r: &mut Rng) -> bool {
    let i = r.below(5);
    match r.below(4) {
        0 => t.expires = !t.expires,
        1 => t.usage ^= 1 << r.below(32),
        2 if t.t[i] > 0 => t.t[i] -= 1,
        _ => t.t[i] = if t.t[i] == 77 { 78 } else { 77 },
    }
    true
}

fn edit_entry(e: &mut MEntry, r: &mut Rng, text: &str) -> bool {
    match r.below(8) {
        0 => {
            e.uuid ^= 1 << r.below(128);
            true
        }
        1 => edit_times(&mut e.times, r),
        2 if e.fields.len() > 1 => {
            let (i, j) = (r.below(e.fields.len()), r.below(e.fields.len()));
            e.fields.swap(i, j);
            e.fields[i] != e.fields[j]
        }
        3 => {
            let n = r.below(e.fields.len() + 1);
            e.fields.insert(n, MField::new(text, "x", false));
            true
        }
        4 if !e.fields.is_empty() => {
            let n = r.below(e.fields.len());
            e.fields.remove(n);
            true
        }
        5 if !e.history.is_empty() => {
            let n = r.below(e.history.len());
            if r.pct(50) {
                e.history.remove(n);
                true
            } else {
                edit_entry(&mut e.history[n], r, text)
            }
        }
        _ if !e.fields.is_empty() => {
            let n = r.below(e.fields.len());
            edit_field(&mut e.fields[n], r, text)
        }
        _ => {
            e.history.push(e.clone());
            true
        }
    }
}

fn edit_group(g: &mut MGroup, r: &mut Rng, text: &str) -> bool {
    match r.below(10) {
        0 => {
            g.uuid ^= 1 << r.below(128);
            true
        }
        1 => edit_times(&mut g.times, r),
        2 => edit_text(&mut g.name, r, text),
        3 if !g.groups.is_empty() => {
            let c = g.groups.remove(0);
            let n = g.groups.len();
            g.groups.push(c);
            n > 0 && g.groups[n] != g.groups[0]
        }
        4 if !g.entries.is_empty() => {
            let n = r.below(g.entries.len());
            g.entries.remove(n);
            true
        }
        5 if !g.groups.is_empty() => {
            let n = r.below(g.groups.len());
            g.groups.remove(n);
            true
        }
        6 | 7 if !g.groups.is_empty() => {
            let n = r.below(g.groups.len());
            edit_group(&mut g.groups[n], r, text)
        }
        _ if !g.entries.is_empty() => {
            let n = r.below(g.entries.len());
            edit_entry(&mut g.entries[n], r, text)
        }
        _ => edit_text(&mut g.name, r, text),
    }
}

fn edit(d: &mut MDb, c: &Change) -> bool {
    let mut r = Rng(c.place);
    match r.below(10) {
        0 => edit_text(&mut d.meta.name, &mut r, &c.text),
        1 => edit_text(&mut d.meta.desc, &mut r, &c.text),
        2 => edit_text(&mut d.meta.generator, &mut r, &c.text),
        3 => {
            let n = r.below(5);
            d.meta.mp[n] = !d.meta.mp[n];
            true
        }
        4 if !d.meta.custom.is_empty() => {
            let n = r.below(d.meta.custom.len());
            edit_field(&mut d.meta.custom[n], &mut r, &c.text)
        }
        _ => edit_group(&mut d.root, &mut r, &c.text),
    }
}

fn eq_both(a: &Database, b: &Database) -> Result<bool, String> {
    let e = a == b;
    if e != (b == a) || e == (a != b) {
        return Err("comparison depends on the order".into());
    }
    Ok(e)
}

fn run(c: &(MDb, Vec<Change>), ctx: &mut Ctx) -> Verdict {
    let (m, changes) = c;
    let a = m.to_lib();
    let shown = format!("{a:?}");
    let was = MDb::from_lib(&a);
    if !eq_both(&a, &a.clone())? || !eq_both(&a, &m.to_lib())? {
        return Err(format!("a database is not equal to its copy: {}", short(&shown, 600)));
    }
    if MDb::from_lib(&a.clone()) != was || format!("{:?}", a.clone()) != shown {
        return Err("a copy differs from the database".into());
    }
    for ch in changes {
        let mut n = m.clone();
        let changed = edit(&mut n, ch);
        let b = n.to_lib();
        // What can be read is what counts
        let differs = MDb::from_lib(&b) != was;
        if changed {
            ctx.nt();
            ctx.label("changed");
            if !differs && n != *m {
                return Err(format!("a change can not be seen: {ch:?}"));
            }
        }
        ctx.eval(1);
        if eq_both(&a, &b)? == differs {
            return Err(format!(
                "databases that {} are {}equal: {} and {}",
                if differs { "differ" } else { "do not differ" },
                if differs { "" } else { "not " },
                short(&shown, 800),
                short(&format!("{b:?}"), 800)
            ));
        }
        if (m.root != n.root) != (a.root() != b.root()) && differs == (n != *m) {
            return Err("root groups and databases are compared in different ways".into());
        }
    }
    Ok(())
}

/// A copy that is edited leaves the original alone, and the other way round.
fn run_copies(c: &(MDb, u64, String), ctx: &mut Ctx) -> Verdict {
    let (m, seed, text) = c;
    let mut r = Rng(*seed);
    let mut a = m.to_lib();
    let mut b = a.clone();
    let was = MDb::from_lib(&a);
    for step in 0..12 {
        let x = if step % 2 == 0 { &mut b } else { &mut a };
        let before = MDb::from_lib(x);
        match r.below(9) {
            0 => x.set_name(text.clone()),
            1 => x.set_description(text.clone()),
            2 => x.root_mut().set_name(text.clone()),
            3 => x.add_entry(Entry::default()),
            4 => x.root_mut().add_group(Group::new(text)),
            5 => x.meta_mut().custom_data.push(Field::new(text, "x")),
            6 => {
                for e in x.root_mut().recursive_entries_mut() {
                    e.set_title(text.clone());
                    e.new_version();
                    e.times_mut().usage_count ^= 1;
                }
            }
            7 => {
                for e in x.root_mut().recursive_entries_mut() {
                    for f in e.fields_mut() {
                        f.set_value(text);
                    }
                    for h in e.history_mut().entries_mut() {
                        h.add_field(Field::new_protected("k", text));
                    }
                }
            }
            _ => x.meta_mut().memory_protection.protect_notes ^= true,
        }
        let changed = MDb::from_lib(x) != before;
        ctx.label_if(changed, "edited");
        ctx.eval(1);
        // Each is compared with what it was before the other one was edited
        if step % 2 == 0 {
            if MDb::from_lib(&a) != was {
                return Err("editing a copy changed the original".into());
            }
        } else if MDb::from_lib(&b) != was {
            return Err("editing the original changed its copy".into());
        }
        if eq_both(&a, &b)? != (MDb::from_lib(&a) == MDb::from_lib(&b)) {
            return Err("comparison of an edited copy is wrong".into());
        }
        ctx.nt_if(changed);
        // Both start the same again
        a = m.to_lib();
        b = a.clone();
    }
    Ok(())
}

/// Parts compare like the whole: entries, groups, fields, histories, headers.
fn run_parts(c: &(MEntry, MEntry, Settings, Settings, Vec<u64>), ctx: &mut Ctx) -> Verdict {
    let (m, other, s, s2, places) = c;
    let e = m.to_lib();
    for (i, p) in places.iter().enumerate() {
        let mut n = m.clone();
        if i == 0 {
            n = other.clone();
        } else {
            edit_entry(&mut n, &mut Rng(*p), "t");
        }
        let o = n.to_lib();
        let (x, y) = (MEntry::from_lib(&e), MEntry::from_lib(&o));
        ctx.nt_if(x != y);
        ctx.eval(1);
        if (e == o) != (x == y) || (o == e) != (x == y) {
            return Err(format!("entries {x:?} and {y:?} are compared wrongly"));
        }
        if (e.history() == o.history()) != (x.history == y.history) {
            return Err(format!("histories of {x:?} and {y:?} are compared wrongly"));
        }
        if (e.times() == o.times()) != (x.times == y.times) {
            return Err(format!("times {:?} and {:?} are compared wrongly", x.times, y.times));
        }
        for (f, mf) in e.fields().zip(&x.fields) {
            for (g, mg) in o.fields().zip(&y.fields) {
                if (f == g) != (mf == mg) {
                    return Err(format!("fields {mf:?} and {mg:?} are compared wrongly"));
                }
            }
        }
    }
    // Headers
    let mut h = KdbxHeader::from_os_random();
    lib_api::apply_header(&mut h, s);
    let copy = h.clone();
    if copy != h {
        return Err("a header is not equal to its copy".into());
    }
    let mut all = vec![];
    for k in 0..5 {
        let mut x = s.clone();
        match k {
            0 => x.seed = s2.seed.clone(),
            1 => x.iv = s2.iv.clone(),
            2 => x.kdf = s2.kdf.clone(),
            3 => x.cipher = s2.cipher,
            _ => x.gzip = s2.gzip,
        }
        let differs = lib_api::want_settings(&x) != lib_api::want_settings(s);
        let mut g = h.clone();
        lib_api::apply_header(&mut g, &x);
        ctx.label_if(differs, "other header");
        if (g == h) == differs {
            return Err(format!("headers {h:?} and {g:?} are compared wrongly"));
        }
        all.push(g);
    }
    if copy != h || lib_api::settings_of(&copy) != lib_api::want_settings(s) {
        return Err("editing copies changed a header".into());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C27",
        level: "exploration",
        rule: "something was changed, or two different things were compared",
        assumptions: &["what can be read through the public interface is the content"],
        scenarios: vec![
            Box::new(Scn {
                name: "changes",
                quick: 160_000,
                thorough: 1_600_000,
                strategy: |_| {
                    let change = (any::<u64>(), prop_oneof![text(), select(vec!["", "x", "Title", "otp"]).prop_map(String::from)])
                        .prop_map(|(place, text)| Change { place, text });
                    (db(), proptest::collection::vec(change, 1..12)).boxed()
                },
                run,
                need: &["changed"],
            }),
            Box::new(Scn {
                name: "copies",
                quick: 40_000,
                thorough: 400_000,
                strategy: |_| (db(), any::<u64>(), text()).boxed(),
                run: run_copies,
                need: &["edited"],
            }),
            Box::new(Scn {
                name: "parts",
                quick: 160_000,
                thorough: 1_600_000,
                strategy: |_| (entry(), entry(), settings(), settings(), proptest::collection::vec(any::<u64>(), 2..8)).boxed(),
                run: run_parts,
                need: &["other header"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
