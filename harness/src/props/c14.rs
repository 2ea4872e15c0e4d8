//! Group tree operations behave like a plain tree of groups and entries.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::refxml::Rng;
use kdbx_rs::database::{Database, Entry, Group};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use uuid::Uuid;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Groups are chosen by their position in the tree, identifiers from a small range so
    /// that they repeat.
    AddEntry(usize, u8),
    AddGroup(usize, u8),
    AddTree(usize, Vec<(usize, u8, Vec<u8>)>),
    RemoveEntry(usize, u8),
    RemoveGroup(usize, u8),
    MoveEntry(usize, u8, usize),
    MoveGroup(usize, u8, usize),
    Rename(usize),
    GroupId(usize, u8),
    EntryId(usize, usize, u8),
    EditEntry(u8),
    EditAll(usize),
    EditFound(u8),
    SwapEntries(usize, usize, usize),
    Top(bool, u8),
    Replace(u8),
    ReplaceByChild(usize),
}

fn op() -> S<Op> {
    let g = || any::<usize>();
    let u = || 0u8..6;
    prop_oneof![
        8 => (g(), u()).prop_map(|(a, b)| Op::AddEntry(a, b)),
        8 => (g(), u()).prop_map(|(a, b)| Op::AddGroup(a, b)),
        2 => (g(), vec((any::<usize>(), u(), vec(u(), 0..4)), 1..6)).prop_map(|(a, b)| Op::AddTree(a, b)),
        3 => (g(), u()).prop_map(|(a, b)| Op::RemoveEntry(a, b)),
        2 => (g(), u()).prop_map(|(a, b)| Op::RemoveGroup(a, b)),
        2 => (g(), u(), g()).prop_map(|(a, b, c)| Op::MoveEntry(a, b, c)),
        2 => (g(), u(), g()).prop_map(|(a, b, c)| Op::MoveGroup(a, b, c)),
        1 => g().prop_map(Op::Rename),
        1 => (g(), u()).prop_map(|(a, b)| Op::GroupId(a, b)),
        1 => (g(), g(), u()).prop_map(|(a, b, c)| Op::EntryId(a, b, c)),
        2 => u().prop_map(Op::EditEntry),
        1 => g().prop_map(Op::EditAll),
        2 => u().prop_map(Op::EditFound),
        1 => (g(), g(), g()).prop_map(|(a, b, c)| Op::SwapEntries(a, b, c)),
        2 => (any::<bool>(), u()).prop_map(|(a, b)| Op::Top(a, b)),
        1 => u().prop_map(Op::Replace),
        1 => g().prop_map(Op::ReplaceByChild),
    ]
    .boxed()
}

fn id(u: u8) -> Uuid {
    Uuid::from_u128(u as u128)
}

/// Every group and every version of an entry gets a number of its own.
struct Serial(u32);
impl Serial {
    fn next(&mut self) -> u32 {
        self.0 += 1;
        self.0
    }
    fn entry(&mut self, u: u8) -> MEntry {
        MEntry {
            uuid: u as u128,
            fields: vec![MField::new("Title", &format!("e{}", self.next()), false)],
            history: vec![],
            times: MTimes::zero(),
        }
    }
    fn group(&mut self, u: u8) -> MGroup {
        MGroup {
            uuid: u as u128,
            name: format!("g{}", self.next()),
            entries: vec![],
            groups: vec![],
            times: MTimes::zero(),
        }
    }
}

fn title(e: &MEntry) -> &str {
    e.fields[0].value.as_deref().unwrap()
}

fn paths(g: &MGroup, here: &[usize], out: &mut Vec<Vec<usize>>) {
    out.push(here.to_vec());
    for (i, c) in g.groups.iter().enumerate() {
        let mut p = here.to_vec();
        p.push(i);
        paths(c, &p, out);
    }
}

fn m_at<'a>(mut g: &'a mut MGroup, p: &[usize]) -> &'a mut MGroup {
    for i in p {
        g = &mut g.groups[*i];
    }
    g
}

fn l_at<'a>(mut g: &'a mut Group, p: &[usize]) -> &'a mut Group {
    for i in p {
        g = g.groups_mut().nth(*i).expect("child group");
    }
    g
}

/// Entries in search order, groups in search order (without the start itself).
fn m_entries<'a>(g: &'a MGroup, out: &mut Vec<&'a MEntry>) {
    out.extend(&g.entries);
    g.groups.iter().for_each(|c| m_entries(c, out));
}
fn m_groups<'a>(g: &'a MGroup, out: &mut Vec<&'a MGroup>) {
    for c in &g.groups {
        out.push(c);
        m_groups(c, out);
    }
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

/// All the ways of looking at one group.
fn views(m: &MGroup, l: &mut Group, asked: u8, ctx: &mut Ctx) -> Verdict {
    let eq = |what: &str, want: &dyn std::fmt::Debug, got: &dyn std::fmt::Debug| {
        let (a, b) = (format!("{want:?}"), format!("{got:?}"));
        if a == b {
            Ok(())
        } else {
            Err(format!("{what}: {b}, expected {a}"))
        }
    };
    eq("entry_count", &m.entries.len(), &l.entry_count())?;
    eq("group_count", &m.groups.len(), &l.group_count())?;
    let mut es = Vec::new();
    m_entries(m, &mut es);
    let mut gs = Vec::new();
    m_groups(m, &mut gs);
    let want: Vec<String> = es.iter().map(|e| title(e).to_string()).collect();
    let want_g: Vec<String> = gs.iter().map(|g| g.name.clone()).collect();
    let t = |e: &Entry| e.title().unwrap_or("?").to_string();
    let re: Vec<String> = l.recursive_entries().map(t).collect();
    let rem: Vec<String> = l.recursive_entries_mut().map(|e| t(e)).collect();
    let rg: Vec<String> = l.recursive_groups().map(|g| g.name().to_string()).collect();
    eq("recursive_entries_mut", &re, &rem)?;
    eq("recursive_entries", &sorted(want), &sorted(re))?;
    eq("recursive_groups", &sorted(want_g), &sorted(rg))?;
    eq("entries", &m.entries.iter().map(title).collect::<Vec<_>>(), &l.entries().map(t).collect::<Vec<_>>())?;
    eq("entries_mut", &m.entries.iter().map(title).collect::<Vec<_>>(), &l.entries_mut().map(|e| t(e)).collect::<Vec<_>>())?;
    eq(
        "groups",
        &m.groups.iter().map(|g| &g.name).collect::<Vec<_>>(),
        &l.groups().map(|g| g.name()).collect::<Vec<_>>(),
    )?;
    eq(
        "groups_mut",
        &m.groups.iter().map(|g| &g.name).collect::<Vec<_>>(),
        &l.groups_mut().map(|g| g.name().to_string()).collect::<Vec<_>>(),
    )?;
    // Searches: by identifier, by name, with no match, with any match, by content
    for k in 0..9u8 {
        let last = es.last().map(|e| title(e).to_string()).unwrap_or_default();
        let last_g = gs.last().map(|g| g.name.clone()).unwrap_or_default();
        let name = es.get(asked as usize % es.len().max(1)).map(|e| title(e).to_string()).unwrap_or_default();
        let name_g = gs.get(asked as usize % gs.len().max(1)).map(|g| g.name.clone()).unwrap_or_default();
        let pe = |u: u128, s: &str, h: usize| match k {
            0..=4 => u == k as u128,
            5 => s == last,
            6 => s == name,
            7 => true,
            _ => h > 100,
        };
        let pg = |u: u128, s: &str, n: usize| match k {
            0..=4 => u == k as u128,
            5 => s == last_g,
            6 => s == name_g,
            7 => true,
            _ => n > 1,
        };
        let want = es.iter().find(|e| pe(e.uuid, title(e), e.history.len())).map(|e| title(e).to_string());
        let f = |e: &Entry| pe(e.uuid().as_u128(), e.title().unwrap_or("?"), e.history().len());
        ctx.label_if(want.is_some(), "entry found");
        eq("find_entry", &want, &l.find_entry(f).map(t))?;
        eq("find_entry_mut", &want, &l.find_entry_mut(f).map(|e| t(e)))?;
        let want = gs.iter().find(|g| pg(g.uuid, &g.name, g.entries.len())).map(|g| g.name.clone());
        let f = |g: &Group| pg(g.uuid().as_u128(), g.name(), g.entry_count());
        ctx.label_if(want.is_some(), "group found");
        eq("find_group", &want, &l.find_group(f).map(|g| g.name().to_string()))?;
        eq("find_group_mut", &want, &l.find_group_mut(f).map(|g| g.name().to_string()))?;
        ctx.eval(1);
    }
    Ok(())
}

fn run(ops: &Vec<Op>, ctx: &mut Ctx) -> Verdict {
    let mut db = Database::default();
    let mut s = Serial(0);
    let mut m = s.group(0);
    db.replace_root(m.to_lib());
    let mut removed = 0;
    for (n, o) in ops.iter().enumerate() {
        let mut all = Vec::new();
        paths(&m, &[], &mut all);
        if all.len() > 60 {
            break;
        }
        let at = |i: usize| all[i % all.len()].clone();
        match o {
            Op::AddEntry(g, u) => {
                let e = s.entry(*u);
                let p = at(*g);
                l_at(db.root_mut(), &p).add_entry(e.to_lib());
                m_at(&mut m, &p).entries.push(e);
            }
            Op::AddGroup(g, u) => {
                let e = s.group(*u);
                let p = at(*g);
                l_at(db.root_mut(), &p).add_group(e.to_lib());
                m_at(&mut m, &p).groups.push(e);
            }
            Op::AddTree(g, parts) => {
                let mut t = s.group(1);
                for (i, u, es) in parts {
                    let mut sub = s.group(*u);
                    sub.entries = es.iter().map(|u| s.entry(*u)).collect();
                    let mut inner = Vec::new();
                    paths(&t, &[], &mut inner);
                    let p = inner[i % inner.len()].clone();
                    m_at(&mut t, &p).groups.push(sub);
                }
                let p = at(*g);
                l_at(db.root_mut(), &p).add_group(t.to_lib());
                m_at(&mut m, &p).groups.push(t);
            }
            Op::RemoveEntry(g, u) => {
                let p = at(*g);
                let got = l_at(db.root_mut(), &p).remove_entry(id(*u));
                let mg = m_at(&mut m, &p);
                let want = mg.entries.iter().position(|e| e.uuid == *u as u128).map(|i| mg.entries.remove(i));
                ctx.label_if(want.is_some(), "entry removed");
                removed += want.is_some() as usize;
                if got.as_ref().map(MEntry::from_lib) != want {
                    return Err(format!("remove_entry returned {got:?}, expected {want:?}"));
                }
            }
            Op::RemoveGroup(g, u) => {
                let p = at(*g);
                let got = l_at(db.root_mut(), &p).remove_group(id(*u));
                let mg = m_at(&mut m, &p);
                let want = mg.groups.iter().position(|e| e.uuid == *u as u128).map(|i| mg.groups.remove(i));
                ctx.label_if(want.is_some(), "group removed");
                removed += want.is_some() as usize;
                if got.as_ref().map(MGroup::from_lib) != want {
                    return Err(format!("remove_group returned {got:?}, expected {want:?}"));
                }
            }
            Op::MoveEntry(g, u, to) => {
                let p = at(*g);
                if let Some(e) = l_at(db.root_mut(), &p).remove_entry(id(*u)) {
                    let mg = m_at(&mut m, &p);
                    let i = mg.entries.iter().position(|e| e.uuid == *u as u128).ok_or("removed an entry that is not there")?;
                    let me = mg.entries.remove(i);
                    let p = at(*to);
                    l_at(db.root_mut(), &p).add_entry(e);
                    m_at(&mut m, &p).entries.push(me);
                    ctx.label("entry moved");
                }
            }
            Op::MoveGroup(g, u, to) => {
                let p = at(*g);
                if let Some(e) = l_at(db.root_mut(), &p).remove_group(id(*u)) {
                    let mg = m_at(&mut m, &p);
                    let i = mg.groups.iter().position(|e| e.uuid == *u as u128).ok_or("removed a group that is not there")?;
                    let me = mg.groups.remove(i);
                    let mut now = Vec::new();
                    paths(&m, &[], &mut now);
                    let p = now[to % now.len()].clone();
                    l_at(db.root_mut(), &p).add_group(e);
                    m_at(&mut m, &p).groups.push(me);
                    ctx.label("group moved");
                }
            }
            Op::Rename(g) => {
                let p = at(*g);
                let name = format!("g{}", s.next());
                l_at(db.root_mut(), &p).set_name(&name);
                m_at(&mut m, &p).name = name;
            }
            Op::GroupId(g, u) => {
                let p = at(*g);
                l_at(db.root_mut(), &p).set_uuid(id(*u));
                m_at(&mut m, &p).uuid = *u as u128;
            }
            Op::EntryId(g, i, u) => {
                let p = at(*g);
                let mg = m_at(&mut m, &p);
                if !mg.entries.is_empty() {
                    let i = i % mg.entries.len();
                    mg.entries[i].uuid = *u as u128;
                    l_at(db.root_mut(), &p).entries_mut().nth(i).ok_or("entry missing")?.set_uuid(id(*u));
                }
            }
            Op::EditEntry(u) => {
                // The first one found is the one that changes
                fn first(g: &mut MGroup, u: u128) -> Option<&mut MEntry> {
                    if let Some(i) = g.entries.iter().position(|e| e.uuid == u) {
                        return Some(&mut g.entries[i]);
                    }
                    g.groups.iter_mut().find_map(|c| first(c, u))
                }
                let name = format!("e{}", s.next());
                if let Some(e) = first(&mut m, *u as u128) {
                    e.fields[0].value = Some(name.clone());
                    db.find_entry_mut(|e| e.uuid() == id(*u)).ok_or("entry not found")?.set_title(&name);
                }
            }
            Op::EditAll(g) => {
                let p = at(*g);
                fn all(g: &mut MGroup) {
                    g.entries.iter_mut().for_each(|e| e.times.usage = e.times.usage.wrapping_add(1));
                    g.groups.iter_mut().for_each(all);
                }
                all(m_at(&mut m, &p));
                for e in l_at(db.root_mut(), &p).recursive_entries_mut() {
                    let t = e.times_mut();
                    t.usage_count = t.usage_count.wrapping_add(1);
                }
            }
            Op::EditFound(u) => {
                fn first(g: &mut MGroup, u: u128) -> Option<&mut MGroup> {
                    for c in &mut g.groups {
                        if c.uuid == u {
                            return Some(c);
                        }
                        if let Some(x) = first(c, u) {
                            return Some(x);
                        }
                    }
                    None
                }
                let e = s.entry(*u);
                if let Some(g) = first(&mut m, *u as u128) {
                    g.entries.push(e.clone());
                    db.find_group_mut(|g| g.uuid() == id(*u)).ok_or("group not found")?.add_entry(e.to_lib());
                }
            }
            Op::SwapEntries(g, a, b) => {
                let p = at(*g);
                let mg = m_at(&mut m, &p);
                let len = mg.entries.len();
                if len > 0 && a % len != b % len {
                    let (a, b) = ((a % len).min(b % len), (a % len).max(b % len));
                    mg.entries.swap(a, b);
                    let mut es: Vec<&mut Entry> = l_at(db.root_mut(), &p).entries_mut().collect();
                    let (x, y) = es.split_at_mut(b);
                    std::mem::swap(x[a], y[0]);
                }
            }
            Op::Top(true, u) => {
                let e = s.entry(*u);
                db.add_entry(e.to_lib());
                m.entries.push(e);
            }
            Op::Top(false, u) => {
                let g = s.group(*u);
                db.add_group(g.to_lib());
                m.groups.push(g);
            }
            Op::Replace(u) => {
                if n % 7 == 0 {
                    m = s.group(*u);
                    db.replace_root(m.to_lib());
                }
            }
            Op::ReplaceByChild(g) => {
                let p = at(*g);
                if n % 7 == 0 && !p.is_empty() {
                    let sub = l_at(db.root_mut(), &p).clone();
                    db.replace_root(sub);
                    m = m_at(&mut m, &p).clone();
                }
            }
        }
        let got = MGroup::from_lib(db.root());
        if got != m {
            return Err(format!("after {o:?}: {}, expected {}", short(&format!("{got:?}"), 1500), short(&format!("{m:?}"), 1500)));
        }
        if n % 3 == 0 || n + 1 == ops.len() {
            views(&m, db.root_mut(), n as u8, ctx)?;
            let mut all = Vec::new();
            paths(&m, &[], &mut all);
            let p = all[(n * 7 + 3) % all.len()].clone();
            views(&m_at(&mut m, &p).clone(), l_at(db.root_mut(), &p), n as u8, ctx)?;
            // The database searches its whole tree
            let mut es = Vec::new();
            m_entries(&m, &mut es);
            let mut gs = Vec::new();
            m_groups(&m, &mut gs);
            for u in 0..6u8 {
                let we = es.iter().find(|e| e.uuid == u as u128).map(|e| title(e));
                let wg = gs.iter().find(|g| g.uuid == u as u128).map(|g| &g.name[..]);
                let ge = db.find_entry(|e| e.uuid() == id(u)).and_then(|e| e.title().map(|t| t.to_string()));
                let gm = db.find_entry_mut(|e| e.uuid() == id(u)).and_then(|e| e.title().map(|t| t.to_string()));
                let gg = db.find_group(|g| g.uuid() == id(u)).map(|g| g.name().to_string());
                let ggm = db.find_group_mut(|g| g.uuid() == id(u)).map(|g| g.name().to_string());
                if ge.as_deref() != we || gm.as_deref() != we || gg.as_deref() != wg || ggm.as_deref() != wg {
                    return Err(format!("search for {u} found {ge:?} {gm:?} {gg:?} {ggm:?}, expected {we:?} {wg:?}"));
                }
            }
        }
        ctx.eval(1);
        ctx.nt_if(removed > 0 && m.depth() > 2);
        ctx.label_if(m.depth() > 3, "deep tree");
    }
    Ok(())
}

/// Trees of any shape, and everything in them found.
fn run_static(c: &MDb, ctx: &mut Ctx) -> Verdict {
    let mut m = c.root.clone();
    let mut s = Serial(0);
    fn number(g: &mut MGroup, s: &mut Serial) {
        g.name = format!("g{}", s.next());
        g.uuid %= 5;
        for e in &mut g.entries {
            e.uuid %= 5;
            e.fields.insert(0, MField::new("Title", &format!("e{}", s.next()), false));
        }
        g.groups.iter_mut().for_each(|c| number(c, s));
    }
    number(&mut m, &mut s);
    let mut db = Database::default();
    db.replace_root(m.to_lib());
    ctx.nt_if(m.depth() > 1);
    let got = MGroup::from_lib(db.root());
    let back = MGroup::from_lib(&m.to_lib());
    if got != back {
        return Err("tree read from the database differs from the one put in".into());
    }
    views(&m, db.root_mut(), 3, ctx)
}

/// Large trees: many children, many levels, or neither.
fn run_big(c: &(u8, usize, u64), ctx: &mut Ctx) -> Verdict {
    let (shape, n, seed) = *c;
    let mut r = Rng(seed);
    let mut s = Serial(0);
    let mut m = s.group(0);
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        let p = match shape {
            // Children of one group (and a few of theirs), a chain, a random tree
            0 if r.pct(90) => vec![],
            1 if all.len() < 400 => all.last().unwrap().clone(),
            _ => r.pick(&all).clone(),
        };
        let g = m_at(&mut m, &p);
        if r.pct(if shape == 1 { 80 } else { 50 }) {
            let mut x = s.group(0);
            x.uuid = 1000 + i as u128;
            g.groups.push(x);
            let mut q = p;
            q.push(g.groups.len() - 1);
            all.push(q);
        } else {
            let mut x = s.entry(0);
            x.uuid = 1000 + i as u128;
            g.entries.push(x);
        }
    }
    ctx.nt();
    ctx.label_if(m.entries.len() > 256 && m.groups.len() > 256, "over 256 children");
    ctx.label_if(m.depth() > 256, "over 256 levels");
    let mut db = Database::default();
    db.replace_root(m.to_lib());
    let compare = |db: &Database, m: &MGroup, what: &str| {
        let got = MGroup::from_lib(db.root());
        if got != *m {
            return Err(format!("after {what}: {}, expected {}", short(&format!("{got:?}"), 1500), short(&format!("{m:?}"), 1500)));
        }
        Ok(())
    };
    compare(&db, &m, "building")?;
    views(&m, db.root_mut(), 200, ctx)?;
    for _ in 0..30 {
        // Identifiers are unique here
        let u = 1000 + r.below(n) as u128;
        let mut es = Vec::new();
        m_entries(&m, &mut es);
        let mut gs = Vec::new();
        m_groups(&m, &mut gs);
        let we = es.iter().find(|e| e.uuid == u).map(|e| title(e));
        let wg = gs.iter().find(|g| g.uuid == u).map(|g| &g.name[..]);
        let id = Uuid::from_u128(u);
        let ge = db.find_entry(|e| e.uuid() == id).and_then(|e| e.title().map(|t| t.to_string()));
        let gm = db.find_entry_mut(|e| e.uuid() == id).and_then(|e| e.title().map(|t| t.to_string()));
        let gg = db.find_group(|g| g.uuid() == id).map(|g| g.name().to_string());
        let ggm = db.find_group_mut(|g| g.uuid() == id).map(|g| g.name().to_string());
        if ge.as_deref() != we || gm.as_deref() != we || gg.as_deref() != wg || ggm.as_deref() != wg {
            return Err(format!("search for {u} found {ge:?} {gm:?} {gg:?} {ggm:?}, expected {we:?} {wg:?}"));
        }
        let mut now = Vec::new();
        paths(&m, &[], &mut now);
        let holder = now.iter().find(|p| {
            let g = m_at(&mut m, p);
            g.entries.iter().any(|e| e.uuid == u) || g.groups.iter().any(|g| g.uuid == u)
        });
        let Some(p) = holder.cloned() else { continue };
        let mg = m_at(&mut m, &p);
        if let Some(i) = mg.entries.iter().position(|e| e.uuid == u) {
            let want = mg.entries.remove(i);
            let got = l_at(db.root_mut(), &p).remove_entry(id);
            if got.as_ref().map(MEntry::from_lib) != Some(want) {
                return Err(format!("remove_entry returned {}", short(&format!("{got:?}"), 500)));
            }
        } else if let Some(i) = mg.groups.iter().position(|g| g.uuid == u) {
            if mg.groups[i].depth() > 3 && r.pct(80) {
                continue;
            }
            let want = mg.groups.remove(i);
            let got = l_at(db.root_mut(), &p).remove_group(id);
            if got.as_ref().map(MGroup::from_lib) != Some(want) {
                return Err(format!("remove_group returned {}", short(&format!("{got:?}"), 500)));
            }
        }
        compare(&db, &m, "a removal")?;
        ctx.eval(1);
    }
    views(&m, db.root_mut(), 100, ctx)
}

pub fn property() -> Property {
    Property {
        id: "C14",
        level: "exploration",
        rule: "something was removed and the tree is more than two levels deep; for fixed trees: more than one level",
        assumptions: &["the order of recursive iteration is not fixed, only that both forms use the same"],
        scenarios: vec![
            Box::new(Scn {
                name: "operations",
                quick: 100000,
                thorough: 250000,
                strategy: |_| vec(op(), 1..60).boxed(),
                run,
                need: &["entry removed", "group removed", "entry moved", "group moved", "deep tree", "entry found", "group found"],
            }),
            Box::new(Scn {
                name: "large trees",
                quick: 500,
                thorough: 2000,
                strategy: |_| {
                    (0u8..3, prop_oneof![3 => 300usize..1100, 1 => 1000usize..4000], any::<u64>()).boxed()
                },
                run: run_big,
                need: &["over 256 children", "over 256 levels"],
            }),
            Box::new(Scn {
                name: "trees",
                quick: 40000,
                thorough: 200000,
                strategy: |_| db(),
                run: run_static,
                need: &["entry found", "group found"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
