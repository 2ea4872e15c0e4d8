//! Plain model of a database, independent of the library's types, and conversions.
use chrono::{DateTime, NaiveDateTime, Timelike};
use kdbx_rs::database::{Database, Entry, Field, Group, Times};
use serde::{Deserialize, Serialize};
use uuid::Uuid;

/// Seconds from 0001-01-01T00:00:00 to 1970-01-01T00:00:00.
pub const EPOCH_OFFSET: i64 = 62_135_596_800;

mod hex128 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{v:032x}"))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u128, D::Error> {
        let s = String::deserialize(d)?;
        u128::from_str_radix(&s, 16).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct MField {
    pub key: String,
    pub value: Option<String>,
    pub prot: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct MTimes {
    /// Seconds since year 1: modified, created, accessed, expiry, location changed
    pub t: [i64; 5],
    pub nanos: u32,
    pub expires: bool,
    pub usage: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct MEntry {
    #[serde(with = "hex128")]
    pub uuid: u128,
    pub fields: Vec<MField>,
    pub history: Vec<MEntry>,
    pub times: MTimes,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct MGroup {
    #[serde(with = "hex128")]
    pub uuid: u128,
    pub name: String,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
    pub times: MTimes,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct MMeta {
    pub generator: String,
    pub name: String,
    pub desc: String,
    pub custom: Vec<MField>,
    /// title, user name, password, url, notes
    pub mp: [bool; 5],
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct MDb {
    pub meta: MMeta,
    pub root: MGroup,
}

pub fn to_datetime(secs: i64, nanos: u32) -> NaiveDateTime {
    DateTime::from_timestamp(secs - EPOCH_OFFSET, nanos)
        .expect("representable time")
        .naive_utc()
}

pub fn from_datetime(d: NaiveDateTime) -> (i64, u32) {
    (d.and_utc().timestamp() + EPOCH_OFFSET, d.nanosecond())
}

pub fn min_secs() -> i64 {
    from_datetime(NaiveDateTime::MIN).0
}
pub fn max_secs() -> i64 {
    from_datetime(NaiveDateTime::MAX).0
}

impl MTimes {
    pub fn zero() -> MTimes {
        MTimes {
            t: [EPOCH_OFFSET; 5],
            nanos: 0,
            expires: false,
            usage: 0,
        }
    }
    pub fn to_lib(&self) -> Times {
        let n = |i: usize| {
            let s = self.t[i];
            // Fractions only from year 1 on, where rounding down is truncation.
            to_datetime(s, if s >= 0 { self.nanos } else { 0 })
        };
        let mut t = Times::default();
        t.last_modification_time = n(0);
        t.creation_time = n(1);
        t.last_access_time = n(2);
        t.expiry_time = n(3);
        t.location_changed = n(4);
        t.expires = self.expires;
        t.usage_count = self.usage;
        t
    }
    pub fn from_lib(t: &Times) -> MTimes {
        let all = [
            t.last_modification_time,
            t.creation_time,
            t.last_access_time,
            t.expiry_time,
            t.location_changed,
        ];
        MTimes {
            t: all.map(|d| from_datetime(d).0),
            nanos: all.iter().map(|d| d.nanosecond()).max().unwrap(),
            expires: t.expires,
            usage: t.usage_count,
        }
    }
}

impl MField {
    pub fn new(key: &str, value: &str, prot: bool) -> MField {
        MField {
            key: key.into(),
            value: Some(value.into()),
            prot,
        }
    }
    pub fn to_lib(&self) -> Field {
        let v = self.value.as_deref().unwrap_or("");
        let mut f = if self.prot {
            Field::new_protected(&self.key, v)
        } else {
            Field::new(&self.key, v)
        };
        if self.value.is_none() {
            f.clear();
        }
        f
    }
    pub fn from_lib(f: &Field) -> MField {
        MField {
            key: f.key().into(),
            value: f.value().map(|v| v.into()),
            prot: f.protected(),
        }
    }
}

impl MEntry {
    pub fn to_lib(&self) -> Entry {
        let mut e = Entry::default();
        e.set_uuid(Uuid::from_u128(self.uuid));
        for f in &self.fields {
            e.add_field(f.to_lib());
        }
        for h in &self.history {
            e.history_mut().push(h.to_lib());
        }
        *e.times_mut() = self.times.to_lib();
        e
    }
    pub fn from_lib(e: &Entry) -> MEntry {
        MEntry {
            uuid: e.uuid().as_u128(),
            fields: e.fields().map(MField::from_lib).collect(),
            history: e.history().entries().map(MEntry::from_lib).collect(),
            times: MTimes::from_lib(e.times()),
        }
    }
    pub fn visit_fields<'a>(&'a self, f: &mut dyn FnMut(&'a MField)) {
        self.fields.iter().for_each(&mut *f);
        for h in &self.history {
            h.visit_fields(f);
        }
    }
}

impl MGroup {
    pub fn to_lib(&self) -> Group {
        let mut g = Group::new(&self.name);
        g.set_uuid(Uuid::from_u128(self.uuid));
        for e in &self.entries {
            g.add_entry(e.to_lib());
        }
        for c in &self.groups {
            g.add_group(c.to_lib());
        }
        *g.times_mut() = self.times.to_lib();
        g
    }
    pub fn from_lib(g: &Group) -> MGroup {
        MGroup {
            uuid: g.uuid().as_u128(),
            name: g.name().into(),
            entries: g.entries().map(MEntry::from_lib).collect(),
            groups: g.groups().map(MGroup::from_lib).collect(),
            times: MTimes::from_lib(g.times()),
        }
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a MGroup)) {
        f(self);
        for g in &self.groups {
            g.visit(f);
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.groups.iter().map(|g| g.depth()).max().unwrap_or(0)
    }
}

impl MDb {
    pub fn to_lib(&self) -> Database {
        let mut db = Database::default();
        db.replace_root(self.root.to_lib());
        let m = db.meta_mut();
        m.generator = self.meta.generator.clone();
        m.database_name = self.meta.name.clone();
        m.database_description = self.meta.desc.clone();
        m.custom_data = self.meta.custom.iter().map(|f| f.to_lib()).collect();
        let p = &mut m.memory_protection;
        [
            p.protect_title,
            p.protect_user_name,
            p.protect_password,
            p.protect_url,
            p.protect_notes,
        ] = self.meta.mp;
        db
    }
    pub fn from_lib(db: &Database) -> MDb {
        let m = db.meta();
        let p = &m.memory_protection;
        MDb {
            meta: MMeta {
                generator: m.generator.clone(),
                name: m.database_name.clone(),
                desc: m.database_description.clone(),
                custom: m.custom_data.iter().map(MField::from_lib).collect(),
                mp: [
                    p.protect_title,
                    p.protect_user_name,
                    p.protect_password,
                    p.protect_url,
                    p.protect_notes,
                ],
            },
            root: MGroup::from_lib(db.root()),
        }
    }
    /// All fields in document order: custom data, then depth first through the groups.
    pub fn visit_fields<'a>(&'a self, f: &mut dyn FnMut(&'a MField)) {
        self.meta.custom.iter().for_each(&mut *f);
        fn grp<'a>(g: &'a MGroup, f: &mut dyn FnMut(&'a MField)) {
            for e in &g.entries {
                e.visit_fields(f);
            }
            for c in &g.groups {
                grp(c, f);
            }
        }
        grp(&self.root, f);
    }
    pub fn count(&self) -> Counts {
        let mut c = Counts::default();
        self.visit_fields(&mut |f| {
            c.fields += 1;
            if f.prot {
                c.prot += 1;
                c.prot_bytes += f.value.as_ref().map_or(0, |v| v.len());
            }
        });
        self.root.visit(&mut |g| {
            c.groups += 1;
            c.entries += g.entries.len();
            c.history += g.entries.iter().map(|e| e.history.len()).sum::<usize>();
        });
        c
    }
    /// Every text of the database (names, keys, values), with whether it is written
    /// protected (and therefore as base64).
    pub fn texts(&self) -> Vec<(&str, bool)> {
        let mut v: Vec<(&str, bool)> = vec![(&self.meta.name, false), (&self.meta.desc, false)];
        self.root.visit(&mut |g| v.push((&g.name, false)));
        self.visit_fields(&mut |f| {
            v.push((&f.key, false));
            if let Some(x) = &f.value {
                v.push((x, f.prot));
            }
        });
        v
    }
    /// Whether XML can carry this database.
    pub fn xml_representable(&self) -> bool {
        let mut ok = true;
        self.visit_fields(&mut |f| ok &= !f.key.is_empty());
        ok && self
            .texts()
            .iter()
            .all(|(t, prot)| *prot || t.chars().all(is_xml_char))
    }
    /// The differences a save may make: generator, fractions of seconds, empty = absent.
    pub fn normal(&self) -> MDb {
        let mut d = self.clone();
        d.meta.generator = "kdbx-rs".into();
        d.norm_values();
        d
    }
    pub fn norm_values(&mut self) {
        fn fld(f: &mut MField) {
            if f.value.as_deref() == Some("") {
                f.value = None;
            }
        }
        fn ent(e: &mut MEntry) {
            e.times.nanos = 0;
            e.fields.iter_mut().for_each(fld);
            e.history.iter_mut().for_each(ent);
        }
        fn grp(g: &mut MGroup) {
            g.times.nanos = 0;
            g.entries.iter_mut().for_each(ent);
            g.groups.iter_mut().for_each(grp);
        }
        self.meta.custom.iter_mut().for_each(fld);
        grp(&mut self.root);
    }
}

#[derive(Default, Debug)]
pub struct Counts {
    pub groups: usize,
    pub entries: usize,
    pub fields: usize,
    pub prot: usize,
    pub prot_bytes: usize,
    pub history: usize,
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}

/// First difference between two models, as a readable path.
pub fn diff(want: &MDb, got: &MDb) -> Result<(), String> {
    fn eq<T: PartialEq + std::fmt::Debug>(path: &str, a: &T, b: &T) -> Result<(), String> {
        if a == b {
            Ok(())
        } else {
            Err(format!(
                "{path}: expected {}, got {}",
                crate::engine::short(&format!("{a:?}"), 400),
                crate::engine::short(&format!("{b:?}"), 400)
            ))
        }
    }
    fn fields(path: &str, a: &[MField], b: &[MField]) -> Result<(), String> {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            eq(&format!("{path}.field[{i}]"), x, y)?;
        }
        eq(&format!("{path}.field count"), &a.len(), &b.len())
    }
    fn ent(path: &str, a: &MEntry, b: &MEntry) -> Result<(), String> {
        eq(&format!("{path}.uuid"), &a.uuid, &b.uuid)?;
        fields(path, &a.fields, &b.fields)?;
        eq(&format!("{path}.times"), &a.times, &b.times)?;
        for (i, (x, y)) in a.history.iter().zip(&b.history).enumerate() {
            ent(&format!("{path}.history[{i}]"), x, y)?;
        }
        eq(&format!("{path}.history count"), &a.history.len(), &b.history.len())
    }
    fn grp(path: &str, a: &MGroup, b: &MGroup) -> Result<(), String> {
        eq(&format!("{path}.uuid"), &a.uuid, &b.uuid)?;
        eq(&format!("{path}.name"), &a.name, &b.name)?;
        eq(&format!("{path}.times"), &a.times, &b.times)?;
        for (i, (x, y)) in a.entries.iter().zip(&b.entries).enumerate() {
            ent(&format!("{path}.entry[{i}]"), x, y)?;
        }
        eq(&format!("{path}.entry count"), &a.entries.len(), &b.entries.len())?;
        for (i, (x, y)) in a.groups.iter().zip(&b.groups).enumerate() {
            grp(&format!("{path}.group[{i}]"), x, y)?;
        }
        eq(&format!("{path}.group count"), &a.groups.len(), &b.groups.len())
    }
    eq("meta.generator", &want.meta.generator, &got.meta.generator)?;
    eq("meta.name", &want.meta.name, &got.meta.name)?;
    eq("meta.description", &want.meta.desc, &got.meta.desc)?;
    eq("meta.memory protection", &want.meta.mp, &got.meta.mp)?;
    fields("meta.custom data", &want.meta.custom, &got.meta.custom)?;
    grp("root", &want.root, &got.root)?;
    if want != got {
        return Err("databases differ".into());
    }
    Ok(())
}
