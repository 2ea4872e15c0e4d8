//! Independent writer and reader for the KeePass XML document.
use crate::model::*;
use base64::prelude::{Engine, BASE64_STANDARD};
use cipher::StreamCipher;
use serde::{Deserialize, Serialize};

/// Small deterministic generator for layout decisions inside one case.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// True n times out of 100.
    pub fn pct(&mut self, n: u8) -> bool {
        self.below(100) < n as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// Layout freedoms of the XML writer.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Style {
    pub seed: u64,
    /// 0 none, 1 tabs, 2 spaces, 3 CRLF
    pub indent: u8,
    pub decl: bool,
    pub bom: bool,
    pub shuffle: bool,
    pub iso_times: bool,
    /// 0 "True", 1 "true", 2 "TRUE", 3 mixed
    pub bool_case: u8,
    /// Percentages
    pub cdata: u8,
    pub char_refs: u8,
    pub comments: u8,
    pub foreign: u8,
    pub omit_empty: bool,
    pub self_close: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style {
            seed: 0,
            indent: 1,
            decl: true,
            bom: false,
            shuffle: false,
            iso_times: false,
            bool_case: 0,
            cdata: 0,
            char_refs: 0,
            comments: 0,
            foreign: 0,
            omit_empty: false,
            self_close: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
    Comment(String),
    Pi(String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
    /// Plain bytes that are written encrypted when the element is serialised.
    pub secret: Option<Vec<u8>>,
    /// White space around the content has no meaning.
    pub token: bool,
}

impl El {
    pub fn new(name: &str) -> El {
        El {
            name: name.into(),
            ..El::default()
        }
    }
    pub fn text(name: &str, t: &str) -> El {
        let mut e = El::new(name);
        if !t.is_empty() {
            e.kids.push(Node::Text(t.into()));
        }
        e
    }
    pub fn token(name: &str, t: &str) -> El {
        let mut e = El::text(name, t);
        e.token = true;
        e
    }
    pub fn add(&mut self, e: El) {
        self.kids.push(Node::El(e));
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|n| match n {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn full_text(&self) -> String {
        self.kids
            .iter()
            .filter_map(|n| match n {
                Node::Text(t) => Some(t.as_str()),
                _ => None,
            })
            .collect()
    }
}

pub fn iso(secs: i64) -> Option<String> {
    let d = to_datetime(secs, 0);
    use chrono::Datelike;
    (1..=9999)
        .contains(&d.year())
        .then(|| d.format("%Y-%m-%dT%H:%M:%SZ").to_string())
}

struct B<'a> {
    st: &'a Style,
    r: Rng,
    foreign_count: usize,
    foreign_secret: usize,
}

impl<'a> B<'a> {
    fn boolean(&mut self, name: &str, v: bool) -> El {
        let s = self.bool_str(v);
        El::token(name, &s)
    }
    fn bool_str(&mut self, v: bool) -> String {
        let k = if self.st.bool_case >= 3 {
            self.r.below(3) as u8
        } else {
            self.st.bool_case
        };
        let s = if v { "True" } else { "False" };
        match k {
            0 => s.to_string(),
            1 => s.to_lowercase(),
            _ => s.to_uppercase(),
        }
    }
    fn time(&mut self, name: &str, secs: i64) -> El {
        let s = match iso(secs) {
            Some(s) if self.st.iso_times => s,
            _ => BASE64_STANDARD.encode(secs.to_le_bytes()),
        };
        El::token(name, &s)
    }
    fn uuid(&self, name: &str, u: u128) -> El {
        El::token(name, &BASE64_STANDARD.encode(u.to_be_bytes()))
    }
    /// Mix groups of elements, keeping the order inside each group.
    fn assemble(&mut self, e: &mut El, mut parts: Vec<Vec<El>>, place: &'static str) {
        let mut out: Vec<El> = Vec::new();
        if self.st.shuffle {
            parts.iter_mut().for_each(|p| p.reverse());
            loop {
                parts.retain(|p| !p.is_empty());
                if parts.is_empty() {
                    break;
                }
                let i = self.r.below(parts.len());
                out.push(parts[i].pop().unwrap());
            }
        } else {
            out = parts.into_iter().flatten().collect();
        }
        for x in out {
            self.maybe_foreign(e, place);
            e.add(x);
        }
        self.maybe_foreign(e, place);
        if self.st.foreign > 0 && self.r.pct(self.st.foreign / 2) {
            self.foreign_attr(e);
        }
    }
    fn foreign_attr(&mut self, e: &mut El) {
        let (k, v) = *self.r.pick(&[
            ("Foo", "Protected"),
            ("ProtectInMemory", "True"),
            ("ID", "7"),
            ("Compressed", "True"),
            ("xml:space", "preserve"),
            ("Ref", "<&\">"),
        ]);
        e.attrs.push((k.into(), v.into()));
        self.foreign_count += 1;
    }
    fn maybe_foreign(&mut self, e: &mut El, place: &'static str) {
        while self.st.foreign > 0 && self.r.pct(self.st.foreign) {
            self.foreign_count += 1;
            let n = match self.r.below(10) {
                0 => Node::Comment(
                    self.r
                        .pick(&[" note ", "<Entry>", "", "a & b", "]]>", " Protected=\"True\" "])
                        .to_string(),
                ),
                1 => Node::Pi(
                    self.r
                        .pick(&["foo bar", "x", "keepass version=\"2\""])
                        .to_string(),
                ),
                _ => {
                    let f = self.foreign_el(place, 0);
                    Node::El(f)
                }
            };
            e.kids.push(n);
        }
    }
    fn foreign_el(&mut self, place: &'static str, depth: usize) -> El {
        const INNER: &[&str] = &[
            "Group", "Entry", "String", "Key", "Value", "UUID", "Times", "History", "Name", "Root",
            "Meta", "Item", "CustomData", "KeePassFile", "ExpiryTime", "Expires", "Binary", "Data",
            "Icon", "Foo", "MemoryProtection", "Generator", "x:Ext", "UsageCount",
        ];
        let names: &[&str] = if depth > 0 {
            INNER
        } else {
            match place {
                "file" => &["Foo", "Extension", "x:Ext", "Generator", "Entry", "Group", "Times"],
                "meta" => &[
                    "DatabaseNameChanged",
                    "Color",
                    "MasterKeyChanged",
                    "RecycleBinEnabled",
                    "CustomIcons",
                    "Binaries",
                    "HistoryMaxItems",
                    "Entry",
                    "Group",
                    "Name",
                    "Key",
                    "x:Ext",
                ],
                "root" => &["DeletedObjects", "Foo", "Entry", "UUID", "Meta"],
                "group" => &[
                    "Notes",
                    "IconID",
                    "CustomData",
                    "Tags",
                    "IsExpanded",
                    "LastTopVisibleEntry",
                    "EnableAutoType",
                    "String",
                    "History",
                    "Key",
                    "Value",
                    "x:Ext",
                ],
                "entry" => &[
                    "IconID",
                    "ForegroundColor",
                    "Tags",
                    "Binary",
                    "AutoType",
                    "CustomData",
                    "QualityCheck",
                    "Group",
                    "Entry",
                    "Key",
                    "Value",
                    "Name",
                    "x:Ext",
                ],
                "times" => &["Foo", "DeletionTime", "UUID", "Key", "Times2", "Entry"],
                "field" => &["Extra", "LastModificationTime", "String2", "Foo", "UUID", "Name"],
                "history" => &["Foo", "String", "UUID", "Group", "Times", "Key"],
                "custom" => &["Foo", "Key", "Value", "String", "Entry"],
                "memprot" => &["AutoEnableVisualHiding", "Foo", "Key", "Value"],
                _ => unreachable!(),
            }
        };
        let mut name = self.r.pick(names).to_string();
        if self.r.pct(15) {
            // Almost the name of something known
            let known: &[&str] = match place {
                "file" => &["Root", "Meta"],
                "meta" => &["DatabaseName", "DatabaseDescription", "Generator", "CustomData", "MemoryProtection"],
                "root" => &["Group"],
                "group" => &["Name", "UUID", "Entry", "Group", "Times"],
                "entry" => &["UUID", "String", "Times", "History"],
                "field" | "custom" => &["Key", "Value", "Item"],
                "times" => &["CreationTime", "ExpiryTime", "Expires", "UsageCount", "LastModificationTime"],
                "history" => &["Entry"],
                _ => &["ProtectTitle", "ProtectPassword", "ProtectNotes"],
            };
            let k = self.r.pick(known).to_string();
            name = match self.r.below(7) {
                0 => k.to_lowercase(),
                1 if k != "UUID" => k.to_uppercase(),
                2 => k[..1].to_lowercase() + &k[1..],
                3 => k + "s",
                4 => "X".to_string() + &k,
                5 => k[..k.len() - 1].to_string(),
                _ => k + "_",
            };
        }
        let mut e = El::new(&name);
        if self.r.pct(20) {
            self.foreign_attr(&mut e);
        }
        match self.r.below(if depth >= 3 { 4 } else { 7 }) {
            0 => {}
            1 | 2 => {
                let n = *self.r.pick(&[0usize, 1, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 200]);
                e.secret = Some(self.r.bytes(n));
                self.foreign_secret += 1;
            }
            3 => {
                let t = *self.r.pick(&[
                    "True", "x", "  ", "&<>", "AAAA", "not base64 !", "2020-01-01T00:00:00Z", "99999999999",
                    "\n\t\n",
                ]);
                e.kids.push(Node::Text(t.into()));
            }
            _ => {
                for _ in 0..1 + self.r.below(3) {
                    let c = self.foreign_el(place, depth + 1);
                    e.add(c);
                }
            }
        }
        e
    }
    fn field(&mut self, name: &str, f: &MField) -> El {
        let mut e = El::new(name);
        let k = El::text("Key", &f.key);
        let mut v = El::new("Value");
        let val = f.value.as_deref().unwrap_or("");
        if f.prot {
            let b = self.bool_str(true);
            v.attrs.push(("Protected".into(), b));
            v.secret = Some(val.as_bytes().to_vec());
        } else {
            if !val.is_empty() {
                v.kids.push(Node::Text(val.into()));
            }
            if self.st.bool_case == 3 && self.r.pct(20) {
                let b = self.bool_str(false);
                v.attrs.push(("Protected".into(), b));
            }
        }
        if self.st.foreign > 0 && self.r.pct(10) {
            let at = if self.r.pct(50) { v.attrs.len() } else { 0 };
            v.attrs.insert(at, ("ProtectInMemory".into(), "True".into()));
            self.foreign_count += 1;
        }
        // The key always comes first: clients rely on it
        self.assemble(&mut e, vec![vec![k, v]], "field");
        e
    }
    fn times(&mut self, t: &MTimes) -> El {
        let mut e = El::new("Times");
        let mut parts = vec![
            vec![self.time("CreationTime", t.t[1])],
            vec![self.time("LastModificationTime", t.t[0])],
            vec![self.time("LastAccessTime", t.t[2])],
            vec![self.time("ExpiryTime", t.t[3])],
            vec![self.boolean("Expires", t.expires)],
        ];
        if !(self.st.omit_empty && t.usage == 0) {
            parts.push(vec![El::token("UsageCount", &t.usage.to_string())]);
        }
        parts.push(vec![self.time("LocationChanged", t.t[4])]);
        self.assemble(&mut e, parts, "times");
        e
    }
    fn entry(&mut self, m: &MEntry) -> El {
        let mut e = El::new("Entry");
        let mut parts = vec![
            vec![self.uuid("UUID", m.uuid)],
            vec![self.times(&m.times)],
            m.fields.iter().map(|f| self.field("String", f)).collect(),
        ];
        if !(m.history.is_empty() && self.st.omit_empty) {
            let mut h = El::new("History");
            let kids: Vec<El> = m.history.iter().map(|x| self.entry(x)).collect();
            self.assemble(&mut h, vec![kids], "history");
            parts.push(vec![h]);
        }
        self.assemble(&mut e, parts, "entry");
        e
    }
    fn group(&mut self, m: &MGroup) -> El {
        let mut e = El::new("Group");
        let parts = vec![
            vec![self.uuid("UUID", m.uuid)],
            vec![El::text("Name", &m.name)],
            vec![self.times(&m.times)],
            m.entries.iter().map(|x| self.entry(x)).collect(),
            m.groups.iter().map(|x| self.group(x)).collect(),
        ];
        self.assemble(&mut e, parts, "group");
        e
    }
    fn file(&mut self, db: &MDb, header_hash: Option<&str>) -> El {
        let mut meta = El::new("Meta");
        let m = &db.meta;
        let mut parts = Vec::new();
        for (n, t) in [
            ("Generator", &m.generator),
            ("DatabaseName", &m.name),
            ("DatabaseDescription", &m.desc),
        ] {
            if !(t.is_empty() && self.st.omit_empty) {
                parts.push(vec![El::text(n, t)]);
            }
        }
        if let Some(h) = header_hash {
            parts.push(vec![El::token("HeaderHash", h)]);
        }
        let mut mp = El::new("MemoryProtection");
        let mut mparts = Vec::new();
        for (n, v) in [
            ("ProtectTitle", m.mp[0]),
            ("ProtectUserName", m.mp[1]),
            ("ProtectPassword", m.mp[2]),
            ("ProtectURL", m.mp[3]),
            ("ProtectNotes", m.mp[4]),
        ] {
            if v || !self.st.omit_empty {
                mparts.push(vec![self.boolean(n, v)]);
            }
        }
        self.assemble(&mut mp, mparts, "memprot");
        parts.push(vec![mp]);
        if !(m.custom.is_empty() && self.st.omit_empty) {
            let mut cd = El::new("CustomData");
            let kids: Vec<El> = m.custom.iter().map(|f| self.field("Item", f)).collect();
            self.assemble(&mut cd, vec![kids], "custom");
            parts.push(vec![cd]);
        }
        self.assemble(&mut meta, parts, "meta");
        let mut root = El::new("Root");
        let g = self.group(&db.root);
        self.assemble(&mut root, vec![vec![g]], "root");
        let mut f = El::new("KeePassFile");
        self.assemble(&mut f, vec![vec![meta], vec![root]], "file");
        f
    }
}

struct Ser<'a> {
    st: &'a Style,
    r: Rng,
    o: String,
    stream: &'a mut dyn StreamCipher,
}

impl Ser<'_> {
    fn nl(&mut self, depth: usize) {
        let (nl, ind) = match self.st.indent {
            0 => return,
            1 => ("\n", "\t"),
            2 => ("\n", "  "),
            _ => ("\r\n", " "),
        };
        self.o.push_str(nl);
        for _ in 0..depth {
            self.o.push_str(ind);
        }
    }
    fn chars(&mut self, t: &str) {
        let mut rest = t;
        while !rest.is_empty() {
            // Up to 40 characters in one run
            let n = rest.char_indices().nth(1 + self.r.below(40)).map_or(rest.len(), |(i, _)| i);
            let (a, b) = rest.split_at(n);
            rest = b;
            if self.r.pct(self.st.cdata) && !a.contains(['\r', ']']) {
                self.o.push_str("<![CDATA[");
                self.o.push_str(a);
                self.o.push_str("]]>");
            } else {
                for c in a.chars() {
                    match c {
                        '&' => self.o.push_str("&amp;"),
                        '<' => self.o.push_str("&lt;"),
                        '>' => self.o.push_str("&gt;"),
                        '\r' => self.o.push_str("&#xD;"),
                        c if self.r.pct(self.st.char_refs) => {
                            if self.r.pct(50) {
                                self.o.push_str(&format!("&#{};", c as u32));
                            } else {
                                self.o.push_str(&format!("&#x{:x};", c as u32));
                            }
                        }
                        c => self.o.push(c),
                    }
                }
            }
            if self.r.pct(self.st.comments) {
                self.o.push_str(self.r.pick(&["<!-- c -->", "<!---->", "<?p i?>"]));
            }
        }
    }
    fn el(&mut self, e: &El, depth: usize) {
        self.o.push('<');
        self.o.push_str(&e.name);
        let mut attrs = e.attrs.clone();
        let mut cipher_text = None;
        if let Some(s) = &e.secret {
            let mut b = s.clone();
            self.stream.apply_keystream(&mut b);
            cipher_text = Some(BASE64_STANDARD.encode(b));
            if !attrs.iter().any(|(k, _)| k == "Protected") {
                attrs.push(("Protected".into(), "True".into()));
            }
        }
        for (k, v) in &attrs {
            let q = if self.r.pct(self.st.char_refs) { '\'' } else { '"' };
            self.o.push(' ');
            self.o.push_str(k);
            self.o.push('=');
            self.o.push(q);
            for c in v.chars() {
                match c {
                    '<' => self.o.push_str("&lt;"),
                    '&' => self.o.push_str("&amp;"),
                    '"' => self.o.push_str("&quot;"),
                    '\'' => self.o.push_str("&apos;"),
                    c => self.o.push(c),
                }
            }
            self.o.push(q);
        }
        if e.kids.is_empty()
            && cipher_text.as_deref().unwrap_or("").is_empty()
            && self.st.self_close
        {
            self.o.push_str(if self.r.pct(50) { "/>" } else { " />" });
            return;
        }
        self.o.push('>');
        if let Some(c) = cipher_text {
            let pad = !c.is_empty() && self.r.pct(self.st.char_refs / 2);
            if pad {
                self.o.push_str("\n ");
            }
            self.o.push_str(&c);
            if pad {
                self.o.push_str("\n ");
            }
        }
        let structured = e.kids.iter().any(|k| matches!(k, Node::El(_)));
        let pad = e.token && self.st.char_refs > 0 && self.r.pct(20);
        if pad {
            self.o.push_str("\n\t ");
        }
        for k in &e.kids {
            match k {
                Node::El(c) => {
                    self.nl(depth + 1);
                    self.el(c, depth + 1);
                }
                Node::Text(t) => self.chars(t),
                Node::Comment(c) => {
                    self.o.push_str("<!--");
                    self.o.push_str(c);
                    self.o.push_str("-->");
                }
                Node::Pi(p) => {
                    self.o.push_str("<?");
                    self.o.push_str(p);
                    self.o.push_str("?>");
                }
            }
        }
        if pad {
            self.o.push(' ');
        }
        if structured {
            self.nl(depth);
        }
        self.o.push_str("</");
        self.o.push_str(&e.name);
        self.o.push('>');
    }
}

pub struct Rendered {
    pub xml: Vec<u8>,
    pub foreign: usize,
    pub foreign_secrets: usize,
}

pub fn build(db: &MDb, st: &Style, header_hash: Option<&str>) -> (El, usize, usize) {
    let mut b = B {
        st,
        r: Rng(st.seed),
        foreign_count: 0,
        foreign_secret: 0,
    };
    let mut f = b.file(db, header_hash);
    f.attrs.insert(0, ("xmlns:x".into(), "urn:example:ext".into()));
    if st.foreign == 0 {
        f.attrs.clear();
    }
    (f, b.foreign_count, b.foreign_secret)
}

pub fn serialise(f: &El, st: &Style, stream: &mut dyn StreamCipher) -> Vec<u8> {
    let mut s = Ser {
        st,
        r: Rng(st.seed ^ 0x5151_5151),
        o: String::new(),
        stream,
    };
    if st.bom {
        s.o.push('\u{FEFF}');
    }
    if st.decl {
        s.o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>");
        s.nl(0);
    }
    s.el(f, 0);
    if st.indent == 2 {
        s.o.push('\n');
    }
    s.o.into_bytes()
}

pub fn render(
    db: &MDb,
    st: &Style,
    stream: &mut dyn StreamCipher,
    header_hash: Option<&str>,
) -> Rendered {
    let (f, foreign, foreign_secrets) = build(db, st, header_hash);
    Rendered {
        xml: serialise(&f, st, stream),
        foreign,
        foreign_secrets,
    }
}

// ---------------------------------------------------------------------------------------
// Reader

struct P<'a> {
    s: &'a str,
    p: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn until(&mut self, t: &str) -> R<&'a str> {
        let i = self
            .rest()
            .find(t)
            .ok_or_else(|| format!("XML: no {t:?} after byte {}", self.p))?;
        let r = &self.rest()[..i];
        self.p += i + t.len();
        Ok(r)
    }
    fn ws(&mut self) -> bool {
        let n = self.rest().len()
            - self
                .rest()
                .trim_start_matches([' ', '\t', '\n', '\r'])
                .len();
        self.p += n;
        n > 0
    }
    fn name(&mut self) -> R<String> {
        let end = self
            .rest()
            .find(|c: char| !(c.is_alphanumeric() || "_:-.".contains(c)))
            .unwrap_or(self.rest().len());
        if end == 0 {
            return Err(format!("XML: name expected at byte {}", self.p));
        }
        let n = self.rest()[..end].to_string();
        self.p += end;
        Ok(n)
    }
    fn reference(&mut self) -> R<char> {
        let r = self.until(";")?;
        let c = match r {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = r.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                n.and_then(char::from_u32)
                    .filter(|c| is_xml_char(*c))
                    .ok_or_else(|| format!("XML: bad reference &{};", crate::engine::short(r, 40)))?
            }
        };
        Ok(c)
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.eat("<!--") {
                self.comment()?;
            } else if self.rest().starts_with("<?") {
                self.p += 2;
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        let c = self.until("--")?;
        let _ = c;
        if !self.eat(">") {
            return Err("XML: -- in comment".into());
        }
        Ok(())
    }
    fn element(&mut self, depth: usize) -> R<El> {
        if depth > 5000 {
            return Err("XML: too deep".into());
        }
        if !self.eat("<") {
            return Err(format!("XML: element expected at byte {}", self.p));
        }
        let mut e = El::new(&self.name()?);
        loop {
            let sp = self.ws();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            if !sp {
                return Err(format!("XML: bad tag at byte {}", self.p));
            }
            let k = self.name()?;
            self.ws();
            if !self.eat("=") {
                return Err(format!("XML: bad attribute at byte {}", self.p));
            }
            self.ws();
            let q = if self.eat("\"") {
                '"'
            } else if self.eat("'") {
                '\''
            } else {
                return Err(format!("XML: unquoted attribute at byte {}", self.p));
            };
            let mut v = String::new();
            loop {
                let c = self.rest().chars().next().ok_or("XML: ends in attribute")?;
                self.p += c.len_utf8();
                match c {
                    c if c == q => break,
                    '<' => return Err("XML: < in attribute".into()),
                    '&' => v.push(self.reference()?),
                    '\n' | '\t' | '\r' => v.push(' '),
                    c => v.push(c),
                }
            }
            if e.attrs.iter().any(|(n, _)| *n == k) {
                return Err(format!("XML: attribute {k} twice"));
            }
            e.attrs.push((k, v));
        }
        let mut text = String::new();
        loop {
            let Some(c) = self.rest().chars().next() else {
                return Err(format!("XML: ends inside element {}", e.name));
            };
            if c == '<' {
                let r = self.rest();
                if r.starts_with("</") {
                    self.p += 2;
                    let n = self.name()?;
                    self.ws();
                    if n != e.name || !self.eat(">") {
                        return Err(format!("XML: </{n}> closes <{}>", e.name));
                    }
                    if !text.is_empty() {
                        e.kids.push(Node::Text(text));
                    }
                    return Ok(e);
                } else if r.starts_with("<!--") {
                    self.p += 4;
                    self.comment()?;
                } else if r.starts_with("<![CDATA[") {
                    self.p += 9;
                    text.push_str(&line_ends(self.until("]]>")?));
                } else if r.starts_with("<?") {
                    self.p += 2;
                    self.until("?>")?;
                } else {
                    if !text.is_empty() {
                        e.kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    let c = self.element(depth + 1)?;
                    e.add(c);
                }
            } else if c == '&' {
                self.p += 1;
                text.push(self.reference()?);
            } else {
                let r = self.rest();
                let end = r.find(['<', '&']).unwrap_or(r.len());
                let run = &r[..end];
                if run.contains("]]>") {
                    return Err("XML: ]]> in text".into());
                }
                text.push_str(&line_ends(run));
                self.p += end;
            }
        }
    }
}

fn line_ends(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}

/// Strict enough to call a document well-formed XML 1.0 without a DTD.
pub fn parse_tree(data: &[u8]) -> R<El> {
    let s = std::str::from_utf8(data).map_err(|_| "XML: not UTF-8")?;
    let s = s.strip_prefix('\u{FEFF}').unwrap_or(s);
    if let Some(c) = s.chars().find(|c| !is_xml_char(*c)) {
        return Err(format!("XML: character {c:?} is not allowed"));
    }
    let mut p = P { s, p: 0 };
    p.misc()?;
    let e = p.element(0)?;
    p.misc()?;
    if !p.rest().is_empty() {
        return Err(format!("XML: content after the root element at byte {}", p.p));
    }
    Ok(e)
}

/// Decrypt every protected element, in document order.
fn decrypt(e: &mut El, stream: &mut dyn StreamCipher) -> R<()> {
    if e.attrs
        .iter()
        .any(|(k, v)| k == "Protected" && v.eq_ignore_ascii_case("true"))
    {
        let mut b = BASE64_STANDARD
            .decode(e.full_text().trim())
            .map_err(|_| "protected value is not base64")?;
        stream.apply_keystream(&mut b);
        e.secret = Some(b);
    }
    for k in &mut e.kids {
        if let Node::El(c) = k {
            decrypt(c, stream)?;
        }
    }
    Ok(())
}

fn m_uuid(e: &El) -> R<u128> {
    let b = BASE64_STANDARD
        .decode(e.full_text().trim())
        .map_err(|_| "UUID is not base64")?;
    Ok(u128::from_be_bytes(b.try_into().map_err(|_| "UUID size")?))
}

fn m_time(e: &El) -> R<i64> {
    let t = e.full_text();
    let b = BASE64_STANDARD
        .decode(t.trim())
        .map_err(|_| format!("time {t:?} is not base64"))?;
    Ok(i64::from_le_bytes(b.try_into().map_err(|_| "time size")?))
}

fn m_bool(e: &El) -> R<bool> {
    match e.full_text().trim().to_lowercase().as_str() {
        "true" => Ok(true),
        "false" => Ok(false),
        x => Err(format!("boolean {x:?}")),
    }
}

fn m_field(e: &El) -> R<MField> {
    let key = e
        .els()
        .find(|c| c.name == "Key")
        .ok_or("field without key")?
        .full_text();
    let v = e
        .els()
        .find(|c| c.name == "Value")
        .ok_or("field without value")?;
    let (value, prot) = match &v.secret {
        Some(s) => (
            String::from_utf8(s.clone()).map_err(|_| format!("value of {key:?} decrypts to garbage"))?,
            true,
        ),
        None => (v.full_text(), false),
    };
    Ok(MField {
        key,
        value: Some(value).filter(|v| !v.is_empty()),
        prot,
    })
}

fn m_times(e: &El) -> R<MTimes> {
    let get = |n: &str| e.els().find(|c| c.name == n);
    let need = |n: &str| get(n).ok_or(format!("Times without {n}"));
    Ok(MTimes {
        t: [
            m_time(need("LastModificationTime")?)?,
            m_time(need("CreationTime")?)?,
            m_time(need("LastAccessTime")?)?,
            m_time(need("ExpiryTime")?)?,
            m_time(need("LocationChanged")?)?,
        ],
        nanos: 0,
        expires: get("Expires").map_or(Ok(false), m_bool)?,
        usage: get("UsageCount").map_or(Ok(0), |u| {
            u.full_text().trim().parse().map_err(|_| "UsageCount")
        })?,
    })
}

fn m_entry(e: &El) -> R<MEntry> {
    let one = |n: &str| {
        e.els()
            .find(|c| c.name == n)
            .ok_or(format!("Entry without {n}"))
    };
    let mut history = Vec::new();
    for h in e.els().filter(|c| c.name == "History") {
        for x in h.els().filter(|c| c.name == "Entry") {
            history.push(m_entry(x)?);
        }
    }
    Ok(MEntry {
        uuid: m_uuid(one("UUID")?)?,
        fields: e
            .els()
            .filter(|c| c.name == "String")
            .map(m_field)
            .collect::<R<_>>()?,
        history,
        times: m_times(one("Times")?)?,
    })
}

fn m_group(e: &El) -> R<MGroup> {
    let one = |n: &str| {
        e.els()
            .find(|c| c.name == n)
            .ok_or(format!("Group without {n}"))
    };
    Ok(MGroup {
        uuid: m_uuid(one("UUID")?)?,
        name: e
            .els()
            .find(|c| c.name == "Name")
            .map(|c| c.full_text())
            .unwrap_or_default(),
        entries: e
            .els()
            .filter(|c| c.name == "Entry")
            .map(m_entry)
            .collect::<R<_>>()?,
        groups: e
            .els()
            .filter(|c| c.name == "Group")
            .map(m_group)
            .collect::<R<_>>()?,
        times: m_times(one("Times")?)?,
    })
}

/// Read a document the way another client would. Absent and empty values are the same.
pub fn read(data: &[u8], stream: &mut dyn StreamCipher) -> R<MDb> {
    let mut f = parse_tree(data)?;
    decrypt(&mut f, stream)?;
    if f.name != "KeePassFile" {
        return Err(format!("root element {}", f.name));
    }
    let one = |e: &El, n: &str| -> R<El> {
        let mut it = e.els().filter(|c| c.name == n);
        let r = it.next().cloned().ok_or(format!("no {n} element"))?;
        if it.next().is_some() {
            return Err(format!("two {n} elements"));
        }
        Ok(r)
    };
    let meta = one(&f, "Meta")?;
    let text = |n: &str| {
        meta.els()
            .find(|c| c.name == n)
            .map(|c| c.full_text())
            .unwrap_or_default()
    };
    let mp = meta.els().find(|c| c.name == "MemoryProtection");
    let mut prot = [false; 5];
    if let Some(mp) = mp {
        for (i, n) in [
            "ProtectTitle",
            "ProtectUserName",
            "ProtectPassword",
            "ProtectURL",
            "ProtectNotes",
        ]
        .iter()
        .enumerate()
        {
            if let Some(c) = mp.els().find(|c| c.name == *n) {
                prot[i] = m_bool(c)?;
            }
        }
    }
    let mut custom = Vec::new();
    for cd in meta.els().filter(|c| c.name == "CustomData") {
        for i in cd.els().filter(|c| c.name == "Item") {
            custom.push(m_field(i)?);
        }
    }
    let root = one(&f, "Root")?;
    Ok(MDb {
        meta: MMeta {
            generator: text("Generator"),
            name: text("DatabaseName"),
            desc: text("DatabaseDescription"),
            custom,
            mp: prot,
        },
        root: m_group(&one(&root, "Group")?)?,
    })
}
