//! The command-line tools.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

struct Out {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

fn tool(name: &str, dir: &Path, args: &[&std::ffi::OsStr]) -> Out {
    let exe = PathBuf::from(std::env::var_os("VERIF_TOOLS").expect("VERIF_TOOLS")).join(name);
    let o = std::process::Command::new(&exe)
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_BACKTRACE")
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap_or_else(|e| panic!("running {}: {e}", exe.display()));
    Out {
        code: o.status.code(),
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).to_string(),
    }
}

/// A directory of its own for every case.
struct Dir(PathBuf);

impl Dir {
    fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = scratch().join(format!("tools-{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("create scratch directory");
        Dir(p)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const NAMES: [&str; 4] = ["kdbx-decrypt", "kdbx-parse", "kdbx-dump-header", "kdbx-generate"];

/// The tool gave up with a message.
fn gave_up(name: &str, what: &str, o: &Out) -> Verdict {
    match o.code {
        None | Some(101) => return Err(format!("{name} crashed on {what}: {}", short(&o.err, 300))),
        Some(0) => return Err(format!("{name} reports success on {what}, and prints {}", short(&String::from_utf8_lossy(&o.out), 200))),
        _ => {}
    }
    if o.err.trim().is_empty() {
        return Err(format!("{name} says nothing about {what}"));
    }
    let content: Vec<&str> = std::str::from_utf8(&o.out)
        .unwrap_or("not text")
        .lines()
        .filter(|l| !l.starts_with("Malformed field: "))
        .collect();
    if !content.is_empty() {
        return Err(format!("{name} prints {} on {what}", short(&content.join("\n"), 200)));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    pw: String,
    wrong: String,
    lay: Layout,
    v3: bool,
    file: String,
    bulk: usize,
    damage: usize,
    seed: u64,
    style: Style,
    /// What follows the document.
    tail: String,
}

struct Made {
    data: Vec<u8>,
    xml: Vec<u8>,
    head: usize,
    set: Settings,
}

fn make(c: &Case) -> Made {
    let mut db = c.db.clone();
    if c.bulk > 0 {
        db.root.name = "x<y ".repeat(c.bulk);
    }
    let mut set = c.set.clone();
    if c.v3 {
        if let RKdf::Argon2 { salt, .. } = &set.kdf {
            let mut salt = salt.clone();
            salt.resize(32, 1);
            set.kdf = RKdf::Aes { rounds: 3, salt };
        }
    }
    let creds = Creds::pw(&c.pw);
    let mut xml = render(&db, &c.style, &set, None);
    xml.extend(c.tail.bytes());
    let (data, head) = if c.v3 {
        let mut f = V3::simple(&set, &creds, &[1; 32], xml.clone());
        f.fields = c.lay.v3_fields(&set, &[1; 32]);
        f.minor = c.lay.minor;
        (f.encode(), f.header().len())
    } else {
        let f = c.lay.v4(&set, &creds, xml.clone());
        (f.encode(), f.header().len() + 64)
    };
    Made { data, xml, head, set }
}

fn line<'a>(t: &'a str, label: &str) -> Result<&'a str, String> {
    let mut it = t.lines().filter_map(|l| l.strip_prefix(label));
    let l = it.next().ok_or(format!("the header tool does not print {label}"))?;
    if it.next().is_some() {
        return Err(format!("the header tool prints {label} twice"));
    }
    Ok(l.trim())
}

fn bytes(l: &str) -> Option<Vec<u8>> {
    let l = l.strip_prefix('[')?.strip_suffix(']')?;
    if l.is_empty() {
        return Some(vec![]);
    }
    l.split(", ").map(|n| n.parse().ok()).collect()
}

fn check_header(t: &str, c: &Case, m: &Made) -> Verdict {
    let is = |label: &str, want: String| -> Verdict {
        let got = line(t, label)?;
        if got != want {
            return Err(format!("the header tool prints {label} {got}, expected {want}"));
        }
        Ok(())
    };
    let is_bytes = |label: &str, want: &[u8]| -> Verdict {
        let got = line(t, label)?;
        if bytes(got).as_deref() != Some(want) {
            return Err(format!("the header tool prints {label} {got}, expected {want:?}"));
        }
        Ok(())
    };
    is("Version:", format!("{}.{}", if c.v3 { 3 } else { 4 }, c.lay.minor).to_string())?;
    is("Cipher:", format!("{:?}", m.set.cipher))?;
    is("Compression:", if m.set.gzip { "Gzip" } else { "None" }.into())?;
    is_bytes("Master Seed:", &m.set.seed)?;
    is_bytes("Encryption IV:", &m.set.iv)?;
    match &m.set.kdf {
        RKdf::Argon2 {
            id,
            version,
            memory,
            iterations,
            lanes,
            salt,
        } => {
            is("KDF:", "Argon2".into())?;
            is("\tVariant:", if *id { "Argon2id" } else { "Argon2d" }.into())?;
            is("\tLanes:", lanes.to_string())?;
            is("\tMemory:", format!("{memory} bytes ({}kib)", memory / 1024))?;
            is("\tIterations:", iterations.to_string())?;
            is_bytes("\tSalt:", salt)?;
            is("\tVersion:", version.to_string())?;
        }
        RKdf::Aes { rounds, salt } => {
            is("KDF:", "AES".into())?;
            is("\tRounds:", rounds.to_string())?;
            is_bytes("\tSalt:", salt)?;
        }
    }
    let k = lib_api::open(&m.data)?;
    is("Other headers:", format!("{:?}", k.header().other_headers))
}

fn run_archive(c: &Case, ctx: &mut Ctx) -> Verdict {
    let m = make(c);
    let dir = Dir::new();
    std::fs::write(dir.0.join(&c.file), &m.data).expect("write archive");
    ctx.nt();
    ctx.label(if c.v3 { "v3" } else { "v4" });
    ctx.label_if(c.pw.is_empty(), "empty password");
    ctx.label_if(!c.pw.is_ascii(), "password not ASCII");
    let f = std::ffi::OsStr::new(&c.file);
    let pw = std::ffi::OsStr::new(&c.pw);

    let o = tool(NAMES[0], &dir.0, &[f, pw]);
    if o.code != Some(0) {
        return Err(format!("kdbx-decrypt fails: {:?} {}", o.code, short(&o.err, 300)));
    }
    if o.out.strip_suffix(b"\n") != Some(&m.xml) {
        return Err(format!(
            "kdbx-decrypt prints {} bytes, the document has {}: {}",
            o.out.len(),
            m.xml.len(),
            short(&String::from_utf8_lossy(&o.out), 200)
        ));
    }
    let lib = lib_api::unlock(&m.data, &Creds::pw(&c.pw))?;
    let o = tool(NAMES[1], &dir.0, &[f, pw]);
    if o.code != Some(0) {
        return Err(format!("kdbx-parse fails: {:?} {}", o.code, short(&o.err, 300)));
    }
    let want = format!("{:#?}\n", lib.database());
    if o.out != want.as_bytes() {
        return Err(format!("kdbx-parse prints {}, the library reads {}", short(&String::from_utf8_lossy(&o.out), 300), short(&want, 300)));
    }
    // With and without a password
    for args in [&[f][..], &[f, pw]] {
        let o = tool(NAMES[2], &dir.0, args);
        if o.code != Some(0) {
            return Err(format!("kdbx-dump-header fails: {:?} {}", o.code, short(&o.err, 300)));
        }
        let t = String::from_utf8(o.out).map_err(|_| "kdbx-dump-header does not print text")?;
        check_header(&t, c, &m)?;
    }
    // No tool touches the archive
    if std::fs::read(dir.0.join(&c.file)).expect("read archive") != m.data || std::fs::read_dir(&dir.0).expect("list").count() != 1 {
        return Err("a tool that only reads changed files".into());
    }
    Ok(())
}

fn run_failure(c: &Case, ctx: &mut Ctx) -> Verdict {
    let m = make(c);
    let dir = Dir::new();
    let f = std::ffi::OsStr::new(&c.file);
    let pw = std::ffi::OsStr::new(&c.pw);
    let wrong = std::ffi::OsStr::new(&c.wrong);
    ctx.nt();
    // Nothing there
    for n in &NAMES[..3] {
        gave_up(n, "a file that does not exist", &tool(n, &dir.0, &[f, pw]))?;
        gave_up(n, "a directory", &tool(n, &dir.0, &[".".as_ref(), pw]))?;
    }
    std::fs::write(dir.0.join(&c.file), &m.data).expect("write archive");
    if c.wrong != c.pw {
        ctx.label("wrong password");
        for n in &NAMES[..2] {
            gave_up(n, "a wrong password", &tool(n, &dir.0, &[f, wrong]))?;
        }
    }
    if c.pw != "kdbxrs" {
        for n in &NAMES[..2] {
            let o = tool(n, &dir.0, &[f]);
            if !String::from_utf8_lossy(&o.out).contains("sage") {
                gave_up(n, "a missing password", &o)?;
            }
        }
    }
    // Damaged after the header, so that only the content is in doubt
    let mut d = m.data.clone();
    let mut tail = d.split_off(m.head);
    match c.damage % 3 {
        0 => tail.truncate(Rng(c.seed).below(tail.len())),
        1 => {
            let i = Rng(c.seed).below(tail.len());
            tail[i] ^= 1 << (c.seed % 8);
        }
        _ => tail.clear(),
    }
    d.extend(tail);
    std::fs::write(dir.0.join(&c.file), &d).expect("write archive");
    // Where the library reads it all the same, so may the tools
    if lib_api::unlock(&d, &Creds::pw(&c.pw)).is_err() {
        ctx.label("damaged");
        for n in &NAMES[..2] {
            gave_up(n, "a damaged archive", &tool(n, &dir.0, &[f, pw]))?;
        }
    }
    // Anything at all
    let mut d = m.data.clone();
    mutate_bytes(&mut d, &mut Rng(c.seed), c.damage % 5);
    if c.damage % 2 == 0 {
        d.truncate(Rng(c.seed ^ 1).below(m.head));
    }
    let ok = lib_api::open(&d);
    if ok.is_err() {
        ctx.label("not an archive");
        std::fs::write(dir.0.join(&c.file), &d).expect("write archive");
        for n in &NAMES[..3] {
            gave_up(n, "something that is no archive", &tool(n, &dir.0, &[f, pw]))?;
        }
    }
    Ok(())
}

fn run_usage(c: &Vec<String>, ctx: &mut Ctx) -> Verdict {
    let dir = Dir::new();
    ctx.nt();
    for n in &NAMES[..3] {
        let o = tool(n, &dir.0, &[]);
        if matches!(o.code, None | Some(101)) {
            return Err(format!("{n} crashes without arguments"));
        }
        let all = String::from_utf8_lossy(&o.out).to_string() + &o.err;
        if !all.contains("sage") {
            return Err(format!("{n} without arguments prints {}", short(&all, 200)));
        }
        // Names of files that are not there
        let args: Vec<&std::ffi::OsStr> = c.iter().map(|s| s.as_ref()).collect();
        if !args.is_empty() {
            let o = tool(n, &dir.0, &args);
            if matches!(o.code, None | Some(101)) {
                return Err(format!("{n} crashes with the arguments {c:?}: {}", short(&o.err, 200)));
            }
            let all = String::from_utf8_lossy(&o.out).to_string() + &o.err;
            if all.trim().is_empty() {
                return Err(format!("{n} says nothing with the arguments {c:?}"));
            }
        }
    }
    Ok(())
}

/// Settings the library does not know are shown, too.
fn run_foreign(c: &(Settings, [u8; 16], [u8; 16], u32, String), ctx: &mut Ctx) -> Verdict {
    let (s, cipher, kdf, comp, pw) = c;
    let creds = Creds::pw(pw);
    ctx.nt();
    let mut f = V4::simple(s, &creds, b"<KeePassFile/>".to_vec());
    f.fields[0].1 = cipher.to_vec();
    f.fields[1].1 = comp.to_le_bytes().to_vec();
    let mut d = s.kdf.dict(true);
    d[0].2 = kdf.to_vec();
    f.fields[4].1 = write_dict(&d);
    let dir = Dir::new();
    std::fs::write(dir.0.join("x.kdbx"), f.encode()).expect("write archive");
    let o = tool(NAMES[2], &dir.0, &["x.kdbx".as_ref()]);
    let t = String::from_utf8_lossy(&o.out).to_string();
    if o.code != Some(0) {
        return Err(format!("kdbx-dump-header fails: {:?} {}", o.code, short(&o.err, 300)));
    }
    let u = |b: &[u8; 16]| uuid::Uuid::from_bytes(*b).to_string();
    for (label, want) in [("Cipher:", u(cipher)), ("Compression:", comp.to_string()), ("KDF:", u(kdf))] {
        let l = line(&t, label)?;
        if !l.contains("Unknown") || !l.contains(&want) {
            return Err(format!("the header tool prints {label} {l} for {want}"));
        }
    }
    for n in &NAMES[..2] {
        gave_up(n, "an archive with unknown settings", &tool(n, &dir.0, &["x.kdbx".as_ref(), pw.as_ref()]))?;
    }
    Ok(())
}

/// Headers are shown whatever it would cost to derive a key.
fn run_costly(c: &(Settings, Layout, RKdf), ctx: &mut Ctx) -> Verdict {
    let (s, lay, kdf) = c;
    ctx.nt();
    let creds = Creds::pw("x");
    // Made with a cheap KDF, the checksum of the header is all that has to fit
    let cheap = lay.v4(s, &creds, b"<KeePassFile/>".to_vec());
    let mut set = s.clone();
    set.kdf = kdf.clone();
    let dear = lay.v4(&set, &creds, vec![]);
    let head = dear.header();
    let mut data = head.clone();
    data.extend(sha256(&head));
    data.extend(&cheap.encode()[cheap.header().len() + 32..]);
    let case = Case {
        db: MDb::from_lib(&kdbx_rs::Database::default()),
        set: set.clone(),
        pw: "x".into(),
        wrong: String::new(),
        lay: lay.clone(),
        v3: false,
        file: "x.kdbx".into(),
        bulk: 0,
        damage: 0,
        seed: 0,
        style: Style::plain(),
        tail: String::new(),
    };
    let m = Made { data, xml: vec![], head: head.len() + 64, set };
    let dir = Dir::new();
    std::fs::write(dir.0.join(&case.file), &m.data).expect("write archive");
    let o = tool(NAMES[2], &dir.0, &["x.kdbx".as_ref()]);
    if o.code != Some(0) {
        return Err(format!("kdbx-dump-header fails: {:?} {}", o.code, short(&o.err, 300)));
    }
    let t = String::from_utf8(o.out).map_err(|_| "kdbx-dump-header does not print text")?;
    check_header(&t, &case, &m)
}

fn run_generate(old: &usize, ctx: &mut Ctx) -> Verdict {
    let dir = Dir::new();
    let p = dir.0.join("kdbx_rs.kdbx");
    ctx.nt();
    if *old > 0 {
        ctx.label("file exists");
        std::fs::write(&p, vec![7u8; *old]).expect("write old file");
    }
    let o = tool(NAMES[3], &dir.0, &[]);
    if o.code != Some(0) {
        return Err(format!("kdbx-generate fails: {:?} {}", o.code, short(&o.err, 300)));
    }
    let data = std::fs::read(&p).map_err(|e| format!("kdbx-generate writes no archive: {e}"))?;
    let creds = Creds::pw("kdbxrs");
    let d = decode_v4(&data, &creds).map_err(|e| format!("the generated archive is not readable: {e}"))?;
    let (_, got) = lib_api::load(&data, &creds).map_err(|e| format!("the generated archive: {e}"))?;
    let want = crate::refxml::read(&d.xml, &mut *d.inner.stream(&d.inner_key)).map_err(|e| format!("the generated archive: {e}"))?;
    same_db(&as_read(&want), &got)?;
    let n = got.count();
    if n.entries != 1 || n.groups != 1 {
        return Err(format!("the generated archive has {} groups and {} entries", n.groups, n.entries));
    }
    let o = tool(NAMES[0], &dir.0, &["kdbx_rs.kdbx".as_ref(), "kdbxrs".as_ref()]);
    if o.code != Some(0) || o.out.strip_suffix(b"\n") != Some(&d.xml) {
        return Err("kdbx-decrypt does not print the document of the generated archive".into());
    }
    Ok(())
}

fn costly() -> S<RKdf> {
    let n = || {
        prop_oneof![
            3 => any::<u64>(),
            2 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(1)),
            1 => Just(u64::MAX),
        ]
    };
    prop_oneof![
        1 => (n(), secret_bytes(32)).prop_map(|(rounds, salt)| RKdf::Aes { rounds, salt }),
        2 => (any::<bool>(), select(vec![0x10u32, 0x13]), n(), n(), n(), vec(any::<u8>(), 8..300))
            .prop_map(|(id, version, memory, iterations, lanes, salt)| RKdf::Argon2 {
                id,
                version,
                memory,
                iterations,
                lanes: lanes as u32,
                salt,
            }),
    ]
    .boxed()
}

fn pw() -> S<String> {
    prop_oneof![
        2 => password().prop_map(|p| p.replace('\0', "x")),
        1 => select(vec!["", " ", "kdbxrs", "-h", "--help", "-", "--", "kdbxrs ", "é", "e\u{301}", "パスワード", "\u{1F511}", "a\nb", "%s", "$HOME", "'\"\\"])
            .prop_map(|s| s.to_string()),
    ]
    .boxed()
}

fn case() -> S<Case> {
    (
        small_db(),
        prop_oneof![2 => cheap_settings(), 1 => settings()],
        pw(),
        prop_oneof![3 => pw(), 1 => Just("\u{0}".to_string())],
        layout(),
        proptest::bool::weighted(0.35),
        select(vec!["a.kdbx", "with space.kdbx", "é.kdbx", "x", "a.kdbx.bak", "パス"]),
        prop_oneof![6 => Just(0usize), 1 => 1usize..60000],
        0usize..1000,
        (any::<u64>(), style(), select(vec!["", "", "\n", "\n\n", " ", "\t \n", "\n<!-- end -->\n", "\r\n"])),
    )
        .prop_map(|(db, set, pw, wrong, lay, v3, file, bulk, damage, (seed, mut style, tail))| {
            if bulk > 0 {
                style = Style::plain();
            }
            // A wrong password that is close
            let wrong = if wrong == "\u{0}" { format!("{pw} ") } else { wrong };
            Case {
                db,
                set,
                pw,
                wrong,
                lay,
                v3,
                file: file.into(),
                bulk,
                damage,
                seed,
                style,
                tail: tail.into(),
            }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C22",
        level: "exploration",
        rule: "the tools were run",
        assumptions: &[
            "arguments are Unicode and documents UTF-8",
            "without a password argument the tools may try their default password",
            "the lines \"Malformed field\" the library prints are not content",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "archives",
                quick: 2500,
                thorough: 25_000,
                strategy: |_| case(),
                run: run_archive,
                need: &["v3", "v4", "empty password", "password not ASCII"],
            }),
            Box::new(Scn {
                name: "failures",
                quick: 1200,
                thorough: 12_000,
                strategy: |_| case(),
                run: run_failure,
                need: &["wrong password", "damaged", "not an archive"],
            }),
            Box::new(Scn {
                name: "arguments",
                quick: 300,
                thorough: 3000,
                strategy: |_| vec(prop_oneof![pw(), "[a-z/.-]{1,10}"], 0..4).boxed(),
                run: run_usage,
                need: &[],
            }),
            Box::new(Scn {
                name: "unknown settings",
                quick: 400,
                thorough: 4000,
                strategy: |_| (cheap_settings(), any::<[u8; 16]>(), any::<[u8; 16]>(), 2u32..=u32::MAX, pw()).boxed(),
                run: run_foreign,
                need: &[],
            }),
            Box::new(Scn {
                name: "costly settings",
                quick: 800,
                thorough: 8000,
                strategy: |_| (cheap_settings(), layout(), costly()).boxed(),
                run: run_costly,
                need: &[],
            }),
            Box::new(Scn {
                name: "generate",
                quick: 6,
                thorough: 20,
                strategy: |_| prop_oneof![Just(0usize), 1usize..20_000].boxed(),
                run: run_generate,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
