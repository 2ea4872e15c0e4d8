//! Memory used to open a file is bounded by the size of the file.
use super::common::*;
use crate::alloc::peak_of;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Allowed: this much, and for every byte of the file (or of the decompressed content) so
/// much more. An empty element of a few bytes becomes an entry with its times, and growing
/// vectors hold up to three times what they need.
const BASE: usize = 1 << 20;
const FACTOR: usize = 8;
const FACTOR_XML: usize = 100;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    lay: Layout,
    bulk: Bulk,
    v3: bool,
    /// Where the lie is: 0 no lie, 1 outer header field, 2 dictionary, 3 data block,
    /// 4 inner header field, 5 several of them
    place: u8,
    lie: u32,
    which: u64,
    /// Cut the file off after the lie.
    cut: bool,
}

fn measure(data: &[u8], creds: &Creds, content: usize, ctx: &mut Ctx) -> Verdict {
    let (res, peak) = peak_of(|| match kdbx_rs::from_reader(data) {
        Ok(k) => {
            if affordable(&k.header().kdf_params) {
                match k.unlock(&creds.to_lib()) {
                    Ok(_) => 2,
                    Err(_) => 1,
                }
            } else {
                1
            }
        }
        Err(_) => 0,
    });
    ctx.label(["refused when opened", "refused when unlocked", "unlocked"][res]);
    let limit = BASE + FACTOR * data.len() + FACTOR_XML * content;
    if peak > limit {
        return Err(format!(
            "{peak} bytes of memory used for a file of {} bytes (content {content} bytes)",
            data.len()
        ));
    }
    Ok(())
}

fn lie_at(d: &mut [u8], at: usize, width: usize, lie: u32) {
    d[at..at + width].copy_from_slice(&lie.to_le_bytes()[..width]);
}

/// Offsets of the length fields of a list of fields starting at `p`.
fn length_offsets(fields: &Fields, mut p: usize, width: usize, end: bool) -> Vec<usize> {
    let mut v = Vec::new();
    for (_, d) in fields {
        v.push(p + 1);
        p += 1 + width + d.len();
    }
    if end {
        v.push(p + 1);
    }
    v
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut r = Rng(c.which);
    let mut db = c.db.clone();
    if c.bulk.len > 0 {
        db.root.entries.push(MEntry {
            uuid: 5,
            fields: vec![MField::new("bulk", &c.bulk.text(), c.bulk.seed % 2 == 0)],
            history: vec![],
            times: MTimes::zero(),
        });
    }
    let xml = render(&db, &Style::plain(), &c.set, None);
    // What is really in the file, once decompressed
    let content = xml.len() + 1000;
    ctx.nt_if(c.place != 0);
    ctx.label(&format!("v{} place {}", if c.v3 { 3 } else { 4 }, c.place));
    let has = |n: u8| c.place == n || c.place == 5;
    let mut data;
    if c.v3 {
        let mut f = V3::simple(&c.set, &c.creds, &[7; 32], xml);
        f.fields = c.lay.v3_fields(&c.set, &[7; 32]);
        f.block_sizes = c.lay.blocks.clone();
        let mut plain = f.plain();
        if has(3) || c.place == 2 || c.place == 4 {
            // Block lengths: 32 start bytes, then id, hash, length
            let mut at = vec![];
            let mut p = 32;
            while p + 40 <= plain.len() {
                at.push(p + 36);
                let n = u32::from_le_bytes(plain[p + 36..p + 40].try_into().unwrap()) as usize;
                p += 40 + n;
            }
            let at = *r.pick(&at);
            lie_at(&mut plain, at, 4, c.lie);
            if c.cut {
                plain.truncate(at + 4 + r.below(20));
            }
        }
        let head = f.header();
        data = f.encode_plain(&plain);
        if has(1) {
            let at = *r.pick(&length_offsets(&f.fields, 12, 2, true));
            lie_at(&mut data, at, 2, c.lie);
            if c.cut {
                data.truncate((at + 2 + r.below(20)).min(head.len()));
            }
        }
    } else {
        let mut f = c.lay.v4(&c.set, &c.creds, xml);
        if has(2) {
            let mut d = c.set.kdf.dict(c.lay.aes4);
            d.extend(c.lay.dict.iter().cloned());
            let mut b = write_dict(&d);
            let mut at = Vec::new();
            let mut p = 2;
            for (k, _, v) in &d {
                at.push(p + 1);
                at.push(p + 5 + k.len());
                p += 9 + k.len() + v.len();
            }
            let at = *r.pick(&at);
            lie_at(&mut b, at, 4, c.lie);
            f.fields.iter_mut().filter(|x| x.0 == 0xB).for_each(|x| x.1 = b.clone());
        }
        let mut payload = f.payload();
        if has(4) {
            let at = *r.pick(&length_offsets(&f.inner_fields, 0, 4, true));
            lie_at(&mut payload, at, 4, c.lie);
            if c.cut {
                payload.truncate(at + 4 + r.below(20));
            }
        }
        let keys = f.keys();
        data = f.encode_payload(&keys, &payload);
        let head = f.header().len();
        if has(3) {
            let mut at = vec![];
            let mut p = head + 64;
            while p + 36 <= data.len() {
                at.push(p + 32);
                let n = u32::from_le_bytes(data[p + 32..p + 36].try_into().unwrap()) as usize;
                p += 36 + n;
            }
            let at = *r.pick(&at);
            lie_at(&mut data, at, 4, c.lie);
            if c.cut {
                data.truncate(at + 4 + r.below(20));
            }
        }
        if has(1) {
            let at = *r.pick(&length_offsets(&f.fields, 12, 4, true));
            lie_at(&mut data, at, 4, c.lie);
            if c.cut {
                data.truncate((at + 4 + r.below(20)).min(head));
            }
        }
    }
    // A file that was cut can still hold all of its content if that is compressed
    let content = if c.place == 0 || !c.cut || c.set.gzip { content } else { content.min(data.len() * 4) };
    measure(&data, &c.creds, content, ctx)
}

/// Only the beginning of a file, with one absurd length in it.
fn run_head(c: &(bool, u8, u32, Vec<u8>), ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let mut d = MAGIC.to_vec();
    d.extend([1, 0, if c.0 { 3 } else { 4 }, 0]);
    d.push(c.1);
    if c.0 {
        d.extend(&c.2.to_le_bytes()[..2]);
    } else {
        d.extend(c.2.to_le_bytes());
    }
    d.extend(&c.3);
    measure(&d, &Creds::pw("x"), 0, ctx)
}

/// Documents that are expensive for their size.
fn run_dense(c: &(u8, usize), ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let unit = ["<Entry/>", "<Group/>", "<String><Key>k</Key><Value/></String>", "<Entry><History><Entry/></History></Entry>"]
        [c.0 as usize % 4];
    let body = unit.repeat(c.1);
    let xml = match c.0 % 4 {
        2 => format!("<KeePassFile><Root><Group><Entry>{body}</Entry></Group></Root></KeePassFile>"),
        _ => format!("<KeePassFile><Root><Group>{body}</Group></Root></KeePassFile>"),
    };
    let (_, peak) = peak_of(|| {
        let _ = kdbx_rs::xml::parse_xml(xml.as_bytes(), &mut kdbx_rs::utils::NullStreamCipher);
    });
    if peak > BASE + FACTOR_XML * xml.len() {
        return Err(format!("{peak} bytes of memory used for a document of {} bytes", xml.len()));
    }
    ctx.note = Some(format!("{} bytes of XML, {peak} bytes of memory", xml.len()));
    Ok(())
}

/// Small documents with absurd numbers in them.
fn run_numbers(c: &(u8, u64, String), ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let n = match c.0 % 3 {
        0 => c.1.to_string(),
        1 => (c.1 >> 32).to_string(),
        _ => (c.1 % (1 << 26)).to_string(),
    };
    let num = |name: &str| format!("<{name}>{n}</{name}>");
    let meta: String = ["MaintenanceHistoryDays", "MasterKeyChangeRec", "MasterKeyChangeForce", "HistoryMaxItems", "HistoryMaxSize", "SettingsChanged"]
        .iter()
        .map(|s| num(s))
        .collect();
    let times: String = ["UsageCount", "CreationTime", "ExpiryTime"][..if c.0 > 200 { 3 } else { 1 }].iter().map(|s| num(s)).collect();
    let otp = format!("<String><Key>otp</Key><Value>key={}&amp;size={n}&amp;step={n}</Value></String>", c.2);
    let xml = format!(
        "<KeePassFile><Meta>{meta}<Binaries><Binary ID=\"{n}\">AAAA</Binary></Binaries></Meta><Root><Group>{icon}<Times>{times}</Times><Entry>{icon}<Times>{times}</Times>{otp}<Binary><Key>a</Key><Value Ref=\"{n}\"/></Binary><History><Entry>{icon}<Times>{times}</Times></Entry></History></Entry></Group></Root></KeePassFile>",
        icon = num("IconID")
    );
    let (ok, peak) = peak_of(|| match kdbx_rs::xml::parse_xml(xml.as_bytes(), &mut kdbx_rs::utils::NullStreamCipher) {
        Ok(d) => {
            if let Some(e) = d.root().recursive_entries().next() {
                let _ = e.otp().map(|o| (o.secret().map(|s| s.len()), o.period(), o.digits()));
            }
            true
        }
        Err(_) => false,
    });
    ctx.label(if ok { "numbers accepted" } else { "numbers refused" });
    if peak > BASE + FACTOR_XML * xml.len() {
        return Err(format!("{peak} bytes of memory used for a document of {} bytes with the number {n}", xml.len()));
    }
    Ok(())
}

fn lies() -> S<u32> {
    prop_oneof![
        3 => proptest::sample::select(vec![
            u32::MAX, 0x7FFF_FFFF, 0x8000_0000, 1 << 30, 1 << 28, 1 << 26, 64_000_000, 0xFFFF_FF00, 0x00FF_FFFF,
        ]),
        1 => any::<u32>(),
        1 => (24u32..32).prop_map(|b| 1 << b),
    ]
    .boxed()
}

fn case(len: S<usize>) -> S<Case> {
    (
        (small_db(), cheap_settings(), creds(), layout(), bulk(len)),
        (any::<bool>(), 0u8..6, lies(), any::<u64>(), any::<bool>()),
    )
        .prop_map(|((db, set, creds, mut lay, bulk), (v3, place, lie, which, cut))| {
            if v3 {
                lay.outer.retain(|(i, _)| *i != 12);
            }
            Case {
                db,
                set,
                creds,
                lay,
                bulk,
                v3,
                place,
                lie,
                which,
                cut,
            }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        rule: "a length in the file is a lie, or the file is expensive for its size",
        assumptions: &[
            "memory is what the allocator hands out to the thread that opens the file",
            "the constant is 1 MiB, the factors are 8 for the file and 100 for the XML in it",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "lies",
                quick: 40000,
                thorough: 800000,
                strategy: |_| case(Just(0usize).boxed()),
                run,
                need: &[
                    "v3 place 1", "v3 place 3", "v4 place 0", "v4 place 1", "v4 place 2", "v4 place 3", "v4 place 4",
                    "unlocked", "refused when opened", "refused when unlocked",
                ],
            }),
            Box::new(Scn {
                name: "large",
                quick: 120,
                thorough: 1200,
                strategy: |_| {
                    case(prop_oneof![3 => 100_000usize..600_000, 1 => 1_100_000usize..3_000_000].boxed())
                        .prop_map(|mut c| {
                            c.lay.blocks = if c.which % 3 == 0 { vec![0] } else { vec![1 << 20] };
                            c
                        })
                        .boxed()
                },
                run,
                need: &["unlocked"],
            }),
            Box::new(Scn {
                name: "heads",
                quick: 20000,
                thorough: 200000,
                strategy: |_| {
                    (any::<bool>(), 0u8..14, lies(), proptest::collection::vec(any::<u8>(), 0..40)).boxed()
                },
                run: run_head,
                need: &["refused when opened"],
            }),
            Box::new(Scn {
                name: "numbers in documents",
                quick: 20000,
                thorough: 200000,
                strategy: |_| (any::<u8>(), prop_oneof![1 => any::<u64>(), 1 => Just(u64::MAX), 2 => (any::<u64>(), 0u32..64).prop_map(|(n, s)| n >> s)], "[A-Z2-7]{0,20}").boxed(),
                run: run_numbers,
                need: &["numbers accepted", "numbers refused"],
            }),
            Box::new(Scn {
                name: "dense documents",
                quick: 40,
                thorough: 400,
                strategy: |_| (0u8..4, 1usize..20_000).boxed(),
                run: run_dense,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
