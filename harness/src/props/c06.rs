//! No altered or truncated KDBX 4 archive ever unlocks.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    /// Archives made by the library have 1 MiB blocks, reference archives any.
    saved: bool,
    lay: Layout,
    bulk: Option<Bulk>,
    /// Another archive to take pieces from.
    other_seed: Vec<u8>,
    other_creds: Creds,
    seed: u64,
    /// Bytes altered at most (every byte when the archive is smaller).
    limit: usize,
}

fn make(c: &Case, set: &Settings, creds: &Creds, xml_seed: u64) -> Vec<u8> {
    let mut db = c.db.clone();
    if let Some(b) = &c.bulk {
        db.root.entries.push(MEntry {
            uuid: 5,
            fields: vec![MField::new("bulk", &b.text(), false)],
            history: vec![],
            times: MTimes::zero(),
        });
    }
    if xml_seed != 0 {
        db.root.name = format!("other {xml_seed}");
    }
    if c.saved {
        lib_api::save(&db, set, creds).unwrap_or_default()
    } else {
        c.lay
            .v4(set, creds, render(&db, &Style::plain(), set, None))
            .encode()
    }
}

/// Opening or unlocking with the right credentials has to fail.
fn refused(c: &Case, orig: &[u8], data: &[u8], what: &dyn Fn() -> String) -> Verdict {
    if data.starts_with(orig) {
        // Bytes after the terminating block are not part of the archive
        return Ok(());
    }
    let Ok(k) = kdbx_rs::from_reader(data) else {
        return Ok(());
    };
    if !affordable(&k.header().kdf_params) {
        return Ok(());
    }
    match k.unlock(&c.creds.to_lib()) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{}: unlocked", what())),
    }
}

fn join(head: &[u8], blocks: &[&[u8]]) -> Vec<u8> {
    let mut v = head.to_vec();
    blocks.iter().for_each(|b| v.extend_from_slice(b));
    v
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let a = make(c, &c.set, &c.creds, 0);
    lib_api::unlock(&a, &c.creds)?;
    setting_classes(&c.set, ctx);
    let d = match decode_v4(&a, &c.creds) {
        Ok(d) => d,
        Err(e) if c.saved => return Err(format!("saved archive: {e}")),
        Err(e) => panic!("reference archive: {e}"),
    };
    ctx.nt();
    ctx.label_if(d.blocks.len() > 2, "several blocks");
    ctx.label_if(a.len() > 1 << 20, "more than 1 MiB");
    let mut r = Rng(c.seed);
    let all = a.len() <= c.limit;
    let n = a.len().min(c.limit);
    let pos = |i: usize, r: &mut Rng| {
        if all {
            i
        } else if r.pct(40) {
            // Header, signatures and block boundaries
            let mut v: Vec<usize> = (0..d.header_len + 64).collect();
            for (at, len) in &d.blocks {
                v.extend(*at..*at + 40);
                v.push(at + 35 + len);
            }
            (*r.pick(&v)).min(a.len() - 1)
        } else {
            r.below(a.len())
        }
    };
    let mut m = a.clone();
    for i in 0..n {
        let at = pos(i, &mut r);
        let x = if r.pct(60) { 1 << r.below(8) } else { 1 + r.below(255) as u8 };
        m[at] ^= x;
        refused(c, &a, &m, &|| format!("byte {at} of {} xor {x:#x}", a.len()))?;
        m[at] ^= x;
    }
    ctx.eval(n as u64);
    for i in 0..n {
        let len = if all { i } else { pos(i, &mut r) };
        refused(c, &a, &a[..len], &|| format!("cut to {len} of {} bytes", a.len()))?;
    }
    ctx.eval(n as u64);
    for i in 0..n / 2 {
        let at = pos(2 * i + r.below(2), &mut r).min(a.len() - 1);
        let mut m = a.clone();
        if r.pct(50) {
            let len = if r.pct(60) { 1 } else { 1 + r.below(64).min(a.len() - at - 1) };
            m.drain(at..at + len);
            refused(c, &a, &m, &|| format!("{len} bytes removed at {at}"))?;
        } else {
            let len = if r.pct(60) { 1 } else { 1 + r.below(64) };
            let junk = match r.below(3) {
                0 => vec![0; len],
                1 => r.bytes(len),
                _ => a[at..(at + len).min(a.len())].to_vec(),
            };
            m.splice(at..at, junk);
            refused(c, &a, &m, &|| format!("{len} bytes inserted at {at}"))?;
        }
    }
    ctx.eval(n as u64 / 2);

    // Blocks rearranged
    let head = d.header_len + 64;
    let parts = |data: &[u8], d: &Decoded| -> Vec<Vec<u8>> {
        d.blocks.iter().map(|(at, len)| data[*at..*at + 36 + *len].to_vec()).collect()
    };
    let own = parts(&a, &d);
    let nb = own.len();
    let try_blocks = |b: Vec<&[u8]>, what: &str| -> Verdict {
        refused(c, &a, &join(&a[..head], &b), &|| format!("{what} ({nb} blocks)"))
    };
    let refs: Vec<&[u8]> = own.iter().map(|b| &b[..]).collect();
    let mut k = 0;
    for i in 0..nb.min(12) {
        let mut b = refs.clone();
        b.remove(i);
        try_blocks(b, &format!("block {i} dropped"))?;
        let mut b = refs.clone();
        b.insert(i, refs[i]);
        if i + 1 < nb {
            // A second terminating block is beyond the end of the archive
            try_blocks(b, &format!("block {i} twice"))?;
        }
        try_blocks(refs[..i].to_vec(), &format!("only the first {i} blocks"))?;
        let mut b = refs[..i].to_vec();
        b.push(refs[nb - 1]);
        if i + 1 < nb {
            try_blocks(b, &format!("terminating block moved to {i}"))?;
        }
        for j in 0..i {
            if own[i] != own[j] {
                let mut b = refs.clone();
                b.swap(i, j);
                try_blocks(b, &format!("blocks {i} and {j} swapped"))?;
            }
            k += 1;
        }
        k += 4;
    }
    // A forged empty block, and joined blocks
    let zero = vec![0u8; 36];
    let mut b = refs[..nb - 1].to_vec();
    b.push(&zero);
    try_blocks(b, "terminating block with a zero HMAC")?;
    for i in 0..(nb - 1).min(6) {
        let mut b = refs[..i].to_vec();
        b.push(&zero);
        try_blocks(b, &format!("zeros from block {i} on"))?;
        let mut f = sha256(&own[i][36..]).to_vec();
        f.extend(&own[i][32..]);
        let mut b = refs.clone();
        b[i] = &f;
        try_blocks(b, &format!("plain hash on block {i}"))?;
        // Data divided differently with the old signatures
        let body = &own[i][36..];
        if body.len() > 1 {
            let (x, y) = body.split_at(1 + r.below(body.len() - 1));
            let mut p = own[i][..32].to_vec();
            p.extend((x.len() as u32).to_le_bytes());
            p.extend(x);
            let mut q = own[i][..32].to_vec();
            q.extend((y.len() as u32).to_le_bytes());
            q.extend(y);
            let mut b = refs.clone();
            b.splice(i..i + 1, [&p[..], &q[..]]);
            try_blocks(b, &format!("block {i} divided"))?;
        }
        k += 3;
    }
    ctx.eval(k + 1);

    // Pieces of other archives: same credentials and other seed, same seed and other
    // credentials, other content only in the blocks
    let mut s2 = c.set.clone();
    s2.seed = c.other_seed.clone();
    let others = [
        (make(c, &s2, &c.creds, 0), c.creds.clone(), "other seed"),
        (make(c, &c.set, &c.other_creds, 0), c.other_creds.clone(), "other credentials"),
        (make(c, &s2, &c.other_creds, 7), c.other_creds.clone(), "other seed and credentials"),
    ];
    for (o, oc, what) in &others {
        if *what != "other seed" && oc.composite() == c.creds.composite() || s2.seed == c.set.seed {
            continue;
        }
        let Ok(od) = decode_v4(o, oc) else { continue };
        let theirs = parts(o, &od);
        let tr: Vec<&[u8]> = theirs.iter().map(|b| &b[..]).collect();
        try_blocks(tr.clone(), &format!("blocks of an archive with {what}"))?;
        for i in 0..nb.min(tr.len()).min(8) {
            let mut b = refs.clone();
            b[i] = tr[i];
            try_blocks(b, &format!("block {i} of an archive with {what}"))?;
            let mut b = refs[..i].to_vec();
            b.push(tr[tr.len() - 1]);
            try_blocks(b, &format!("ended at {i} with a block of an archive with {what}"))?;
        }
        let mut b = refs.clone();
        b[nb - 1] = tr[tr.len() - 1];
        try_blocks(b, &format!("terminating block of an archive with {what}"))?;
        // Header and signature exchanged
        let oh = od.header_len + 64;
        if &o[..oh] != &a[..head] {
            refused(c, &a, &join(&o[..oh], &refs), &|| format!("header of an archive with {what}"))?;
        }
        let mut m = a.clone();
        m[d.header_len + 32..head].copy_from_slice(&o[oh - 32..oh]);
        refused(c, &a, &m, &|| format!("header signature of an archive with {what}"))?;
        ctx.label("pieces of other archives");
        ctx.eval(20);
    }

    // Header changed and its checksum repaired, so that only the HMAC can tell
    let (minor, _, fields, _) = split_header(&a).expect("header");
    let end = d.header_len;
    let repaired = |h: Vec<u8>, what: &str| -> Verdict {
        if h == a[..end] {
            return Ok(());
        }
        let mut m = h.clone();
        m.extend(sha256(&h));
        m.extend(&a[end + 32..]);
        refused(c, &a, &m, &|| format!("{what}, checksum repaired"))
    };
    for i in 8..end {
        if c.bulk.is_some() && !r.pct(8) {
            continue;
        }
        let mut h = a[..end].to_vec();
        h[i] ^= 1 << r.below(8);
        repaired(h, &format!("header byte {i} altered"))?;
    }
    let lay_end = if c.saved { &[][..] } else { &c.lay.end[..] };
    for i in 0..fields.len() {
        let mut f = fields.clone();
        f.remove(i);
        repaired(header_bytes(minor, 4, &f, lay_end), &format!("header field {i} removed"))?;
        let mut f = fields.clone();
        let x = f[i].clone();
        f.push(x);
        repaired(header_bytes(minor, 4, &f, lay_end), &format!("header field {i} repeated"))?;
        let mut f = fields.clone();
        f.swap(0, i);
        repaired(header_bytes(minor, 4, &f, lay_end), &format!("header field {i} first"))?;
        let mut f = fields.clone();
        f.insert(i, (1, b"comment".to_vec()));
        repaired(header_bytes(minor, 4, &f, lay_end), "comment added")?;
    }
    repaired(header_bytes(minor.wrapping_add(1), 4, &fields, lay_end), "minor version changed")?;
    repaired(header_bytes(minor, 4, &fields, b"changed end"), "end field changed")?;
    ctx.label("repaired checksum");
    ctx.eval(end as u64 + 4 * fields.len() as u64);

    // Signatures replaced by values that a careless comparison could take for right ones,
    // with the signed bytes left alone (0), altered (1) or altered with a repaired checksum (2)
    let mut places = vec![(end, 0, end), (end + 32, 0, end)];
    let mut which: Vec<usize> = (0..nb.min(3)).collect();
    which.extend([nb - 1, nb.saturating_sub(2), r.below(nb)]);
    places.extend(which.iter().map(|i| {
        let (at, len) = d.blocks[*i];
        (at, at + 32, at + 36 + len)
    }));
    let mut tried = 0;
    for (p, (sig, from, to)) in places.into_iter().enumerate() {
        let good = a[sig..sig + 32].to_vec();
        let signed = a[from..to].to_vec();
        for kind in 0..19 {
            if c.bulk.is_some() && !r.pct(6) {
                continue;
            }
            let change = if p == 0 { 0 } else { r.below(3) };
            let mut m = a.clone();
            if change > 0 && to > from + 4 {
                let at = if p == 1 { 8 + r.below(end - 8) } else { from + 4 + r.below(to - from - 4) };
                m[at] ^= 1 << r.below(8);
                if p == 1 && change == 2 {
                    let sum = sha256(&m[..end]);
                    m[end..end + 32].copy_from_slice(&sum);
                }
            }
            let n = 1 + r.below(31);
            let x = 1 + r.below(255) as u8;
            let mut v = good.clone();
            match kind {
                0 => v = vec![0; 32],
                1 => v = vec![0xFF; 32],
                2 => v = sha256(&signed).to_vec(),
                3 => v = sha256(&m[from..to]).to_vec(),
                4 => v = sha256(&[]).to_vec(),
                5 => v = a[end..end + 32].to_vec(),
                6 => v = a[end + 32..end + 64].to_vec(),
                7 => v.reverse(),
                8 => v.rotate_left(n),
                9 => v.sort(),
                10 => v.swap(n, n - 1),
                11 => {
                    v[n] ^= x;
                    v[n - 1] ^= x;
                }
                12 => {
                    v[n] = v[n].wrapping_add(x);
                    v[n - 1] = v[n - 1].wrapping_sub(x);
                }
                13 => v[n..].fill(0),
                14 => v[..n].fill(0),
                15 => v[16..].fill(0xFF),
                16 => v.iter_mut().for_each(|b| *b = !*b),
                17 => v = hmac256(&[0; 64], &[&m[from..to]]).to_vec(),
                _ => v = m[from..to].iter().copied().chain([0; 32]).take(32).collect(),
            }
            m[sig..sig + 32].copy_from_slice(&v);
            if m != a {
                let part = match p {
                    0 => "checksum".to_string(),
                    1 => "header signature".to_string(),
                    _ => format!("signature at {sig}"),
                };
                refused(c, &a, &m, &|| format!("{part} forged in way {kind}, change {change}"))?;
                tried += 1;
            }
        }
    }
    ctx.label("forged signatures");
    ctx.eval(tried);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    set: Settings,
    creds: Creds,
    blocks: usize,
    size: usize,
    seed: u64,
}

/// Very many small blocks, with changes far from the beginning.
fn run_many(c: &Many, ctx: &mut Ctx) -> Verdict {
    let bulk = Bulk {
        len: c.blocks * c.size * 4 / 3,
        kind: 1,
        seed: c.seed,
    };
    let mut db = MDb::from_lib(&kdbx_rs::Database::default());
    db.root.entries.push(MEntry {
        uuid: 5,
        fields: vec![MField::new("bulk", &bulk.text(), false)],
        history: vec![],
        times: MTimes::zero(),
    });
    let f = V4::simple(&c.set, &c.creds, render(&db, &Style::plain(), &c.set, None));
    let keys = f.keys();
    let payload = f.payload();
    let plain = if c.set.gzip { gzip(&payload) } else { payload };
    let enc = c.set.cipher.encrypt(&keys.cipher, &c.set.iv, &plain);
    let mut head = f.header();
    let (sum, mac) = (sha256(&head), keys.header_mac(&head));
    head.extend(sum);
    head.extend(mac);
    let body = v4_blocks(&keys, &enc.chunks(c.size).collect::<Vec<_>>());
    let mut blocks: Vec<&[u8]> = Vec::new();
    let mut p = 0;
    while p < body.len() {
        let n = u32::from_le_bytes(body[p + 32..p + 36].try_into().unwrap()) as usize;
        blocks.push(&body[p..p + 36 + n]);
        p += 36 + n;
    }
    let nb = blocks.len();
    let whole = join(&head, &blocks);
    lib_api::unlock(&whole, &c.creds).map_err(|e| format!("{nb} blocks: {e}"))?;
    ctx.nt();
    ctx.label_if(nb > 256, "over 256 blocks");
    ctx.label_if(nb > 32768, "over 32768 blocks");
    ctx.label_if(nb > 65536, "over 65536 blocks");
    let mut r = Rng(c.seed);
    for step in 0..24 {
        // The last is the terminating one
        let i = match step % 4 {
            0 => nb - 2 - r.below(3.min(nb - 2)),
            1 => (*r.pick(&[127usize, 128, 255, 256, 257, 511, 512, 1023, 1024, 4096, 32767, 32768, 65535, 65536]) + r.below(2)).min(nb - 2),
            _ => r.below(nb - 1),
        };
        let mut b = blocks.clone();
        let mut x = b[i].to_vec();
        let what = match r.below(9) {
            0 | 1 => {
                let at = 36 + r.below(x.len() - 36);
                x[at] ^= 1 << r.below(8);
                b[i] = &x;
                "data altered"
            }
            2 => {
                let at = r.below(32);
                x[at] ^= 1 << r.below(8);
                b[i] = &x;
                "signature altered"
            }
            3 => {
                b.remove(i);
                "dropped"
            }
            4 => {
                b.insert(i, blocks[i]);
                "repeated"
            }
            5 => {
                let j = r.below(nb - 1);
                if blocks[i] == blocks[j] {
                    continue;
                }
                b.swap(i, j);
                "swapped with another"
            }
            6 => {
                b.truncate(i);
                b.push(blocks[nb - 1]);
                "and the following cut out"
            }
            7 => {
                b.truncate(i);
                "and the following missing"
            }
            _ => {
                // The data of another block under the signature of this one
                let j = r.below(nb - 1);
                if blocks[j][36..] == x[36..] {
                    continue;
                }
                x.truncate(32);
                x.extend(&blocks[j][32..]);
                b[i] = &x;
                "with the data of another"
            }
        };
        let m = join(&head, &b);
        ctx.eval(1);
        if lib_api::unlock(&m, &c.creds).is_ok() {
            return Err(format!("block {i} of {nb} {what}: unlocked"));
        }
    }
    Ok(())
}

fn case(
    set: S<Settings>,
    blocks: S<Vec<usize>>,
    bulk: S<Option<Bulk>>,
    saved: S<bool>,
    limit: usize,
) -> S<Case> {
    (
        (small_db(), set, creds(), saved, layout(), blocks),
        (bulk, vec(any::<u8>(), 32), creds(), any::<u64>()),
    )
        .prop_map(
            move |((db, set, creds, saved, mut lay, blocks), (bulk, other_seed, other_creds, seed))| {
                lay.blocks = blocks;
                let mut set = set;
                if set.cipher == RCipher::TwoFish && bulk.as_ref().is_some_and(|b| b.len > 200_000) {
                    // Takes a second for each MiB
                    set.cipher = RCipher::Aes256;
                }
                Case {
                    db,
                    set,
                    creds,
                    saved,
                    lay,
                    bulk,
                    other_seed,
                    other_creds,
                    seed,
                    limit,
                }
            },
        )
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C06",
        level: "exploration",
        rule: "an archive that unlocks was altered in many ways",
        assumptions: &["no collisions of SHA-256 or HMAC-SHA-256 occur"],
        scenarios: vec![
            Box::new(Scn {
                name: "every byte",
                quick: 240,
                thorough: 3000,
                strategy: |_| {
                    case(
                        cheap_settings(),
                        prop_oneof![
                            1 => Just(vec![1usize << 20]),
                            3 => vec(100usize..700, 1..4),
                        ]
                        .boxed(),
                        Just(None).boxed(),
                        any::<bool>().boxed(),
                        4000,
                    )
                },
                run,
                need: &[
                    "several blocks",
                    "pieces of other archives",
                    "repaired checksum",
                    "forged signatures",
                    "gzip",
                    "no compression",
                    "cipher ChaCha20",
                    "cipher Aes256",
                    "cipher TwoFish",
                ],
            }),
            Box::new(Scn {
                name: "large",
                quick: 20,
                thorough: 240,
                strategy: |_| {
                    case(
                        cheap_settings(),
                        prop_oneof![
                            1 => Just(vec![1usize << 20]),
                            2 => vec(1000usize..700_000, 1..4),
                        ]
                        .boxed(),
                        bulk(prop_oneof![2 => 50_000usize..300_000, 1 => 1_100_000usize..2_300_000])
                            .prop_map(Some)
                            .boxed(),
                        any::<bool>().boxed(),
                        40,
                    )
                },
                run,
                need: &["several blocks", "more than 1 MiB"],
            }),
            Box::new(Scn {
                name: "many blocks",
                quick: 48,
                thorough: 800,
                strategy: |_| {
                    (
                        cheap_settings(),
                        creds(),
                        prop_oneof![
                            4 => 280usize..1300,
                            2 => 1300usize..6000,
                            1 => 33_000usize..36_000,
                            1 => 66_000usize..67_000,
                        ],
                        1usize..4,
                        any::<u64>(),
                    )
                        .prop_map(|(set, creds, blocks, size, seed)| Many {
                            set,
                            creds,
                            blocks,
                            size,
                            seed,
                        })
                        .boxed()
                },
                run: run_many,
                need: &["over 256 blocks", "over 32768 blocks", "over 65536 blocks"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
