//! Writing a locked archive copies it unchanged.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{Rng, Style};
use kdbx_rs::binary::{Cipher, CompressionType, KdbxHeader, KdfParams, Locked};
use kdbx_rs::Kdbx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    wrong: Creds,
    lay: Layout,
    v3: bool,
    bulk: Bulk,
    /// Damage to the part after the header
    damage: usize,
    seed: u64,
}

fn make(c: &Case) -> (Vec<u8>, MDb) {
    let mut db = c.db.clone();
    if c.bulk.len > 0 {
        db.root.name = c.bulk.text();
    }
    let xml = render(&db, &Style::plain(), &c.set, None);
    let (mut d, head) = if c.v3 {
        let mut f = V3::simple(&c.set, &c.creds, &[1; 32], xml);
        f.fields = c.lay.v3_fields(&c.set, &[1; 32]);
        f.block_sizes = c.lay.blocks.clone();
        f.minor = c.lay.minor;
        (f.encode(), f.header().len())
    } else {
        let f = c.lay.v4(&c.set, &c.creds, xml);
        (f.encode(), f.header().len() + 64)
    };
    if c.damage > 0 {
        let mut tail = d.split_off(head);
        mutate_bytes(&mut tail, &mut Rng(c.seed), c.damage);
        d.extend(tail);
    }
    (d, db)
}

/// What unlocking says, without the archive itself.
fn outcome(k: Kdbx<Locked>, c: &Creds) -> Result<(MDb, Vec<u8>, String), String> {
    match k.unlock(&c.to_lib()) {
        Ok(u) => Ok((
            MDb::from_lib(u.database()),
            u.raw_xml().map(|x| x.to_vec()).unwrap_or_default(),
            format!("{:?}", u.inner_header()),
        )),
        Err(e) => Err(format!("{:?}", e.1)),
    }
}

fn equivalent(a: &[u8], b: &[u8], creds: &[&Creds]) -> Verdict {
    if a == b {
        return Ok(());
    }
    let (x, y) = (lib_api::open(a)?, lib_api::open(b).map_err(|e| format!("copy: {e}"))?);
    if format!("{:?}", x.header()) != format!("{:?}", y.header()) || (x.major_version(), x.minor_version()) != (y.major_version(), y.minor_version()) {
        return Err("header information of the copy differs".into());
    }
    for c in creds {
        let (x, y) = (outcome(lib_api::open(a)?, c), outcome(lib_api::open(b)?, c));
        if x != y {
            return Err(format!(
                "copy gives {}, original {}",
                short(&format!("{y:?}"), 300),
                short(&format!("{x:?}"), 300)
            ));
        }
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let (data, db) = make(c);
    ctx.label(if c.v3 { "KDBX 3" } else { "KDBX 4" });
    ctx.label_if(!c.lay.outer.is_empty(), "foreign header fields");
    let k = lib_api::open(&data)?;
    ctx.nt();
    let copy = lib_api::write_locked(&k).map_err(|e| format!("writing failed: {e:?}"))?;
    equivalent(&data, &copy, &[&c.creds, &c.wrong])?;
    if c.damage == 0 {
        let (_, got) = lib_api::load(&copy, &c.creds).map_err(|e| format!("copy: {e}"))?;
        same_db(&as_read(&db), &got)?;
    } else {
        ctx.label("damaged payload");
    }
    ctx.eval(1);
    // Copy of a copy, and of an archive that could not be unlocked
    let again = lib_api::write_locked(&lib_api::open(&copy)?).map_err(|e| format!("second copy failed: {e:?}"))?;
    equivalent(&copy, &again, &[&c.creds])?;
    if c.wrong.composite() != c.creds.composite() {
        if let Err(f) = k.unlock(&c.wrong.to_lib()) {
            let copy = lib_api::write_locked(&f.0).map_err(|e| format!("writing after a failed unlock failed: {e:?}"))?;
            equivalent(&data, &copy, &[&c.creds])?;
            if c.damage == 0 {
                let (_, got) = lib_api::load(&copy, &c.creds).map_err(|e| format!("copy after a failed unlock: {e}"))?;
                same_db(&as_read(&db), &got)?;
                // And the archive itself can still be unlocked
                let (got, ..) = outcome(f.0, &c.creds).map_err(|e| format!("second attempt to unlock failed: {e}"))?;
                same_db(&as_read(&db), &got)?;
                ctx.label("failed unlock");
            }
        }
    }
    Ok(())
}

/// The other kind of key derivation, with what can be kept.
fn another_kdf(p: &KdfParams, r: &mut Rng) -> KdfParams {
    match p {
        KdfParams::Aes { rounds, salt } => KdfParams::Argon2 {
            variant: argon2::Variant::Argon2id,
            memory_bytes: 8192,
            version: 0x13,
            salt: salt.clone(),
            iterations: *rounds,
            lanes: 1,
        },
        _ => KdfParams::Aes {
            rounds: r.below(5) as u64,
            salt: vec![1; 32],
        },
    }
}

/// Change one part of the header; false if there is nothing to change.
fn change(h: &mut KdbxHeader, which: u8, v3: bool, r: &mut Rng) -> bool {
    let flip = |v: &mut Vec<u8>, r: &mut Rng| -> bool {
        match r.below(5) {
            3 => *v = r.bytes(v.len()),
            4 => v.reverse(),
            0 => v.push(0),
            1 if !v.is_empty() => {
                v.pop();
            }
            _ if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            _ => return false,
        }
        true
    };
    match which {
        0 => {
            let id: [u8; 16] = r.bytes(16).try_into().unwrap();
            h.cipher = *r.pick(&[
                Cipher::Aes256,
                Cipher::TwoFish,
                Cipher::ChaCha20,
                Cipher::Aes128,
                Cipher::Unknown(uuid::Uuid::from_bytes(id)),
            ]);
        }
        1 => {
            let n = r.next() as u32;
            h.compression_type = match (&h.compression_type, r.below(4)) {
                (CompressionType::None, 0 | 1) => CompressionType::Gzip,
                (_, 0 | 1) => CompressionType::None,
                // Numbers whose low part looks like the present one
                (c, 2) => CompressionType::Unknown(
                    matches!(c, CompressionType::Gzip) as u32 | 1 << (8 + r.below(24)),
                ),
                _ => CompressionType::Unknown(n.max(2)),
            }
        }
        2 => return flip(&mut h.master_seed, r),
        3 => return flip(&mut h.encryption_iv, r),
        4 => match &mut h.kdf_params {
            p if r.pct(10) => *p = another_kdf(p, r),
            KdfParams::Aes { rounds, salt } => {
                if r.pct(50) {
                    *rounds ^= 1 << r.below(64);
                } else {
                    return flip(salt, r);
                }
            }
            KdfParams::Argon2 {
                memory_bytes,
                version,
                salt,
                lanes,
                iterations,
                variant,
            } => match r.below(6) {
                0 => *memory_bytes ^= 1 << r.below(64),
                1 => *version ^= if r.pct(50) { 3 } else { 1 << r.below(32) },
                2 => *lanes ^= 1 << r.below(32),
                3 => *iterations ^= 1 << r.below(64),
                4 => {
                    *variant = match variant {
                        argon2::Variant::Argon2d => argon2::Variant::Argon2id,
                        _ => argon2::Variant::Argon2d,
                    }
                }
                _ => return flip(salt, r),
            },
            _ => return false,
        },
        5 => {
            if h.other_headers.is_empty() {
                return false;
            }
            let i = r.below(h.other_headers.len());
            match r.below(4) {
                0 => {
                    h.other_headers.remove(i);
                }
                1 => {
                    let x = h.other_headers[i].clone();
                    h.other_headers.push(x);
                }
                2 => h.other_headers.reverse(),
                _ => h.other_headers.rotate_left(1),
            }
        }
        _ => {
            if !v3 {
                return false;
            }
            let mut s = h.stream_start_bytes.clone().unwrap_or_default();
            if !flip(&mut s, r) {
                return false;
            }
            h.stream_start_bytes = Some(s);
        }
    }
    true
}

fn run_changed(c: &(Case, u8), ctx: &mut Ctx) -> Verdict {
    let (c, which) = c;
    let (data, db) = make(c);
    let mut k = lib_api::open(&data)?;
    let before = k.header().clone();
    // Compared as text, so that this does not rest on how the library compares
    if !change(k.header_mut(), *which, c.v3, &mut Rng(c.seed)) || format!("{:?}", k.header()) == format!("{before:?}") {
        ctx.label("nothing to change");
        return Ok(());
    }
    ctx.nt();
    ctx.label(&format!("change {which}"));
    ctx.label(if c.v3 { "KDBX 3" } else { "KDBX 4" });
    if let Ok(d) = lib_api::write_locked(&k) {
        if c.v3 && !affordable(&k.header().kdf_params) {
            return Ok(());
        }
        if !c.v3 {
            return Err(format!("written although the header was changed from {before:?} to {:?}", k.header()));
        }
        let (_, got) = lib_api::load(&d, &c.creds)
            .map_err(|e| format!("header changed, archive written that cannot be unlocked: {e}"))?;
        same_db(&as_read(&db), &got)?;
    }
    // Undone
    *k.header_mut() = before;
    let copy = lib_api::write_locked(&k).map_err(|e| format!("refused after the change was undone: {e:?}"))?;
    equivalent(&data, &copy, &[&c.creds])?;
    let (_, got) = lib_api::load(&copy, &c.creds)?;
    same_db(&as_read(&db), &got)
}

fn run_samples(i: &usize, ctx: &mut Ctx) -> Verdict {
    let all = samples();
    let (name, data, creds) = &all[i % all.len()];
    ctx.nt();
    let copy = lib_api::write_locked(&lib_api::open(data)?).map_err(|e| format!("{name}: writing failed: {e:?}"))?;
    equivalent(data, &copy, &[creds]).map_err(|e| format!("{name}: {e}"))
}

fn case(len: S<usize>) -> S<Case> {
    (
        (db(), cheap_settings(), creds(), creds(), layout(), any::<bool>(), bulk(len)),
        (prop_oneof![4 => Just(0usize), 1 => 1usize..4], any::<u64>()),
    )
        .prop_map(|((db, set, creds, wrong, mut lay, v3, bulk), (damage, seed))| {
            if v3 {
                lay.outer.retain(|(i, _)| *i != 12);
            }
            Case {
                db,
                set,
                creds,
                wrong,
                lay,
                v3,
                bulk,
                damage,
                seed,
            }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C16",
        level: "exploration",
        rule: "an archive was opened and written without unlocking it; for changed headers: something was changed",
        assumptions: &["KDBX 3 headers carry no signature, so there only an archive that cannot be unlocked is an error"],
        scenarios: vec![
            Box::new(Scn {
                name: "copies",
                quick: 12000,
                thorough: 200000,
                strategy: |_| case(Just(0usize).boxed()),
                run,
                need: &["KDBX 3", "KDBX 4", "foreign header fields", "damaged payload", "failed unlock"],
            }),
            Box::new(Scn {
                name: "large",
                quick: 40,
                thorough: 600,
                strategy: |_| case((100_000usize..2_500_000).boxed()),
                run,
                need: &["KDBX 3", "KDBX 4"],
            }),
            Box::new(Scn {
                name: "changed headers",
                quick: 12000,
                thorough: 200000,
                strategy: |_| {
                    (case(Just(0usize).boxed()), 0u8..7)
                        .prop_map(|(mut c, w)| {
                            c.damage = 0;
                            (c, w)
                        })
                        .boxed()
                },
                run: run_changed,
                need: &["change 0", "change 1", "change 2", "change 3", "change 4", "change 5", "change 6", "KDBX 3", "KDBX 4"],
            }),
            Box::new(Scn {
                name: "samples",
                quick: 9,
                thorough: 9,
                strategy: |_| (0usize..9).boxed(),
                run: run_samples,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
