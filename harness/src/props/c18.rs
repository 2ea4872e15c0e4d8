//! New archives get fresh secrets of the right size.
use super::common::*;
use crate::engine::*;
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdbxHeader, KdbxInnerHeader, KdfParams};
use kdbx_rs::database::{Database, Entry, Group};
use kdbx_rs::Kdbx;
use proptest::prelude::*;
use proptest::sample::select;
use std::collections::HashMap;

/// Sizes of seed, IV, salt and inner key
const SIZES: [usize; 4] = [32, 16, 32, 44];
const TOTAL: usize = 124;

fn salt(h: &KdbxHeader) -> Result<Vec<u8>, String> {
    match &h.kdf_params {
        KdfParams::Argon2 {
            variant,
            memory_bytes,
            version,
            salt,
            lanes,
            iterations,
        } => {
            if *variant != argon2::Variant::Argon2d
                || ![0xFFFF * 1024, 64 << 20].contains(memory_bytes)
                || *version != 19
                || *lanes != 2
                || *iterations != 10
            {
                return Err(format!("default KDF settings are {:?}", h.kdf_params));
            }
            Ok(salt.clone())
        }
        k => Err(format!("default KDF is {k:?}")),
    }
}

fn header(h: &KdbxHeader, out: &mut Vec<u8>) -> Verdict {
    let s = salt(h)?;
    if [h.master_seed.len(), h.encryption_iv.len(), s.len()] != SIZES[..3] {
        return Err(format!(
            "sizes of seed, IV and salt: {} {} {}",
            h.master_seed.len(),
            h.encryption_iv.len(),
            s.len()
        ));
    }
    if h.cipher != Cipher::Aes256 || h.compression_type != CompressionType::None || !h.other_headers.is_empty() {
        return Err(format!("default header is {h:?}"));
    }
    out.extend(&h.master_seed);
    out.extend(&h.encryption_iv);
    out.extend(&s);
    Ok(())
}

fn inner(i: &KdbxInnerHeader, out: &mut Vec<u8>) -> Verdict {
    if i.inner_stream_cipher != InnerStreamCipherAlgorithm::ChaCha20
        || i.inner_stream_key.len() != SIZES[3]
        || !i.other_headers.is_empty()
    {
        return Err(format!("default inner header is {i:?}"));
    }
    out.extend(&i.inner_stream_key);
    Ok(())
}

/// The secrets of one new archive, one after the other.
fn fresh(how: usize) -> Result<Vec<u8>, String> {
    let mut v = Vec::with_capacity(TOTAL);
    if how % 4 == 0 {
        header(&KdbxHeader::from_os_random(), &mut v)?;
        inner(&KdbxInnerHeader::from_os_random(), &mut v)?;
    } else {
        let k = Kdbx::from_database(Database::default());
        if (k.major_version(), k.minor_version()) != (4, 0) {
            return Err(format!("new archives have version {}.{}", k.major_version(), k.minor_version()));
        }
        header(k.header(), &mut v)?;
        inner(k.inner_header(), &mut v)?;
    }
    Ok(v)
}

fn parts(a: &[u8]) -> [&[u8]; 4] {
    [&a[..32], &a[32..48], &a[48..80], &a[80..]]
}

fn many(n: usize) -> Result<Vec<Vec<u8>>, String> {
    let threads = if n > 1000 { 8 } else { 1 };
    let hs: Vec<_> = (0..threads)
        .map(|t| std::thread::spawn(move || (0..n / threads).map(|i| fresh(i + t)).collect::<Result<Vec<_>, _>>()))
        .collect();
    let mut all = Vec::new();
    for h in hs {
        all.extend(h.join().map_err(|_| "creating an archive panicked")??);
    }
    Ok(all)
}

/// No two secrets, of any archive, have eight consecutive bytes in common.
fn windows(all: &[Vec<u8>]) -> Verdict {
    let mut seen: HashMap<[u8; 8], (usize, usize)> = HashMap::new();
    for (n, a) in all.iter().enumerate() {
        for (i, p) in parts(a).iter().enumerate() {
            for w in p.windows(8) {
                if let Some((m, j)) = seen.insert(w.try_into().unwrap(), (n, i)) {
                    const N: [&str; 4] = ["master seed", "IV", "KDF salt", "inner stream key"];
                    return Err(format!("{} of archive {n} and {} of archive {m} share the bytes {}", N[i], N[j], hex(w)));
                }
            }
        }
    }
    Ok(())
}

fn statistics(all: &[Vec<u8>]) -> Verdict {
    let n = all.len() as f64;
    let mut ones = vec![0u32; TOTAL * 8];
    for a in all {
        for (i, b) in a.iter().enumerate() {
            for k in 0..8 {
                ones[i * 8 + k] += (b >> k & 1) as u32;
            }
        }
    }
    for (i, o) in ones.iter().enumerate() {
        if (*o as f64 - n / 2.0).abs() > 4.0 * n.sqrt() {
            return Err(format!("bit {} of byte {} is set in {o} of {n} archives", i % 8, i / 8));
        }
    }
    // Relations between bytes of one archive, and between one archive and the next
    let limit = 10.0 * (2.0 * n).sqrt();
    if all.len() <= 20000 {
        for i in 0..TOTAL {
            for j in 0..i {
                let d: u32 = all.iter().map(|a| (a[i] ^ a[j]).count_ones()).sum();
                if (d as f64 - 4.0 * n).abs() > limit {
                    return Err(format!("bytes {j} and {i} of new archives are related"));
                }
            }
        }
    }
    for i in 0..TOTAL {
        let d: u32 = all.windows(2).map(|w| (w[0][i] ^ w[1][i]).count_ones()).sum();
        if (d as f64 - 4.0 * n).abs() > limit {
            return Err(format!("byte {i} of an archive is related to that of the next"));
        }
    }
    if all.len() >= 15000 {
        for i in 0..TOTAL {
            let mut seen = [false; 256];
            all.iter().for_each(|a| seen[a[i] as usize] = true);
            if let Some(v) = seen.iter().position(|s| !s) {
                return Err(format!("byte {i} is never {v} in {n} archives"));
            }
        }
    }
    Ok(())
}

fn run(n: &usize, ctx: &mut Ctx) -> Verdict {
    ctx.nt_if(*n > 1);
    ctx.label(&format!("{n} archives"));
    let all = many(*n)?;
    ctx.eval(all.len() as u64);
    if all.len() <= 20000 {
        windows(&all)?;
    }
    // Whole secrets, however many archives there are
    let mut heads: Vec<u64> = all
        .iter()
        .flat_map(|a| parts(a).map(|p| u64::from_le_bytes(p[..8].try_into().unwrap())))
        .collect();
    heads.sort_unstable();
    if heads.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!("two of {n} archives share a secret"));
    }
    if all.len() >= 1000 {
        statistics(&all)?;
    }
    Ok(())
}

fn run_ids(n: &usize, ctx: &mut Ctx) -> Verdict {
    ctx.nt_if(*n > 1);
    let mut ids = Vec::new();
    for _ in 0..*n {
        ids.push(Entry::default().uuid());
        ids.push(Group::new("x").uuid());
        ids.push(Group::default().uuid());
        ids.push(Database::default().root().uuid());
        ids.push(kdbx_rs::database::doc_sample_db().root().uuid());
    }
    for (t, what) in [
        (Entry::default().times().clone(), "entry"),
        (Group::default().times().clone(), "group"),
        (Group::new("x").times().clone(), "named group"),
        (Database::default().root().times().clone(), "root group"),
    ] {
        if t.expires || t.usage_count != 0 {
            return Err(format!("a new {what} expires or was used already: {t:?}"));
        }
    }
    ctx.eval(ids.len() as u64);
    ids.sort();
    if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("identifier {} was given out twice", w[0]));
    }
    if ids.iter().any(|i| i.is_nil()) {
        return Err("a new item has no identifier".into());
    }
    Ok(())
}

/// Print secrets and identifiers of some new archives.
pub fn helper(args: &[String]) -> i32 {
    let n: usize = args.first().and_then(|a| a.parse().ok()).unwrap_or(1);
    for i in 0..n {
        match fresh(i) {
            Ok(v) => println!("{}", hex(&v)),
            Err(e) => {
                println!("error {e}");
                return 0;
            }
        }
        println!("id {} {}", Entry::default().uuid(), Group::default().uuid());
    }
    0
}

/// Different processes get different secrets, too.
fn run_processes(c: &(usize, usize), ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    let (procs, n) = *c;
    let mut all = Vec::new();
    let mut ids = Vec::new();
    for _ in 0..procs {
        let out = std::process::Command::new(std::env::current_exe().expect("own path"))
            .args(["helper", "secrets", &n.to_string()])
            .output()
            .expect("helper process");
        if !out.status.success() {
            return Err(format!("creating archives in another process failed: {}", String::from_utf8_lossy(&out.stderr)));
        }
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            if let Some(i) = l.strip_prefix("id ") {
                ids.extend(i.split(' ').map(|s| s.to_string()));
            } else if let Some(e) = l.strip_prefix("error ") {
                return Err(e.to_string());
            } else {
                all.push(
                    (0..l.len() / 2)
                        .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex"))
                        .collect::<Vec<u8>>(),
                );
            }
        }
    }
    assert_eq!(all.len(), procs * n);
    ctx.eval(all.len() as u64);
    windows(&all).map_err(|e| format!("in different processes: {e}"))?;
    ids.sort();
    if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("identifier {} was given out twice by different processes", w[0]));
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C18",
        level: "exploration",
        rule: "more than one new archive was compared",
        assumptions: &[
            "the operating system's random source is good; limits are eight and more standard deviations",
            "the defaults are those of the documentation of KdbxHeader::from_os_random and of the first release of the code",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "archives",
                quick: 40,
                thorough: 120,
                strategy: |_| select(vec![2usize, 10, 100, 1000, 8000, 16000, 16000]).boxed(),
                run,
                need: &["16000 archives"],
            }),
            Box::new(Scn {
                name: "very many archives",
                quick: 1,
                thorough: 4,
                strategy: |_| Just(400_000usize).boxed(),
                run,
                need: &[],
            }),
            Box::new(Scn {
                name: "identifiers",
                quick: 12,
                thorough: 60,
                strategy: |_| select(vec![1usize, 2, 100, 20_000, 60_000]).boxed(),
                run: run_ids,
                need: &[],
            }),
            Box::new(Scn {
                name: "processes",
                quick: 12,
                thorough: 100,
                strategy: |_| (2usize..6, 1usize..60).boxed(),
                run: run_processes,
                need: &[],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
