//! Every successful save in an archive's life reopens with its current key.
use super::c02;
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::Style;
use kdbx_rs::binary::{KdfParams, Unlocked};
use kdbx_rs::Kdbx;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Key(Creds),
    /// A key that can not be set because the KDF parameters are impossible
    BadKey(Creds, u8),
    Cipher(RCipher, Vec<u8>),
    Iv(Vec<u8>),
    Gzip(bool),
    Kdf(RKdf),
    /// Other parameters of the same KDF
    KdfTweak(u8),
    Seed(Vec<u8>),
    Inner(RInner, Vec<u8>),
    AddEntry(MEntry),
    AddGroup(MGroup),
    Name(String),
    Root(MGroup),
    RemoveFirst,
    Save,
    Reopen,
    /// Open, fail to unlock, try again
    ReopenHard(Creds),
    /// Through a copy made while locked
    ReopenCopy,
}

fn op() -> S<Op> {
    prop_oneof![
        3 => creds().prop_map(Op::Key),
        1 => (creds(), any::<u8>()).prop_map(|(a, b)| Op::BadKey(a, b)),
        2 => (rcipher(), vec(any::<u8>(), 16)).prop_map(|(a, b)| Op::Cipher(a, b)),
        1 => vec(any::<u8>(), 16).prop_map(Op::Iv),
        1 => any::<bool>().prop_map(Op::Gzip),
        2 => prop_oneof![3 => cheap_kdf(), 1 => argon2_kdf(), 1 => aes_kdf()].prop_map(Op::Kdf),
        1 => any::<u8>().prop_map(Op::KdfTweak),
        1 => vec(any::<u8>(), 32).prop_map(Op::Seed),
        1 => (rinner(), inner_key()).prop_map(|(a, b)| Op::Inner(a, b)),
        2 => entry().prop_map(Op::AddEntry),
        1 => group_of(text()).prop_map(Op::AddGroup),
        1 => text().prop_map(Op::Name),
        1 => group_of(text()).prop_map(Op::Root),
        1 => Just(Op::RemoveFirst),
        4 => Just(Op::Save),
        3 => Just(Op::Reopen),
        1 => creds().prop_map(Op::ReopenHard),
        1 => Just(Op::ReopenCopy),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    /// 0 new, 1 opened KDBX 4 file, 2 opened KDBX 3 file
    start: u8,
    lay: Layout,
    ops: Vec<Op>,
}

struct Life {
    k: Kdbx<Unlocked>,
    db: MDb,
    set: Settings,
    creds: Option<Creds>,
    /// Credentials that must not work any more.
    old: Vec<Creds>,
    v3: bool,
    saved: Option<Vec<u8>>,
    dirty: bool,
}

impl Life {
    fn save(&mut self, ctx: &mut Ctx) -> Result<Option<Vec<u8>>, String> {
        let res = lib_api::write(&self.k);
        ctx.eval(1);
        if self.v3 {
            ctx.label("KDBX 3 refused");
            return match res {
                Ok(_) => Err("KDBX 3 archive saved".into()),
                Err(_) => Ok(None),
            };
        }
        let Some(creds) = &self.creds else {
            ctx.label("no key refused");
            return match res {
                Ok(_) => Err("saved without credentials".into()),
                Err(_) => Ok(None),
            };
        };
        let data = res.map_err(|e| format!("saving failed: {e:?}"))?;
        c02::conforms(&data, &self.db, &self.set, creds)?;
        let (k, got) = lib_api::load(&data, creds)?;
        same_db(&self.db.normal(), &got)?;
        let h = lib_api::settings_of(k.header());
        if h != lib_api::want_settings(&self.set) {
            return Err(format!("reopened with settings {h:?}"));
        }
        for o in self.old.iter().rev().take(2) {
            if o.composite() != creds.composite() && lib_api::unlock(&data, o).is_ok() {
                return Err(format!("opens with credentials {o:?} that were replaced by {creds:?}"));
            }
            ctx.label("old credentials tried");
        }
        ctx.label("saved");
        Ok(Some(data))
    }
    fn reopened(&mut self, k: Kdbx<Unlocked>) -> Verdict {
        self.k = k;
        self.db = self.db.normal();
        let mut got = MDb::from_lib(self.k.database());
        got.norm_values();
        diff(&self.db, &got)
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut l = match c.start {
        0 => {
            let mut k = Kdbx::from_database(c.db.to_lib());
            lib_api::apply(&mut k, &c.set);
            Life {
                k,
                db: c.db.clone(),
                set: c.set.clone(),
                creds: None,
                old: vec![],
                v3: false,
                saved: None,
                dirty: false,
            }
        }
        _ => {
            let xml = render(&c.db, &Style::plain(), &c.set, None);
            ctx.label_if(c.lay.minor > 0, "minor version");
            let data = if c.start == 1 {
                c.lay.v4(&c.set, &c.creds, xml).encode()
            } else {
                let mut f = V3::simple(&c.set, &c.creds, &[2; 32], xml);
                f.fields = c.lay.v3_fields(&c.set, &[2; 32]);
                f.minor = c.lay.minor;
                f.encode()
            };
            let k = lib_api::unlock(&data, &c.creds)?;
            Life {
                k,
                db: as_read(&c.db),
                set: c.set.clone(),
                creds: Some(c.creds.clone()),
                old: vec![],
                v3: c.start == 2,
                saved: None,
                dirty: false,
            }
        }
    };
    ctx.label(["new", "KDBX 4", "KDBX 3"][c.start as usize]);
    let mut changes = 0;
    let mut saves = 0;
    for (n, o) in c.ops.iter().enumerate() {
        let step = |e: String| format!("step {n} ({}): {e}", short(&format!("{o:?}"), 120));
        match o {
            Op::Key(new) => {
                l.k.set_key(new.to_lib()).map_err(|e| step(format!("setting the key failed: {e:?}")))?;
                if let Some(old) = l.creds.replace(new.clone()) {
                    l.old.push(old);
                }
                changes += 1;
            }
            Op::BadKey(new, kind) => {
                let good = l.k.header().kdf_params.clone();
                l.k.header_mut().kdf_params = match kind % 3 {
                    0 => KdfParams::Aes {
                        rounds: 1,
                        salt: vec![1; 5],
                    },
                    1 => KdfParams::Argon2 {
                        variant: argon2::Variant::Argon2d,
                        memory_bytes: 1 << 16,
                        version: 0x13,
                        salt: vec![1; 32],
                        lanes: 0,
                        iterations: 1,
                    },
                    _ => KdfParams::Argon2 {
                        variant: argon2::Variant::Argon2d,
                        memory_bytes: 1 << 16,
                        version: 0x77,
                        salt: vec![1; 32],
                        lanes: 1,
                        iterations: 1,
                    },
                };
                if l.k.set_key(new.to_lib()).is_ok() {
                    return Err(step("key set with impossible KDF parameters".into()));
                }
                if lib_api::write(&l.k).is_ok() {
                    return Err(step("saved with impossible KDF parameters".into()));
                }
                l.k.header_mut().kdf_params = good;
                l.old.push(new.clone());
                ctx.label("key refused");
            }
            Op::Cipher(ci, iv) => {
                l.set.cipher = *ci;
                l.set.iv = iv[..ci.iv_len()].to_vec();
                l.k.header_mut().cipher = ci.to_lib();
                l.k.header_mut().encryption_iv = l.set.iv.clone();
                changes += 1;
            }
            Op::Iv(iv) => {
                l.set.iv = iv[..l.set.cipher.iv_len()].to_vec();
                l.k.header_mut().encryption_iv = l.set.iv.clone();
                changes += 1;
            }
            Op::Gzip(g) => {
                l.set.gzip = *g;
                lib_api::apply_header(l.k.header_mut(), &l.set);
                changes += 1;
            }
            Op::Kdf(kdf) => {
                l.set.kdf = kdf.clone();
                l.k.header_mut().kdf_params = kdf.to_lib();
                changes += 1;
                ctx.label("KDF changed");
            }
            Op::KdfTweak(x) => {
                match &mut l.set.kdf {
                    RKdf::Aes { rounds, salt } => match x % 2 {
                        0 => *rounds = (*rounds + 1) % 50,
                        _ => salt[*x as usize % 32] ^= 0x10,
                    },
                    RKdf::Argon2 { id, version, iterations, salt, .. } => match x % 4 {
                        0 => *id = !*id,
                        1 => *version ^= 3,
                        2 => *iterations = *iterations % 3 + 1,
                        _ => salt[*x as usize % 8] ^= 1,
                    },
                }
                l.k.header_mut().kdf_params = l.set.kdf.to_lib();
                changes += 1;
                ctx.label("KDF changed");
            }
            Op::Seed(s) => {
                l.set.seed = s.clone();
                l.k.header_mut().master_seed = s.clone();
                changes += 1;
            }
            Op::Inner(a, key) => {
                l.set.inner = *a;
                l.set.inner_key = key.clone();
                l.k.inner_header_mut().inner_stream_cipher = a.to_lib();
                l.k.inner_header_mut().inner_stream_key = key.clone();
                changes += 1;
            }
            Op::AddEntry(e) => {
                l.k.database_mut().add_entry(e.to_lib());
                l.db.root.entries.push(e.clone());
                l.dirty = true;
            }
            Op::AddGroup(g) => {
                // Also through the archive itself
                l.k.add_group(g.to_lib());
                l.db.root.groups.push(g.clone());
                l.dirty = true;
            }
            Op::Name(s) => {
                l.k.set_name(s);
                l.db.meta.name = s.clone();
                l.k.database_mut().set_description(format!("about {s}"));
                l.db.meta.desc = format!("about {s}");
                l.dirty = true;
            }
            Op::Root(g) => {
                l.k.database_mut().replace_root(g.to_lib());
                l.db.root = g.clone();
                l.dirty = true;
            }
            Op::RemoveFirst => {
                if let Some(e) = l.db.root.entries.first() {
                    let u = uuid::Uuid::from_u128(e.uuid);
                    l.db.root.entries.remove(0);
                    l.k.database_mut().root_mut().remove_entry(u).ok_or(step("entry to remove not found".into()))?;
                    l.dirty = true;
                }
            }
            Op::Save => {
                if let Some(d) = l.save(ctx).map_err(step)? {
                    l.saved = Some(d);
                    saves += 1;
                }
            }
            Op::Reopen | Op::ReopenHard(_) | Op::ReopenCopy => {
                let Some(d) = l.save(ctx).map_err(step)? else { continue };
                saves += 1;
                let creds = l.creds.clone().unwrap();
                let locked = lib_api::open(&d).map_err(step)?;
                let k = match o {
                    Op::ReopenHard(w) if w.composite() != creds.composite() => match locked.unlock(&w.to_lib()) {
                        Ok(_) => return Err(step("opened with wrong credentials".into())),
                        Err(f) => f.0.unlock(&creds.to_lib()),
                    },
                    Op::ReopenCopy => {
                        let copy = lib_api::write_locked(&locked).map_err(|e| step(format!("copy failed: {e:?}")))?;
                        lib_api::open(&copy).map_err(step)?.unlock(&creds.to_lib())
                    }
                    _ => locked.unlock(&creds.to_lib()),
                }
                .map_err(|e| step(format!("unlocking failed: {:?}", e.1)))?;
                l.reopened(k).map_err(step)?;
                ctx.label("reopened");
            }
        }
    }
    l.save(ctx).map_err(|e| format!("last save: {e}"))?;
    // Earlier saves are not affected by what happened later
    ctx.nt_if(changes > 0 && (saves > 0 || l.v3));
    ctx.label_if(saves > 2, "several saves");
    Ok(())
}

fn case(n: std::ops::Range<usize>) -> S<Case> {
    (small_db(), cheap_settings(), creds(), prop_oneof![5 => Just(0u8), 5 => Just(1u8), 1 => Just(2u8)], layout(), vec(op(), n))
        .prop_map(|(db, set, creds, start, lay, ops)| Case {
            db,
            set,
            creds,
            start,
            lay,
            ops,
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C17",
        level: "exploration",
        rule: "something was changed and the archive was saved or refused",
        assumptions: &["key derivation is cheap enough to be repeated for every save"],
        scenarios: vec![
            Box::new(Scn {
                name: "lives",
                quick: 8000,
                thorough: 150000,
                strategy: |_| case(1..20),
                run,
                need: &[
                    "new", "KDBX 4", "KDBX 3", "minor version", "KDBX 3 refused", "no key refused", "key refused", "KDF changed",
                    "old credentials tried", "saved", "reopened", "several saves",
                ],
            }),
            Box::new(Scn {
                name: "long lives",
                quick: 150,
                thorough: 3000,
                strategy: |_| case(80..160),
                run,
                need: &["several saves"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
