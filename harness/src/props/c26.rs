//! Identifiers of settings, and KDF dictionaries, convert without loss.
use crate::engine::*;
use crate::gen::*;
use kdbx_rs::binary::{
    Cipher, CompressionType, InnerHeaderId, InnerStreamCipherAlgorithm, KdfAlgorithm, KdfParams, OuterHeaderId, VariantDict,
    VariantDictValue as V,
};
use kdbx_rs::errors::HeaderError;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use uuid::Uuid;

fn ciphers() -> [(u128, Cipher); 4] {
    [
        (0x61ab05a1_9464_41c3_8d74_3a563df8dd35, Cipher::Aes128),
        (0x31c1f2e6_bf71_4350_be58_05216afc5aff, Cipher::Aes256),
        (0xad68f29f_576f_4bb9_a36a_d47af965346c, Cipher::TwoFish),
        (0xd6038a2b_8b6f_4cb5_a524_339a31dbb59a, Cipher::ChaCha20),
    ]
}

fn kdfs() -> [(u128, KdfAlgorithm); 4] {
    [
        (0xc9d9f39a_628a_4460_bf74_0d08c18a4fea, KdfAlgorithm::Aes256_Kdbx3_1),
        (0x7c02bb82_79a7_4ac0_927d_114a00648238, KdfAlgorithm::Aes256_Kdbx4),
        (0xef636ddf_8c29_444b_91f7_a9a403e30a0c, KdfAlgorithm::Argon2d),
        (0x9e298b19_56db_4773_b23d_fc3ec6f0a1e6, KdfAlgorithm::Argon2id),
    ]
}

/// Known identifiers and their neighbours.
fn ids() -> S<u128> {
    let known: Vec<u128> = ciphers().iter().map(|c| c.0).chain(kdfs().iter().map(|k| k.0)).collect();
    prop_oneof![
        2 => select(known.clone()),
        2 => (select(known.clone()), 0u32..128).prop_map(|(k, b)| k ^ (1 << b)),
        1 => select(known).prop_map(u128::swap_bytes),
        1 => select(vec![0u128, 1, u128::MAX]),
        3 => any::<u128>(),
    ]
    .boxed()
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Verdict {
    if want != got {
        return Err(format!("{what}: {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn run_uuid(c: &String, ctx: &mut Ctx) -> Verdict {
    let u = u128::from_str_radix(c, 16).expect("hexadecimal");
    let id = Uuid::from_u128(u);
    ctx.nt();
    let want = ciphers().iter().find(|c| c.0 == u).map_or(Cipher::Unknown(id), |c| c.1);
    ctx.label(if matches!(want, Cipher::Unknown(_)) { "unknown cipher" } else { "known cipher" });
    same("cipher of an identifier", want, Cipher::from(id))?;
    same("identifier of a cipher", id, want.into())?;
    let want = kdfs().iter().find(|c| c.0 == u).map_or(KdfAlgorithm::Unknown(id), |c| c.1);
    ctx.label(if matches!(want, KdfAlgorithm::Unknown(_)) { "unknown KDF" } else { "known KDF" });
    same("KDF of an identifier", want, KdfAlgorithm::from(id))?;
    same("identifier of a KDF", id, want.into())
}

fn run_number(n: &u32, ctx: &mut Ctx) -> Verdict {
    use InnerStreamCipherAlgorithm as I;
    use OuterHeaderId as O;
    ctx.nt();
    let n = *n;
    let want = match n {
        0 => CompressionType::None,
        1 => CompressionType::Gzip,
        _ => CompressionType::Unknown(n),
    };
    same("compression of a number", want, n.into())?;
    same("number of a compression", n, want.into())?;
    let want = match n {
        1 => I::ArcFour,
        2 => I::Salsa20,
        3 => I::ChaCha20,
        _ => I::Unknown(n),
    };
    same("inner cipher of a number", want, n.into())?;
    same("number of an inner cipher", n, want.into())?;
    let b = n as u8;
    const OUTER: [O; 13] = [
        O::EndOfHeader,
        O::Comment,
        O::CipherId,
        O::CompressionFlags,
        O::MasterSeed,
        O::LegacyTransformSeed,
        O::LegacyTransformRounds,
        O::EncryptionIv,
        O::ProtectedStreamKey,
        O::StreamStartBytes,
        O::InnerRandomStreamId,
        O::KdfParameters,
        O::PublicCustomData,
    ];
    let want = OUTER.get(b as usize).copied().unwrap_or(O::Unknown(b));
    ctx.label(if matches!(want, O::Unknown(_)) { "unknown field" } else { "known field" });
    same("header field of a number", want, b.into())?;
    same("number of a header field", b, want.into())?;
    let want = match b {
        0 => InnerHeaderId::EndOfHeader,
        1 => InnerHeaderId::InnerRandomStreamCipherId,
        2 => InnerHeaderId::InnerRandomStreamKey,
        3 => InnerHeaderId::Binary,
        _ => InnerHeaderId::Unknown(b),
    };
    same("inner header field of a number", want, b.into())?;
    same("number of an inner header field", b, want.into())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Item {
    U32(u32),
    U64(u64),
    Bool(bool),
    I32(i32),
    I64(i64),
    Text(String),
    Bytes(Vec<u8>),
    Other(u8, Vec<u8>),
}

impl Item {
    fn to_lib(&self) -> V {
        match self.clone() {
            Item::U32(n) => V::Uint32(n),
            Item::U64(n) => V::Uint64(n),
            Item::Bool(b) => V::Boolean(b),
            Item::I32(n) => V::Int32(n),
            Item::I64(n) => V::Int64(n),
            Item::Text(s) => V::String(s),
            Item::Bytes(b) => V::Array(b),
            Item::Other(t, b) => V::Unknown(t, b),
        }
    }
}

fn item() -> S<Item> {
    prop_oneof![
        any::<u32>().prop_map(Item::U32),
        any::<u64>().prop_map(Item::U64),
        any::<bool>().prop_map(Item::Bool),
        any::<i32>().prop_map(Item::I32),
        any::<i64>().prop_map(Item::I64),
        any_text().prop_map(Item::Text),
        vec(any::<u8>(), 0..50).prop_map(Item::Bytes),
        (1u8..=255, vec(any::<u8>(), 0..20)).prop_map(|(t, b)| Item::Other(t, b)),
    ]
    .boxed()
}

/// A value is taken out as what it is and as nothing else.
fn run_item(c: &Item, ctx: &mut Ctx) -> Verdict {
    ctx.nt();
    macro_rules! is {
        ($t:ty, $p:pat => $v:expr) => {{
            let want: Option<$t> = match c.clone() {
                $p => Some($v),
                _ => None,
            };
            same(concat!("value as ", stringify!($t)), want, <$t>::try_from(c.to_lib()).ok())?;
        }};
    }
    is!(u32, Item::U32(n) => n);
    is!(u64, Item::U64(n) => n);
    is!(bool, Item::Bool(n) => n);
    is!(i32, Item::I32(n) => n);
    is!(i64, Item::I64(n) => n);
    is!(String, Item::Text(n) => n);
    is!(Vec<u8>, Item::Bytes(n) => n);
    Ok(())
}

/// Dictionary to parameters and back.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// 0, 1 AES; 2 Argon2d; 3 Argon2id; 4 other
    algo: u8,
    other: String,
    n: [u64; 2],
    m: [u32; 2],
    salt: Vec<u8>,
    extra: Vec<(String, Item)>,
    /// A parameter that is missing (true) or of another type
    fault: Option<(usize, bool, Item)>,
}

fn run_params(c: &Case, ctx: &mut Ctx) -> Verdict {
    let uuid = match c.algo {
        4 => u128::from_str_radix(&c.other, 16).expect("hexadecimal"),
        k => kdfs()[k as usize].0,
    };
    let id = Uuid::from_u128(uuid);
    if c.algo == 4 && kdfs().iter().any(|k| k.0 == uuid) {
        return Ok(());
    }
    ctx.nt();
    let argon2: &[&str] = &["M", "V", "S", "I", "P"];
    let aes: &[&str] = &["R", "S"];
    let mut own: Vec<(&str, Item)> = vec![("$UUID", Item::Bytes(id.as_bytes().to_vec()))];
    let names = match c.algo {
        0 | 1 => {
            own.push(("R", Item::U64(c.n[0])));
            own.push(("S", Item::Bytes(c.salt.clone())));
            aes
        }
        2 | 3 => {
            own.push(("M", Item::U64(c.n[0])));
            own.push(("V", Item::U32(c.m[0])));
            own.push(("S", Item::Bytes(c.salt.clone())));
            own.push(("I", Item::U64(c.n[1])));
            own.push(("P", Item::U32(c.m[1])));
            argon2
        }
        _ => &[],
    };
    let mut dict: HashMap<String, Item> = own.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    for (k, v) in &c.extra {
        dict.entry(k.clone()).or_insert_with(|| v.clone());
    }
    let to_lib = |d: &HashMap<String, Item>| -> VariantDict { d.iter().map(|(k, v)| (k.clone(), v.to_lib())).collect() };
    if let Some((which, missing, item)) = &c.fault {
        let all: Vec<&str> = ["$UUID"].into_iter().chain(names.iter().copied()).collect();
        let k = all[which % all.len()];
        let right = dict.remove(k).expect("parameter");
        if !missing {
            if std::mem::discriminant(&right) == std::mem::discriminant(item) {
                return Ok(());
            }
            dict.insert(k.into(), item.clone());
        }
        ctx.label(if *missing { "missing" } else { "of another type" });
        return match KdfParams::try_from(to_lib(&dict)) {
            Ok(p) => Err(format!("{dict:?} without a usable {k} is taken for {p:?}")),
            Err(HeaderError::MissingKdfParam(n, _)) if k != "$UUID" && n == k => Ok(()),
            Err(HeaderError::MalformedField(OuterHeaderId::KdfParameters, _)) if k == "$UUID" => Ok(()),
            Err(e) => Err(format!("{k} is at fault, reported is {e:?}")),
        };
    }
    let want = match c.algo {
        0 | 1 => KdfParams::Aes {
            rounds: c.n[0],
            salt: c.salt.clone(),
        },
        2 | 3 => KdfParams::Argon2 {
            variant: if c.algo == 2 { argon2::Variant::Argon2d } else { argon2::Variant::Argon2id },
            memory_bytes: c.n[0],
            version: c.m[0],
            salt: c.salt.clone(),
            lanes: c.m[1],
            iterations: c.n[1],
        },
        _ => {
            let mut params = to_lib(&dict);
            params.remove("$UUID");
            KdfParams::Unknown { uuid: id, params }
        }
    };
    ctx.label(["AES", "AES", "Argon2d", "Argon2id", "unknown KDF"][c.algo as usize]);
    let got = KdfParams::try_from(to_lib(&dict)).map_err(|e| format!("{dict:?} is refused: {e:?}"))?;
    same("parameters of a dictionary", &want, &got)?;
    // And back: known parameters only, unknown algorithms with all of theirs
    let mut back = if c.algo == 4 { to_lib(&dict) } else { to_lib(&own.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()) };
    let got = VariantDict::from(want.clone());
    if c.algo < 2 {
        // Either identifier of the AES KDF
        let u = got.get("$UUID").cloned();
        if ![0, 1].iter().any(|i| u == Some(V::Array(Uuid::from_u128(kdfs()[*i].0).as_bytes().to_vec()))) {
            return Err(format!("identifier of the AES KDF: {u:?}"));
        }
        back.insert("$UUID".into(), u.unwrap());
    }
    same("dictionary of parameters", &back, &got)?;
    same("parameters there and back", want, KdfParams::try_from(got).map_err(|e| format!("own dictionary refused: {e:?}"))?)
}

fn hex_id() -> S<String> {
    ids().prop_map(|u| format!("{u:032x}")).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C26",
        level: "exploration",
        rule: "every case converts something there and back",
        assumptions: &[
            "the numbers and identifiers are those of the format documentation",
            "an unknown KDF has no parameter called $UUID; Argon2i is no KDF of the format",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "identifiers",
                quick: 800_000,
                thorough: 8_000_000,
                strategy: |_| hex_id(),
                run: run_uuid,
                need: &["unknown cipher", "known cipher", "unknown KDF", "known KDF"],
            }),
            Box::new(Scn {
                name: "numbers",
                quick: 800_000,
                thorough: 8_000_000,
                strategy: |_| {
                    prop_oneof![
                        2 => 0u32..300,
                        1 => any::<u32>(),
                        1 => (0u32..5, 8u32..32).prop_map(|(n, b)| n | 1 << b),
                        1 => (0u32..4).prop_map(u32::swap_bytes),
                    ]
                    .boxed()
                },
                run: run_number,
                need: &["unknown field", "known field"],
            }),
            Box::new(Scn {
                name: "values",
                quick: 800_000,
                thorough: 8_000_000,
                strategy: |_| item(),
                run: run_item,
                need: &[],
            }),
            Box::new(Scn {
                name: "KDF parameters",
                quick: 1_600_000,
                thorough: 16_000_000,
                strategy: |_| {
                    (
                        0u8..5,
                        hex_id(),
                        any::<[u64; 2]>(),
                        any::<[u32; 2]>(),
                        vec(any::<u8>(), 0..70),
                        vec((prop_oneof![3 => any_text(), 1 => select(vec!["K", "A", "R", "S", "M", "m", "$uuid", "UUID", "V", "I", "P"]).prop_map(String::from)], item()), 0..5),
                        proptest::option::weighted(0.3, (any::<usize>(), any::<bool>(), item())),
                    )
                        .prop_map(|(algo, other, n, m, salt, mut extra, fault)| {
                            extra.retain(|(k, _)| k != "$UUID");
                            Case {
                                algo,
                                other,
                                n,
                                m,
                                salt,
                                extra,
                                fault,
                            }
                        })
                        .boxed()
                },
                run: run_params,
                need: &["missing", "of another type", "AES", "Argon2d", "Argon2id", "unknown KDF"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
