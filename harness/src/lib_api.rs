//! Thin wrappers around the library's public interface.
use crate::model::MDb;
use crate::refkdbx::*;
use kdbx_rs::binary::{CompressionType, Locked, Unlocked};
use kdbx_rs::{Database, Kdbx};

pub fn apply_header(h: &mut kdbx_rs::binary::KdbxHeader, s: &Settings) {
    h.cipher = s.cipher.to_lib();
    h.compression_type = if s.gzip {
        CompressionType::Gzip
    } else {
        CompressionType::None
    };
    h.kdf_params = s.kdf.to_lib();
    h.master_seed = s.seed.clone();
    h.encryption_iv = s.iv.clone();
}

pub fn apply(k: &mut Kdbx<Unlocked>, s: &Settings) {
    apply_header(k.header_mut(), s);
    let i = k.inner_header_mut();
    i.inner_stream_cipher = s.inner.to_lib();
    i.inner_stream_key = s.inner_key.clone();
}

pub fn create(db: Database, s: &Settings, c: &Creds) -> Result<Kdbx<Unlocked>, String> {
    let mut k = Kdbx::from_database(db);
    apply(&mut k, s);
    k.set_key(c.to_lib())
        .map_err(|e| format!("setting the key failed: {e:?}"))?;
    Ok(k)
}

pub fn write(k: &Kdbx<Unlocked>) -> Result<Vec<u8>, kdbx_rs::errors::WriteError> {
    let mut v = Vec::new();
    k.write(&mut v)?;
    Ok(v)
}

pub fn write_locked(k: &Kdbx<Locked>) -> Result<Vec<u8>, kdbx_rs::errors::WriteError> {
    let mut v = Vec::new();
    k.write(&mut v)?;
    Ok(v)
}

pub fn save(db: &MDb, s: &Settings, c: &Creds) -> Result<Vec<u8>, String> {
    let k = create(db.to_lib(), s, c)?;
    write(&k).map_err(|e| format!("saving failed: {e:?}"))
}

pub fn open(data: &[u8]) -> Result<Kdbx<Locked>, String> {
    kdbx_rs::from_reader(data).map_err(|e| format!("opening failed: {e:?}"))
}

pub fn unlock(data: &[u8], c: &Creds) -> Result<Kdbx<Unlocked>, String> {
    open(data)?
        .unlock(&c.to_lib())
        .map_err(|e| format!("unlocking failed: {:?}", e.1))
}

pub fn load(data: &[u8], c: &Creds) -> Result<(Kdbx<Unlocked>, MDb), String> {
    let k = unlock(data, c)?;
    let m = MDb::from_lib(k.database());
    Ok((k, m))
}

/// Header settings as the library reports them.
pub fn settings_of(h: &kdbx_rs::binary::KdbxHeader) -> (String, String, String, Vec<u8>, Vec<u8>) {
    (
        format!("{:?}", h.cipher),
        format!("{:?}", h.compression_type),
        format!("{:?}", h.kdf_params),
        h.master_seed.clone(),
        h.encryption_iv.clone(),
    )
}

pub fn want_settings(s: &Settings) -> (String, String, String, Vec<u8>, Vec<u8>) {
    (
        format!("{:?}", s.cipher.to_lib()),
        format!(
            "{:?}",
            if s.gzip {
                CompressionType::Gzip
            } else {
                CompressionType::None
            }
        ),
        format!("{:?}", s.kdf.to_lib()),
        s.seed.clone(),
        s.iv.clone(),
    )
}
