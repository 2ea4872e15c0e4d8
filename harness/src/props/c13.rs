//! Unknown XML content never disturbs the data the library understands.
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::lib_api;
use crate::model::*;
use crate::refkdbx::*;
use crate::refxml::{self, Style};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    db: MDb,
    set: Settings,
    creds: Creds,
    style: Style,
    how: u8,
}

fn parse(xml: &[u8], c: &Case) -> Result<MDb, String> {
    match c.how {
        0 => {
            let mut st = c
                .set
                .inner
                .to_lib()
                .stream_cipher(&c.set.inner_key)
                .map_err(|e| format!("inner cipher refused: {e:?}"))?;
            let got = kdbx_rs::xml::parse_xml(xml, st.as_mut()).map_err(|e| format!("parsing failed: {e:?}"))?;
            Ok(MDb::from_lib(&got))
        }
        1 => Ok(lib_api::load(&V4::simple(&c.set, &c.creds, xml.to_vec()).encode(), &c.creds)?.1),
        _ => Ok(lib_api::load(&V3::simple(&c.set, &c.creds, &[5; 32], xml.to_vec()).encode(), &c.creds)?.1),
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> Verdict {
    let r = refxml::render(&c.db, &c.style, &mut *c.set.inner.stream(&c.set.inner_key), None);
    ctx.nt_if(r.foreign > 0);
    ctx.label(["XML", "KDBX 4", "KDBX 3"][c.how as usize]);
    ctx.label_if(r.foreign > 0, "unknown content");
    ctx.label_if(r.foreign_secrets > 0 && c.db.count().prot > 0, "unknown protected values");
    let got = parse(&r.xml, c)?;
    same_db(&as_read(&c.db), &got).map_err(|e| {
        format!("{e}\n--- document ---\n{}", short(&String::from_utf8_lossy(&r.xml), 3000))
    })
}

fn case(how: S<u8>) -> S<Case> {
    (db(), cheap_settings(), creds(), style(), proptest::sample::select(vec![3u8, 10, 30, 55]), how)
        .prop_map(|(db, set, creds, mut style, foreign, how)| {
            style.foreign = foreign;
            Case {
                db,
                set,
                creds,
                style,
                how,
            }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C13",
        level: "exploration",
        rule: "the document has content the library does not model",
        assumptions: &[
            "inside an element that holds one value (a name, a key, a time) there is no other element",
            "a field has its key before its value",
        ],
        scenarios: vec![
            Box::new(Scn {
                name: "documents",
                quick: 30000,
                thorough: 600000,
                strategy: |_| case(Just(0u8).boxed()),
                run,
                need: &["unknown content", "unknown protected values"],
            }),
            Box::new(Scn {
                name: "archives",
                quick: 10000,
                thorough: 200000,
                strategy: |_| case((1u8..3).boxed()),
                run,
                need: &["unknown content", "unknown protected values", "KDBX 3", "KDBX 4"],
            }),
        ],
        hang_is_violation: false,
        known: no_known,
    }
}
