use crate::engine::Property;

mod common;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;

pub fn all() -> Vec<Property> {
    vec![
        c01::property(),
        c02::property(),
        c03::property(),
        c04::property(),
        c05::property(),
        c06::property(),
        c07::property(),
        c08::property(),
        c09::property(),
        c10::property(),
        c11::property(),
        c12::property(),
        c13::property(),
        c14::property(),
        c15::property(),
        c16::property(),
        c17::property(),
        c18::property(),
        c19::property(),
        c20::property(),
        c21::property(),
        c22::property(),
        c23::property(),
        c24::property(),
        c25::property(),
        c26::property(),
        c27::property(),
        c28::property(),
    ]
}

/// Sub-commands that checks run in a process of their own.
pub fn helper(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("nested") => c07::helper(&args[1..]),
        Some("secrets") => c18::helper(&args[1..]),
        Some("now") => c19::helper(&args[1..]),
        _ => 2,
    }
}
