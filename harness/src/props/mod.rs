use crate::run::{AnyPart, Obs, Part, Probe, Property, Verdict};
use proptest::strategy::BoxedStrategy;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c24;
mod c25;
mod c26;

pub fn part<C>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: fn() -> BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> Verdict,
) -> Box<dyn AnyPart>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    Box::new(Part { name, rule, quick, thorough, strategy, check })
}

pub fn property(
    id: &'static str,
    parts: Vec<Box<dyn AnyPart>>,
    probes: Vec<Probe>,
    assumptions: Vec<&'static str>,
) -> Property {
    Property { id, parts, probes, assumptions }
}

pub fn all() -> Vec<Property> {
    vec![
        c01::property(),
        c02::property(),
        c03::property(),
        c04::property(),
        c05::property(),
        c06::property(),
        c07::c07(),
        c07::c08(),
        c07::c09(),
        c10::property(),
        c11::property(),
        c12::property(),
        c13::property(),
        c14::property(),
        c15::property(),
        c16::property(),
        c17::property(),
        c18::property(),
        c19::property(),
        c20::property(),
        c21::property(),
        c22::property(),
        c24::property(),
        c25::property(),
        c26::property(),
    ]
}

/// Reads a token text in each way that the library offers, which must agree
pub fn read(text: &str) -> Result<Result<ucan::ucan::Ucan, String>, String> {
    use ucan::ucan::Ucan;
    let a = Ucan::try_from(text).map_err(|e| format!("{e:?}"));
    let b = Ucan::try_from(text.to_string()).map_err(|e| format!("{e:?}"));
    let c = text.parse::<Ucan>().map_err(|e| format!("{e:?}"));
    for (how, x) in [("an owned text", &b), ("parse", &c)] {
        if a.is_ok() != x.is_ok() || a.is_ok() && (&a != x || a.as_ref().ok().map(|u| u.encode().ok()) != x.as_ref().ok().map(|u| u.encode().ok())) {
            return Err(format!("{text}\n  reads as {a:?}\n  and by {how} as {x:?}"));
        }
    }
    Ok(a)
}
