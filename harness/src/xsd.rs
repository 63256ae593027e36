//! Lexical-to-value mapping of the XSD datatypes the layouts support, written from the XSD
//! recommendation (no use of the xsd-types crate).
use crate::gen;
use num_bigint::BigInt;
use num_rational::BigRational;

pub const NS: &str = "http://www.w3.org/2001/XMLSchema#";

/// name, lower bound, upper bound of the integer types.
pub const INTEGERS: &[(&str, Option<i128>, Option<i128>)] = &[
    ("integer", None, None),
    ("nonPositiveInteger", None, Some(0)),
    ("negativeInteger", None, Some(-1)),
    ("nonNegativeInteger", Some(0), None),
    ("positiveInteger", Some(1), None),
    ("long", Some(i64::MIN as i128), Some(i64::MAX as i128)),
    ("int", Some(i32::MIN as i128), Some(i32::MAX as i128)),
    ("short", Some(i16::MIN as i128), Some(i16::MAX as i128)),
    ("byte", Some(i8::MIN as i128), Some(i8::MAX as i128)),
    ("unsignedLong", Some(0), Some(u64::MAX as i128)),
    ("unsignedInt", Some(0), Some(u32::MAX as i128)),
    ("unsignedShort", Some(0), Some(u16::MAX as i128)),
    ("unsignedByte", Some(0), Some(u8::MAX as i128)),
];

fn in_range(q: &BigRational, name: &str) -> bool {
    if name == "decimal" {
        return true;
    }
    match INTEGERS.iter().find(|t| t.0 == name) {
        Some((_, lo, hi)) => {
            q.is_integer()
                && lo.map(|b| q.numer() >= &BigInt::from(b)).unwrap_or(true)
                && hi.map(|b| q.numer() <= &BigInt::from(b)).unwrap_or(true)
        }
        None => false,
    }
}

/// The number a literal of the datatype denotes, if any.
pub fn read_number(lex: &str, dt: &str) -> Option<BigRational> {
    let name = dt.strip_prefix(NS)?;
    if name != "decimal" && lex.contains('.') {
        return None;
    }
    let q = gen::read_decimal(lex)?;
    in_range(&q, name).then_some(q)
}

/// Can the number be written as a literal of the datatype?
pub fn has_number(q: &BigRational, dt: &str) -> bool {
    match dt.strip_prefix(NS) {
        Some(name) => gen::decimal(q).is_some() && in_range(q, name),
        None => false,
    }
}

pub fn read_boolean(lex: &str, dt: &str) -> Option<bool> {
    if dt.strip_prefix(NS)? != "boolean" {
        return None;
    }
    match lex {
        "true" | "1" => Some(true),
        "false" | "0" => Some(false),
        _ => None,
    }
}
