//! Generators shared by the executable contracts.
use crate::Rng;
use num_bigint::{BigInt, Sign};
use num_rational::BigRational;
use num_traits::{Signed, Zero};
use std::collections::BTreeMap;
use treeldr_layouts::{value::Number, Literal, Value};

pub const INTS: &[i128] = &[
    0, 1, -1, 2, 5, -5, 7, 9, 10, -10, 11, 99, 100, -100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769,
    65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740993,
    -9007199254740993, 9223372036854775807, 9223372036854775808, -9223372036854775808, -9223372036854775809,
    18446744073709551615, 18446744073709551616, -18446744073709551615, -18446744073709551616, -18446744073709551617,
    170141183460469231731687303715884105727, -170141183460469231731687303715884105728, 1000000, 1000000000000000000000,
];

pub fn bigint(r: &mut Rng) -> BigInt {
    match r.below(6) {
        0 => BigInt::from(*r.pick(INTS)),
        1 => BigInt::from(*r.pick(INTS)) + BigInt::from(r.range(-2, 2)),
        2 => BigInt::from(r.range(-20, 20)),
        3 => BigInt::from(r.next() as i64),
        4 => BigInt::from(r.next() as i64) * BigInt::from(r.next() as i64) * BigInt::from(r.range(-3, 3)),
        _ => {
            // around powers of two
            let p = BigInt::from(1) << r.below(140);
            let p = p + BigInt::from(r.range(-2, 2));
            if r.one_in(2) { -p } else { p }
        }
    }
}

pub fn rational(r: &mut Rng) -> BigRational {
    match r.below(4) {
        0 => BigRational::from_integer(bigint(r)),
        1 => {
            // finite expansion
            let mut d = BigInt::from(1);
            for _ in 0..r.below(12) {
                d *= *r.pick(&[2, 5, 10]);
            }
            BigRational::new(bigint(r), d)
        }
        2 => BigRational::new(BigInt::from(r.range(-60, 60)), BigInt::from(r.range(1, 60))),
        _ => {
            let d = bigint(r);
            BigRational::new(bigint(r), if d.is_zero() { BigInt::from(1) } else { d.abs() })
        }
    }
}

/// Fewer than `n` parts, rarely many.
pub fn few(r: &mut Rng, n: usize) -> usize {
    if r.one_in(60) {
        r.below(48)
    } else {
        r.below(n)
    }
}

pub fn string(r: &mut Rng) -> String {
    const CH: &[char] = &[
        'a', 'b', 'é', '"', '\\', '\n', '\u{0}', ' ', '𝄞', '/', '0', '\u{7f}', '日', ':', '\r', '\t', '\u{85}', '\u{a0}', '\u{feff}', '\u{2028}', '\u{10ffff}', 'Z', '-', '%',
        'e', '\u{301}', '\'', '#', '_', '.', '{', '\u{fffd}', '\u{d7ff}', '\u{1f}',
    ];
    match r.below(12) {
        0 | 1 => String::new(),
        2 => r.pick(&["a", "b", "ab", "key", "true", "null", "1", "-1", "x00", "[]"]).to_string(),
        3 => r
            .pick(&[
                "\r\n", "a\r\nb", " a", "a ", "  ", "\n", "\t", "a\0", "\0", "\u{feff}a", "A", "É", "e\u{301}", "\\n", "\\u0041", "%41", "&amp;", "\u{85}", "-0", "0", "00", "1.0", "1e5", "NaN", "INF", "+1", " 1", "1 ",
                "TRUE", "False", "yes", "''", "\"\"", "http://x/", "_:b", "_", "a:b", "<>", "${x}", "{}", "@en", "^^",
            ])
            .to_string(),
        4 if r.one_in(8) => {
            let n = *r.pick(&[20, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300]);
            let c = r.below(3);
            (0..n).map(|i| if c == 0 { 'x' } else if c == 1 { *r.pick(CH) } else { (b'a' + (i % 26) as u8) as char }).collect()
        }
        _ => (0..r.below(5)).map(|_| *r.pick(CH)).collect(),
    }
}

pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(40) {
        0 => *r.pick(&[22, 23, 24, 25, 32, 47, 48, 49, 57, 58, 63, 64, 65, 76, 77, 128, 255, 256, 257, 300, 1000]),
        1 | 2 => r.below(24),
        _ => r.below(4),
    };
    let c = r.below(3);
    (0..n).map(|i| if c == 0 { *r.pick(&[0, 255, 0x80, 0x7f]) } else if c == 1 { i as u8 } else { r.below(256) as u8 }).collect()
}

pub fn literal(r: &mut Rng, json: bool) -> Literal {
    match r.below(if json { 4 } else { 5 }) {
        0 => Literal::Unit,
        1 => Literal::Boolean(r.one_in(2)),
        2 => Literal::Number(Number::new(rational(r))),
        3 => Literal::TextString(string(r)),
        _ => Literal::ByteString(bytes(r)),
    }
}

/// Any tree value.
pub fn value(r: &mut Rng, depth: usize) -> Value {
    match if depth == 0 { 0 } else { r.below(4) } {
        0 | 1 => Value::Literal(literal(r, false)),
        2 => Value::List((0..few(r, 4)).map(|_| value(r, depth - 1)).collect()),
        _ => Value::Map(
            (0..few(r, 4))
                .map(|_| {
                    let k = if r.one_in(4) { value(r, depth.saturating_sub(2)) } else { Value::string(string(r)) };
                    (k, value(r, depth - 1))
                })
                .collect::<BTreeMap<_, _>>(),
        ),
    }
}

/// The number denoted by a plain decimal: sign, digits, optional fraction.
pub fn read_decimal(s: &str) -> Option<BigRational> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (i, f) = match s.split_once('.') {
        Some((i, f)) => (i, f),
        None => (s, ""),
    };
    if i.is_empty() && f.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n = BigInt::from(0);
    for b in i.bytes().chain(f.bytes()) {
        n = n * 10 + (b - b'0');
    }
    let d = BigInt::from(10).pow(f.len() as u32);
    let v = BigRational::new(n, d);
    Some(if neg { -v } else { v })
}

/// Finite decimal expansion of a rational: None if there is none, else its canonical form.
pub fn decimal(q: &BigRational) -> Option<String> {
    let mut d = q.denom().clone();
    let mut k = 0usize;
    // number of fractional digits: max exponent of 2 and 5
    let (mut e2, mut e5) = (0, 0);
    while (&d % BigInt::from(2)).is_zero() {
        d /= 2;
        e2 += 1;
    }
    while (&d % BigInt::from(5)).is_zero() {
        d /= 5;
        e5 += 1;
    }
    if d != BigInt::from(1) {
        return None;
    }
    k = k.max(e2).max(e5);
    let scaled = q.numer().abs() * BigInt::from(10).pow(k as u32) / q.denom();
    let mut digits = scaled.to_str_radix(10);
    while digits.len() <= k {
        digits.insert(0, '0');
    }
    let (i, f) = digits.split_at(digits.len() - k);
    let sign = if q.numer().sign() == Sign::Minus { "-" } else { "" };
    Some(if k == 0 { format!("{sign}{i}") } else { format!("{sign}{i}.{f}") })
}

use treeldr_layouts::layout::list::{ordered::NodeLayout, ItemLayout};
use treeldr_layouts::layout::product::Field;
use treeldr_layouts::layout::sum::Variant;
use treeldr_layouts::layout::*;
use treeldr_layouts::{Dataset, Layout, Pattern, Ref, ValueFormat};

/// Number of layout kinds of [`layout_of_kind`].
pub const KINDS: usize = 12;

/// A layout of kind `k` whose parts refer to `deps`, with the given extra properties.
pub fn layout_of_kind<R: Clone + Ord>(k: usize, dt: R, deps: &[R], extra_properties: BTreeMap<R, R>) -> Layout<R> {
    let fmt = |r: &R| ValueFormat { layout: Ref::new(r.clone()), input: vec![Pattern::Var(0)], graph: None };
    let item = |r: &R| ItemLayout { intro: 0, value: fmt(r), dataset: Dataset::new() };
    let first = deps.first().cloned().unwrap_or(dt.clone());
    let datatype = dt;
    let (input, intro, dataset, resource) = (1, 0, Dataset::new(), Pattern::Var(0));
    match k {
        0 => Layout::Never,
        1 => Layout::Always,
        2 => Layout::Literal(LiteralLayout::Data(DataLayout::Unit(UnitLayout { input, intro, dataset, const_: Value::unit(), extra_properties }))),
        3 => Layout::Literal(LiteralLayout::Data(DataLayout::Boolean(BooleanLayout { input, intro, dataset, resource, datatype, extra_properties }))),
        4 => Layout::Literal(LiteralLayout::Data(DataLayout::Number(NumberLayout { input, intro, dataset, resource, datatype, extra_properties }))),
        5 => Layout::Literal(LiteralLayout::Data(DataLayout::ByteString(ByteStringLayout { input, intro, dataset, resource, datatype, extra_properties }))),
        6 => Layout::Literal(LiteralLayout::Data(DataLayout::TextString(TextStringLayout { input, intro, pattern: None, dataset, resource, datatype, extra_properties }))),
        7 => Layout::Literal(LiteralLayout::Id(IdLayout { input, intro, dataset, pattern: None, resource, extra_properties })),
        8 => Layout::Product(ProductLayout {
            input,
            intro,
            fields: deps
                .iter()
                .enumerate()
                .map(|(i, r)| (Value::string(format!("f{i}")), Field { intro: 0, value: fmt(r), dataset: Dataset::new(), required: false }))
                .collect(),
            dataset,
            extra_properties,
        }),
        9 => Layout::List(ListLayout::Unordered(UnorderedListLayout { input, intro, item: item(&first), dataset, extra_properties })),
        10 => Layout::List(ListLayout::Ordered(OrderedListLayout {
            input,
            intro,
            node: NodeLayout { intro: 0, value: fmt(&first), dataset: Dataset::new() },
            head: Pattern::Var(0),
            tail: Pattern::Var(0),
            dataset,
            extra_properties,
        })),
        11 => Layout::List(ListLayout::Sized(SizedListLayout { input, intro, items: deps.iter().map(item).collect(), dataset, extra_properties })),
        _ => Layout::Sum(SumLayout {
            input,
            intro,
            variants: deps.iter().enumerate().map(|(i, r)| Variant { name: format!("v{i}"), intro: 0, value: fmt(r), dataset: Dataset::new() }).collect(),
            dataset,
            extra_properties,
        }),
    }
}

/// The number written in JSON as `s`.
pub fn read_json_number(s: &str) -> Option<BigRational> {
    let (d, e) = match s.split_once(['e', 'E']) {
        Some((d, e)) => (d, e.parse::<i32>().ok()?),
        None => (s, 0),
    };
    Some(read_decimal(d)? * BigRational::from_integer(BigInt::from(10)).pow(e))
}
