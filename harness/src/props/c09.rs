//! C09: CBOR conversion and tags.
use num_bigint::{BigInt, Sign};
use num_traits::ToPrimitive;
use rdf_types::{Literal as RdfLiteral, LiteralType, Term};
use serde_cbor::Value as C;
use std::collections::BTreeMap;
use treeldr_layouts::{
    value::{cbor::InvalidTag, Number},
    LayoutRegistry, Layouts, Literal, Ref, TypedLiteral, TypedValue, Value,
};
use vharness::{gen, Rep, Rng};

/// A CBOR item in a readable canonical form.
fn show(c: &C) -> String {
    match c {
        C::Null => "null".into(),
        C::Bool(b) => b.to_string(),
        C::Integer(i) => format!("int {i}"),
        C::Float(f) => format!("float {:016x}", f.to_bits()),
        C::Bytes(b) => format!("bytes {b:?}"),
        C::Text(t) => format!("text {t:?}"),
        C::Array(a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(", ")),
        C::Map(m) => {
            let mut e: Vec<String> = m.iter().map(|(k, v)| format!("{} => {}", show(k), show(v))).collect();
            e.sort();
            format!("{{{}}}", e.join(", "))
        }
        C::Tag(t, v) => format!("tag {t} ({})", show(v)),
        _ => "hidden".into(),
    }
}

fn number(n: &Number) -> String {
    let q = n.as_big_rational();
    if !q.is_integer() {
        return format!("float {:016x}", q.to_f64().unwrap().to_bits());
    }
    let i = q.numer();
    let max = BigInt::from(u64::MAX);
    let min = -BigInt::from(u64::MAX) - 1;
    if *i <= max && *i >= min {
        format!("int {i}")
    } else if i.sign() == Sign::Plus {
        format!("tag 2 (bytes {:?})", i.to_bytes_be().1)
    } else {
        format!("tag 3 (bytes {:?})", (-i - BigInt::from(1)).to_bytes_be().1)
    }
}

fn plain(v: &Value) -> String {
    match v {
        Value::Literal(Literal::Unit) => "null".into(),
        Value::Literal(Literal::Boolean(b)) => b.to_string(),
        Value::Literal(Literal::Number(n)) => number(n),
        Value::Literal(Literal::TextString(s)) => format!("text {s:?}"),
        Value::Literal(Literal::ByteString(s)) => format!("bytes {s:?}"),
        Value::List(l) => format!("[{}]", l.iter().map(plain).collect::<Vec<_>>().join(", ")),
        Value::Map(m) => {
            let mut e: Vec<String> = m.iter().map(|(k, v)| format!("{} => {}", plain(k), plain(v))).collect();
            e.sort();
            format!("{{{}}}", e.join(", "))
        }
    }
}

/// Two keys of one map that become the same CBOR key (numbers rounded to one float).
fn collides(v: &Value) -> bool {
    match v {
        Value::Literal(_) => false,
        Value::List(l) => l.iter().any(collides),
        Value::Map(m) => {
            let mut k: Vec<String> = m.keys().map(plain).collect();
            let n = k.len();
            k.sort();
            k.dedup();
            k.len() < n || m.iter().any(|(k, v)| collides(k) || collides(v))
        }
    }
}

#[derive(Clone, Debug)]
enum Decl {
    None,
    Tag(u64),
    BadValue(String),
    BadType(String),
    NotLiteral,
}

fn tagged(t: &TypedValue<u32>, decl: &BTreeMap<u32, Decl>) -> Result<String, Vec<String>> {
    let mut errs = Vec::new();
    fn wrap(s: String, d: &Decl, errs: &mut Vec<String>) -> String {
        match d {
            Decl::None => s,
            Decl::Tag(n) => format!("tag {n} ({s})"),
            Decl::BadValue(v) => {
                errs.push(format!("value {v}"));
                s
            }
            Decl::BadType(v) => {
                errs.push(format!("type {v}"));
                s
            }
            Decl::NotLiteral => {
                errs.push("non literal".into());
                s
            }
        }
    }
    fn go(t: &TypedValue<u32>, decl: &BTreeMap<u32, Decl>, errs: &mut Vec<String>) -> String {
        let d = |r: &u32| decl.get(r).cloned().unwrap_or(Decl::None);
        match t {
            TypedValue::Always(v) => plain(v),
            TypedValue::Literal(TypedLiteral::Unit(v, r)) => wrap(plain(v), &d(r.id()), errs),
            TypedValue::Literal(TypedLiteral::Boolean(v, r)) => wrap(v.to_string(), &d(r.id()), errs),
            TypedValue::Literal(TypedLiteral::Number(v, r)) => wrap(number(v), &d(r.id()), errs),
            TypedValue::Literal(TypedLiteral::ByteString(v, r)) => wrap(format!("bytes {v:?}"), &d(r.id()), errs),
            TypedValue::Literal(TypedLiteral::TextString(v, r)) => wrap(format!("text {v:?}"), &d(r.id()), errs),
            TypedValue::Literal(TypedLiteral::Id(v, r)) => wrap(format!("text {v:?}"), &d(r.id()), errs),
            TypedValue::Variant(v, r, _) => {
                let s = go(v, decl, errs);
                wrap(s, &d(r.id()), errs)
            }
            TypedValue::List(l, r) => {
                let s = format!("[{}]", l.iter().map(|t| go(t, decl, errs)).collect::<Vec<_>>().join(", "));
                wrap(s, &d(r.id()), errs)
            }
            TypedValue::Map(m, r) => {
                let mut e: Vec<String> = m.iter().map(|(k, v)| format!("{} => {}", plain(k), go(v, decl, errs))).collect();
                e.sort();
                wrap(format!("{{{}}}", e.join(", ")), &d(r.id()), errs)
            }
        }
    }
    let s = go(t, decl, &mut errs);
    if errs.is_empty() { Ok(s) } else { Err(errs) }
}

fn id(k: u32) -> Term {
    Term::iri(iref::IriBuf::new(format!("http://l/{k}")).unwrap())
}
fn to_term(t: &TypedValue<u32>) -> TypedValue<Term> {
    match t {
        TypedValue::Always(v) => TypedValue::Always(v.clone()),
        TypedValue::Literal(TypedLiteral::Unit(v, r)) => TypedValue::Literal(TypedLiteral::Unit(v.clone(), Ref::new(id(*r.id())))),
        TypedValue::Literal(TypedLiteral::Boolean(v, r)) => TypedValue::Literal(TypedLiteral::Boolean(*v, Ref::new(id(*r.id())))),
        TypedValue::Literal(TypedLiteral::Number(v, r)) => TypedValue::Literal(TypedLiteral::Number(v.clone(), Ref::new(id(*r.id())))),
        TypedValue::Literal(TypedLiteral::ByteString(v, r)) => TypedValue::Literal(TypedLiteral::ByteString(v.clone(), Ref::new(id(*r.id())))),
        TypedValue::Literal(TypedLiteral::TextString(v, r)) => TypedValue::Literal(TypedLiteral::TextString(v.clone(), Ref::new(id(*r.id())))),
        TypedValue::Literal(TypedLiteral::Id(v, r)) => TypedValue::Literal(TypedLiteral::Id(v.clone(), Ref::new(id(*r.id())))),
        TypedValue::Variant(v, r, i) => TypedValue::Variant(Box::new(to_term(v)), Ref::new(id(*r.id())), *i),
        TypedValue::List(l, r) => TypedValue::List(l.iter().map(to_term).collect(), Ref::new(id(*r.id()))),
        TypedValue::Map(m, r) => TypedValue::Map(m.iter().map(|(k, v)| (k.clone(), to_term(v))).collect(), Ref::new(id(*r.id()))),
    }
}

fn lit(v: &str, ty: &str) -> Term {
    Term::Literal(RdfLiteral::new(v.to_string(), LiteralType::Any(iref::IriBuf::new(ty.to_string()).unwrap())))
}
const UL: &str = "http://www.w3.org/2001/XMLSchema#unsignedLong";
const UI: &str = "http://www.w3.org/2001/XMLSchema#unsignedInt";
const UB: &str = "http://www.w3.org/2001/XMLSchema#unsignedByte";

fn decl(r: &mut Rng) -> (Decl, Option<Term>) {
    match r.below(12) {
        0..=4 => (Decl::None, None),
        5..=8 => {
            let (ty, n) = match r.below(4) {
                0 => (UL, r.next()),
                1 => (UI, r.next() as u32 as u64),
                2 => (UB, r.below(256) as u64),
                _ => (UL, *r.pick(&[0, 1, 2, 3, 23, 24, 255, 256, 65535, u64::MAX])),
            };
            (Decl::Tag(n), Some(lit(&n.to_string(), ty)))
        }
        9 => {
            let v = r.pick(&["", "x", "-1", "18446744073709551616", "1.0"]).to_string();
            (Decl::BadValue(v.clone()), Some(lit(&v, UL)))
        }
        10 => {
            let t = "http://www.w3.org/2001/XMLSchema#string";
            (Decl::BadType(t.into()), Some(lit("1", t)))
        }
        _ => (Decl::NotLiteral, Some(id(99))),
    }
}

pub fn run(rep: &mut Rep) {
    let mut r = rep.rng(9);
    let n = rep.n(40_000, 800_000);
    for i in gen::INTS {
        for d in [-1i128, 0, 1] {
            let v = Value::Literal(Literal::Number(Number::new(num_rational::BigRational::from_integer(BigInt::from(*i) + BigInt::from(d)))));
            value(rep, v);
        }
    }
    for _ in 0..n {
        let v = gen::value(&mut r, 3);
        value(rep, v);
    }
    for _ in 0..n {
        let (t, u) = super::c08::typed(&mut r, 3);
        if collides(&u) {
            continue;
        }
        let mut decls = BTreeMap::new();
        let mut layouts: Layouts<Term> = Layouts::new();
        let mut text = String::new();
        for k in 0..6u32 {
            let (mut d, t) = decl(&mut r);
            let mut extra = BTreeMap::new();
            if let Some(t) = t {
                extra.insert(Term::iri(iref::IriBuf::new("https://schema.treeldr.org/cbor#tag".into()).unwrap()), t);
            }
            if r.one_in(3) {
                extra.insert(id(77), lit("12", UL));
            }
            let kind = r.below(gen::KINDS + 1);
            if kind < 2 {
                d = Decl::None; // top and bottom have no properties
            }
            text.push_str(&format!(" {k}: kind {kind} {d:?}"));
            decls.insert(k, d);
            layouts.insert(id(k), gen::layout_of_kind(kind, id(50), &[id(0)], extra));
        }
        rep.check(format!("typed {t:?} with tags{text}"), true, || {
            let untyped: C = t.clone().into();
            if show(&untyped) != plain(&u) {
                return Err(format!("converts to {}, expected {}", show(&untyped), plain(&u)));
            }
            let got = to_term(&t).try_into_tagged_serde_cbor(&layouts);
            let reg = layouts.with(None::<Layouts<Term>>);
            let got2 = to_term(&t).try_into_tagged_serde_cbor_with(&(), &(), &reg);
            for got in [got, got2] {
                match (got, tagged(&t, &decls)) {
                    (Ok(c), Ok(w)) if show(&c) == w => (),
                    (Ok(c), Ok(w)) => return Err(format!("tagged conversion gives {}, expected {w}", show(&c))),
                    (Ok(_), Err(e)) => return Err(format!("invalid tag accepted: {e:?}")),
                    (Err(e), w) => {
                        let s = match &e {
                            InvalidTag::NonLiteral => "non literal".to_string(),
                            InvalidTag::Value(v) => format!("value {v}"),
                            InvalidTag::Type(t) => format!("type {t}"),
                        };
                        match w {
                            Err(es) if es.contains(&s) => (),
                            _ => return Err(format!("rejected: {e}")),
                        }
                    }
                }
            }
            Ok(())
        });
    }
    rep.bound(format!("{n} random tree values and typed values of depth <= 3 with 6 layouts, integers around every power of two up to 2^140"));
}

fn value(rep: &mut Rep, v: Value) {
    if collides(&v) {
        return;
    }
    rep.check(format!("tree {v:?}"), true, || {
        let c: C = v.clone().into();
        if show(&c) != plain(&v) {
            return Err(format!("converts to {}, expected {}", show(&c), plain(&v)));
        }
        Ok(())
    });
}
