//! C08: JSON models <-> tree values.
use json_syntax::{Parse, TryFromJson};
use num_bigint::BigInt;
use num_rational::BigRational;
use serde::de::{value::*, IntoDeserializer};
use serde::Deserialize;
use std::collections::BTreeMap;
use treeldr_layouts::{
    value::{NonJsonValue, Number},
    Literal, Ref, TypedLiteral, TypedValue, Value,
};
use vharness::{gen, Rep, Rng};

/// A JSON document, independent of any library.
#[derive(Clone, Debug)]
enum J {
    Null,
    Bool(bool),
    Num(String, BigRational),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

fn num(r: &mut Rng) -> J {
    let mut s = String::new();
    if r.one_in(3) {
        s.push('-');
    }
    match r.below(5) {
        0 => s.push('0'),
        1 => s.push_str(&gen::INTS[r.below(gen::INTS.len())].unsigned_abs().to_string()),
        _ => s.push_str(&r.below(1000).to_string()),
    }
    if r.one_in(3) {
        s.push('.');
        for _ in 0..1 + r.below(6) {
            s.push((b'0' + r.below(10) as u8) as char);
        }
    }
    let mut v = gen::read_decimal(&s).unwrap();
    if r.one_in(4) {
        let e = r.range(-25, 25);
        s.push(*r.pick(&['e', 'E']));
        if e >= 0 && r.one_in(2) {
            s.push('+');
        }
        s.push_str(&e.to_string());
        let p = BigRational::from_integer(BigInt::from(10)).pow(e as i32);
        v *= p;
    }
    J::Num(s, v)
}

fn doc(r: &mut Rng, depth: usize) -> J {
    match if depth == 0 { r.below(5) } else { r.below(9) } {
        0 => J::Null,
        1 => J::Bool(r.one_in(2)),
        2 | 3 => num(r),
        4 => J::Str(gen::string(r)),
        5 | 6 => J::Arr((0..gen::few(r, 4)).map(|_| doc(r, depth - 1)).collect()),
        _ => {
            let mut e: Vec<(String, J)> = Vec::new();
            for _ in 0..gen::few(r, 4) {
                let k = gen::string(r);
                if !e.iter().any(|(x, _)| *x == k) {
                    e.push((k, doc(r, depth - 1)));
                }
            }
            J::Obj(e)
        }
    }
}

fn text(j: &J) -> String {
    fn s(x: &str) -> String {
        let mut o = String::from("\"");
        for c in x.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    match j {
        J::Null => "null".into(),
        J::Bool(b) => b.to_string(),
        J::Num(t, _) => t.clone(),
        J::Str(x) => s(x),
        J::Arr(a) => format!("[{}]", a.iter().map(text).collect::<Vec<_>>().join(",")),
        J::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{}", s(k), text(v))).collect::<Vec<_>>().join(",")),
    }
}

fn expected(j: &J) -> Value {
    match j {
        J::Null => Value::Literal(Literal::Unit),
        J::Bool(b) => Value::Literal(Literal::Boolean(*b)),
        J::Num(_, v) => Value::Literal(Literal::Number(Number::new(v.clone()))),
        J::Str(s) => Value::Literal(Literal::TextString(s.clone())),
        J::Arr(a) => Value::List(a.iter().map(expected).collect()),
        J::Obj(o) => Value::Map(o.iter().map(|(k, v)| (Value::Literal(Literal::TextString(k.clone())), expected(v))).collect()),
    }
}

fn same_serde(j: &J, v: &serde_json::Value) -> bool {
    match (j, v) {
        (J::Null, serde_json::Value::Null) => true,
        (J::Bool(b), serde_json::Value::Bool(c)) => b == c,
        (J::Num(_, q), serde_json::Value::Number(n)) => gen::read_json_number(&n.to_string()).as_ref() == Some(q),
        (J::Str(s), serde_json::Value::String(t)) => s == t,
        (J::Arr(a), serde_json::Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_serde(x, y)),
        (J::Obj(a), serde_json::Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_serde(v, w))),
        _ => false,
    }
}
fn same_js(j: &J, v: &json_syntax::Value) -> bool {
    match (j, v) {
        (J::Null, json_syntax::Value::Null) => true,
        (J::Bool(b), json_syntax::Value::Boolean(c)) => b == c,
        (J::Num(_, q), json_syntax::Value::Number(n)) => gen::read_json_number(n.as_str()).as_ref() == Some(q),
        (J::Str(s), json_syntax::Value::String(t)) => s.as_str() == t.as_str(),
        (J::Arr(a), json_syntax::Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_js(x, y)),
        (J::Obj(a), json_syntax::Value::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.iter().filter(|e| e.key.as_str() == k).count() == 1 && b.iter().any(|e| e.key.as_str() == k && same_js(v, &e.value)))
        }
        _ => false,
    }
}

fn document(rep: &mut Rep, j: &J) {
    let t = text(j);
    let want = expected(j);
    rep.check(format!("document {t}"), t.len() > 4, || {
        let (js, map) = json_syntax::Value::parse_str(&t).map_err(|e| format!("harness: {e}"))?;
        let sj: serde_json::Value = serde_json::from_str(&t).map_err(|e| format!("harness: {e}"))?;
        let a: Value = js.clone().into();
        if a != want {
            return Err(format!("json_syntax document converts to {a}"));
        }
        let b: Value = sj.clone().into();
        if b != want {
            return Err(format!("serde_json document converts to {b}"));
        }
        let Ok(c) = Value::try_from_json(&js, &map);
        if c != want {
            return Err(format!("json_syntax document with code map converts to {c}"));
        }
        match json_syntax::Value::try_from(want.clone()) {
            Ok(v) if same_js(j, &v) => (),
            Ok(v) => return Err(format!("converts back to {v} (json_syntax)")),
            Err(e) => return Err(format!("does not convert back: {e}")),
        }
        match serde_json::Value::try_from(want.clone()) {
            Ok(v) if same_serde(j, &v) => (),
            Ok(v) => return Err(format!("converts back to {v} (serde_json)")),
            Err(e) => return Err(format!("does not convert back: {e}")),
        }
        Ok(())
    });
}

/// A tree value JSON cannot express: set of acceptable culprits.
fn culprits(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Literal(Literal::ByteString(b)) => out.push(format!("bytes {b:?}")),
        Value::Literal(Literal::Number(n)) => {
            if gen::decimal(n.as_big_rational()).is_none() {
                out.push(format!("number {n}"))
            }
        }
        Value::Literal(_) => (),
        Value::List(l) => l.iter().for_each(|v| culprits(v, out)),
        Value::Map(m) => {
            for (k, v) in m {
                if k.as_str().is_none() {
                    out.push(format!("key {k:?}"))
                }
                culprits(v, out)
            }
        }
    }
}
fn reported(e: &NonJsonValue) -> String {
    match e {
        NonJsonValue::ByteString(b) => format!("bytes {b:?}"),
        NonJsonValue::Number(n) => format!("number {n}"),
        NonJsonValue::NonStringKey(k) => format!("key {k:?}"),
    }
}
fn jdoc(v: &Value) -> J {
    match v {
        Value::Literal(Literal::Unit) => J::Null,
        Value::Literal(Literal::Boolean(b)) => J::Bool(*b),
        Value::Literal(Literal::Number(n)) => J::Num(String::new(), n.as_big_rational().clone()),
        Value::Literal(Literal::TextString(s)) => J::Str(s.clone()),
        Value::Literal(Literal::ByteString(_)) => unreachable!(),
        Value::List(l) => J::Arr(l.iter().map(jdoc).collect()),
        Value::Map(m) => J::Obj(m.iter().map(|(k, v)| (k.as_str().unwrap().to_string(), jdoc(v))).collect()),
    }
}

fn period_ok(v: &Value) -> bool {
    match v {
        Value::Literal(Literal::Number(n)) => {
            let q = n.as_big_rational();
            gen::decimal(q).is_some() || q.denom() < &BigInt::from(20000)
        }
        Value::Literal(_) => true,
        Value::List(l) => l.iter().all(period_ok),
        Value::Map(m) => m.iter().all(|(k, v)| period_ok(k) && period_ok(v)),
    }
}

fn tree(rep: &mut Rep, v: Value) {
    if !period_ok(&v) {
        return;
    }
    rep.check(format!("tree {v:?}"), true, || {
        let mut bad = Vec::new();
        culprits(&v, &mut bad);
        let chk = |ok: Option<bool>, e: Option<NonJsonValue>, what: &str| match (ok, e) {
            (Some(true), _) => Ok(()),
            (Some(false), _) => Err(format!("converted to {what} as another value")),
            (_, Some(e)) if bad.contains(&reported(&e)) => Ok(()),
            (_, Some(e)) => Err(format!("{what}: rejected for {}", reported(&e))),
            _ => unreachable!(),
        };
        match json_syntax::Value::try_from(v.clone()) {
            Ok(o) => chk(Some(bad.is_empty() && same_js(&jdoc(&v), &o)), None, "json_syntax")?,
            Err(e) => chk(None, Some(e), "json_syntax")?,
        }
        match serde_json::Value::try_from(v.clone()) {
            Ok(o) => chk(Some(bad.is_empty() && same_serde(&jdoc(&v), &o)), None, "serde_json")?,
            Err(e) => chk(None, Some(e), "serde_json")?,
        }
        Ok(())
    });
}

pub type R = u32;
/// A random typed value and the untyped value it stands for.
pub fn typed(r: &mut Rng, depth: usize) -> (TypedValue<R>, Value) {
    let id = r.below(6) as u32;
    match if depth == 0 { r.below(7) } else { r.below(12) } {
        0 => {
            let v = gen::value(r, depth.min(2));
            (TypedValue::Literal(TypedLiteral::Unit(v.clone(), Ref::new(id))), v)
        }
        1 => {
            let b = r.one_in(2);
            (TypedValue::Literal(TypedLiteral::Boolean(b, Ref::new(id))), Value::Literal(Literal::Boolean(b)))
        }
        2 => {
            let n = Number::new(gen::rational(r));
            (TypedValue::Literal(TypedLiteral::Number(n.clone(), Ref::new(id))), Value::Literal(Literal::Number(n)))
        }
        3 => {
            let s = gen::string(r);
            (TypedValue::Literal(TypedLiteral::TextString(s.clone(), Ref::new(id))), Value::string(s))
        }
        4 => {
            let s = gen::string(r);
            (TypedValue::Literal(TypedLiteral::Id(s.clone(), Ref::new(id))), Value::string(s))
        }
        5 => {
            let b = gen::bytes(r);
            (TypedValue::Literal(TypedLiteral::ByteString(b.clone(), Ref::new(id))), Value::Literal(Literal::ByteString(b)))
        }
        6 => {
            let v = gen::value(r, 2);
            (TypedValue::Always(v.clone()), v)
        }
        7 | 8 => {
            let (t, v) = typed(r, depth - 1);
            (TypedValue::Variant(Box::new(t), Ref::new(id), r.below(3) as u32), v)
        }
        9 => {
            let (a, b): (Vec<_>, Vec<_>) = (0..gen::few(r, 4)).map(|_| typed(r, depth - 1)).unzip();
            (TypedValue::List(a, Ref::new(id)), Value::List(b))
        }
        _ => {
            let mut a = BTreeMap::new();
            let mut b = BTreeMap::new();
            for _ in 0..r.below(4) {
                let k = if r.one_in(5) { gen::value(r, 1) } else { Value::string(gen::string(r)) };
                let (t, v) = typed(r, depth - 1);
                a.insert(k.clone(), t);
                b.insert(k, v);
            }
            (TypedValue::Map(a, Ref::new(id)), Value::Map(b))
        }
    }
}

pub fn run(rep: &mut Rep) {
    let mut r = rep.rng(8);
    let n = rep.n(100_000, 2_000_000);
    for t in ["0", "-0", "1e2", "1E-2", "-1.50e+3", "0.0", "123456789012345678901234567890.5", "1e25", "9007199254740993"] {
        document(rep, &J::Num(t.into(), gen::read_json_number(t).unwrap()));
    }
    for _ in 0..n {
        let j = doc(&mut r, 3);
        document(rep, &j);
    }
    for _ in 0..n {
        let v = gen::value(&mut r, 3);
        tree(rep, v);
    }
    for _ in 0..n {
        let (t, v) = typed(&mut r, 3);
        rep.check(format!("typed {t:?}"), true, || {
            let ty = t.type_().map(|r| *r.id());
            let want = match &t {
                TypedValue::Literal(TypedLiteral::Unit(_, r)) => Some(*r.id()),
                TypedValue::Literal(TypedLiteral::Boolean(_, r)) => Some(*r.id()),
                TypedValue::Literal(TypedLiteral::Number(_, r)) => Some(*r.id()),
                TypedValue::Literal(TypedLiteral::TextString(_, r)) => Some(*r.id()),
                TypedValue::Literal(TypedLiteral::ByteString(_, r)) => Some(*r.id()),
                TypedValue::Literal(TypedLiteral::Id(_, r)) => Some(*r.id()),
                TypedValue::Variant(_, r, _) => Some(*r.id()),
                TypedValue::Map(_, r) => Some(*r.id()),
                TypedValue::List(_, r) => Some(*r.id()),
                TypedValue::Always(_) => None,
            };
            if ty != want {
                return Err("type of the value".into());
            }
            let u = t.clone().into_untyped();
            if u != v {
                return Err(format!("untyped value is {u}, expected {v}"));
            }
            Ok(())
        });
    }
    // serde: integers, booleans, strings, null, arrays, objects through Serialize/Deserialize
    for _ in 0..n / 4 {
        let j = strip(doc(&mut r, 3));
        let v = expected(&j);
        rep.check(format!("serde {}", text(&j)), true, || {
            let s = serde_json::to_value(&v).map_err(|e| format!("does not serialise: {e}"))?;
            if !same_serde(&j, &s) {
                return Err(format!("serialises to {s}"));
            }
            let back: Value = serde_json::from_value(s).map_err(|e| format!("does not deserialise: {e}"))?;
            if back != v {
                return Err(format!("deserialises to {back}"));
            }
            Ok(())
        });
    }
    for _ in 0..n / 4 {
        let j = doc(&mut r, 3);
        let (t, v) = (text(&j), expected(&j));
        rep.check(format!("serde text {t}"), true, || {
            let got: Value = serde_json::from_str(&t).map_err(|e| format!("rejected: {e}"))?;
            if got != v {
                return Err(format!("deserialises to {got}"));
            }
            Ok(())
        });
    }
    for t in ["1", "-7", "18446744073709551616", "1.5", "0.1"] {
        rep.check(format!("serde text number {t}"), true, || {
            let v: Value = serde_json::from_str(t).map_err(|e| e.to_string())?;
            if v != Value::Literal(Literal::Number(Number::new(gen::read_json_number(t).unwrap()))) {
                return Err(format!("deserialises to {v}"));
            }
            Ok(())
        });
    }
    // any other serde format: native numbers, strings, bytes
    for _ in 0..n / 4 {
        let f = float(&mut r);
        rep.check(format!("serde native {f:e} {:x}", f.to_bits()), true, || {
            let d: F64Deserializer<E> = f.into_deserializer();
            match (Value::deserialize(d), exact(f)) {
                (Ok(Value::Literal(Literal::Number(n))), Some(q)) if *n.as_big_rational() == q => Ok(()),
                (Err(_), None) => Ok(()),
                (got, _) => Err(format!("deserialises to {got:?}")),
            }
        });
        let g = f as f32;
        rep.check(format!("serde native f32 {g:e}"), true, || {
            let d: F32Deserializer<E> = g.into_deserializer();
            match (Value::deserialize(d), exact(g as f64)) {
                (Ok(Value::Literal(Literal::Number(n))), Some(q)) if *n.as_big_rational() == q => Ok(()),
                (Err(_), None) => Ok(()),
                (got, _) => Err(format!("deserialises to {got:?}")),
            }
        });
        let k = r.next() >> r.below(64);
        rep.check(format!("serde native integers {k}"), true, || {
            let num = |v: Result<Value, E>, want: BigInt| match v {
                Ok(Value::Literal(Literal::Number(n))) if *n.as_big_rational() == BigRational::from_integer(want.clone()) => Ok(()),
                got => Err(format!("{want} deserialises to {got:?}")),
            };
            macro_rules! ints { ($($t:ident $d:ident),*) => { $( { let x = k as $t; let d: $d<E> = x.into_deserializer(); num(Value::deserialize(d), BigInt::from(x))?; let x = !x; let d: $d<E> = x.into_deserializer(); num(Value::deserialize(d), BigInt::from(x))?; } )* } }
            ints!(u8 U8Deserializer, u16 U16Deserializer, u32 U32Deserializer, u64 U64Deserializer, i8 I8Deserializer, i16 I16Deserializer, i32 I32Deserializer, i64 I64Deserializer);
            Ok(())
        });
        let s = gen::string(&mut r);
        let b = gen::bytes(&mut r);
        rep.check(format!("serde native {s:?} {b:?}"), true, || {
            let is = |v: Result<Value, E>, want: Value| match v {
                Ok(v) if v == want => Ok(()),
                got => Err(format!("{want} deserialises to {got:?}")),
            };
            is(Value::deserialize(StrDeserializer::<E>::new(&s)), Value::string(s.clone()))?;
            is(Value::deserialize(BorrowedStrDeserializer::<E>::new(&s)), Value::string(s.clone()))?;
            is(Value::deserialize(StringDeserializer::<E>::new(s.clone())), Value::string(s.clone()))?;
            is(Value::deserialize(BytesDeserializer::<E>::new(&b)), Value::Literal(Literal::ByteString(b.clone())))?;
            is(Value::deserialize(BorrowedBytesDeserializer::<E>::new(&b)), Value::Literal(Literal::ByteString(b.clone())))?;
            is(Value::deserialize(UnitDeserializer::<E>::new()), Value::Literal(Literal::Unit))?;
            is(Value::deserialize(SeqDeserializer::<_, E>::new(b.iter().copied())), Value::List(b.iter().map(|b| Value::Literal(Literal::Number((*b).into()))).collect()))?;
            if let Some(c) = s.chars().next() {
                is(Value::deserialize(CharDeserializer::<E>::new(c)), Value::string(c.to_string()))?;
            }
            is(Value::deserialize(BoolDeserializer::<E>::new(b.is_empty())), Value::Literal(Literal::Boolean(b.is_empty())))
        });
    }
    rep.check("exponent 1e9999999999".into(), true, || {
        let (js, _) = json_syntax::Value::parse_str("1e9999999999").map_err(|e| e.to_string())?;
        let _: Value = js.into();
        Ok(())
    });
    rep.bound(format!("{n} random documents, tree values and typed values, depth <= 3, <= 3 entries, exponents in [-25, 25]"));
}

fn float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::from_bits(r.next()),
        1 => *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, -5e-324, 1e22, -1e22, 1e300]),
        2 => r.range(-1000, 1000) as f64,
        3 => r.range(-1000, 1000) as f64 / 8.0,
        4 => r.next() as i64 as f64,
        5 => {
            use num_traits::ToPrimitive;
            gen::bigint(r).to_f64().unwrap_or(0.0)
        }
        6 => r.range(-1000, 1000) as f64 * 0.1,
        _ => 2f64.powi(r.range(-80, 80) as i32) * *r.pick(&[1.0, -1.0, 3.0, -5.0]),
    }
}
/// The number a float is.
fn exact(f: f64) -> Option<BigRational> {
    if !f.is_finite() {
        return None;
    }
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = BigInt::from(b & ((1 << 52) - 1)) + if e == 0 { BigInt::from(0) } else { BigInt::from(1u64 << 52) };
    let q = BigRational::from_integer(m) * BigRational::from_integer(BigInt::from(2)).pow(e.max(1) - 1075);
    Some(if b >> 63 == 1 { -q } else { q })
}
type E = serde::de::value::Error;

/// Only integers that fit in 64 bits: serde has no exact type for the others.
fn strip(j: J) -> J {
    use num_traits::ToPrimitive;
    match j {
        J::Num(_, q) => match (q.is_integer(), q.numer().to_i64(), q.numer().to_u64()) {
            (true, Some(_), _) | (true, _, Some(_)) => J::Num(q.numer().to_string(), q),
            _ => J::Num("7".into(), BigRational::from_integer(7.into())),
        },
        J::Arr(a) => J::Arr(a.into_iter().map(strip).collect()),
        J::Obj(o) => J::Obj(o.into_iter().map(|(k, v)| (k, strip(v))).collect()),
        j => j,
    }
}
