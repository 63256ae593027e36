//! C06: values and literals.
use iref::IriBuf;
use num_bigint::BigInt;
use num_rational::BigRational;
use rdf_types::{Id, Literal as RdfLiteral, LiteralType, Term};
use std::collections::BTreeMap;
use treeldr_layouts::{
    distill::{de, dehydrate, hydrate},
    layout::*,
    value::Number,
    Dataset, Layout, LayoutRegistry, Layouts, Literal, Pattern, Ref, TypedLiteral, TypedValue, Value,
};
use vharness::{gen, model::*, naive::Naive, xsd, Rep, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Bool,
    Num,
    Text,
    Bytes,
    Id,
}
const KINDS: [Kind; 5] = [Kind::Bool, Kind::Num, Kind::Text, Kind::Bytes, Kind::Id];

fn layouts(k: Kind, dt: &str) -> Layouts<Term> {
    let datatype = iri(dt);
    let (input, intro, dataset, resource, extra_properties) = (1, 0, Dataset::new(), Pattern::Var(0), BTreeMap::new());
    let l = match k {
        Kind::Bool => LiteralLayout::Data(DataLayout::Boolean(BooleanLayout { input, intro, dataset, resource, datatype, extra_properties })),
        Kind::Num => LiteralLayout::Data(DataLayout::Number(NumberLayout { input, intro, dataset, resource, datatype, extra_properties })),
        Kind::Text => LiteralLayout::Data(DataLayout::TextString(TextStringLayout { input, intro, pattern: None, dataset, resource, datatype, extra_properties })),
        Kind::Bytes => LiteralLayout::Data(DataLayout::ByteString(ByteStringLayout { input, intro, dataset, resource, datatype, extra_properties })),
        Kind::Id => LiteralLayout::Id(IdLayout { input, intro, dataset, pattern: None, resource, extra_properties }),
    };
    let mut ls = Layouts::new();
    ls.insert(iri("http://l/0"), Layout::Literal(l));
    ls
}

/// The value a term denotes under the layout.
fn denotes(k: Kind, dt: &str, t: &Term) -> Option<Literal> {
    match (k, t) {
        (Kind::Id, Term::Id(Id::Iri(i))) => Some(Literal::TextString(i.to_string())),
        (_, Term::Literal(RdfLiteral { value, type_: LiteralType::Any(d) })) if d.as_str() == dt => match k {
            Kind::Bool => xsd::read_boolean(value, dt).map(Literal::Boolean),
            Kind::Num => xsd::read_number(value, dt).map(|q| Literal::Number(Number::new(q))),
            Kind::Text => Some(Literal::TextString(value.clone())),
            _ => None,
        },
        _ => None,
    }
}
/// Can the layout represent the value?
fn representable(k: Kind, dt: &str, v: &Value) -> bool {
    match (k, v) {
        (Kind::Bool, Value::Literal(Literal::Boolean(_))) => dt == format!("{}boolean", xsd::NS),
        (Kind::Num, Value::Literal(Literal::Number(n))) => xsd::has_number(&n.clone().into_big_rational(), dt),
        (Kind::Text, Value::Literal(Literal::TextString(_))) => true,
        (Kind::Id, Value::Literal(Literal::TextString(s))) => IriBuf::new(s.clone()).is_ok(),
        _ => false,
    }
}

fn read(ls: &Layouts<Term>, t: &Term) -> Result<(Literal, bool), String> {
    let id: Ref<LayoutType, Term> = Ref::new(iri("http://l/0"));
    match hydrate(ls, &Naive(Default::default()), &id, &[t.clone()]) {
        Ok(tv) => {
            let typed = match &tv {
                TypedValue::Literal(TypedLiteral::Boolean(_, r)) => *r.id() == *id.id(),
                TypedValue::Literal(TypedLiteral::Number(_, r)) => *r.id() == *id.id(),
                TypedValue::Literal(TypedLiteral::TextString(_, r)) => *r.id() == *id.id(),
                TypedValue::Literal(TypedLiteral::Id(_, r)) => *r.id() == *id.id(),
                _ => false,
            };
            match tv.into_untyped() {
                Value::Literal(l) => Ok((l, typed)),
                v => Err(format!("hydrates to {v}")),
            }
        }
        Err(e) => Err(e.to_string()),
    }
}

fn write(rep: &mut Rep, k: Kind, dt: &str, v: Value) {
    let want = representable(k, dt, &v);
    rep.check(format!("value {v:?} dehydrated as {k:?} of datatype {dt}"), want, || {
        let ls = layouts(k, dt);
        let id: Ref<LayoutType, Term> = Ref::new(iri("http://l/0"));
        let t = match (dehydrate(&ls, &v, &id, de::Options::default()), want) {
            (Ok((_, t)), true) => t,
            (Err(_), false) => return Ok(()),
            (Ok((_, t)), false) => return Err(format!("accepted as {t:?}, although the datatype has no such value")),
            (Err(e), true) => return Err(format!("rejected: {e}")),
        };
        let Value::Literal(l) = &v else { return Err("accepted".into()) };
        let [t] = t.as_slice() else { return Err(format!("terms {t:?}")) };
        if denotes(k, dt, t).as_ref() != Some(l) {
            return Err(format!("dehydrates to {t}, which does not denote the value in the datatype"));
        }
        match read(&ls, t) {
            Ok((w, true)) if w == *l => Ok(()),
            o => Err(format!("dehydrates to {t}, which hydrates to {o:?}")),
        }
    });
}

fn term(rep: &mut Rep, k: Kind, dt: &str, t: Term) {
    let want = denotes(k, dt, &t);
    rep.check(format!("term {t} hydrated as {k:?} of datatype {dt}"), want.is_some(), || {
        let ls = layouts(k, dt);
        match (read(&ls, &t), &want) {
            (Ok((v, true)), Some(w)) if v == *w => (),
            (Err(_), None) => return Ok(()),
            (Ok(v), None) => return Err(format!("read as {v:?}, although it is no value of the datatype")),
            (o, Some(w)) => return Err(format!("read as {o:?}, expected {w:?}")),
        }
        // writing the value back gives a term that denotes it
        let id: Ref<LayoutType, Term> = Ref::new(iri("http://l/0"));
        match dehydrate(&ls, &Value::Literal(want.clone().unwrap()), &id, de::Options::default()) {
            Ok((_, ts)) if ts.len() == 1 && denotes(k, dt, &ts[0]) == want => Ok(()),
            Ok((_, ts)) => Err(format!("its value dehydrates to {ts:?}")),
            Err(e) => Err(format!("its value is rejected: {e}")),
        }
    });
}

fn number(r: &mut Rng) -> BigRational {
    match r.below(5) {
        0 | 1 => {
            let t = r.pick(xsd::INTEGERS);
            let b = if r.one_in(2) { t.1.or(t.2) } else { t.2.or(t.1) };
            let n = BigInt::from(b.unwrap_or(0)) + r.range(-2, 2);
            if r.one_in(6) {
                BigRational::new(n, BigInt::from(*r.pick(&[2, 3, 10])))
            } else {
                BigRational::from_integer(n)
            }
        }
        2 => BigRational::new(r.range(-30, 30).into(), (*r.pick(&[1, 2, 4, 5, 10, 100, 1000, 3])).into()),
        _ => gen::rational(r),
    }
}

pub fn lexical(r: &mut Rng) -> String {
    const ODD: &[&str] = &[
        "", "-", "+", ".", "-.", "+.", "5.", ".5", "-.5", "-5.", "--5", "+-5", "1e3", "1E3", "0x1", "1_000", " 1", "1 ", "\t1", "1,5", "-0", "+0", "00", "007", "-007", "1.0", "-0.0", "0.50", "INF", "NaN", "٣", "−1", "1.2.3",
        "true", "false", "1", "0", "TRUE", "True", " true", "true ", "t", "yes", "truefalse",
        "\u{0}", "é",
    ];
    match r.below(5) {
        0 | 1 => r.pick(ODD).to_string(),
        2 => {
            let q = number(r);
            gen::decimal(&q).unwrap_or_else(|| q.to_string())
        }
        3 => {
            let mut s: String = String::new();
            for _ in 0..r.below(7) {
                s.push(*r.pick(&['0', '1', '5', '9', '.', '-', '+', 'e', ' ']));
            }
            s
        }
        _ => {
            let q = number(r);
            let d = gen::decimal(&q).unwrap_or_else(|| "0.10".into());
            match r.below(4) {
                0 => d.replacen('-', "-0", 1),
                1 => format!("+{d}"),
                2 => format!("{d}{}", r.pick(&["0", "00", ".0", "."])),
                _ => format!("0{d}"),
            }
        }
    }
}

pub fn run(rep: &mut Rep) {
    let mut dts: Vec<String> = xsd::INTEGERS.iter().map(|t| format!("{}{}", xsd::NS, t.0)).collect();
    for n in ["decimal", "boolean", "string", "float", "double", "hexBinary", "base64Binary", "anyURI", "dateTime"] {
        dts.push(format!("{}{n}", xsd::NS));
    }
    dts.push("http://d/1".into());
    dts.push("http://www.w3.org/2001/XMLSchema#Integer".into());
    dts.push("http://www.w3.org/2001/XMLSchema#booleans".into());
    dts.push("http://www.w3.org/2001/XMLSchema-instance#boolean".into());
    let numeric: Vec<String> = xsd::INTEGERS.iter().map(|t| format!("{}{}", xsd::NS, t.0)).chain([format!("{}decimal", xsd::NS)]).collect();
    // every bound of every type
    for dt in &dts {
        for k in KINDS {
            for b in [true, false] {
                write(rep, k, dt, Value::Literal(Literal::Boolean(b)));
            }
            for l in ["true", "false", "1", "0", "-1", "TRUE", " true", "", "-0", "1.0", "00"] {
                for d in &dts {
                    term(rep, k, dt, lit(l, d));
                }
            }
        }
        for (_, lo, hi) in xsd::INTEGERS {
            for b in [lo, hi].into_iter().flatten() {
                for o in -1..=1 {
                    let n: BigInt = BigInt::from(*b) + o;
                    term(rep, Kind::Num, dt, lit(&n.to_string(), dt));
                    write(rep, Kind::Num, dt, Value::Literal(Literal::Number(Number::new(BigRational::from_integer(n)))));
                }
            }
        }
    }
    rep.bound(format!("every bound of every XSD integer type +-1 against {} datatypes; every pair of datatypes with 11 lexical forms", dts.len()));
    let mut r = rep.rng(6);
    let n = rep.n(150_000, 3_000_000);
    for _ in 0..n {
        let dt = if r.one_in(3) { r.pick(&dts).clone() } else { r.pick(&numeric).clone() };
        let k = if r.one_in(4) { *r.pick(&KINDS) } else { Kind::Num };
        match r.below(6) {
            0 | 1 => write(rep, k, &dt, Value::Literal(Literal::Number(Number::new(number(&mut r))))),
            2 => {
                let s = match r.below(4) {
                    0 => lexical(&mut r),
                    1 => r.pick(&["http://i/1", "http://i/é?q#f", "urn:x", "a:", ":", "http://i/ 1", "rel", "//x", "#f", "http://[", "_:b", "http://i/%zz", "HTTP://I/../a", "http://i/\u{e000}"]).to_string(),
                    _ => gen::string(&mut r),
                };
                let k = if r.one_in(5) { *r.pick(&KINDS) } else { *r.pick(&[Kind::Text, Kind::Id]) };
                write(rep, k, &dt, Value::Literal(Literal::TextString(s)));
            }
            3 => {
                let v = gen::value(&mut r, 1);
                write(rep, *r.pick(&KINDS), &dt, v)
            }
            _ => {
                let d = if r.one_in(6) { r.pick(&dts).clone() } else { dt.clone() };
                let l = lexical(&mut r);
                let t = match r.below(14) {
                    0 => Term::Literal(RdfLiteral::new(l, LiteralType::LangString(langtag::LangTagBuf::new("en".to_string()).unwrap()))),
                    1 => iri(r.pick(&["http://i/1", "urn:x", "http://i/é#f"])),
                    2 => Term::blank(rdf_types::BlankIdBuf::new("_:b".to_string()).unwrap()),
                    _ => lit(&l, &d),
                };
                term(rep, k, &dt, t)
            }
        }
    }
    rep.bound(format!("{n} random values and terms"));
}
