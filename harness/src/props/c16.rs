//! C16: the runtime of derived Rust types.
use super::{c16_env, c16_matching, c16_types};
use rdf_types::Term;
use treeldr::{de::FromRdfLiteral, DeserializeLd, RdfContext};
use treeldr_layouts::Value;
use vharness::{gen, model::*, naive::Naive, xsd, Rep, Rng};

fn lexical(r: &mut Rng) -> String {
    match r.below(12) {
        0 => r.pick(&["", " ", "-", "+", "abc", "1.0", "1e3", "0x1", "1 ", " 1", "--1", "٣", "1_0"]).to_string(),
        1 => "true".into(),
        2 => r.pick(&["0", "1", "false", "TRUE", "True", "yes"]).to_string(),
        3 => {
            let b = *r.pick(&[8u32, 16, 32, 64, 7, 15, 31, 63]);
            let v = (1i128 << b) + r.range(-2, 2) as i128;
            v.to_string()
        }
        4 => {
            let b = *r.pick(&[7u32, 15, 31, 63]);
            let v = -(1i128 << b) + r.range(-2, 2) as i128;
            v.to_string()
        }
        5 => format!("+{}", r.below(300)),
        6 => format!("00{}", r.below(300)),
        7 => format!("-0{}", r.below(300)),
        8 => gen::bigint(r).to_string(),
        _ => r.range(-300, 300).to_string(),
    }
}

fn deser<T>(terms: &[Term]) -> Result<Value, String>
where
    T: c16_types::Tv + DeserializeLd<1, (), HyInterp>,
{
    // a resource with several terms
    let me = iri("http://in/0");
    let mut i = HyInterp::default();
    i.extra.insert(me.clone(), terms.to_vec());
    T::deserialize_ld_with(RdfContext { vocabulary: &(), interpretation: &i }, &Naive(vec![]), None, &[me]).map(|v| v.val(true)).map_err(|e| e.to_string())
}

macro_rules! int {
    ($rep:ident, $r:ident, $ty:ident $name:expr) => {{
        let dt = format!("{}{}", xsd::NS, $name);
        let mut terms = Vec::new();
        for _ in 0..1 + $r.below(2) {
            let l = lexical(&mut $r);
            terms.push(match $r.below(6) {
                0 => lit(&l, &format!("{}{}", xsd::NS, $r.pick(xsd::INTEGERS).0)),
                1 => lit(&l, &format!("{}string", xsd::NS)),
                2 => lit(&l, "http://e/other"),
                _ => lit(&l, &dt),
            });
        }
        terms.sort();
        terms.dedup();
        // values of the literals of the datatype; xsd-types rejects "-0" for unsigned types
        let own: Vec<&str> = terms.iter().filter_map(|t| match t {
            Term::Literal(l) if l.type_ == rdf_types::LiteralType::Any(iref::IriBuf::new(dt.clone()).unwrap()) => Some(l.value.as_str()),
            _ => None,
        }).collect();
        let skip = own.iter().any(|l| l.starts_with('-') && xsd::read_number(l, &dt).is_some() && $name.starts_with("unsigned"));
        let vals: Vec<_> = own.iter().map(|l| xsd::read_number(l, &dt)).collect();
        // a value only if the literals of the datatype are all readable and there is one
        let want = match vals.as_slice() {
            [Some(v)] => Some(v.clone()),
            _ => None,
        };
        if !skip {
            $rep.check(format!("{} from the literals {:?}", stringify!($ty), terms.iter().map(|t| t.to_string()).collect::<Vec<_>>()), !own.is_empty(), || {
                match (deser::<$ty>(&terms), &want) {
                    (Ok(v), Some(q)) if v == c16_types::number(&gen::decimal(q).unwrap()) => (),
                    (Err(_), None) => (),
                    (a, b) => return Err(format!("reads {a:?}, expected {b:?}")),
                }
                for (l, v) in own.iter().zip(&vals) {
                    match (<$ty as FromRdfLiteral>::from_rdf_literal(l), v) {
                        (Ok(a), Some(q)) if c16_types::number(&a.to_string()) == c16_types::number(&gen::decimal(q).unwrap()) => (),
                        (Err(e), None) if e.0 == *l => (),
                        (a, b) => return Err(format!("{l:?} is read as {:?}, expected {b:?}", a.map_err(|e| e.0))),
                    }
                }
                Ok(())
            });
        }
    }};
}

fn primitives(rep: &mut Rep, n: usize) {
    let mut r = rep.rng(1620);
    for _ in 0..n {
        int!(rep, r, u8 "unsignedByte");
        int!(rep, r, u16 "unsignedShort");
        int!(rep, r, u32 "unsignedInt");
        int!(rep, r, u64 "unsignedLong");
        int!(rep, r, i8 "byte");
        int!(rep, r, i16 "short");
        int!(rep, r, i32 "int");
        int!(rep, r, i64 "long");
        let l = if r.one_in(2) { lexical(&mut r) } else { gen::string(&mut r) };
        rep.check(format!("boolean and string from {l:?}"), !l.is_empty(), || {
            let b = bool::from_rdf_literal(&l).ok();
            let w = xsd::read_boolean(&l, &format!("{}boolean", xsd::NS));
            if b != w {
                return Err(format!("boolean {b:?}, expected {w:?}"));
            }
            match String::from_rdf_literal(&l) {
                Ok(s) if s == l => (),
                Ok(s) => return Err(format!("string {s:?}")),
                Err(_) => return Err("string rejected".into()),
            }
            for dt in ["string", "token", "anyURI"] {
                let t = lit(&l, &format!("{}{dt}", xsd::NS));
                match (deser::<String>(&[lit("x", "http://e/other"), t]), dt) {
                    (Ok(v), "string") if v == Value::string(l.clone()) => (),
                    (Err(_), "token" | "anyURI") => (),
                    (a, _) => return Err(format!("literal of type {dt} read as {a:?}")),
                }
            }
            Ok(())
        });
    }
    rep.bound(format!("{n} random literals (lexical forms around the limits, malformed ones, other datatypes, several literals) for each primitive type"));
    // identifiers
    let mut r = rep.rng(1621);
    for _ in 0..n / 4 {
        let mut terms = Vec::new();
        for _ in 0..r.below(3) {
            terms.push(match r.below(4) {
                0 => lit("http://e/a", &format!("{}anyURI", xsd::NS)),
                1 => Term::blank(rdf_types::BlankIdBuf::new(format!("_:b{}", r.below(3))).unwrap()),
                _ => iri(r.pick(POOL)),
            });
        }
        terms.sort();
        terms.dedup();
        if terms.is_empty() {
            continue;
        }
        let first = terms.remove(0);
        rep.check(format!("identifier of the resource with terms {first} {:?}", terms.iter().map(|t| t.to_string()).collect::<Vec<_>>()), true, || {
            let mut i = HyInterp::default();
            i.extra.insert(first.clone(), terms.clone());
            let got = rdf_types::Id::deserialize_ld_with(RdfContext { vocabulary: &(), interpretation: &i }, &Naive(vec![]), None, &[first.clone()]);
            let all: Vec<&Term> = std::iter::once(&first).chain(&terms).collect();
            let iris: Vec<&&Term> = all.iter().filter(|t| matches!(t, Term::Id(rdf_types::Id::Iri(_)))).collect();
            let blanks: Vec<&&Term> = all.iter().filter(|t| matches!(t, Term::Id(rdf_types::Id::Blank(_)))).collect();
            // an IRI is preferred to a blank node identifier
            let cand = if iris.is_empty() { blanks } else { iris };
            match (got, cand.as_slice()) {
                (Ok(ref id), [t]) if matches!(t, Term::Id(x) if x == id) => Ok(()),
                (Err(_), []) => Ok(()),
                (Err(_), c) if c.len() > 1 => Ok(()),
                (got, c) => Err(format!("identifier {:?}, candidates {c:?}", got.map(|i| i.to_string()).map_err(|e| e.to_string()))),
            }
        });
    }
}

pub fn run(rep: &mut Rep) {
    c16_matching::run(rep);
    c16_env::run(rep);
    let n = rep.n(4_000, 60_000);
    primitives(rep, n);
    let n = rep.n(3_000, 40_000);
    c16_types::run(rep, n);
    rep.bound(format!("24 primitive and derived types (records, sums, tuples, sets, lists, identifiers, literals; introductions, several inputs and named graphs at every level), {n} values or datasets each"));
}
