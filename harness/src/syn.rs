//! JSON layout definitions: an independent strict reader, an independent compiler and a generator.
use crate::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use treeldr_layouts::abs::syntax as S;

// ---------------------------------------------------------------- JSON

#[derive(Clone, PartialEq, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn js(s: &str) -> J {
    J::Str(s.to_string())
}

impl J {
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.put(&mut o);
        o
    }
    fn put(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => o.push_str(&crate::esc(s)),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.put(o);
                }
                o.push(']');
            }
            J::Obj(e) => {
                o.push('{');
                for (i, (k, x)) in e.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&crate::esc(k));
                    o.push(':');
                    x.put(o);
                }
                o.push('}');
            }
        }
    }
    pub fn from_serde(v: &serde_json::Value) -> J {
        use serde_json::Value as V;
        match v {
            V::Null => J::Null,
            V::Bool(b) => J::Bool(*b),
            V::Number(n) => J::Num(n.to_string()),
            V::String(s) => J::Str(s.clone()),
            V::Array(a) => J::Arr(a.iter().map(J::from_serde).collect()),
            V::Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), J::from_serde(v))).collect()),
        }
    }
}

// ---------------------------------------------------------------- definitions

#[derive(Clone, PartialEq, Debug)]
pub enum P {
    Var(String),
    Iri(String),
    Lit(String, LitTy),
}
#[derive(Clone, PartialEq, Debug)]
pub enum LitTy {
    Iri(String),
    Lang(String),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Q(pub P, pub P, pub P, pub Option<P>);
#[derive(Clone, PartialEq, Debug)]
pub enum Extra {
    Bool(bool),
    Num(i64),
    Str(String),
    Typed(String, String),
}
#[derive(Clone, PartialEq, Debug)]
pub enum L {
    Bool(bool),
    Node(Box<Node>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub ty: String,
    pub base: Option<String>,
    pub prefixes: BTreeMap<String, String>,
    pub id: Option<String>,
    pub input: Vec<String>,
    pub intro: Vec<String>,
    pub dataset: Vec<Q>,
    pub extra: BTreeMap<String, Extra>,
    pub body: Body,
}
#[derive(Clone, PartialEq, Debug)]
pub enum LRef {
    Iri(String),
    L(L),
}
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Format { layout: LRef, input: Vec<P>, graph: Option<Option<P>> },
    Layout(LRef),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Item {
    pub intro: Vec<String>,
    pub value: V,
    pub dataset: Vec<Q>,
    pub property: Option<P>,
    pub required: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub enum NodeOr {
    Layout(LRef),
    Node { head: String, rest: String, intro: Vec<String>, value: V, dataset: Option<Vec<Q>> },
}
#[derive(Clone, PartialEq, Debug)]
pub enum Body {
    Unit(J),
    Lit { resource: Option<P>, datatype: Option<String>, pattern: Option<String> },
    Record(BTreeMap<String, Item>),
    Sum(BTreeMap<String, Item>),
    List { node: NodeOr, head: P, tail: P },
    Set(Item),
    Tuple(Vec<Item>),
    Group,
}

pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

// ---------------------------------------------------------------- strict reader

/// Why a text is not a definition.
#[derive(Debug, Clone, PartialEq)]
pub struct Bad(pub &'static str);
type R<T> = Result<T, Bad>;

const NOT_OBJECT: Bad = Bad("array where an object is expected");

struct Ob<'a> {
    e: &'a [(String, J)],
    used: BTreeSet<&'a str>,
}
impl<'a> Ob<'a> {
    fn new(j: &'a J) -> R<Self> {
        match j {
            J::Obj(e) => {
                let mut keys = BTreeSet::new();
                if e.iter().any(|(k, _)| !keys.insert(k)) {
                    return Err(Bad("duplicate entry"));
                }
                Ok(Ob { e, used: BTreeSet::new() })
            }
            J::Arr(_) => Err(NOT_OBJECT),
            _ => Err(Bad("not an object")),
        }
    }
    fn opt(&mut self, k: &str) -> Option<&'a J> {
        let (k, v) = self.e.iter().find(|e| e.0 == k)?;
        self.used.insert(k);
        Some(v)
    }
    fn req(&mut self, k: &str) -> R<&'a J> {
        self.opt(k).ok_or(Bad("missing entry"))
    }
    fn done(self) -> R<()> {
        match self.e.iter().all(|(k, _)| self.used.contains(k.as_str())) {
            true => Ok(()),
            false => Err(Bad("unknown entry")),
        }
    }
}

fn string(j: &J) -> R<String> {
    match j {
        J::Str(s) => Ok(s.clone()),
        _ => Err(Bad("not a string")),
    }
}
fn iri_ref(j: &J) -> R<String> {
    let s = string(j)?;
    match iref::IriRef::new(&s) {
        Ok(_) => Ok(s),
        Err(_) => Err(Bad("not an IRI")),
    }
}
fn one_or_many<T>(j: &J, f: impl Fn(&J) -> R<T>) -> R<Vec<T>> {
    match j {
        J::Arr(a) => a.iter().map(f).collect(),
        j => Ok(vec![f(j)?]),
    }
}
fn map<T>(j: &J, f: impl Fn(&J) -> R<T>) -> R<BTreeMap<String, T>> {
    Ob::new(j)?.e.iter().map(|(k, v)| Ok((k.clone(), f(v)?))).collect()
}
fn pattern(j: &J) -> R<P> {
    match j {
        J::Str(s) if s.starts_with("_:") => match rdf_types::BlankId::new(s) {
            Ok(_) => Ok(P::Var(s[2..].to_string())),
            Err(_) => Err(Bad("not a variable")),
        },
        J::Str(_) => Ok(P::Iri(iri_ref(j)?)),
        J::Obj(_) => {
            let mut o = Ob::new(j)?;
            let v = string(o.req("value")?)?;
            let ty = match (o.opt("type"), o.opt("language")) {
                (None, None) => LitTy::Iri(format!("{XSD}string")),
                (Some(t), None) => LitTy::Iri(iri_ref(t)?),
                (None, Some(l)) => {
                    let l = string(l)?;
                    if langtag::LangTag::new(&l).is_err() {
                        return Err(Bad("not a language tag"));
                    }
                    LitTy::Lang(l)
                }
                _ => return Err(Bad("type and language")),
            };
            o.done()?;
            Ok(P::Lit(v, ty))
        }
        J::Arr(_) => Err(NOT_OBJECT),
        _ => Err(Bad("not a pattern")),
    }
}
fn dataset(j: &J) -> R<Vec<Q>> {
    let J::Arr(a) = j else { return Err(Bad("not an array")) };
    a.iter()
        .map(|q| match q {
            J::Arr(q) if q.len() == 3 || q.len() == 4 => {
                Ok(Q(pattern(&q[0])?, pattern(&q[1])?, pattern(&q[2])?, q.get(3).map(pattern).transpose()?))
            }
            _ => Err(Bad("not a quad")),
        })
        .collect()
}
fn extra(j: &J) -> R<Extra> {
    match j {
        J::Bool(b) => Ok(Extra::Bool(*b)),
        J::Num(n) if !n.contains(['.', 'e', 'E']) => n.parse().map(Extra::Num).map_err(|_| Bad("not a 64 bits integer")),
        J::Num(_) => Err(Bad("not an integer")),
        J::Str(s) => Ok(Extra::Str(s.clone())),
        J::Obj(_) => {
            let mut o = Ob::new(j)?;
            let r = Extra::Typed(string(o.req("value")?)?, iri_ref(o.req("type")?)?);
            o.done()?;
            Ok(r)
        }
        J::Arr(_) => Err(NOT_OBJECT),
        J::Null => Err(Bad("null")),
    }
}
fn extras(j: &J) -> R<BTreeMap<String, Extra>> {
    let m = map(j, extra)?;
    if m.keys().any(|k| iref::IriRef::new(k).is_err()) {
        return Err(Bad("not an IRI"));
    }
    Ok(m)
}
fn lref(j: &J) -> R<LRef> {
    match j {
        J::Str(_) => Ok(LRef::Iri(iri_ref(j)?)),
        j => Ok(LRef::L(read(j)?)),
    }
}
fn value(j: &J, default: &str) -> R<V> {
    match j {
        J::Obj(e) if !e.iter().any(|e| e.0 == "type") => {
            let mut o = Ob::new(j)?;
            let layout = lref(o.req("layout")?)?;
            let input = match o.opt("input") {
                Some(i) => one_or_many(i, pattern)?,
                None => vec![P::Var(default.into())],
            };
            let graph = match o.opt("graph") {
                None => None,
                Some(J::Null) => Some(None),
                Some(g) => Some(Some(pattern(g)?)),
            };
            o.done()?;
            Ok(V::Format { layout, input, graph })
        }
        J::Arr(_) => Err(NOT_OBJECT),
        j => Ok(V::Layout(lref(j)?)),
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Field,
    Variant,
    Item,
}
fn item(j: &J, k: Kind) -> R<Item> {
    let mut o = Ob::new(j)?;
    let i = Item {
        intro: match o.opt("intro") {
            Some(i) => one_or_many(i, string)?,
            None if k == Kind::Variant => vec![],
            None => vec!["value".into()],
        },
        value: value(o.req("value")?, if k == Kind::Variant { "self" } else { "value" })?,
        dataset: o.opt("dataset").map(dataset).transpose()?.unwrap_or_default(),
        property: if k == Kind::Variant { None } else { o.opt("property").map(pattern).transpose()? },
        required: match if k == Kind::Field { o.opt("required") } else { None } {
            None => false,
            Some(J::Bool(b)) => *b,
            Some(_) => return Err(Bad("not a boolean")),
        },
    };
    o.done()?;
    Ok(i)
}

/// Content of a constant, numbers being compared by value and maps without order.
pub fn content(j: &J) -> J {
    match j {
        J::Num(n) => J::Num(crate::gen::read_json_number(n).map(|q| q.to_string()).unwrap_or(n.clone())),
        J::Arr(a) => J::Arr(a.iter().map(content).collect()),
        J::Obj(e) => {
            let m: BTreeMap<_, _> = e.iter().map(|(k, v)| (k.clone(), content(v))).collect();
            J::Obj(m.into_iter().collect())
        }
        j => j.clone(),
    }
}

/// The definition written as `j`, if it is one.
pub fn read(j: &J) -> R<L> {
    if let J::Bool(b) = j {
        return Ok(L::Bool(*b));
    }
    let mut o = Ob::new(j)?;
    let ty = string(o.req("type")?)?;
    let base = o.opt("base").map(iri_ref).transpose()?;
    let prefixes = o.opt("prefixes").map(|p| map(p, iri_ref)).transpose()?.unwrap_or_default();
    let id = o.opt("id").map(iri_ref).transpose()?;
    let input = o.opt("input").map(|i| one_or_many(i, string)).transpose()?.unwrap_or(vec!["self".into()]);
    let intro = o.opt("intro").map(|i| one_or_many(i, string)).transpose()?.unwrap_or_default();
    let ds = o.opt("dataset").map(dataset).transpose()?.unwrap_or_default();
    let ex = o.opt("extra").map(extras).transpose()?.unwrap_or_default();
    let body = match ty.as_str() {
        "unit" => Body::Unit(o.opt("const").map(content).unwrap_or(J::Null)),
        "boolean" | "number" | "bytes" | "string" | "id" => Body::Lit {
            resource: o.opt("resource").map(pattern).transpose()?,
            datatype: match ty.as_str() {
                "id" => None,
                "boolean" | "string" => o.opt("datatype").map(iri_ref).transpose()?,
                _ => Some(iri_ref(o.req("datatype")?)?),
            },
            pattern: match if matches!(ty.as_str(), "id" | "string") { o.opt("pattern") } else { None } {
                None => None,
                Some(p) => match treeldr_layouts::abs::RegExp::parse(&string(p)?) {
                    Ok(e) => Some(format!("{e:?}")),
                    Err(_) => return Err(Bad("not a regular expression")),
                },
            },
        },
        "record" => Body::Record(o.opt("fields").map(|f| map(f, |j| item(j, Kind::Field))).transpose()?.unwrap_or_default()),
        "sum" => Body::Sum(o.opt("variants").map(|f| map(f, |j| item(j, Kind::Variant))).transpose()?.unwrap_or_default()),
        "list" => Body::List {
            node: {
                let j = o.req("node")?;
                match j {
                    J::Obj(e) if !e.iter().any(|e| e.0 == "type") => {
                        let mut o = Ob::new(j)?;
                        let n = NodeOr::Node {
                            head: o.opt("head").map(string).transpose()?.unwrap_or("head".into()),
                            rest: o.opt("rest").map(string).transpose()?.unwrap_or("rest".into()),
                            intro: o.opt("intro").map(|i| one_or_many(i, string)).transpose()?.unwrap_or(vec!["value".into()]),
                            value: value(o.req("value")?, "value")?,
                            dataset: o.opt("dataset").map(dataset).transpose()?,
                        };
                        o.done()?;
                        n
                    }
                    J::Arr(_) => return Err(NOT_OBJECT),
                    j => NodeOr::Layout(lref(j)?),
                }
            },
            head: o.opt("head").map(pattern).transpose()?.unwrap_or(P::Var("self".into())),
            tail: o.opt("tail").map(pattern).transpose()?.unwrap_or(P::Iri(format!("{RDF}nil"))),
        },
        "set" => Body::Set(item(o.req("item")?, Kind::Item)?),
        "tuple" => match o.opt("items") {
            None => Body::Tuple(vec![]),
            Some(J::Arr(a)) => Body::Tuple(a.iter().map(|j| item(j, Kind::Item)).collect::<R<_>>()?),
            Some(_) => return Err(Bad("not an array")),
        },
        "union" | "intersection" => Body::Group,
        _ => return Err(Bad("unknown type")),
    };
    o.done()?;
    Ok(L::Node(Box::new(Node { ty, base, prefixes, id, input, intro, dataset: ds, extra: ex, body })))
}

// ---------------------------------------------------------------- what the real reader understood

fn x_pattern(p: &S::Pattern) -> P {
    match p {
        S::Pattern::Var(v) => P::Var(v.as_str().to_string()),
        S::Pattern::Iri(i) => P::Iri(i.0.to_string()),
        S::Pattern::Literal(l) => P::Lit(
            l.value.clone(),
            match &l.type_ {
                S::LiteralType::Iri(i) => LitTy::Iri(i.type_.0.to_string()),
                S::LiteralType::Language(l) => LitTy::Lang(l.language.as_str().to_string()),
            },
        ),
    }
}
fn x_serialized<T: serde::Serialize>(t: &T) -> J {
    J::from_serde(&serde_json::to_value(t).unwrap())
}
fn x_dataset(d: &S::Dataset) -> Vec<Q> {
    dataset(&x_serialized(d)).expect("dataset written as something else")
}
fn x_iri(i: &S::CompactIri) -> String {
    i.0.to_string()
}
fn x_ref(r: &S::LayoutRef) -> LRef {
    match r {
        S::LayoutRef::Ref(i) => LRef::Iri(x_iri(i)),
        S::LayoutRef::Layout(l) => LRef::L(extract(l)),
    }
}
fn x_graph(g: &Option<Option<S::Pattern>>) -> Option<Option<P>> {
    g.as_ref().map(|g| g.as_ref().map(x_pattern))
}
fn x_value(v: &S::ValueFormatOrLayout) -> V {
    match v {
        S::ValueFormatOrLayout::Format(f) => {
            V::Format { layout: x_ref(&f.layout), input: f.input.as_slice().iter().map(x_pattern).collect(), graph: x_graph(&f.graph) }
        }
        S::ValueFormatOrLayout::Layout(l) => V::Layout(x_ref(l)),
    }
}
fn x_item(i: &S::ListItem) -> Item {
    Item {
        intro: i.intro.as_slice().to_vec(),
        value: x_value(&i.value),
        dataset: x_dataset(&i.dataset),
        property: i.property.as_ref().map(x_pattern),
        required: false,
    }
}
fn x_content(v: &treeldr_layouts::Value) -> J {
    use treeldr_layouts::{Literal, Value};
    match v {
        Value::Literal(Literal::Unit) => J::Null,
        Value::Literal(Literal::Boolean(b)) => J::Bool(*b),
        Value::Literal(Literal::Number(n)) => J::Num(n.as_big_rational().to_string()),
        Value::Literal(Literal::TextString(s)) => J::Str(s.clone()),
        Value::Literal(Literal::ByteString(_)) => J::Str("bytes".into()),
        Value::List(l) => J::Arr(l.iter().map(x_content).collect()),
        Value::Map(m) => J::Obj(m.iter().map(|(k, v)| (k.as_str().unwrap_or("?").to_string(), x_content(v))).collect()),
    }
}

/// The definition a real abstract layout stands for.
pub fn extract(l: &S::Layout) -> L {
    fn node(ty: &str, h: &S::LayoutHeader, body: Body) -> L {
        L::Node(Box::new(Node {
            ty: ty.to_string(),
            base: h.base.as_ref().map(x_iri),
            prefixes: h.prefixes.iter().map(|(k, v)| (k.clone(), x_iri(v))).collect(),
            id: h.id.as_ref().map(x_iri),
            input: h.input.as_slice().to_vec(),
            intro: h.intro.as_slice().to_vec(),
            dataset: x_dataset(&h.dataset),
            extra: extras(&x_serialized(&h.extra)).expect("extra properties written as something else"),
            body,
        }))
    }
    let lit = |r: &Option<S::Pattern>, d: Option<&S::CompactIri>, p: &Option<treeldr_layouts::abs::RegExp>| Body::Lit {
        resource: r.as_ref().map(x_pattern),
        datatype: d.map(x_iri),
        pattern: p.as_ref().map(|e| format!("{e:?}")),
    };
    match l {
        S::Layout::Boolean(b) => L::Bool(*b),
        S::Layout::Literal(S::LiteralLayout::Id(l)) => node("id", &l.header, lit(&l.resource, None, &l.pattern)),
        S::Layout::Literal(S::LiteralLayout::Data(d)) => match d {
            S::DataLayout::Unit(l) => node("unit", &l.header, Body::Unit(x_content(&l.const_))),
            S::DataLayout::Boolean(l) => node("boolean", &l.header, lit(&l.resource, l.datatype.as_ref(), &None)),
            S::DataLayout::Number(l) => node("number", &l.header, lit(&l.resource, Some(&l.datatype), &None)),
            S::DataLayout::ByteString(l) => node("bytes", &l.header, lit(&l.resource, Some(&l.datatype), &None)),
            S::DataLayout::TextString(l) => node("string", &l.header, lit(&l.resource, l.datatype.as_ref(), &l.pattern)),
        },
        S::Layout::Product(l) => node(
            "record",
            &l.header,
            Body::Record(
                l.fields
                    .iter()
                    .map(|(k, f)| {
                        (
                            k.as_str().unwrap_or("?").to_string(),
                            Item {
                                intro: f.intro.as_slice().to_vec(),
                                value: x_value(&f.value),
                                dataset: x_dataset(&f.dataset),
                                property: f.property.as_ref().map(x_pattern),
                                required: f.required,
                            },
                        )
                    })
                    .collect(),
            ),
        ),
        S::Layout::Sum(l) => node(
            "sum",
            &l.header,
            Body::Sum(
                l.variants
                    .iter()
                    .map(|(k, v)| {
                        let value = match &v.value {
                            S::VariantFormatOrLayout::Format(f) => V::Format {
                                layout: x_ref(&f.layout),
                                input: f.input.as_slice().iter().map(x_pattern).collect(),
                                graph: x_graph(&f.graph),
                            },
                            S::VariantFormatOrLayout::Layout(l) => V::Layout(x_ref(l)),
                        };
                        (k.clone(), Item { intro: v.intro.as_slice().to_vec(), value, dataset: x_dataset(&v.dataset), property: None, required: false })
                    })
                    .collect(),
            ),
        ),
        S::Layout::List(S::ListLayout::Ordered(l)) => node(
            "list",
            &l.header,
            Body::List {
                node: match &l.node {
                    S::ListNodeOrLayout::Layout(l) => NodeOr::Layout(x_ref(l)),
                    S::ListNodeOrLayout::ListNode(n) => NodeOr::Node {
                        head: n.head.clone(),
                        rest: n.rest.clone(),
                        intro: n.intro.as_slice().to_vec(),
                        value: x_value(&n.value),
                        dataset: n.dataset.as_ref().map(x_dataset),
                    },
                },
                head: x_pattern(&l.head),
                tail: x_pattern(&l.tail),
            },
        ),
        S::Layout::List(S::ListLayout::Unordered(l)) => node("set", &l.header, Body::Set(x_item(&l.item))),
        S::Layout::List(S::ListLayout::Sized(l)) => node("tuple", &l.header, Body::Tuple(l.items.iter().map(x_item).collect())),
        S::Layout::Union(l) => node("union", &l.header, Body::Group),
        S::Layout::Intersection(l) => node("intersection", &l.header, Body::Group),
    }
}

// ---------------------------------------------------------------- IRIs

/// RFC 3986, section 5.2.
pub fn resolve_reference(r: &str, base: &str) -> String {
    #[derive(Debug)]
    struct Parts<'a> {
        scheme: Option<&'a str>,
        authority: Option<&'a str>,
        path: &'a str,
        query: Option<&'a str>,
        fragment: Option<&'a str>,
    }
    fn split(s: &str) -> Parts<'_> {
        let (s, fragment) = s.split_once('#').map_or((s, None), |(a, b)| (a, Some(b)));
        let (s, query) = s.split_once('?').map_or((s, None), |(a, b)| (a, Some(b)));
        let (scheme, s) = match scheme(s) {
            Some(c) => (Some(c), &s[c.len() + 1..]),
            None => (None, s),
        };
        let (authority, path) = match s.strip_prefix("//") {
            Some(t) => {
                let i = t.find('/').unwrap_or(t.len());
                (Some(&t[..i]), &t[i..])
            }
            None => (None, s),
        };
        Parts { scheme, authority, path, query, fragment }
    }
    fn remove_dots(p: &str) -> String {
        let (mut i, mut o) = (p.to_string(), String::new());
        while !i.is_empty() {
            if let Some(t) = i.strip_prefix("../").or(i.strip_prefix("./")) {
                i = t.to_string();
            } else if i.starts_with("/./") {
                i = i[2..].to_string();
            } else if i == "/." {
                i = "/".into();
            } else if i.starts_with("/../") || i == "/.." {
                i = if i == "/.." { "/".into() } else { i[3..].to_string() };
                o.truncate(o.rfind('/').unwrap_or(0));
            } else if i == "." || i == ".." {
                i.clear();
            } else {
                let n = i.char_indices().skip(1).find(|(_, c)| *c == '/').map_or(i.len(), |(n, _)| n);
                o.push_str(&i[..n]);
                i = i[n..].to_string();
            }
        }
        o
    }
    let (r, b) = (split(r), split(base));
    let (authority, path, query);
    if r.scheme.is_some() || r.authority.is_some() {
        (authority, path, query) = (r.authority, remove_dots(r.path), r.query);
    } else if r.path.is_empty() {
        (authority, path, query) = (b.authority, b.path.to_string(), r.query.or(b.query));
    } else {
        let merged = if r.path.starts_with('/') {
            r.path.to_string()
        } else if b.authority.is_some() && b.path.is_empty() {
            format!("/{}", r.path)
        } else {
            format!("{}{}", &b.path[..b.path.rfind('/').map_or(0, |i| i + 1)], r.path)
        };
        (authority, path, query) = (b.authority, remove_dots(&merged), r.query);
    }
    let mut o = format!("{}:", r.scheme.or(b.scheme).unwrap());
    if let Some(a) = authority {
        o += "//";
        o += a;
    }
    o += &path;
    if let Some(q) = query {
        o += "?";
        o += q;
    }
    if let Some(f) = r.fragment {
        o += "#";
        o += f;
    }
    o
}

fn scheme(s: &str) -> Option<&str> {
    let c = s.split_once(':')?.0;
    let mut b = c.bytes();
    (b.next()?.is_ascii_alphabetic() && b.all(|b| b.is_ascii_alphanumeric() || matches!(b, b'+' | b'-' | b'.'))).then_some(c)
}

fn hierarchical(base: &str) -> bool {
    let rest = base.split_once(':').map_or("", |p| p.1);
    match rest.strip_prefix("//") {
        Some(r) => r.split(['?', '#']).next().is_some_and(|r| r.contains('/') && !r.contains("//")),
        None => rest.starts_with('/') && !rest.contains("//"),
    }
}

#[derive(Clone, Default)]
pub struct Iris {
    pub base: Option<String>,
    pub prefixes: HashMap<String, String>,
}

impl Iris {
    pub fn resolve(&self, s: &str) -> Result<String, Ko> {
        match scheme(s) {
            Some(c) => match self.prefixes.get(c) {
                Some(p) => {
                    let i = format!("{p}{}", &s[c.len() + 1..]);
                    if iref::Iri::new(&i).is_ok() { Ok(i) } else { Err(Ko::InvalidIri(i)) }
                }
                None => Ok(s.to_string()),
            },
            None => match &self.base {
                // RFC 3986 leaves no doubt about hierarchical bases; for the others (`urn:a`,
                // `http://host`), the reference resolution of the `iref` crate is taken as it is.
                Some(b) if hierarchical(b) => Ok(resolve_reference(s, b)),
                Some(b) => Ok(iref::IriRef::new(s).unwrap().resolved(iref::Iri::new(b).unwrap()).into_string()),
                None => Err(Ko::NoBaseIri(s.to_string())),
            },
        }
    }
}

// ---------------------------------------------------------------- compiler

#[derive(Clone, PartialEq, Debug)]
pub enum Ko {
    NoBaseIri(String),
    InvalidIri(String),
    Undeclared(String),
    Redefinition,
    MissingTarget,
    NoSubject,
    NoObject,
}

/// The kind of a real error.
pub fn ko(e: &S::BuildError) -> Ko {
    match e {
        S::BuildError::NoBaseIri(i) => Ko::NoBaseIri(i.to_string()),
        S::BuildError::InvalidIri(i) => Ko::InvalidIri(i.clone()),
        S::BuildError::UndeclaredVariable(v) => Ko::Undeclared(v.clone()),
        S::BuildError::LayoutRedefinition => Ko::Redefinition,
        S::BuildError::MissingLiteralTargetResource => Ko::MissingTarget,
        S::BuildError::NoPropertySubject => Ko::NoSubject,
        S::BuildError::NoPropertyObject => Ko::NoObject,
    }
}

use rdf_types::Term;
use treeldr_layouts as T;
use treeldr_layouts::layout as Y;
type Pat = T::Pattern<Term>;
type Data = T::Dataset<Term>;

#[derive(Clone, Default)]
struct Env {
    iris: Iris,
    /// Declared names, outermost first.
    vars: Vec<String>,
}

pub struct Compiler {
    pub out: T::Layouts<Term>,
    pub stored: usize,
    pub errors: Vec<Ko>,
    /// Two extra properties of a layout denote the same IRI.
    pub collision: bool,
}

impl Default for Compiler {
    fn default() -> Self {
        Compiler { out: T::Layouts::new(), stored: 0, errors: vec![], collision: false }
    }
}

/// Stands for any compiled pattern.
fn any_pattern() -> T::utils::DetAutomaton<usize> {
    T::abs::RegExp::parse("").unwrap().build()
}

fn term(s: &str) -> Term {
    Term::iri(iref::IriBuf::new(s.to_string()).unwrap_or_else(|_| iref::IriBuf::new("urn:error".into()).unwrap()))
}

impl Compiler {
    fn iri(&mut self, e: &Env, s: &str) -> Term {
        match e.iris.resolve(s) {
            Ok(i) => term(&i),
            Err(k) => {
                self.errors.push(k);
                term("urn:error")
            }
        }
    }
    fn text(&mut self, e: &Env, s: &str) -> String {
        e.iris.resolve(s).unwrap_or_else(|k| {
            self.errors.push(k);
            "urn:error".into()
        })
    }
    fn var(&mut self, e: &Env, n: &str) -> Pat {
        // innermost declaration of that name
        match e.vars.iter().rposition(|v| v == n) {
            Some(i) => T::Pattern::Var(i as u32),
            None => {
                self.errors.push(Ko::Undeclared(n.to_string()));
                T::Pattern::Var(u32::MAX)
            }
        }
    }
    fn pattern(&mut self, e: &Env, p: &P) -> Pat {
        match p {
            P::Var(n) => self.var(e, n),
            P::Iri(i) => T::Pattern::Resource(self.iri(e, i)),
            P::Lit(v, LitTy::Lang(l)) => T::Pattern::Resource(Term::Literal(rdf_types::Literal::new(
                v.clone(),
                rdf_types::LiteralType::LangString(langtag::LangTagBuf::new(l.clone()).unwrap()),
            ))),
            P::Lit(v, LitTy::Iri(t)) => {
                let t = self.text(e, t);
                T::Pattern::Resource(crate::model::lit(v, &t))
            }
        }
    }
    fn dataset(&mut self, e: &Env, d: &[Q]) -> Data {
        let mut o = Data::new();
        for q in d {
            let q = rdf_types::Quad(
                self.pattern(e, &q.0),
                self.pattern(e, &q.1),
                self.pattern(e, &q.2),
                q.3.as_ref().map(|g| self.pattern(e, g)),
            );
            o.insert(q);
        }
        o
    }
    fn lref(&mut self, e: &Env, l: &LRef) -> T::Ref<Y::LayoutType, Term> {
        let inner = Env { iris: e.iris.clone(), vars: vec![] };
        T::Ref::new(match l {
            LRef::Iri(i) => self.iri(&inner, i),
            LRef::L(l) => self.layout(&inner, l),
        })
    }
    fn value(&mut self, e: &Env, v: &V, default: &str) -> T::ValueFormat<Term> {
        match v {
            V::Format { layout, input, graph } => T::ValueFormat {
                input: input.iter().map(|p| self.pattern(e, p)).collect(),
                layout: self.lref(e, layout),
                graph: graph.as_ref().map(|g| g.as_ref().map(|g| self.pattern(e, g))),
            },
            V::Layout(l) => T::ValueFormat { input: vec![self.var(e, default)], layout: self.lref(e, l), graph: None },
        }
    }
    /// intro, value and dataset of a field, variant or item.
    fn item(&mut self, e: &Env, n: &Node, i: &Item, default: &str) -> (u32, T::ValueFormat<Term>, Data) {
        let mut inner = e.clone();
        inner.vars.extend(i.intro.iter().cloned());
        let mut d = self.dataset(&inner, &i.dataset);
        if let Some(p) = &i.property {
            if n.input.is_empty() {
                self.errors.push(Ko::NoSubject);
            }
            if i.intro.is_empty() {
                self.errors.push(Ko::NoObject);
            }
            let p = self.pattern(&inner, p);
            d.insert(rdf_types::Quad(T::Pattern::Var(0), p, T::Pattern::Var(e.vars.len() as u32), None));
        }
        (i.intro.len() as u32, self.value(&inner, &i.value, default), d)
    }

    /// Compiles a definition found where `e` is in scope; returns its identifier.
    fn layout(&mut self, e: &Env, l: &L) -> Term {
        let n = match l {
            L::Bool(b) => return self.store(None, if *b { T::Layout::Always } else { T::Layout::Never }),
            L::Node(n) => n,
        };
        let id = n.id.as_ref().map(|i| self.iri(e, i));
        let mut s = Env { iris: e.iris.clone(), vars: e.vars.clone() };
        if let Some(b) = &n.base {
            s.iris.base = Some(self.text(e, b));
        }
        for (k, p) in &n.prefixes {
            let p = self.text(e, p);
            s.iris.prefixes.insert(k.clone(), p);
        }
        s.vars.extend(n.input.iter().chain(&n.intro).cloned());
        let (input, intro) = (n.input.len() as u32, n.intro.len() as u32);
        let dataset = self.dataset(&s, &n.dataset);
        let mut extra_properties = BTreeMap::new();
        for (k, v) in &n.extra {
            let k = self.iri(&s, k);
            let v = match v {
                Extra::Bool(b) => crate::model::lit(if *b { "true" } else { "false" }, &format!("{XSD}boolean")),
                Extra::Str(t) => crate::model::lit(t, &format!("{XSD}string")),
                Extra::Typed(t, ty) => crate::model::lit(t, &self.text(&s, ty)),
                Extra::Num(i) => {
                    // the smallest integer datatype that contains it
                    let ty = match *i {
                        0..=0xff => "unsignedByte",
                        0x100..=0xffff => "unsignedShort",
                        0x10000..=0xffffffff => "unsignedInt",
                        0x100000000.. => "unsignedLong",
                        -0x80..=-1 => "byte",
                        -0x8000..=-0x81 => "short",
                        -0x80000000..=-0x8001 => "int",
                        _ => "long",
                    };
                    crate::model::lit(&i.to_string(), &format!("{XSD}{ty}"))
                }
            };
            self.collision |= extra_properties.insert(k, v).is_some();
        }
        let target = |c: &mut Self, s: &Env, r: &Option<P>| match r {
            Some(p) => c.pattern(s, p),
            None => {
                if n.input.is_empty() {
                    c.errors.push(Ko::MissingTarget);
                }
                T::Pattern::Var(0)
            }
        };
        let layout = match &n.body {
            Body::Unit(v) => T::Layout::Literal(Y::LiteralLayout::Data(Y::DataLayout::Unit(Y::UnitLayout {
                input,
                intro,
                dataset,
                const_: to_value(v),
                extra_properties,
            }))),
            Body::Lit { resource, datatype, pattern } => {
                let resource = target(self, &s, resource);
                let datatype = match datatype {
                    Some(d) => self.iri(&s, d),
                    None => term(&format!("{XSD}{}", n.ty)),
                };
                let pattern = pattern.as_ref().map(|_| any_pattern());
                T::Layout::Literal(match n.ty.as_str() {
                    "boolean" => Y::LiteralLayout::Data(Y::DataLayout::Boolean(Y::BooleanLayout { input, intro, dataset, resource, datatype, extra_properties })),
                    "number" => Y::LiteralLayout::Data(Y::DataLayout::Number(Y::NumberLayout { input, intro, dataset, resource, datatype, extra_properties })),
                    "bytes" => {
                        Y::LiteralLayout::Data(Y::DataLayout::ByteString(Y::ByteStringLayout { input, intro, dataset, resource, datatype, extra_properties }))
                    }
                    "string" => Y::LiteralLayout::Data(Y::DataLayout::TextString(Y::TextStringLayout {
                        input,
                        intro,
                        pattern,
                        dataset,
                        resource,
                        datatype,
                        extra_properties,
                    })),
                    _ => Y::LiteralLayout::Id(Y::IdLayout { input, intro, dataset, pattern, resource, extra_properties }),
                })
            }
            Body::Record(f) => {
                let fields = f
                    .iter()
                    .map(|(k, i)| {
                        let (intro, value, dataset) = self.item(&s, n, i, "value");
                        (T::Value::string(k.clone()), Y::product::Field { intro, value, dataset, required: i.required })
                    })
                    .collect();
                T::Layout::Product(Y::ProductLayout { input, intro, fields, dataset, extra_properties })
            }
            Body::Sum(f) => {
                let variants = f
                    .iter()
                    .map(|(k, i)| {
                        let (intro, value, dataset) = self.item(&s, n, i, "self");
                        Y::sum::Variant { name: k.clone(), intro, value, dataset }
                    })
                    .collect();
                T::Layout::Sum(Y::SumLayout { input, intro, variants, dataset, extra_properties })
            }
            Body::Set(i) => {
                let (ii, value, d) = self.item(&s, n, i, "value");
                let item = Y::list::ItemLayout { intro: ii, value, dataset: d };
                T::Layout::List(Y::ListLayout::Unordered(Y::UnorderedListLayout { input, intro, item, dataset, extra_properties }))
            }
            Body::Tuple(l) => {
                let items = l
                    .iter()
                    .map(|i| {
                        let (intro, value, dataset) = self.item(&s, n, i, "value");
                        Y::list::ItemLayout { intro, value, dataset }
                    })
                    .collect();
                T::Layout::List(Y::ListLayout::Sized(Y::SizedListLayout { input, intro, items, dataset, extra_properties }))
            }
            Body::List { node, head, tail } => {
                let c = s.vars.len() as u32;
                let cell = |first: Pat| -> Data {
                    let p = |s: &str| T::Pattern::Resource(term(&format!("{RDF}{s}")));
                    [
                        rdf_types::Quad(T::Pattern::Var(c), p("first"), first, None),
                        rdf_types::Quad(T::Pattern::Var(c), p("rest"), T::Pattern::Var(c + 1), None),
                    ]
                    .into_iter()
                    .collect()
                };
                let node = match node {
                    NodeOr::Layout(l) => Y::list::ordered::NodeLayout {
                        intro: 1,
                        value: T::ValueFormat { layout: self.lref(&s, l), input: vec![T::Pattern::Var(c + 2)], graph: None },
                        dataset: cell(T::Pattern::Var(c + 2)),
                    },
                    NodeOr::Node { head, rest, intro, value, dataset } => {
                        let mut inner = s.clone();
                        inner.vars.extend([head.clone(), rest.clone()]);
                        inner.vars.extend(intro.iter().cloned());
                        let v = self.value(&inner, value, "value");
                        Y::list::ordered::NodeLayout {
                            intro: intro.len() as u32,
                            dataset: match dataset {
                                Some(d) => self.dataset(&inner, d),
                                None if v.input.len() == 1 => cell(v.input[0].clone()),
                                None => Data::new(),
                            },
                            value: v,
                        }
                    }
                };
                let (head, tail) = (self.pattern(&s, head), self.pattern(&s, tail));
                T::Layout::List(Y::ListLayout::Ordered(Y::OrderedListLayout { input, intro, node, head, tail, dataset, extra_properties }))
            }
            Body::Group => unimplemented!(),
        };
        self.store(id, layout)
    }

    fn store(&mut self, id: Option<Term>, l: T::Layout<Term>) -> Term {
        let id = id.unwrap_or_else(|| Term::blank(rdf_types::BlankIdBuf::from_suffix(&format!("e{}", self.stored)).unwrap()));
        self.stored += 1;
        if self.out.insert(id.clone(), l).1.is_some() {
            self.errors.push(Ko::Redefinition);
        }
        id
    }

    pub fn root(&mut self, l: &L) -> Term {
        self.layout(&Env::default(), l)
    }
}

fn to_value(j: &J) -> T::Value {
    match j {
        J::Null => T::Value::unit(),
        J::Bool(b) => T::Value::Literal(T::Literal::Boolean(*b)),
        J::Num(n) => T::Value::Literal(T::Literal::Number(T::value::Number::new(n.parse().unwrap()))),
        J::Str(s) => T::Value::string(s.clone()),
        J::Arr(a) => T::Value::List(a.iter().map(to_value).collect()),
        J::Obj(e) => T::Value::Map(e.iter().map(|(k, v)| (T::Value::string(k.clone()), to_value(v))).collect()),
    }
}

/// The layouts reachable from `root`, the anonymous ones named in order of occurrence, as text.
pub fn normal_form(ls: &T::Layouts<Term>, root: &Term) -> Vec<String> {
    fn refs<'a>(l: &'a mut T::Layout<Term>) -> Vec<&'a mut T::Ref<Y::LayoutType, Term>> {
        match l {
            T::Layout::Product(p) => p.fields.values_mut().map(|f| &mut f.value.layout).collect(),
            T::Layout::Sum(s) => s.variants.iter_mut().map(|f| &mut f.value.layout).collect(),
            T::Layout::List(Y::ListLayout::Ordered(l)) => vec![&mut l.node.value.layout],
            T::Layout::List(Y::ListLayout::Unordered(l)) => vec![&mut l.item.value.layout],
            T::Layout::List(Y::ListLayout::Sized(l)) => l.items.iter_mut().map(|i| &mut i.value.layout).collect(),
            _ => vec![],
        }
    }
    fn name(t: &Term, names: &mut HashMap<Term, Term>, todo: &mut Vec<Term>) -> Term {
        if let Some(n) = names.get(t) {
            return n.clone();
        }
        let n = if t.is_blank() { Term::blank(rdf_types::BlankIdBuf::from_suffix(&format!("n{}", names.len())).unwrap()) } else { t.clone() };
        names.insert(t.clone(), n.clone());
        todo.push(t.clone());
        n
    }
    let (mut names, mut todo, mut out) = (HashMap::new(), vec![], vec![]);
    name(root, &mut names, &mut todo);
    let mut i = 0;
    while i < todo.len() {
        let id = todo[i].clone();
        i += 1;
        let Some(l) = ls.layout(&id) else { continue };
        let mut l = l.clone();
        for r in refs(&mut l) {
            *r = T::Ref::new(name(r.id(), &mut names, &mut todo));
        }
        if let T::Layout::Literal(l) = &mut l {
            match l {
                Y::LiteralLayout::Id(l) => l.pattern = l.pattern.as_ref().map(|_| any_pattern()),
                Y::LiteralLayout::Data(Y::DataLayout::TextString(l)) => l.pattern = l.pattern.as_ref().map(|_| any_pattern()),
                _ => (),
            }
        }
        out.push(format!("{} = {:?}", names[&id], l));
    }
    out
}

// ---------------------------------------------------------------- generator

pub struct Gen {
    /// Once in how many a reference is wrong (undeclared name, relative IRI without base, ...).
    pub odd: usize,
    /// How much IRIs are varied.
    pub iris: bool,
    /// union and intersection layouts.
    pub groups: bool,
}

#[derive(Clone, Default)]
struct Scope {
    vars: Vec<String>,
    prefixes: Vec<String>,
    base: bool,
}

const NAMES: &[&str] = &["self", "value", "x", "y", "head", "rest", "é", "z1", "x"];
const ABS: &[&str] = &["http://a/b", "http://a/b#c", "urn:x:y", "https://ex.org/p/q?r=s", "mailto:a@b", "http://a/%C3%A9", "ex2:z"];
const REL: &[&str] = &["c", "../c", "#f", "?q", "", "/abs/p", "//host/x", "./a/../b", "d/e", "..", "c#g", "é"];
const PREFIXES: &[&str] = &["p", "ex", "http", "rdf", "a+b"];
const EXPANSIONS: &[&str] = &["http://a/", "http://p.org/ns#", "urn:u:", "https://x/y?z=", "http://h", "rel/", "p:sub", "ex:t#", "#"];
const SUFFIX: &[&str] = &["foo", "", "//x/y", "a:b", "q?w", "x#y", "é", "1"];
const SUFFIX_ODD: &[&str] = &["#a", "foo#b", "x"];

impl Gen {
    fn name(&self, r: &mut Rng) -> String {
        r.pick(NAMES).to_string()
    }
    fn iri(&self, r: &mut Rng, s: &Scope) -> J {
        let k = r.below(if self.iris { 4 } else { 8 });
        if !s.prefixes.is_empty() && k == 0 {
            let p = r.pick(&s.prefixes).clone();
            let t = if r.one_in(self.odd) { SUFFIX_ODD } else { SUFFIX };
            return J::Str(format!("{p}:{}", r.pick(t)));
        }
        if k == 1 && (s.base || r.one_in(self.odd)) {
            return js(r.pick(REL));
        }
        if self.iris && k == 2 {
            // a prefix that may not be declared: then an absolute IRI
            return J::Str(format!("{}:{}", r.pick(PREFIXES), r.pick(&["foo", "//x/y"])));
        }
        js(r.pick(ABS))
    }
    fn var(&self, r: &mut Rng, s: &Scope) -> J {
        let n = if s.vars.is_empty() || r.one_in(self.odd) { self.name(r) } else { r.pick(&s.vars).clone() };
        J::Str(format!("_:{n}"))
    }
    fn pattern(&self, r: &mut Rng, s: &Scope) -> J {
        match r.below(6) {
            0..=2 if !s.vars.is_empty() => self.var(r, s),
            5 => {
                let mut o = vec![("value".to_string(), js(r.pick(&["", "v", "12", "é\n"])))];
                match r.below(3) {
                    0 => o.push(("type".into(), self.iri(r, s))),
                    1 => o.push(("language".into(), js(r.pick(&["en", "fr-FR", "EN"])))),
                    _ => (),
                }
                J::Obj(o)
            }
            _ => self.iri(r, s),
        }
    }
    fn dataset(&self, r: &mut Rng, s: &Scope) -> J {
        let n = r.below(3);
        J::Arr(
            (0..n)
                .map(|_| {
                    let mut q = vec![self.pattern(r, s), self.pattern(r, s), self.pattern(r, s)];
                    if r.one_in(4) {
                        q.push(self.pattern(r, s));
                    }
                    J::Arr(q)
                })
                .collect(),
        )
    }
    fn names(&self, r: &mut Rng) -> (J, Vec<String>) {
        let n = r.below(3);
        let v: Vec<String> = (0..n).map(|_| self.name(r)).collect();
        (if v.len() == 1 && r.one_in(2) { J::Str(v[0].clone()) } else { J::Arr(v.iter().map(|s| js(s)).collect()) }, v)
    }
    fn lref(&self, r: &mut Rng, s: &Scope, depth: usize) -> J {
        if depth == 0 || r.one_in(4) {
            return match r.below(4) {
                0 => J::Bool(r.one_in(2)),
                1 if depth == 0 => J::Obj(vec![("type".into(), js(r.pick(&["id", "string", "unit", "boolean"])))]),
                _ => self.iri(r, s),
            };
        }
        self.layout(r, s, depth - 1)
    }
    fn value(&self, r: &mut Rng, s: &Scope, depth: usize) -> J {
        let inner = Scope { vars: vec![], ..s.clone() };
        if r.one_in(2) {
            return self.lref(r, &inner, depth);
        }
        let mut o = vec![("layout".to_string(), self.lref(r, &inner, depth))];
        match r.below(4) {
            0 => o.push(("input".into(), self.pattern(r, s))),
            1 => {
                let n = r.below(3);
                o.push(("input".into(), J::Arr((0..n).map(|_| self.pattern(r, s)).collect())))
            }
            _ => (),
        }
        match r.below(6) {
            0 => o.push(("graph".into(), J::Null)),
            1 => o.push(("graph".into(), self.pattern(r, s))),
            _ => (),
        }
        J::Obj(o)
    }
    /// kind: 0 field, 1 variant, 2 item, 3 list node
    fn item(&self, r: &mut Rng, s: &Scope, depth: usize, kind: usize) -> J {
        let mut o: Vec<(String, J)> = vec![];
        let mut s = s.clone();
        if kind == 3 {
            for k in ["head", "rest"] {
                let mut n = k.to_string();
                if r.one_in(3) {
                    n = self.name(r);
                    o.push((k.into(), js(&n)));
                }
                s.vars.push(n);
            }
        }
        let plain = !s.vars.iter().any(|v| v == if kind == 1 { "self" } else { "value" });
        if if plain && kind == 1 { false } else { r.one_in(3) } {
            let (j, v) = self.names(r);
            o.push(("intro".into(), j));
            s.vars.extend(v);
        } else if kind != 1 {
            s.vars.push("value".into());
        }
        o.push(("value".into(), self.value(r, &s, depth)));
        if r.one_in(3) {
            o.push(("dataset".into(), self.dataset(r, &s)));
        }
        if (kind == 0 || kind == 2) && r.one_in(3) {
            o.push(("property".into(), self.pattern(r, &s)));
        }
        if kind == 0 && r.one_in(3) {
            o.push(("required".into(), J::Bool(r.one_in(2))));
        }
        J::Obj(o)
    }
    fn constant(&self, r: &mut Rng, depth: usize) -> J {
        match r.below(if depth == 0 { 5 } else { 7 }) {
            0 => J::Null,
            1 => J::Bool(r.one_in(2)),
            2 => J::Num(r.pick(&["0", "1", "-1", "255", "123456789", "-9223372036854775808"]).to_string()),
            3 | 4 => js(r.pick(&["", "a", "é\"\n", "null"])),
            5 => J::Arr((0..r.below(3)).map(|_| self.constant(r, depth - 1)).collect()),
            _ => {
                let m: BTreeMap<String, J> = (0..r.below(3)).map(|i| (format!("k{i}"), self.constant(r, depth - 1))).collect();
                J::Obj(m.into_iter().collect())
            }
        }
    }
    fn header(&self, r: &mut Rng, out: &mut Vec<(String, J)>, outer: &Scope) -> Scope {
        let mut s = outer.clone();
        if r.one_in(if self.iris { 2 } else { 5 }) {
            let b = if outer.base && r.one_in(2) { js(r.pick(REL)) } else { js(r.pick(&["http://base.org/a/b", "http://base.org", "urn:base:x", "http://b/c/d?e#f", "p:x"])) };
            out.push(("base".into(), b));
            s.base = true;
        }
        if r.one_in(if self.iris { 2 } else { 5 }) {
            let mut m = BTreeMap::new();
            for _ in 0..r.below(3) {
                let e = if outer.base || r.one_in(self.odd) { *r.pick(EXPANSIONS) } else { *r.pick(&EXPANSIONS[..5]) };
                m.insert(r.pick(PREFIXES).to_string(), js(e));
            }
            s.prefixes.extend(m.keys().cloned());
            out.push(("prefixes".into(), J::Obj(m.into_iter().collect())));
        }
        if r.one_in(4) {
            let j = if r.one_in(self.odd) { self.iri(r, outer) } else { J::Str(format!("http://id/{}", r.below(1000))) };
            out.push(("id".into(), j));
        }
        if r.one_in(4) {
            let (j, v) = self.names(r);
            out.push(("input".into(), j));
            s.vars.extend(v);
        } else {
            s.vars.push("self".into());
        }
        if r.one_in(3) {
            let (j, v) = self.names(r);
            out.push(("intro".into(), j));
            s.vars.extend(v);
        }
        if r.one_in(3) {
            out.push(("dataset".into(), self.dataset(r, &s)));
        }
        if r.one_in(5) {
            let mut m = vec![];
            for _ in 0..r.below(3) {
                let v = match r.below(4) {
                    0 => J::Bool(r.one_in(2)),
                    1 => J::Num(match r.below(3) {
                        0 => r.pick(&["0", "1", "-1", "-128", "-129", "255", "256", "65535", "65536", "-32769", "4294967296", "9223372036854775807", "-9223372036854775808"]).to_string(),
                        _ => r.range(-70000, 70000).to_string(),
                    }),
                    2 => js(r.pick(&["", "text", "http://a/b"])),
                    _ => J::Obj(vec![("value".into(), js("v")), ("type".into(), self.iri(r, &s))]),
                };
                let J::Str(k) = self.iri(r, &s) else { unreachable!() };
                if !m.iter().any(|(l, _)| *l == k) {
                    m.push((k, v));
                }
            }
            out.push(("extra".into(), J::Obj(m)));
        }
        s
    }
    fn layout(&self, r: &mut Rng, outer: &Scope, depth: usize) -> J {
        if r.one_in(20) {
            return J::Bool(r.one_in(2));
        }
        let mut o = vec![];
        let s = self.header(r, &mut o, outer);
        let simple: &[&str] = &["unit", "boolean", "number", "bytes", "string", "id"];
        let ty = if self.groups && r.one_in(15) {
            *r.pick(&["union", "intersection"])
        } else if depth == 0 || r.one_in(4) {
            *r.pick(simple)
        } else {
            *r.pick(&["record", "record", "sum", "list", "set", "tuple"])
        };
        o.insert(r.below(o.len() + 1), ("type".into(), js(ty)));
        match ty {
            "unit" => {
                if r.one_in(2) {
                    o.push(("const".into(), self.constant(r, 2)));
                }
            }
            "boolean" | "number" | "bytes" | "string" | "id" => {
                if r.one_in(3) || s.vars.is_empty() {
                    o.push(("resource".into(), self.pattern(r, &s)));
                }
                if matches!(ty, "number" | "bytes") || ty != "id" && r.one_in(3) {
                    o.push(("datatype".into(), self.iri(r, &s)));
                }
                if matches!(ty, "string" | "id") && r.one_in(4) {
                    o.push(("pattern".into(), js(r.pick(&["a*", "[a-z]+", "(ab|c)d", "x?y", "", "é"]))));
                }
            }
            "record" | "sum" => {
                let n = r.below(4);
                if n > 0 || r.one_in(2) {
                    let mut f = vec![];
                    for i in 0..n {
                        let k = r.pick(&["a", "b", "c", "é", "", "a b"]).to_string();
                        if !f.iter().any(|(l, _)| *l == k) {
                            f.push((k, self.item(r, &s, depth, if ty == "sum" { 1 } else { 0 })));
                        }
                        let _ = i;
                    }
                    o.push((if ty == "sum" { "variants" } else { "fields" }.into(), J::Obj(f)));
                }
            }
            "list" => {
                if r.one_in(3) {
                    o.push(("head".into(), self.pattern(r, &s)));
                }
                if r.one_in(3) {
                    o.push(("tail".into(), self.pattern(r, &s)));
                }
                let j = if r.one_in(2) { self.item(r, &s, depth, 3) } else { self.lref(r, &Scope { vars: vec![], ..s.clone() }, depth) };
                o.push(("node".into(), j));
            }
            "set" => o.push(("item".into(), self.item(r, &s, depth, 2))),
            "tuple" => {
                if r.one_in(4) {
                    // absent
                } else {
                    let n = r.below(3);
                    o.push(("items".into(), J::Arr((0..n).map(|_| self.item(r, &s, depth, 2)).collect())));
                }
            }
            _ => (),
        }
        if r.one_in(3) {
            // any order
            for i in (1..o.len()).rev() {
                o.swap(i, r.below(i + 1));
            }
        }
        J::Obj(o)
    }
    pub fn definition(&self, r: &mut Rng, depth: usize) -> J {
        self.layout(r, &Scope::default(), depth)
    }
}

// ---------------------------------------------------------------- mutations

fn count(j: &J) -> usize {
    1 + match j {
        J::Arr(a) => a.iter().map(count).sum(),
        J::Obj(e) => e.iter().map(|e| count(&e.1)).sum(),
        _ => 0,
    }
}
fn nth<'a>(j: &'a mut J, n: &mut usize) -> Option<&'a mut J> {
    if *n == 0 {
        return Some(j);
    }
    *n -= 1;
    match j {
        J::Arr(a) => a.iter_mut().find_map(|x| nth(x, n)),
        J::Obj(e) => e.iter_mut().find_map(|x| nth(&mut x.1, n)),
        _ => None,
    }
}

const KEYS: &[&str] = &[
    "type", "base", "prefixes", "id", "input", "intro", "dataset", "extra", "const", "resource", "datatype", "pattern", "fields", "variants", "node", "head",
    "tail", "rest", "item", "items", "value", "layout", "graph", "property", "required", "language", "foo", "Type", "",
];

fn junk(r: &mut Rng, g: &Gen) -> J {
    match r.below(14) {
        0 => J::Null,
        1 => J::Bool(r.one_in(2)),
        2 => J::Num(r.pick(&["0", "1", "-5", "1.5", "1e3", "9223372036854775808"]).to_string()),
        3 => J::Arr(vec![]),
        4 => J::Obj(vec![]),
        5 => js(r.pick(&["", "_:x", "_:", "value", "not an iri", "http://a/b", "self", "en", "record", "[", "string"])),
        6 => J::Arr(vec![js("_:self")]),
        7 => J::Arr(vec![js("self"), js("x")]),
        8 => J::Obj(vec![("value".into(), js("a"))]),
        9 => J::Obj(vec![("value".into(), js("a")), ("language".into(), js(r.pick(&["en", "e n", ""])))]),
        10 => J::Obj(vec![("type".into(), js(r.pick(&["id", "record", "list", "union"])))]),
        11 => J::Obj(vec![("layout".into(), js("http://a/b"))]),
        12 => J::Obj(vec![("value".into(), J::Bool(true))]),
        _ => g.definition(r, 1),
    }
}

/// Changes one place of `j`.
pub fn mutate(r: &mut Rng, g: &Gen, j: &mut J) {
    let total = count(j);
    let mut n = r.below(total);
    let t = nth(j, &mut n).unwrap();
    match t {
        J::Obj(e) if !r.one_in(6) => {
            let len = e.len();
            match r.below(6) {
                0 if len > 0 => {
                    e.remove(r.below(len));
                }
                1 if len > 0 => e[r.below(len)].0 = r.pick(KEYS).to_string(),
                2 if len > 0 => {
                    let mut d = e[r.below(len)].clone();
                    if r.one_in(2) {
                        d.1 = junk(r, g);
                    }
                    e.insert(r.below(len + 1), d);
                }
                3 => e.insert(r.below(len + 1), (r.pick(KEYS).to_string(), junk(r, g))),
                4 if len > 0 => e[r.below(len)].1 = junk(r, g),
                _ => e.reverse(),
            }
        }
        J::Arr(a) if !r.one_in(4) => {
            let len = a.len();
            match r.below(4) {
                0 if len > 0 => {
                    a.remove(r.below(len));
                }
                1 if len == 1 => *t = a[0].clone(),
                2 => {
                    let x = junk(r, g);
                    a.insert(r.below(len + 1), x)
                }
                _ if len > 0 => {
                    let x = a[r.below(len)].clone();
                    a.insert(0, x)
                }
                _ => (),
            }
        }
        _ => match r.below(3) {
            0 => *t = J::Arr(vec![t.clone()]),
            _ => *t = junk(r, g),
        },
    }
}
