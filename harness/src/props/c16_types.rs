//! C16: derived types against the reference semantics of the equivalent layout definition.
use super::c03::Case;
use rdf_types::{dataset::BTreeDataset, Quad, Term};
use std::collections::BTreeSet;
use treeldr::{DeserializeLd, RdfContext, RdfContextMut, SerializeLd};
use treeldr_layouts::{value::Number, Literal, Ref, TypedValue, Value};
use vharness::{gen, model::*, naive::Naive, Rep, Rng};

/// A derived type and the layout definition it stands for.
pub trait Tv: Sized {
    fn json() -> String;
    fn gen(r: &mut Rng, depth: usize) -> Self;
    /// tree value; `tag`: with the selected variants
    fn val(&self, tag: bool) -> Value;
}

pub fn number(s: &str) -> Value {
    Value::Literal(Literal::Number(Number::new(gen::read_decimal(s).unwrap())))
}

fn tagged(i: usize, v: Value, tag: bool) -> Value {
    if tag {
        Value::Map([(number(&i.to_string()), v)].into())
    } else {
        v
    }
}

/// The value of a hydrated tree, with its selected variants. `sets`: unordered lists are sorted.
fn untyped(v: &TypedValue<Term>) -> Value {
    use treeldr_layouts::TypedLiteral::*;
    match v {
        TypedValue::Always(v) => v.clone(),
        TypedValue::Literal(l) => match l {
            Unit(v, _) => v.clone(),
            Boolean(b, _) => Value::Literal(Literal::Boolean(*b)),
            Number(n, _) => Value::Literal(Literal::Number(n.clone())),
            ByteString(b, _) => Value::Literal(Literal::ByteString(b.clone())),
            TextString(s, _) | Id(s, _) => Value::string(s.clone()),
        },
        TypedValue::Map(m, _) => Value::Map(m.iter().map(|(k, v)| (k.clone(), untyped(v))).collect()),
        TypedValue::List(l, _) => Value::List(l.iter().map(untyped).collect()),
        TypedValue::Variant(v, _, i) => tagged(*i as usize, untyped(v), true),
    }
}

fn map(e: Vec<(&str, Option<Value>)>) -> Value {
    Value::Map(e.into_iter().filter_map(|(k, v)| v.map(|v| (Value::string(k.to_string()), v))).collect())
}

const P: &str = r#""prefixes":{"ex":"http://example.org/#","xsd":"http://www.w3.org/2001/XMLSchema#"}"#;

macro_rules! ints {
    ($($ty:ident $name:expr),*) => {$(
        impl Tv for $ty {
            fn json() -> String { format!(r#"{{"type":"number","datatype":"http://www.w3.org/2001/XMLSchema#{}"}}"#, $name) }
            fn gen(r: &mut Rng, _: usize) -> Self {
                match r.below(6) { 0 => $ty::MIN, 1 => $ty::MAX, 2 => 0, 3 => r.below(4) as $ty, _ => r.next() as $ty }
            }
            fn val(&self, _: bool) -> Value { number(&self.to_string()) }
        }
    )*}
}
ints!(u8 "unsignedByte", u16 "unsignedShort", u32 "unsignedInt", u64 "unsignedLong", i8 "byte", i16 "short", i32 "int", i64 "long");

impl Tv for String {
    fn json() -> String {
        r#"{"type":"string"}"#.into()
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        gen::string(r)
    }
    fn val(&self, _: bool) -> Value {
        Value::string(self.clone())
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id)]
pub struct Ident(rdf_types::Id);
impl treeldr::AsId for Ident {
    fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
        self.0.as_lexical_id_ref()
    }
}
impl From<rdf_types::Id> for Ident {
    fn from(i: rdf_types::Id) -> Self {
        Ident(i)
    }
}
fn ident(r: &mut Rng) -> rdf_types::Id {
    let i = match r.below(3) {
        0 => r.pick(POOL).to_string(),
        _ => format!("http://id/{}", r.below(50)),
    };
    rdf_types::Id::Iri(iref::IriBuf::new(i).unwrap())
}
impl Tv for Ident {
    fn json() -> String {
        r#"{"type":"id"}"#.into()
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        Ident(ident(r))
    }
    fn val(&self, _: bool) -> Value {
        Value::string(self.0.to_string())
    }
}

/// Identifier of another resource than the input.
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(id, intro("x"), resource("_:x"), dataset(["_:self", "ex:id", "_:x"]))]
pub struct Remote(rdf_types::Id);
impl treeldr::AsId for Remote {
    fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
        self.0.as_lexical_id_ref()
    }
}
impl From<rdf_types::Id> for Remote {
    fn from(i: rdf_types::Id) -> Self {
        Remote(i)
    }
}
impl Tv for Remote {
    fn json() -> String {
        format!(r#"{{"type":"id",{P},"intro":["x"],"resource":"_:x","dataset":[["_:self","ex:id","_:x"]]}}"#)
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        Remote(ident(r))
    }
    fn val(&self, _: bool) -> Value {
        Value::string(self.0.to_string())
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(dataset(["_:self", "ex:is", "ex:Unit"], ["ex:Unit", "ex:of", "_:self", "ex:G"]))]
pub struct Unit;
impl Tv for Unit {
    fn json() -> String {
        format!(r#"{{"type":"unit",{P},"dataset":[["_:self","ex:is","ex:Unit"],["ex:Unit","ex:of","_:self","ex:G"]]}}"#)
    }
    fn gen(_: &mut Rng, _: usize) -> Self {
        Unit
    }
    fn val(&self, _: bool) -> Value {
        Value::unit()
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean)]
pub struct Bool(bool);
impl Tv for Bool {
    fn json() -> String {
        r#"{"type":"boolean"}"#.into()
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        Bool(r.one_in(2))
    }
    fn val(&self, _: bool) -> Value {
        Value::Literal(Literal::Boolean(self.0))
    }
}

/// Boolean carried by another resource than the input.
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(boolean, intro("x"), resource("_:x"), dataset(["_:self", "ex:flag", "_:x"]))]
pub struct Flag(bool);
impl Tv for Flag {
    fn json() -> String {
        format!(r#"{{"type":"boolean",{P},"intro":["x"],"resource":"_:x","dataset":[["_:self","ex:flag","_:x"]]}}"#)
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        Flag(r.one_in(2))
    }
    fn val(&self, _: bool) -> Value {
        Value::Literal(Literal::Boolean(self.0))
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("xsd" = "http://www.w3.org/2001/XMLSchema#", "ex" = "http://example.org/#"))]
#[tldr(number, datatype("xsd:short"), input("a", "b"), resource("_:b"), dataset(["_:a", "ex:len", "_:b"]))]
pub struct Short(i16);
impl Tv for Short {
    fn json() -> String {
        format!(r#"{{"type":"number","datatype":"xsd:short",{P},"input":["a","b"],"resource":"_:b","dataset":[["_:a","ex:len","_:b"]]}}"#)
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Short(i16::gen(r, d))
    }
    fn val(&self, t: bool) -> Value {
        self.0.val(t)
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(string, datatype("ex:text"))]
pub struct Text(String);
impl Tv for Text {
    fn json() -> String {
        format!(r#"{{"type":"string","datatype":"ex:text",{P}}}"#)
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Text(String::gen(r, d))
    }
    fn val(&self, t: bool) -> Value {
        self.0.val(t)
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
pub struct Rec {
    #[tldr("ex:foo")]
    foo: String,
    #[tldr("ex:bar")]
    bar: Option<i32>,
    #[tldr("ex:flag")]
    flag: Option<Bool>,
    #[tldr("ex:id")]
    id: Option<Ident>,
}
impl Tv for Rec {
    fn json() -> String {
        format!(
            r#"{{"type":"record",{P},"fields":{{
            "foo":{{"property":"ex:foo","value":{{"layout":{}}},"required":true}},
            "bar":{{"property":"ex:bar","value":{{"layout":{}}}}},
            "flag":{{"property":"ex:flag","value":{{"layout":{}}}}},
            "id":{{"property":"ex:id","value":{{"layout":{}}}}}}}}}"#,
            String::json(),
            i32::json(),
            Bool::json(),
            Ident::json()
        )
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Rec {
            foo: Tv::gen(r, d),
            bar: if r.one_in(2) { Some(Tv::gen(r, d)) } else { None },
            flag: if r.one_in(2) { Some(Tv::gen(r, d)) } else { None },
            id: if r.one_in(2) { Some(Tv::gen(r, d)) } else { None },
        }
    }
    fn val(&self, t: bool) -> Value {
        map(vec![
            ("foo", Some(self.foo.val(t))),
            ("bar", self.bar.as_ref().map(|v| v.val(t))),
            ("flag", self.flag.as_ref().map(|v| v.val(t))),
            ("id", self.id.as_ref().map(|v| v.val(t))),
        ])
    }
}

/// Introductions at every level, several inputs, named graphs, explicit datasets.
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(record, input("a", "b"), intro("x", "y"), dataset(["_:a", "ex:x", "_:x"], ["_:x", "ex:y", "_:y", "ex:G"], ["_:y", "ex:b", "_:b"]))]
pub struct Deep {
    #[tldr(intro("v", "w"), dataset(["_:x", "ex:v", "_:v"], ["_:v", "ex:w", "_:w"]), input("_:w"), graph(_))]
    one: Option<u16>,
    #[tldr("ex:g", graph(Some("_:y")))]
    two: Option<Rec>,
    #[tldr("ex:d", graph(None))]
    three: Rec,
    #[tldr(intro("p"), dataset(["_:y", "ex:p", "_:p", "_:x"]), input("_:b", "_:p"), graph(Some("ex:H")))]
    four: Option<Short>,
    #[tldr("ex:l")]
    five: Option<Lst>,
}
impl Tv for Deep {
    fn json() -> String {
        format!(
            r#"{{"type":"record",{P},"input":["a","b"],"intro":["x","y"],
            "dataset":[["_:a","ex:x","_:x"],["_:x","ex:y","_:y","ex:G"],["_:y","ex:b","_:b"]],
            "fields":{{
            "one":{{"intro":["v","w"],"dataset":[["_:x","ex:v","_:v"],["_:v","ex:w","_:w"]],"value":{{"layout":{},"input":["_:w"]}}}},
            "two":{{"property":"ex:g","value":{{"layout":{},"graph":"_:y"}}}},
            "three":{{"property":"ex:d","value":{{"layout":{},"graph":null}},"required":true}},
            "four":{{"intro":["p"],"dataset":[["_:y","ex:p","_:p","_:x"]],"value":{{"layout":{},"input":["_:b","_:p"],"graph":"ex:H"}}}},
            "five":{{"property":"ex:l","value":{{"layout":{}}}}}}}}}"#,
            u16::json(),
            Rec::json(),
            Rec::json(),
            Short::json(),
            Lst::json()
        )
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Deep {
            one: if r.one_in(2) { Some(Tv::gen(r, d)) } else { None },
            two: if r.one_in(2) { Some(Tv::gen(r, d)) } else { None },
            three: Tv::gen(r, d),
            four: if r.one_in(2) { Some(Tv::gen(r, d)) } else { None },
            five: if r.one_in(2) { Some(Tv::gen(r, d)) } else { None },
        }
    }
    fn val(&self, t: bool) -> Value {
        map(vec![
            ("one", self.one.as_ref().map(|v| v.val(t))),
            ("two", self.two.as_ref().map(|v| v.val(t))),
            ("three", Some(self.three.val(t))),
            ("four", self.four.as_ref().map(|v| v.val(t))),
            ("five", self.five.as_ref().map(|v| v.val(t))),
        ])
    }
}

fn items<T: Tv>(r: &mut Rng, d: usize) -> Vec<T> {
    (0..gen::few(r, 4)).map(|_| T::gen(r, d)).collect()
}
fn list<T: Tv>(v: &[T], t: bool, sort: bool) -> Value {
    let mut l: Vec<Value> = v.iter().map(|v| v.val(t)).collect();
    if sort {
        l.sort();
    }
    Value::List(l)
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(set)]
pub struct Set(#[tldr("ex:item")] Vec<i64>);
impl Tv for Set {
    fn json() -> String {
        format!(r#"{{"type":"set",{P},"item":{{"property":"ex:item","value":{{"layout":{}}}}}}}"#, i64::json())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Set(items(r, d))
    }
    fn val(&self, t: bool) -> Value {
        list(&self.0, t, true)
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(set, intro("c"), dataset(["_:self", "ex:c", "_:c"]))]
pub struct SetG(#[tldr(intro("i", "g"), dataset(["_:c", "ex:i", "_:i", "_:g"]), input("_:i"), graph(Some("_:g")))] Vec<Rec>);
impl Tv for SetG {
    fn json() -> String {
        format!(
            r#"{{"type":"set",{P},"intro":["c"],"dataset":[["_:self","ex:c","_:c"]],
            "item":{{"intro":["i","g"],"dataset":[["_:c","ex:i","_:i","_:g"]],"value":{{"layout":{},"input":["_:i"],"graph":"_:g"}}}}}}"#,
            Rec::json()
        )
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        SetG(items(r, d))
    }
    fn val(&self, t: bool) -> Value {
        list(&self.0, t, true)
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list)]
pub struct Lst(Vec<i8>);
impl Tv for Lst {
    fn json() -> String {
        format!(r#"{{"type":"list","node":{{"value":{{"layout":{}}}}}}}"#, i8::json())
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Lst(items(r, d))
    }
    fn val(&self, t: bool) -> Value {
        list(&self.0, t, false)
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(list, intro("h"), head("_:h"), tail("ex:end"), dataset(["_:self", "ex:head", "_:h"]))]
pub struct Chain(#[tldr(head("n"), rest("m"), intro("v"), dataset(["_:n", "ex:value", "_:v"], ["_:n", "ex:next", "_:m"]), input("_:v"))] Vec<Rec>);
impl Tv for Chain {
    fn json() -> String {
        format!(
            r#"{{"type":"list",{P},"intro":["h"],"head":"_:h","tail":"ex:end","dataset":[["_:self","ex:head","_:h"]],
            "node":{{"head":"n","rest":"m","intro":["v"],"dataset":[["_:n","ex:value","_:v"],["_:n","ex:next","_:m"]],
            "value":{{"layout":{},"input":["_:v"]}}}}}}"#,
            Rec::json()
        )
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Chain(items(r, d))
    }
    fn val(&self, t: bool) -> Value {
        list(&self.0, t, false)
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(tuple, intro("t"), dataset(["_:self", "ex:t", "_:t"]))]
pub struct Tup(
    #[tldr("ex:a")] u32,
    #[tldr(intro("b"), dataset(["_:t", "ex:b", "_:b"]), input("_:b"))] Chain,
    #[tldr("ex:c")] Unit,
    #[tldr("ex:d")] Remote,
);
impl Tv for Tup {
    fn json() -> String {
        format!(
            r#"{{"type":"tuple",{P},"intro":["t"],"dataset":[["_:self","ex:t","_:t"]],"items":[
            {{"property":"ex:a","value":{{"layout":{}}}}},
            {{"intro":["b"],"dataset":[["_:t","ex:b","_:b"]],"value":{{"layout":{},"input":["_:b"]}}}},
            {{"property":"ex:c","value":{{"layout":{}}}}},
            {{"property":"ex:d","value":{{"layout":{}}}}}]}}"#,
            u32::json(),
            Chain::json(),
            Unit::json(),
            Remote::json()
        )
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        Tup(Tv::gen(r, d), Tv::gen(r, d), Tv::gen(r, d), Tv::gen(r, d))
    }
    fn val(&self, t: bool) -> Value {
        Value::List(vec![self.0.val(t), self.1.val(t), self.2.val(t), self.3.val(t)])
    }
}

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://example.org/#"))]
#[tldr(sum, intro("s"), dataset(["_:self", "ex:s", "_:s"]))]
pub enum Sum {
    #[tldr(intro("a"), dataset(["_:s", "ex:a", "_:a"]), input("_:a"))]
    Foo(Rec),
    #[tldr(intro("a"), dataset(["_:s", "ex:b", "_:a", "_:self"]), input("_:a"), graph(Some("_:self")))]
    Bar(Flag),
    #[tldr(intro("a", "b"), dataset(["_:s", "ex:a", "_:a"], ["_:a", "ex:n", "_:b"]), input("_:b"), graph(None))]
    Baz(u64),
    #[tldr(intro("a"), dataset(["_:self", "ex:t", "_:a"]), input("_:a"))]
    Qux(Text),
}
impl Tv for Sum {
    fn json() -> String {
        format!(
            r#"{{"type":"sum",{P},"intro":["s"],"dataset":[["_:self","ex:s","_:s"]],"variants":{{
            "Foo":{{"intro":["a"],"dataset":[["_:s","ex:a","_:a"]],"value":{{"layout":{},"input":["_:a"]}}}},
            "Bar":{{"intro":["a"],"dataset":[["_:s","ex:b","_:a","_:self"]],"value":{{"layout":{},"input":["_:a"],"graph":"_:self"}}}},
            "Baz":{{"intro":["a","b"],"dataset":[["_:s","ex:a","_:a"],["_:a","ex:n","_:b"]],"value":{{"layout":{},"input":["_:b"],"graph":null}}}},
            "Qux":{{"intro":["a"],"dataset":[["_:self","ex:t","_:a"]],"value":{{"layout":{},"input":["_:a"]}}}}}}}}"#,
            Rec::json(),
            Flag::json(),
            u64::json(),
            Text::json()
        )
    }
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Sum::Foo(Tv::gen(r, d)),
            1 => Sum::Bar(Tv::gen(r, d)),
            2 => Sum::Baz(Tv::gen(r, d)),
            _ => Sum::Qux(Tv::gen(r, d)),
        }
    }
    // variants are sorted by name in the layout
    fn val(&self, t: bool) -> Value {
        match self {
            Sum::Bar(v) => tagged(0, v.val(t), t),
            Sum::Baz(v) => tagged(1, v.val(t), t),
            Sum::Foo(v) => tagged(2, v.val(t), t),
            Sum::Qux(v) => tagged(3, v.val(t), t),
        }
    }
}

pub struct Ty<T>(pub Case, std::marker::PhantomData<T>);

impl<T: Tv> Ty<T> {
    fn new() -> Self {
        let text = T::json();
        let l: treeldr_layouts::abs::syntax::Layout = serde_json::from_str(&text).unwrap();
        let mut b = treeldr_layouts::abs::Builder::new();
        let id = l.build(&mut b).unwrap();
        let ls = b.build();
        let id = id.into_id();
        let k = ls.layout_of(&id);
        Ty(Case { ls, id, k, text }, std::marker::PhantomData)
    }
}
trait InputCount {
    fn layout_of(&self, id: &Term) -> u32;
}
impl InputCount for treeldr_layouts::Layouts<Term> {
    fn layout_of(&self, id: &Term) -> u32 {
        { use treeldr_layouts::LayoutRegistry; self.layout(id).and_then(inputs_of).unwrap() }
    }
}

fn show_err(e: treeldr::DeserializeError) -> String {
    e.to_string()
}

fn read<const N: usize, T>(data: &BTreeSet<Quad<Term>>, g: Option<&Term>, inputs: &[Term]) -> Result<Value, String>
where
    T: Tv + DeserializeLd<N, (), HyInterp>,
{
    let i = HyInterp::default();
    let ds = Naive(data.iter().cloned().collect());
    let inputs: [Term; N] = inputs.to_vec().try_into().unwrap();
    T::deserialize_ld_with(RdfContext { vocabulary: &(), interpretation: &i }, &ds, g, &inputs)
        .map(|v| v.val(true))
        .map_err(show_err)
}

pub fn ty<const N: usize, T>(rep: &mut Rep, name: &str, n: usize, lossy: bool)
where
    T: Tv + SerializeLd<N, (), DeInterp> + DeserializeLd<N, (), HyInterp>,
{
    let Ty(c, _) = Ty::<T>::new();
    assert_eq!(c.k as usize, N);
    let mut r = rep.rng(1600 + name.len() as u64 * 31 + name.bytes().map(|b| b as u64).sum::<u64>());
    let sort = |v: Value| -> Value { v };
    for k in 0..n {
        let g = match r.below(3) {
            0 => Some(Res::T(iri(r.pick(POOL)))),
            1 => Some(Res::In(0)),
            _ => None,
        };
        if k % 2 == 0 {
            let v = T::gen(&mut r, 2);
            let mut o = Out::default();
            let ins: Vec<Res> = (0..N).map(Res::In).collect();
            let want = dehydrate(&c.ls, &v.val(false), &g, &Ref::new(c.id.clone()), &ins, &mut o);
            let desc = format!("type {name} value {} graph {}", v.val(true), g.as_ref().map(|g| g.to_string()).unwrap_or("default".into()));
            rep.check(desc, !o.quads.is_empty() || !o.terms.is_empty(), || {
                want?;
                let mut i = DeInterp::default();
                let mut out = BTreeDataset::new();
                let arr: [Res; N] = ins.try_into().unwrap();
                v.serialize_ld_with(&mut RdfContextMut { vocabulary: &mut (), interpretation: &mut i }, &arr, g.as_ref(), &mut out)
                    .map_err(|_| "rejected".to_string())?;
                let got = to_set(out);
                let mut gq = got.clone();
                let mut eq = o.quads.clone();
                let mark = |x: &Res, t: &Term| Quad(x.clone(), Res::T(iri("urn:assigned")), Res::T(t.clone()), Some(Res::T(iri("urn:assigned"))));
                let mut terms = Vec::new();
                for (x, ts) in &i.assigned {
                    for t in ts {
                        gq.insert(mark(x, t));
                        terms.push((x.clone(), t.clone()));
                    }
                }
                for (x, t) in &o.terms {
                    eq.insert(mark(x, t));
                }
                let f = |x: &Res| match x {
                    Res::An(_) => None,
                    x => Some(x.to_string()),
                };
                if !isomorphic(&gq, &eq, &f, &f) {
                    return Err(format!("writes {} (with assigned terms), expected {}", show_quads(&gq), show_quads(&eq)));
                }
                // and back
                let Some(names) = naming(&terms) else { return Ok(()) };
                let name = |x: &Res| -> Term {
                    match (x, names.get(x)) {
                        (Res::T(t), _) => t.clone(),
                        (_, Some(t)) => t.clone(),
                        (Res::In(i), _) => iri(&format!("http://in/{i}")),
                        (Res::An(i), _) => Term::blank(rdf_types::BlankIdBuf::new(format!("_:n{i}")).unwrap()),
                    }
                };
                let data: BTreeSet<Quad<Term>> = got.iter().map(|q| Quad(name(&q.0), name(&q.1), name(&q.2), q.3.as_ref().map(name))).collect();
                let inputs: Vec<Term> = arr.iter().map(name).collect();
                let g = g.as_ref().map(name);
                let i = HyInterp::default();
                let hy = Hy { ls: &c.ls, data: &data, interp: &i };
                let want = hy.run(g.as_ref(), &Ref::new(c.id.clone()), &inputs, &mut Vec::new());
                let back = read::<N, T>(&data, g.as_ref(), &inputs);
                match (back, want) {
                    (Ok(a), Ok(b)) if a == untyped(&b) => {
                        if !lossy && a != v.val(true) {
                            return Err(format!("reads back as {a}"));
                        }
                        Ok(())
                    }
                    (Err(_), Err(_)) if lossy => Ok(()),
                    (a, b) => Err(format!("written as {} and read back as {a:?}, expected {:?}", show_quads(&data), b.as_ref().map(untyped))),
                }
            });
        } else {
            let g = g.map(|_| iri(r.pick(POOL)));
            let alter = *r.pick(&[0, 1, 1, 2]);
            let (data, inputs) = data_for(&mut r, &c.ls, &c.id, &g, 4, alter);
            if inputs.len() != N {
                continue;
            }
            let i = HyInterp::default();
            let hy = Hy { ls: &c.ls, data: &data, interp: &i };
            let want = hy.run(g.as_ref(), &Ref::new(c.id.clone()), &inputs, &mut Vec::new());
            let desc = format!(
                "type {name} data {} graph {} inputs {:?}",
                show_quads(&data),
                g.as_ref().map(|g| g.to_string()).unwrap_or("default".into()),
                inputs.iter().map(|t| t.to_string()).collect::<Vec<_>>()
            );
            rep.check(desc, !data.is_empty(), || match (read::<N, T>(&data, g.as_ref(), &inputs), &want) {
                (Ok(a), Ok(b)) if sort(a.clone()) == untyped(b) => Ok(()),
                (Err(_), Err(_)) => Ok(()),
                (a, b) => Err(format!("reads {a:?}, expected {:?}", b.as_ref().map(untyped))),
            });
        }
    }
}

pub fn run(rep: &mut Rep, n: usize) {
    ty::<1, String>(rep, "String", n, false);
    ty::<1, u8>(rep, "u8", n, false);
    ty::<1, u16>(rep, "u16", n, false);
    ty::<1, u32>(rep, "u32", n, false);
    ty::<1, u64>(rep, "u64", n, false);
    ty::<1, i8>(rep, "i8", n, false);
    ty::<1, i16>(rep, "i16", n, false);
    ty::<1, i32>(rep, "i32", n, false);
    ty::<1, i64>(rep, "i64", n, false);
    ty::<1, Ident>(rep, "Ident", n, false);
    ty::<1, Remote>(rep, "Remote", n, false);
    ty::<1, Unit>(rep, "Unit", n, false);
    ty::<1, Bool>(rep, "Bool", n, false);
    ty::<1, Flag>(rep, "Flag", n, false);
    ty::<2, Short>(rep, "Short", n, false);
    ty::<1, Text>(rep, "Text", n, false);
    ty::<1, Rec>(rep, "Rec", n, false);
    ty::<2, Deep>(rep, "Deep", n, true);
    ty::<1, Set>(rep, "Set", n, true);
    ty::<1, SetG>(rep, "SetG", n, true);
    ty::<1, Lst>(rep, "Lst", n, true);
    ty::<1, Chain>(rep, "Chain", n, true);
    ty::<1, Tup>(rep, "Tup", n, true);
    ty::<1, Sum>(rep, "Sum", n, true);
}
