//! Reference semantics of layouts: what dehydration and hydration must produce, written directly
//! from the definition of layouts.
use crate::{gen, xsd, Rng};
use iref::IriBuf;
use rdf_types::{
    dataset::{BTreeDataset, TraversableDataset},
    interpretation::*,
    BlankIdBuf, Id, Interpretation, InterpretationMut, Literal as RdfLiteral, LiteralType, Quad, Term,
};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::{
    layout::list::{ordered::NodeLayout, ItemLayout},
    layout::product::Field,
    layout::sum::Variant,
    layout::*,
    value::Number,
    Dataset, Layout, LayoutRegistry, Layouts, Literal, Pattern, Ref, TypedLiteral, TypedValue, Value, ValueFormat,
};

pub type LRef = Ref<LayoutType, Term>;

/// Resource of a dehydrated dataset.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Res {
    In(usize),
    T(Term),
    An(usize),
}
impl From<Term> for Res {
    fn from(t: Term) -> Self {
        Res::T(t)
    }
}

pub fn iri(s: &str) -> Term {
    Term::iri(IriBuf::new(s.to_string()).unwrap())
}
pub fn lit(v: &str, ty: &str) -> Term {
    Term::Literal(RdfLiteral::new(v.to_string(), LiteralType::Any(IriBuf::new(ty.to_string()).unwrap())))
}
pub fn xs(n: &str) -> Term {
    iri(&format!("{}{n}", xsd::NS))
}

/// Interpretation of [`Res`] recording the assigned terms.
#[derive(Default, Debug)]
pub struct DeInterp {
    pub assigned: BTreeMap<Res, BTreeSet<Term>>,
    pub fresh: usize,
}
impl Interpretation for DeInterp {
    type Resource = Res;
}
impl InterpretationMut<()> for DeInterp {
    fn new_resource(&mut self, _: &mut ()) -> Res {
        self.fresh += 1;
        Res::An(self.fresh - 1)
    }
}
impl DeInterp {
    fn terms<'a>(&'a self, r: &'a Res) -> impl 'a + Iterator<Item = &'a Term> {
        match r {
            Res::T(t) => Some(t),
            _ => None,
        }
        .into_iter()
        .chain(self.assigned.get(r).into_iter().flatten())
    }
}
impl ReverseIriInterpretation for DeInterp {
    type Iri = IriBuf;
    type Iris<'a> = std::vec::IntoIter<&'a IriBuf>;
    fn iris_of<'a>(&'a self, id: &'a Res) -> Self::Iris<'a> {
        self.terms(id)
            .filter_map(|t| match t {
                Term::Id(Id::Iri(i)) => Some(i),
                _ => None,
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}
impl ReverseIriInterpretationMut for DeInterp {
    fn assign_iri(&mut self, id: &Res, iri: IriBuf) -> bool {
        self.assigned.entry(id.clone()).or_default().insert(Term::iri(iri))
    }
}
impl ReverseLiteralInterpretation for DeInterp {
    type Literal = RdfLiteral<IriBuf>;
    type Literals<'a> = std::vec::IntoIter<&'a RdfLiteral<IriBuf>>;
    fn literals_of<'a>(&'a self, id: &'a Res) -> Self::Literals<'a> {
        self.terms(id)
            .filter_map(|t| match t {
                Term::Literal(i) => Some(i),
                _ => None,
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}
impl ReverseLiteralInterpretationMut for DeInterp {
    fn assign_literal(&mut self, id: &Res, l: RdfLiteral<IriBuf>) -> bool {
        self.assigned.entry(id.clone()).or_default().insert(Term::Literal(l))
    }
}

/// Interpretation where each term denotes itself and some other terms.
#[derive(Default, Debug, Clone)]
pub struct HyInterp {
    pub extra: BTreeMap<Term, Vec<Term>>,
}
impl HyInterp {
    pub fn terms<'a>(&'a self, t: &'a Term) -> impl 'a + Iterator<Item = &'a Term> {
        std::iter::once(t).chain(self.extra.get(t).into_iter().flatten())
    }
}
impl Interpretation for HyInterp {
    type Resource = Term;
}
impl ReverseIriInterpretation for HyInterp {
    type Iri = IriBuf;
    type Iris<'a> = std::vec::IntoIter<&'a IriBuf>;
    fn iris_of<'a>(&'a self, id: &'a Term) -> Self::Iris<'a> {
        self.terms(id)
            .filter_map(|t| match t {
                Term::Id(Id::Iri(i)) => Some(i),
                _ => None,
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}
impl ReverseLiteralInterpretation for HyInterp {
    type Literal = RdfLiteral<IriBuf>;
    type Literals<'a> = std::vec::IntoIter<&'a RdfLiteral<IriBuf>>;
    fn literals_of<'a>(&'a self, id: &'a Term) -> Self::Literals<'a> {
        self.terms(id)
            .filter_map(|t| match t {
                Term::Literal(i) => Some(i),
                _ => None,
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}


// each term denotes the resource of that term
impl IriInterpretation<IriBuf> for DeInterp {
    fn iri_interpretation(&self, i: &IriBuf) -> Option<Res> {
        Some(Term::iri(i.clone()).into())
    }
}
impl IriInterpretationMut<IriBuf> for DeInterp {
    fn interpret_iri(&mut self, i: IriBuf) -> Res {
        Term::iri(i).into()
    }
}
impl BlankIdInterpretation<BlankIdBuf> for DeInterp {
    fn blank_id_interpretation(&self, i: &BlankIdBuf) -> Option<Res> {
        Some(Term::blank(i.clone()).into())
    }
}
impl BlankIdInterpretationMut<BlankIdBuf> for DeInterp {
    fn interpret_blank_id(&mut self, i: BlankIdBuf) -> Res {
        Term::blank(i).into()
    }
}
impl LiteralInterpretation<RdfLiteral<IriBuf>> for DeInterp {
    fn literal_interpretation(&self, l: &RdfLiteral<IriBuf>) -> Option<Res> {
        Some(Term::Literal(l.clone()).into())
    }
}
impl LiteralInterpretationMut<RdfLiteral<IriBuf>> for DeInterp {
    fn interpret_literal(&mut self, l: RdfLiteral<IriBuf>) -> Res {
        Term::Literal(l).into()
    }
}
impl ReverseBlankIdInterpretation for DeInterp {
    type BlankId = BlankIdBuf;
    type BlankIds<'a> = std::vec::IntoIter<&'a BlankIdBuf>;
    fn blank_ids_of<'a>(&'a self, id: &'a Res) -> Self::BlankIds<'a> {
        self.terms(id)
            .filter_map(|t| match t {
                Term::Id(Id::Blank(i)) => Some(i),
                _ => None,
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}
impl ReverseBlankIdInterpretationMut for DeInterp {
    fn assign_blank_id(&mut self, id: &Res, i: BlankIdBuf) -> bool {
        self.assigned.entry(id.clone()).or_default().insert(Term::blank(i))
    }
}

// each term denotes the resource of that term
impl IriInterpretation<IriBuf> for HyInterp {
    fn iri_interpretation(&self, i: &IriBuf) -> Option<Term> {
        Some(Term::iri(i.clone()).into())
    }
}
impl IriInterpretationMut<IriBuf> for HyInterp {
    fn interpret_iri(&mut self, i: IriBuf) -> Term {
        Term::iri(i).into()
    }
}
impl BlankIdInterpretation<BlankIdBuf> for HyInterp {
    fn blank_id_interpretation(&self, i: &BlankIdBuf) -> Option<Term> {
        Some(Term::blank(i.clone()).into())
    }
}
impl BlankIdInterpretationMut<BlankIdBuf> for HyInterp {
    fn interpret_blank_id(&mut self, i: BlankIdBuf) -> Term {
        Term::blank(i).into()
    }
}
impl LiteralInterpretation<RdfLiteral<IriBuf>> for HyInterp {
    fn literal_interpretation(&self, l: &RdfLiteral<IriBuf>) -> Option<Term> {
        Some(Term::Literal(l.clone()).into())
    }
}
impl LiteralInterpretationMut<RdfLiteral<IriBuf>> for HyInterp {
    fn interpret_literal(&mut self, l: RdfLiteral<IriBuf>) -> Term {
        Term::Literal(l).into()
    }
}
impl ReverseBlankIdInterpretation for HyInterp {
    type BlankId = BlankIdBuf;
    type BlankIds<'a> = std::vec::IntoIter<&'a BlankIdBuf>;
    fn blank_ids_of<'a>(&'a self, id: &'a Term) -> Self::BlankIds<'a> {
        self.terms(id)
            .filter_map(|t| match t {
                Term::Id(Id::Blank(i)) => Some(i),
                _ => None,
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

// ---------------------------------------------------------------- dehydration

/// What dehydration must produce.
#[derive(Default, Clone, Debug)]
pub struct Out {
    pub quads: BTreeSet<Quad<Res>>,
    pub terms: Vec<(Res, Term)>,
    pub fresh: usize,
    /// empty ordered lists whose tail has no name and is not their head
    pub open_lists: usize,
}

impl Out {
    fn new(&mut self) -> Res {
        self.fresh += 1;
        Res::An(self.fresh - 1)
    }
    fn intro(&mut self, env: &[Res], n: u32) -> Vec<Res> {
        let mut e = env.to_vec();
        for _ in 0..n {
            e.push(self.new());
        }
        e
    }
    fn add(&mut self, ds: &Dataset<Term>, g: &Option<Res>, env: &[Res]) -> Result<(), String> {
        for q in ds.quads() {
            let gr = match q.3 {
                Some(p) => Some(inst(p, env)?),
                None => g.clone(),
            };
            self.quads.insert(Quad(inst(q.0, env)?, inst(q.1, env)?, inst(q.2, env)?, gr));
        }
        Ok(())
    }
}

fn inst(p: &Pattern<Term>, env: &[Res]) -> Result<Res, String> {
    match p {
        Pattern::Resource(t) => Ok(Res::T(t.clone())),
        Pattern::Var(x) => env.get(*x as usize).cloned().ok_or_else(|| "undeclared".to_string()),
    }
}

fn sub(ls: &Layouts<Term>, v: &Value, g: &Option<Res>, f: &ValueFormat<Term>, env: &[Res], o: &mut Out) -> Result<(), String> {
    let inputs = f.input.iter().map(|p| inst(p, env)).collect::<Result<Vec<_>, _>>()?;
    let graph = match &f.graph {
        None => g.clone(),
        Some(None) => None,
        Some(Some(p)) => Some(inst(p, env)?),
    };
    dehydrate(ls, v, &graph, &f.layout, &inputs, o)
}

pub fn inputs_of(l: &Layout<Term>) -> Option<u32> {
    match l {
        Layout::Never | Layout::Always => None,
        Layout::Literal(LiteralLayout::Id(l)) => Some(l.input),
        Layout::Literal(LiteralLayout::Data(d)) => Some(match d {
            DataLayout::Unit(l) => l.input,
            DataLayout::Boolean(l) => l.input,
            DataLayout::Number(l) => l.input,
            DataLayout::ByteString(l) => l.input,
            DataLayout::TextString(l) => l.input,
        }),
        Layout::Product(l) => Some(l.input),
        Layout::Sum(l) => Some(l.input),
        Layout::List(ListLayout::Ordered(l)) => Some(l.input),
        Layout::List(ListLayout::Unordered(l)) => Some(l.input),
        Layout::List(ListLayout::Sized(l)) => Some(l.input),
    }
}

fn datatype(t: &Term) -> Option<&str> {
    match t {
        Term::Id(Id::Iri(i)) => Some(i.as_str()),
        _ => None,
    }
}

pub fn dehydrate(ls: &Layouts<Term>, v: &Value, g: &Option<Res>, lr: &LRef, inputs: &[Res], o: &mut Out) -> Result<(), String> {
    let bad = |s: &str| Err(s.to_string());
    let l = ls.layout(lr.id()).ok_or("no layout")?;
    if let Some(n) = inputs_of(l) {
        if n as usize != inputs.len() {
            return bad("input count");
        }
    }
    match l {
        Layout::Never => bad("never"),
        Layout::Always => Ok(()),
        Layout::Literal(LiteralLayout::Id(l)) => {
            let Value::Literal(Literal::TextString(s)) = v else { return bad("not a string") };
            let Ok(i) = IriBuf::new(s.clone()) else { return bad("not an IRI") };
            let env = o.intro(inputs, l.intro);
            o.add(&l.dataset, g, &env)?;
            let r = inst(&l.resource, &env)?;
            o.terms.push((r, Term::iri(i)));
            Ok(())
        }
        Layout::Literal(LiteralLayout::Data(DataLayout::Unit(l))) => {
            if *v != l.const_ {
                return bad("not the constant");
            }
            let env = o.intro(inputs, l.intro);
            o.add(&l.dataset, g, &env)
        }
        Layout::Literal(LiteralLayout::Data(d)) => {
            let (intro, ds, res, dt) = match d {
                DataLayout::Unit(_) => unreachable!(),
                DataLayout::Boolean(l) => (l.intro, &l.dataset, &l.resource, &l.datatype),
                DataLayout::Number(l) => (l.intro, &l.dataset, &l.resource, &l.datatype),
                DataLayout::ByteString(l) => (l.intro, &l.dataset, &l.resource, &l.datatype),
                DataLayout::TextString(l) => (l.intro, &l.dataset, &l.resource, &l.datatype),
            };
            let dt = datatype(dt).ok_or("datatype")?;
            let lex = match (d, v) {
                (DataLayout::Boolean(_), Value::Literal(Literal::Boolean(b))) if dt == format!("{}boolean", xsd::NS) => b.to_string(),
                (DataLayout::Number(_), Value::Literal(Literal::Number(n))) if xsd::has_number(n.as_big_rational(), dt) => {
                    gen::decimal(n.as_big_rational()).unwrap()
                }
                (DataLayout::TextString(_), Value::Literal(Literal::TextString(s))) => s.clone(),
                _ => return bad("literal"),
            };
            let env = o.intro(inputs, intro);
            o.add(ds, g, &env)?;
            let r = inst(res, &env)?;
            o.terms.push((r, lit(&lex, dt)));
            Ok(())
        }
        Layout::Product(l) => {
            let Value::Map(m) = v else { return bad("not a map") };
            let env = o.intro(inputs, l.intro);
            o.add(&l.dataset, g, &env)?;
            for k in m.keys() {
                if !l.fields.contains_key(k) {
                    return bad("unknown key");
                }
            }
            for (k, f) in &l.fields {
                match m.get(k) {
                    None if f.required => return bad("missing key"),
                    None => (),
                    Some(v) => {
                        let env = o.intro(&env, f.intro);
                        o.add(&f.dataset, g, &env)?;
                        sub(ls, v, g, &f.value, &env, o)?;
                    }
                }
            }
            Ok(())
        }
        Layout::Sum(l) => {
            let env = o.intro(inputs, l.intro);
            o.add(&l.dataset, g, &env)?;
            let mut sel = None;
            for f in &l.variants {
                let mut o2 = Out { fresh: o.fresh, ..Default::default() };
                let env = o2.intro(&env, f.intro);
                o2.add(&f.dataset, g, &env)?;
                let ok = sub(ls, v, g, &f.value, &env, &mut o2).is_ok();
                o.fresh = o2.fresh;
                if ok {
                    if sel.is_some() {
                        return bad("two variants");
                    }
                    sel = Some(o2);
                }
            }
            let Some(s) = sel else { return bad("no variant") };
            o.quads.extend(s.quads);
            o.terms.extend(s.terms);
            o.open_lists += s.open_lists;
            Ok(())
        }
        Layout::List(l) => {
            let Value::List(items) = v else { return bad("not a list") };
            match l {
                ListLayout::Unordered(l) => {
                    let env = o.intro(inputs, l.intro);
                    o.add(&l.dataset, g, &env)?;
                    for v in items {
                        let env = o.intro(&env, l.item.intro);
                        o.add(&l.item.dataset, g, &env)?;
                        sub(ls, v, g, &l.item.value, &env, o)?;
                    }
                }
                ListLayout::Sized(l) => {
                    if l.items.len() != items.len() {
                        return bad("length");
                    }
                    let env = o.intro(inputs, l.intro);
                    o.add(&l.dataset, g, &env)?;
                    for (v, f) in items.iter().zip(&l.items) {
                        let env = o.intro(&env, f.intro);
                        o.add(&f.dataset, g, &env)?;
                        sub(ls, v, g, &f.value, &env, o)?;
                    }
                }
                ListLayout::Ordered(l) => {
                    let env = o.intro(inputs, l.intro);
                    o.add(&l.dataset, g, &env)?;
                    let head = inst(&l.head, &env)?;
                    let tail = inst(&l.tail, &env)?;
                    if items.is_empty() && head != tail {
                        // without node the head is the tail
                        match &tail {
                            Res::T(t) if datatype(t).is_some() => o.terms.push((head.clone(), t.clone())),
                            _ => o.open_lists += 1,
                        }
                    }
                    // the chain: head, one fresh node per following item, tail
                    let mut nodes = vec![head];
                    for _ in 1..items.len() {
                        nodes.push(o.new());
                    }
                    nodes.push(tail);
                    for (i, v) in items.iter().enumerate() {
                        let mut env = env.clone();
                        env.push(nodes[i].clone());
                        env.push(nodes[i + 1].clone());
                        let env = o.intro(&env, l.node.intro);
                        o.add(&l.node.dataset, g, &env)?;
                        sub(ls, v, g, &l.node.value, &env, o)?;
                    }
                }
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- hydration

pub struct Hy<'a> {
    pub ls: &'a Layouts<Term>,
    pub data: &'a BTreeSet<Quad<Term>>,
    pub interp: &'a HyInterp,
}

type S = Vec<Option<Term>>;

fn unify(p: &Pattern<Term>, t: &Term, s: &mut S) -> bool {
    match p {
        Pattern::Resource(r) => r == t,
        Pattern::Var(x) => match &s[*x as usize] {
            Some(r) => r == t,
            None => {
                s[*x as usize] = Some(t.clone());
                true
            }
        },
    }
}

fn get(p: &Pattern<Term>, s: &S) -> Result<Term, String> {
    match p {
        Pattern::Resource(r) => Ok(r.clone()),
        Pattern::Var(x) => s[*x as usize].clone().ok_or_else(|| "unbound".to_string()),
    }
}

impl Hy<'_> {
    /// All the substitutions.
    fn matches(&self, ds: &Dataset<Term>, g: Option<&Term>, s: &S) -> BTreeSet<S> {
        let mut all: BTreeSet<S> = [s.clone()].into();
        for q in ds.quads() {
            let mut next = BTreeSet::new();
            for s in &all {
                for d in self.data {
                    let mut s2 = s.clone();
                    let graph = match (q.3, g) {
                        (Some(p), _) => match &d.3 {
                            Some(t) => unify(p, t, &mut s2),
                            None => false,
                        },
                        (None, g) => g == d.3.as_ref(),
                    };
                    if graph && unify(q.0, &d.0, &mut s2) && unify(q.1, &d.1, &mut s2) && unify(q.2, &d.2, &mut s2) {
                        next.insert(s2);
                    }
                }
            }
            all = next;
        }
        all
    }
    fn one(&self, ds: &Dataset<Term>, g: Option<&Term>, s: S, n: u32) -> Result<Option<S>, String> {
        let mut s = s;
        s.extend((0..n).map(|_| None));
        let mut m = self.matches(ds, g, &s);
        match m.len() {
            0 => Ok(None),
            1 => Ok(m.pop_first()),
            _ => Err("ambiguous".into()),
        }
    }
    fn need(&self, ds: &Dataset<Term>, g: Option<&Term>, s: S, n: u32) -> Result<S, String> {
        self.one(ds, g, s, n)?.ok_or_else(|| "missing".to_string())
    }
    fn sub(&self, f: &ValueFormat<Term>, g: Option<&Term>, s: &S, st: &mut Vec<(Option<Term>, Term, Vec<Term>)>) -> Result<TypedValue<Term>, String> {
        let inputs = f.input.iter().map(|p| get(p, s)).collect::<Result<Vec<_>, _>>()?;
        let graph = match &f.graph {
            None => g.cloned(),
            Some(None) => None,
            Some(Some(p)) => Some(get(p, s)?),
        };
        self.run(graph.as_ref(), &f.layout, &inputs, st)
    }

    pub fn run(&self, g: Option<&Term>, lr: &LRef, inputs: &[Term], st: &mut Vec<(Option<Term>, Term, Vec<Term>)>) -> Result<TypedValue<Term>, String> {
        let key = (g.cloned(), lr.id().clone(), inputs.to_vec());
        let l = self.ls.layout(lr.id()).ok_or("no layout")?;
        if let Some(n) = inputs_of(l) {
            if n as usize != inputs.len() {
                return Err("input count".into());
            }
        }
        if st.contains(&key) {
            return Err("cyclic".into());
        }
        st.push(key);
        let r = self.layout(g, l, lr, inputs, st);
        st.pop();
        r
    }

    fn layout(&self, g: Option<&Term>, l: &Layout<Term>, lr: &LRef, inputs: &[Term], st: &mut Vec<(Option<Term>, Term, Vec<Term>)>) -> Result<TypedValue<Term>, String> {
        let bad = |s: &str| Err(s.to_string());
        let s: S = inputs.iter().cloned().map(Some).collect();
        match l {
            Layout::Never => bad("never"),
            Layout::Always => Ok(TypedValue::Always(Value::unit())),
            Layout::Literal(LiteralLayout::Id(l)) => {
                let s = self.need(&l.dataset, g, s, l.intro)?;
                let t = get(&l.resource, &s)?;
                let iris: Vec<&str> = self.interp.terms(&t).filter_map(datatype).collect();
                match iris.as_slice() {
                    [i] => Ok(TypedValue::Literal(TypedLiteral::Id(i.to_string(), lr.casted()))),
                    _ => bad("not exactly one IRI"),
                }
            }
            Layout::Literal(LiteralLayout::Data(DataLayout::Unit(l))) => {
                self.need(&l.dataset, g, s, l.intro)?;
                Ok(TypedValue::Literal(TypedLiteral::Unit(l.const_.clone(), lr.casted())))
            }
            Layout::Literal(LiteralLayout::Data(d)) => {
                let (intro, ds, res, dt) = match d {
                    DataLayout::Unit(_) => unreachable!(),
                    DataLayout::Boolean(l) => (l.intro, &l.dataset, &l.resource, &l.datatype),
                    DataLayout::Number(l) => (l.intro, &l.dataset, &l.resource, &l.datatype),
                    DataLayout::ByteString(l) => (l.intro, &l.dataset, &l.resource, &l.datatype),
                    DataLayout::TextString(l) => (l.intro, &l.dataset, &l.resource, &l.datatype),
                };
                let s = self.need(ds, g, s, intro)?;
                let t = get(res, &s)?;
                let mut found = Vec::new();
                for t in self.interp.terms(&t) {
                    if let Term::Literal(RdfLiteral { value, type_: LiteralType::Any(i) }) = t {
                        if self.interp.terms(dt).filter_map(datatype).any(|d| d == i.as_str()) {
                            found.push((value.clone(), i.as_str().to_string()));
                        }
                    }
                }
                let [(lex, dt)] = found.as_slice() else { return bad("not exactly one literal") };
                Ok(TypedValue::Literal(match d {
                    DataLayout::Unit(_) => unreachable!(),
                    DataLayout::Boolean(_) => TypedLiteral::Boolean(xsd::read_boolean(lex, dt).ok_or("boolean")?, lr.casted()),
                    DataLayout::Number(_) => TypedLiteral::Number(Number::new(xsd::read_number(lex, dt).ok_or("number")?), lr.casted()),
                    DataLayout::ByteString(_) => return bad("bytes"),
                    DataLayout::TextString(_) => TypedLiteral::TextString(lex.clone(), lr.casted()),
                }))
            }
            Layout::Product(l) => {
                let s = self.need(&l.dataset, g, s, l.intro)?;
                let mut m = BTreeMap::new();
                for (k, f) in &l.fields {
                    match self.one(&f.dataset, g, s.clone(), f.intro)? {
                        Some(s) => {
                            m.insert(k.clone(), self.sub(&f.value, g, &s, st)?);
                        }
                        None if f.required => return bad("missing field"),
                        None => (),
                    }
                }
                Ok(TypedValue::Map(m, lr.casted()))
            }
            Layout::Sum(l) => {
                let s = self.need(&l.dataset, g, s, l.intro)?;
                let mut sel = None;
                for (i, f) in l.variants.iter().enumerate() {
                    if let Some(s) = self.one(&f.dataset, g, s.clone(), f.intro)? {
                        // inputs and graph of a matching variant must be determined
                        for p in f.value.input.iter().chain(f.value.graph.iter().flatten()) {
                            get(p, &s)?;
                        }
                        if let Ok(v) = self.sub(&f.value, g, &s, st) {
                            if sel.is_some() {
                                return bad("two variants");
                            }
                            sel = Some((i, v));
                        }
                    }
                }
                match sel {
                    Some((i, v)) => Ok(TypedValue::Variant(Box::new(v), lr.casted(), i as u32)),
                    None => bad("no variant"),
                }
            }
            Layout::List(ListLayout::Unordered(l)) => {
                let mut s = self.need(&l.dataset, g, s, l.intro)?;
                s.extend((0..l.item.intro).map(|_| None));
                let mut items = Vec::new();
                for s in self.matches(&l.item.dataset, g, &s) {
                    items.push(self.sub(&l.item.value, g, &s, st)?);
                }
                items.sort();
                Ok(TypedValue::List(items, lr.casted()))
            }
            Layout::List(ListLayout::Sized(l)) => {
                let s = self.need(&l.dataset, g, s, l.intro)?;
                let mut items = Vec::new();
                for f in &l.items {
                    let s = self.need(&f.dataset, g, s.clone(), f.intro)?;
                    items.push(self.sub(&f.value, g, &s, st)?);
                }
                Ok(TypedValue::List(items, lr.casted()))
            }
            Layout::List(ListLayout::Ordered(l)) => {
                let s = self.need(&l.dataset, g, s, l.intro)?;
                let mut node = get(&l.head, &s)?;
                let tail = get(&l.tail, &s)?;
                let mut items = Vec::new();
                let mut seen = BTreeSet::new();
                while node != tail {
                    if !seen.insert(node.clone()) {
                        return bad("cyclic list");
                    }
                    let mut s = s.clone();
                    s.push(Some(node));
                    let rest = s.len();
                    s.push(None);
                    let s = self.need(&l.node.dataset, g, s, l.node.intro)?;
                    items.push(self.sub(&l.node.value, g, &s, st)?);
                    node = s[rest].clone().ok_or("no rest")?;
                }
                Ok(TypedValue::List(items, lr.casted()))
            }
        }
    }
}

// ---------------------------------------------------------------- isomorphism

/// Are the two sets of quads equal up to a bijection between the fresh resources?
pub fn isomorphic<A: Clone + Ord, B: Clone + Ord>(a: &BTreeSet<Quad<A>>, b: &BTreeSet<Quad<B>>, fa: &dyn Fn(&A) -> Option<String>, fb: &dyn Fn(&B) -> Option<String>) -> bool {
    // fixed resources have a name; fresh ones None
    if a.len() != b.len() {
        return false;
    }
    type G = Vec<[i64; 4]>;
    fn index<A: Clone + Ord>(a: &BTreeSet<Quad<A>>, f: &dyn Fn(&A) -> Option<String>, names: &mut BTreeMap<String, i64>) -> (G, usize) {
        let mut fresh: BTreeMap<A, i64> = BTreeMap::new();
        let mut id = |x: &A| -> i64 {
            match f(x) {
                Some(n) => {
                    let k = names.len() as i64 + 1;
                    -*names.entry(n).or_insert(k)
                }
                None => {
                    let k = fresh.len() as i64 + 1;
                    *fresh.entry(x.clone()).or_insert(k)
                }
            }
        };
        let g = a.iter().map(|q| [id(&q.0), id(&q.1), id(&q.2), q.3.as_ref().map(|g| id(g)).unwrap_or(0)]).collect();
        (g, fresh.len())
    }
    let mut names = BTreeMap::new();
    let (ga, na) = index(a, fa, &mut names);
    let (gb, nb) = index(b, fb, &mut names);
    if na != nb {
        return false;
    }
    fn colours(g: &G, n: usize) -> Vec<u64> {
        use std::hash::{Hash, Hasher};
        let mut c = vec![1u64; n];
        for _ in 0..n.min(12) + 1 {
            let col = |x: i64, me: i64, c: &Vec<u64>| -> (i64, u64) {
                if x == me {
                    (i64::MAX, 0)
                } else if x > 0 {
                    (1, c[x as usize - 1])
                } else {
                    (x, 0)
                }
            };
            let mut next = Vec::with_capacity(n);
            for me in 1..=n as i64 {
                let mut sig: Vec<_> = g.iter().filter(|q| q.contains(&me)).map(|q| [0, 1, 2, 3].map(|i| col(q[i], me, &c))).collect();
                sig.sort();
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (c[me as usize - 1], sig).hash(&mut h);
                next.push(h.finish());
            }
            c = next;
        }
        c
    }
    let (ca, cb) = (colours(&ga, na), colours(&gb, nb));
    let mut sa = ca.clone();
    let mut sb = cb.clone();
    sa.sort();
    sb.sort();
    if sa != sb {
        return false;
    }
    let target: BTreeSet<[i64; 4]> = gb.into_iter().collect();
    let mut steps = 0u64;
    fn go(i: usize, map: &mut Vec<i64>, used: &mut Vec<bool>, ga: &G, ca: &[u64], cb: &[u64], t: &BTreeSet<[i64; 4]>, steps: &mut u64) -> bool {
        *steps += 1;
        if *steps > 200_000 {
            return true; // undecided: never an alarm
        }
        if i == ca.len() {
            return true;
        }
        for j in 0..cb.len() {
            if !used[j] && ca[i] == cb[j] {
                map[i] = j as i64 + 1;
                let ok = ga.iter().filter(|q| q.contains(&(i as i64 + 1))).all(|q| {
                    let m = q.map(|x| if x > 0 { map[x as usize - 1] } else { x });
                    m.iter().zip(q.iter()).any(|(m, q)| *q > 0 && *m == 0) || t.contains(&m)
                });
                if ok {
                    used[j] = true;
                    if go(i + 1, map, used, ga, ca, cb, t, steps) {
                        return true;
                    }
                    used[j] = false;
                }
                map[i] = 0;
            }
        }
        false
    }
    // quads without fresh resources
    if !ga.iter().filter(|q| q.iter().all(|x| *x <= 0)).all(|q| target.contains(q)) {
        return false;
    }
    go(0, &mut vec![0; na], &mut vec![false; nb], &ga, &ca, &cb, &target, &mut steps)
}

// ---------------------------------------------------------------- generation

pub struct Cfg {
    /// one value format / quad in this many names a graph (0: never)
    pub graphs: usize,
    /// one part in this many is unusual: wrong input count, unrelated pattern
    pub odd: usize,
}

pub const POOL: &[&str] = &["http://e/a", "http://e/b", "http://e/c", "http://e/d"];

pub fn pool(r: &mut Rng) -> Term {
    match r.below(12) {
        0 => Term::blank(rdf_types::BlankIdBuf::new("_:bn".into()).unwrap()),
        1 => lit("x", &format!("{}string", xsd::NS)),
        _ => iri(r.pick(POOL)),
    }
}

pub struct LayoutGen<'c> {
    pub ls: Layouts<Term>,
    pub text: Vec<String>,
    n: usize,
    props: usize,
    cfg: &'c Cfg,
}

const TYPES: &[&str] = &["integer", "decimal", "byte", "unsignedLong", "nonPositiveInteger", "boolean", "string", "anyURI"];

impl<'c> LayoutGen<'c> {
    pub fn new(cfg: &'c Cfg) -> Self {
        LayoutGen { ls: Layouts::new(), text: Vec::new(), n: 0, props: 0, cfg }
    }
    fn odd(&self, r: &mut Rng) -> bool {
        self.cfg.odd > 0 && r.one_in(self.cfg.odd)
    }
    fn pat(&self, r: &mut Rng, n: u32) -> Pattern<Term> {
        if n > 0 && !r.one_in(5) {
            Pattern::Var(r.below(n as usize) as u32)
        } else {
            Pattern::Resource(pool(r))
        }
    }
    fn prop(&mut self, r: &mut Rng) -> Pattern<Term> {
        if r.one_in(6) {
            Pattern::Resource(iri(r.pick(POOL)))
        } else {
            self.props += 1;
            Pattern::Resource(iri(&format!("http://p/{}", self.props)))
        }
    }
    fn graph_of_quad(&self, r: &mut Rng, n: u32) -> Option<Pattern<Term>> {
        if self.cfg.graphs > 0 && r.one_in(self.cfg.graphs) {
            Some(if r.one_in(2) { Pattern::Resource(iri(r.pick(POOL))) } else { self.pat(r, n) })
        } else {
            None
        }
    }
    /// Dataset linking the variables from..n to the previous ones.
    fn dataset(&mut self, r: &mut Rng, from: u32, n: u32) -> Dataset<Term> {
        let mut d = Dataset::new();
        for x in from..n {
            if self.odd(r) {
                continue; // unbound
            }
            let s = if x == 0 || r.one_in(8) { Pattern::Resource(iri(r.pick(POOL))) } else { Pattern::Var(r.below(x as usize) as u32) };
            let p = self.prop(r);
            let g = self.graph_of_quad(r, n);
            let q = if r.one_in(6) { Quad(Pattern::Var(x), p, s, g) } else { Quad(s, p, Pattern::Var(x), g) };
            insert(&mut d, q);
        }
        while r.one_in(4) {
            let p = self.prop(r);
            let g = self.graph_of_quad(r, n);
            let q = Quad(self.pat(r, n), p, self.pat(r, n), g);
            insert(&mut d, q);
        }
        d
    }
    fn format(&mut self, r: &mut Rng, depth: usize, n: u32, fresh_from: u32, parent: &[(Term, u32)]) -> ValueFormat<Term> {
        let (layout, k) = if !parent.is_empty() && r.one_in(10) {
            parent[r.below(parent.len())].clone()
        } else if self.n > 0 && r.one_in(8) {
            let i = r.below(self.n);
            let id = iri(&format!("http://l/{i}"));
            match self.ls.layout(&id) {
                Some(l) => (id, inputs_of(l).unwrap_or(1)),
                None => self.layout(r, depth, parent),
            }
        } else {
            self.layout(r, depth, parent)
        };
        let mut k = k;
        if self.odd(r) && r.one_in(3) {
            k = r.below(4) as u32;
        }
        let mut input = Vec::new();
        for i in 0..k {
            input.push(if i == 0 && fresh_from < n && !r.one_in(6) {
                Pattern::Var(fresh_from)
            } else {
                self.pat(r, n)
            });
        }
        let graph = if self.cfg.graphs > 0 && r.one_in(self.cfg.graphs) {
            match r.below(3) {
                0 => Some(None),
                1 => Some(Some(Pattern::Resource(iri(r.pick(POOL))))),
                _ => Some(Some(self.pat(r, n))),
            }
        } else {
            None
        };
        ValueFormat { layout: Ref::new(layout), input, graph }
    }
    /// Number of fields, variants, items.
    fn parts(&self, r: &mut Rng, depth: usize) -> usize {
        if depth == 1 && r.one_in(40) {
            r.below(20)
        } else {
            r.below(4)
        }
    }
    /// A layout: identifier and number of inputs.
    pub fn layout(&mut self, r: &mut Rng, depth: usize, parents: &[(Term, u32)]) -> (Term, u32) {
        let id = iri(&format!("http://l/{}", self.n));
        self.n += 1;
        let input = if r.one_in(5) { r.below(4) as u32 } else { 1 };
        let intro = if r.one_in(3) { r.below(3) as u32 } else { 0 };
        let n = input + intro;
        let mut up = parents.to_vec();
        up.push((id.clone(), input));
        let kind = if depth == 0 {
            match r.below(14) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 | 4 => 3,
                5 | 6 => 4,
                7 => 5,
                8 | 9 | 10 => 6,
                _ => 7,
            }
        } else if r.one_in(5) {
            r.below(8)
        } else {
            8 + r.below(5)
        };
        let dataset = self.dataset(r, input, n);
        let extra_properties = BTreeMap::new();
        let resource = if input > 0 && !r.one_in(4) { Pattern::Var(0) } else { self.pat(r, n) };
        let dt = |r: &mut Rng, good: &[&str]| {
            if r.one_in(12) {
                match r.below(6) {
                    0 => Term::blank(rdf_types::BlankIdBuf::new("_:dt".into()).unwrap()),
                    1 => iri("http://e/a"),
                    _ => xs(r.pick(TYPES)),
                }
            } else {
                xs(r.pick(good))
            }
        };
        let l = match kind {
            0 => Layout::Never,
            1 => Layout::Always,
            2 => {
                let const_ = if r.one_in(2) { Value::unit() } else { gen::value(r, 1) };
                Layout::Literal(LiteralLayout::Data(DataLayout::Unit(UnitLayout { input, intro, dataset, const_, extra_properties })))
            }
            3 => {
                let datatype = dt(r, &["boolean"]);
                Layout::Literal(LiteralLayout::Data(DataLayout::Boolean(BooleanLayout { input, intro, dataset, resource, datatype, extra_properties })))
            }
            4 => {
                let datatype = dt(r, &["integer", "decimal", "byte", "unsignedLong", "nonPositiveInteger"]);
                Layout::Literal(LiteralLayout::Data(DataLayout::Number(NumberLayout { input, intro, dataset, resource, datatype, extra_properties })))
            }
            5 => {
                let datatype = dt(r, &["hexBinary", "base64Binary"]);
                Layout::Literal(LiteralLayout::Data(DataLayout::ByteString(ByteStringLayout { input, intro, dataset, resource, datatype, extra_properties })))
            }
            6 => {
                let datatype = dt(r, &["string", "string", "anyURI"]);
                Layout::Literal(LiteralLayout::Data(DataLayout::TextString(TextStringLayout { input, intro, pattern: None, dataset, resource, datatype, extra_properties })))
            }
            7 => Layout::Literal(LiteralLayout::Id(IdLayout { input, intro, dataset, pattern: None, resource, extra_properties })),
            8 => {
                let mut fields = BTreeMap::new();
                for i in 0..self.parts(r, depth) {
                    let fi = if r.one_in(6) { r.below(3) as u32 } else { 1 };
                    let m = n + fi;
                    let dataset = self.dataset(r, n, m);
                    let value = self.format(r, depth - 1, m, n, &up);
                    let key = if r.one_in(8) { gen::value(r, 1) } else { Value::string(format!("f{i}")) };
                    fields.insert(key, Field { intro: fi, value, dataset, required: r.one_in(2) });
                }
                Layout::Product(ProductLayout { input, intro, fields, dataset, extra_properties })
            }
            9 => {
                let fi = if r.one_in(6) { r.below(3) as u32 } else { 1 };
                let m = n + fi;
                let d = self.dataset(r, n, m);
                let value = self.format(r, depth - 1, m, n, &up);
                Layout::List(ListLayout::Unordered(UnorderedListLayout { input, intro, item: ItemLayout { intro: fi, value, dataset: d }, dataset, extra_properties }))
            }
            10 => {
                let fi = if r.one_in(6) { r.below(3) as u32 } else { 1 };
                let m = n + 2 + fi;
                let mut d = self.dataset(r, n + 2, m);
                if !self.odd(r) {
                    let p = self.prop(r);
                    let g = self.graph_of_quad(r, m);
                    insert(&mut d, Quad(Pattern::Var(n), p, Pattern::Var(n + 1), g));
                }
                if !r.one_in(3) && fi > 0 {
                    let p = self.prop(r);
                    insert(&mut d, Quad(Pattern::Var(n), p, Pattern::Var(n + 2), None));
                }
                let value = self.format(r, depth - 1, m, n + 2, &up);
                let head = if n > 0 && !r.one_in(6) { Pattern::Var(r.below(n as usize) as u32) } else { self.pat(r, n) };
                let tail = if r.one_in(4) { self.pat(r, n) } else { Pattern::Resource(iri("http://e/nil")) };
                Layout::List(ListLayout::Ordered(OrderedListLayout { input, intro, node: NodeLayout { intro: fi, value, dataset: d }, head, tail, dataset, extra_properties }))
            }
            11 => {
                let mut items = Vec::new();
                for _ in 0..self.parts(r, depth) {
                    let fi = if r.one_in(6) { r.below(3) as u32 } else { 1 };
                    let m = n + fi;
                    let dataset = self.dataset(r, n, m);
                    let value = self.format(r, depth - 1, m, n, &up);
                    items.push(ItemLayout { intro: fi, value, dataset });
                }
                Layout::List(ListLayout::Sized(SizedListLayout { input, intro, items, dataset, extra_properties }))
            }
            _ => {
                // a sum that reaches itself without consuming a part of the value is not well-founded
                let up = [];
                let mut variants = Vec::new();
                for i in 0..self.parts(r, depth) {
                    let fi = if r.one_in(6) { r.below(3) as u32 } else { 1 };
                    let m = n + fi;
                    let dataset = self.dataset(r, n, m);
                    let value = self.format(r, depth - 1, m, n, &up);
                    variants.push(Variant { name: format!("v{i}"), intro: fi, value, dataset });
                }
                Layout::Sum(SumLayout { input, intro, variants, dataset, extra_properties })
            }
        };
        self.text.push(format!("{id} = {}", show(&l)));
        let count = inputs_of(&l).unwrap_or(1);
        if !(self.cfg.odd > 0 && r.one_in(self.cfg.odd * 8)) {
            self.ls.insert(id.clone(), l);
        }
        (id, count)
    }
}

fn insert(d: &mut Dataset<Term>, q: Quad<Pattern<Term>>) {
    use rdf_types::dataset::DatasetMut;
    d.insert(q);
}

/// A value the layout is likely to match.
pub fn value_for(r: &mut Rng, ls: &Layouts<Term>, id: &Term, fuel: usize) -> Value {
    if fuel == 0 || r.one_in(60) {
        return gen::value(r, 1);
    }
    let v = |r: &mut Rng, f: &ValueFormat<Term>| value_for(r, ls, f.layout.id(), fuel - 1);
    match ls.layout(id) {
        None | Some(Layout::Never) | Some(Layout::Always) => gen::value(r, 2),
        Some(Layout::Literal(LiteralLayout::Id(_))) => {
            if r.one_in(8) {
                Value::string(r.pick(&["not an iri", "", "x", "a b:c"]).to_string())
            } else {
                Value::string(format!("http://i/{}", r.below(3)))
            }
        }
        Some(Layout::Literal(LiteralLayout::Data(d))) => match d {
            DataLayout::Unit(l) => l.const_.clone(),
            DataLayout::Boolean(_) => Value::Literal(Literal::Boolean(r.one_in(2))),
            DataLayout::Number(l) => {
                let ty = datatype(&l.datatype).unwrap_or("").to_string();
                for _ in 0..4 {
                    let q = if r.one_in(2) { num_rational::BigRational::from_integer(num_bigint::BigInt::from(r.range(-3, 3))) } else { gen::rational(r) };
                    if xsd::has_number(&q, &ty) || r.one_in(8) {
                        return Value::Literal(Literal::Number(Number::new(q)));
                    }
                }
                Value::Literal(Literal::Number(0.into()))
            }
            DataLayout::ByteString(_) => Value::Literal(Literal::ByteString(vec![1, 2])),
            DataLayout::TextString(_) => Value::string(gen::string(r)),
        },
        Some(Layout::Product(l)) => {
            let mut m = BTreeMap::new();
            for (k, f) in &l.fields {
                if if f.required { !r.one_in(12) } else { r.one_in(2) } {
                    m.insert(k.clone(), v(r, &f.value));
                }
            }
            if r.one_in(20) {
                m.insert(gen::value(r, 1), gen::value(r, 1));
            }
            Value::Map(m)
        }
        Some(Layout::Sum(l)) => match l.variants.len() {
            0 => gen::value(r, 1),
            k => {
                let i = r.below(k);
                v(r, &l.variants[i].value)
            }
        },
        Some(Layout::List(l)) => Value::List(match l {
            ListLayout::Unordered(l) => (0..gen::few(r, 4)).map(|_| v(r, &l.item.value)).collect(),
            ListLayout::Ordered(l) => (0..gen::few(r, 4)).map(|_| v(r, &l.node.value)).collect(),
            ListLayout::Sized(l) => {
                let mut x: Vec<Value> = l.items.iter().map(|f| v(r, &f.value)).collect();
                if r.one_in(12) {
                    if r.one_in(2) {
                        x.pop();
                    } else {
                        x.push(gen::value(r, 1));
                    }
                }
                x
            }
        }),
    }
}

// ---------------------------------------------------------------- printing

pub fn show_pat(p: &Pattern<Term>) -> String {
    match p {
        Pattern::Var(x) => format!("?{x}"),
        Pattern::Resource(t) => t.to_string(),
    }
}
pub fn show_dataset(d: &Dataset<Term>) -> String {
    let q: Vec<String> = d
        .quads()
        .map(|q| {
            format!(
                "{} {} {}{}",
                show_pat(q.0),
                show_pat(q.1),
                show_pat(q.2),
                q.3.map(|g| format!(" @{}", show_pat(g))).unwrap_or_default()
            )
        })
        .collect();
    format!("{{{}}}", q.join(". "))
}
fn show_format(f: &ValueFormat<Term>) -> String {
    let g = match &f.graph {
        None => String::new(),
        Some(None) => " in default graph".into(),
        Some(Some(p)) => format!(" in graph {}", show_pat(p)),
    };
    format!("{}({}){g}", f.layout.id(), f.input.iter().map(show_pat).collect::<Vec<_>>().join(","))
}
pub fn show(l: &Layout<Term>) -> String {
    fn part(intro: u32, f: &ValueFormat<Term>, d: &Dataset<Term>) -> String {
        format!("(intro {intro} {} {})", show_format(f), show_dataset(d))
    }
    match l {
        Layout::Never => "never".into(),
        Layout::Always => "always".into(),
        Layout::Literal(LiteralLayout::Id(l)) => format!("id({}+{}) {} {}", l.input, l.intro, show_pat(&l.resource), show_dataset(&l.dataset)),
        Layout::Literal(LiteralLayout::Data(d)) => match d {
            DataLayout::Unit(l) => format!("unit({}+{}) {} {}", l.input, l.intro, l.const_, show_dataset(&l.dataset)),
            DataLayout::Boolean(l) => format!("boolean({}+{}) {} ^^{} {}", l.input, l.intro, show_pat(&l.resource), l.datatype, show_dataset(&l.dataset)),
            DataLayout::Number(l) => format!("number({}+{}) {} ^^{} {}", l.input, l.intro, show_pat(&l.resource), l.datatype, show_dataset(&l.dataset)),
            DataLayout::ByteString(l) => format!("bytes({}+{}) {} ^^{} {}", l.input, l.intro, show_pat(&l.resource), l.datatype, show_dataset(&l.dataset)),
            DataLayout::TextString(l) => format!("string({}+{}) {} ^^{} {}", l.input, l.intro, show_pat(&l.resource), l.datatype, show_dataset(&l.dataset)),
        },
        Layout::Product(l) => format!(
            "record({}+{}) {} fields {}",
            l.input,
            l.intro,
            show_dataset(&l.dataset),
            l.fields.iter().map(|(k, f)| format!("{k}{} {}", if f.required { "!" } else { "" }, part(f.intro, &f.value, &f.dataset))).collect::<Vec<_>>().join(" ")
        ),
        Layout::Sum(l) => format!(
            "sum({}+{}) {} variants {}",
            l.input,
            l.intro,
            show_dataset(&l.dataset),
            l.variants.iter().map(|f| part(f.intro, &f.value, &f.dataset)).collect::<Vec<_>>().join(" ")
        ),
        Layout::List(ListLayout::Unordered(l)) => format!("set({}+{}) {} item {}", l.input, l.intro, show_dataset(&l.dataset), part(l.item.intro, &l.item.value, &l.item.dataset)),
        Layout::List(ListLayout::Ordered(l)) => format!(
            "list({}+{}) {} head {} tail {} node {}",
            l.input,
            l.intro,
            show_dataset(&l.dataset),
            show_pat(&l.head),
            show_pat(&l.tail),
            part(l.node.intro, &l.node.value, &l.node.dataset)
        ),
        Layout::List(ListLayout::Sized(l)) => format!(
            "sized({}+{}) {} items {}",
            l.input,
            l.intro,
            show_dataset(&l.dataset),
            l.items.iter().map(|f| part(f.intro, &f.value, &f.dataset)).collect::<Vec<_>>().join(" ")
        ),
    }
}

pub fn show_quads<T: std::fmt::Display>(q: &BTreeSet<Quad<T>>) -> String {
    let v: Vec<String> = q.iter().map(|q| format!("{} {} {}{}", q.0, q.1, q.2, q.3.as_ref().map(|g| format!(" @{g}")).unwrap_or_default())).collect();
    format!("{{{}}}", v.join(". "))
}
impl std::fmt::Display for Res {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Res::In(i) => write!(f, "in{i}"),
            Res::T(t) => write!(f, "{t}"),
            Res::An(i) => write!(f, "new{i}"),
        }
    }
}

pub fn to_set(d: BTreeDataset<Res>) -> BTreeSet<Quad<Res>> {
    d.into_iter().collect()
}

/// The term of each resource: `None` when ambiguous.
pub fn naming(terms: &[(Res, Term)]) -> Option<BTreeMap<Res, Term>> {
    let mut m: BTreeMap<Res, Term> = BTreeMap::new();
    for (r, t) in terms {
        if let Res::T(u) = r {
            if u != t {
                return None;
            }
        }
        if let Some(u) = m.insert(r.clone(), t.clone()) {
            if u != *t {
                return None;
            }
        }
    }
    Some(m)
}

/// A dataset to hydrate: what dehydrating `v` gives, if anything, then altered.
pub fn data_for(r: &mut Rng, ls: &Layouts<Term>, id: &Term, g: &Option<Term>, fuel: usize, alter: usize) -> (BTreeSet<Quad<Term>>, Vec<Term>) {
    let k = ls.layout(id).and_then(inputs_of).unwrap_or(1) as usize;
    let ins: Vec<Res> = (0..k).map(Res::In).collect();
    let mut best = Out::default();
    for _ in 0..6 {
        let v = value_for(r, ls, id, fuel);
        let mut o = Out::default();
        let ok = dehydrate(ls, &v, &g.clone().map(Res::T), &Ref::new(id.clone()), &ins, &mut o).is_ok();
        if ok || o.quads.len() > best.quads.len() {
            best = o;
        }
        if ok && r.one_in(3) || best.quads.len() > 12 {
            break;
        }
    }
    let mut names: BTreeMap<Res, Term> = BTreeMap::new();
    for (x, t) in &best.terms {
        names.insert(x.clone(), t.clone());
    }
    let bad_input = r.one_in(30);
    let name = |x: &Res| -> Term {
        match x {
            Res::T(t) => t.clone(),
            x => names.get(x).cloned().unwrap_or_else(|| match x {
                Res::In(i) => iri(&format!("http://in/{i}")),
                Res::An(i) => Term::blank(rdf_types::BlankIdBuf::new(format!("_:n{i}")).unwrap()),
                Res::T(_) => unreachable!(),
            }),
        }
    };
    let mut inputs: Vec<Term> = ins.iter().map(name).collect();
    if bad_input {
        if r.one_in(2) {
            inputs.pop();
        } else {
            inputs.push(pool(r));
        }
    }
    let mut q: Vec<Quad<Term>> = best.quads.iter().map(|q| Quad(name(&q.0), name(&q.1), name(&q.2), q.3.as_ref().map(name))).collect();
    let mut pick = |r: &mut Rng, q: &Vec<Quad<Term>>| -> Term {
        if q.is_empty() || r.one_in(3) {
            pool(r)
        } else {
            let x = &q[r.below(q.len())];
            if r.one_in(2) { x.0.clone() } else { x.2.clone() }
        }
    };
    if alter > 0 && r.one_in(alter) {
        for _ in 0..1 + r.below(2) {
            match r.below(5) {
                0 if !q.is_empty() => {
                    let i = r.below(q.len());
                    q.remove(i);
                }
                1 if !q.is_empty() => {
                    let mut x = q[r.below(q.len())].clone();
                    let t = pick(r, &q);
                    match r.below(2) {
                        0 => x.0 = t,
                        _ => x.2 = t,
                    }
                    q.push(x);
                }
                2 if !q.is_empty() => {
                    let i = r.below(q.len());
                    q[i].3 = match r.below(3) {
                        0 => None,
                        1 => Some(iri(r.pick(POOL))),
                        _ => Some(pick(r, &q)),
                    };
                }
                3 if !q.is_empty() => {
                    let mut x = q[r.below(q.len())].clone();
                    x.3 = if r.one_in(2) { None } else { Some(iri(r.pick(POOL))) };
                    q.push(x);
                }
                _ => {
                    let t = Quad(pick(r, &q), pool(r), pick(r, &q), None);
                    q.push(t);
                }
            }
        }
    }
    (q.into_iter().collect(), inputs)
}
