//! C13: layout collections, builder, unions of registries, dependencies.
use super::c03::layouts;
use rdf_types::Term;
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::{
    abs,
    layout::{ListLayout, LayoutType},
    Layout, LayoutRegistry, LayoutRegistryUnion, Layouts, Prelude, Ref,
};
use vharness::{gen, model::*, Rep, Rng};

type L = Layout<u32>;
type Model = BTreeMap<u32, L>;

/// A layout of any kind, recognizable by its number.
fn a_layout(r: &mut Rng) -> L {
    let deps: Vec<u32> = (0..gen::few(r, 4)).map(|_| r.below(8) as u32).collect();
    let k = r.below(gen::KINDS);
    gen::layout_of_kind(k, 100 + r.below(1000) as u32, &deps, BTreeMap::from([(7, r.below(1000) as u32)]))
}

fn deps_of<R: Clone + Ord>(l: &Layout<R>) -> BTreeSet<R> {
    match l {
        Layout::Never | Layout::Always | Layout::Literal(_) => BTreeSet::new(),
        Layout::Product(p) => p.fields.iter().map(|f| f.1.value.layout.id().clone()).collect(),
        Layout::Sum(s) => s.variants.iter().map(|f| f.value.layout.id().clone()).collect(),
        Layout::List(ListLayout::Ordered(l)) => BTreeSet::from([l.node.value.layout.id().clone()]),
        Layout::List(ListLayout::Unordered(l)) => BTreeSet::from([l.item.value.layout.id().clone()]),
        Layout::List(ListLayout::Sized(l)) => l.items.iter().map(|f| f.value.layout.id().clone()).collect(),
    }
}

fn check_deps<R: Clone + Ord + std::fmt::Debug>(l: &Layout<R>) -> Result<(), String> {
    let got: Vec<R> = l.dependencies().into_iter().map(|r| r.id().clone()).collect();
    let want: Vec<R> = deps_of(l).into_iter().collect();
    if got != want {
        return Err(format!("dependencies {got:?}, expected {want:?}"));
    }
    let mut visited = BTreeSet::new();
    l.visit_dependencies(|r| {
        visited.insert(r.id().clone());
    });
    if visited != want.iter().cloned().collect() {
        return Err(format!("visited dependencies {visited:?}, expected {want:?}"));
    }
    Ok(())
}

fn same(what: &str, got: Option<&L>, want: Option<&L>) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: {got:?}, expected {want:?}"))
    }
}
fn same_all(what: &str, reg: &impl LayoutRegistry<u32>, want: &Model) -> Result<(), String> {
    for id in 0..9 {
        let r: Ref<LayoutType, u32> = Ref::new(id);
        same(&format!("{what}, layout {id}"), reg.get(&r), want.get(&id))?;
        if reg.contains(&r) != want.contains_key(&id) {
            return Err(format!("{what}, contains({id}) is wrong"));
        }
    }
    Ok(())
}

fn collection(rep: &mut Rep, r: &mut Rng) {
    let ops: Vec<(usize, u32, L)> = (0..1 + r.below(8)).map(|_| (r.below(2), r.below(5) as u32, a_layout(r))).collect();
    let desc = format!("collection history {:?}", ops.iter().map(|o| (o.0, o.1, o.2.extra_properties().get(&7).copied(), deps_of(&o.2))).collect::<Vec<_>>());
    rep.check(desc, ops.len() > 1, || {
        let mut ls: Layouts<u32> = Layouts::new();
        let mut m = Model::new();
        for (k, id, l) in &ops {
            let (rf, old) = match k {
                0 => ls.insert(*id, l.clone()),
                _ => {
                    let mut seen = None;
                    let out = ls.insert_with(*id, |r| {
                        seen = Some(*r.id());
                        l.clone()
                    });
                    if seen != Some(*id) {
                        return Err("insert_with gives another reference to its function".into());
                    }
                    out
                }
            };
            if *rf.id() != *id {
                return Err("insertion returns the reference of another layout".into());
            }
            same("replaced definition", old.as_ref(), m.insert(*id, l.clone()).as_ref())?;
            same_all("after insertion", &ls, &m)?;
            for i in 0..9 {
                same("layout", ls.layout(&i), m.get(&i))?;
                same("get", ls.get(&Ref::<LayoutType, u32>::new(i)), m.get(&i))?;
            }
            check_deps(l)?;
        }
        let it: Vec<(u32, L)> = ls.iter().map(|(r, l)| (*r.id(), l.clone())).collect();
        let want: Vec<(u32, L)> = m.clone().into_iter().collect();
        if it != want {
            return Err("iter does not list the definitions".into());
        }
        let it: Vec<(u32, L)> = (&ls).into_iter().map(|(r, l)| (*r.id(), l.clone())).collect();
        if it != want || ls.into_iter().map(|(r, l)| (r.into_id(), l)).collect::<Vec<_>>() != want {
            return Err("into_iter does not list the definitions".into());
        }
        Ok(())
    });
}

/// Any nesting of unions.
enum Reg {
    Leaf(Layouts<u32>),
    Opt(Option<Box<Reg>>),
    Union(Box<LayoutRegistryUnion<Reg, Reg>>),
}
impl LayoutRegistry<u32> for Reg {
    fn get(&self, id: &Ref<LayoutType, u32>) -> Option<&L> {
        match self {
            Reg::Leaf(l) => LayoutRegistry::get(l, id),
            Reg::Opt(o) => LayoutRegistry::get(o, id),
            Reg::Union(u) => LayoutRegistry::get(&**u, id),
        }
    }
    fn contains(&self, id: &Ref<LayoutType, u32>) -> bool {
        match self {
            Reg::Leaf(l) => LayoutRegistry::contains(l, id),
            Reg::Opt(o) => LayoutRegistry::contains(o, id),
            Reg::Union(u) => LayoutRegistry::contains(&**u, id),
        }
    }
}
impl LayoutRegistry<u32> for Box<Reg> {
    fn get(&self, id: &Ref<LayoutType, u32>) -> Option<&L> {
        (**self).get(id)
    }
    fn contains(&self, id: &Ref<LayoutType, u32>) -> bool {
        (**self).contains(id)
    }
}
fn over(mut low: Model, high: Model) -> Model {
    low.extend(high);
    low
}
fn leaf(r: &mut Rng) -> (Layouts<u32>, Model) {
    let mut ls = Layouts::new();
    let mut m = Model::new();
    for _ in 0..r.below(5) {
        let (id, l) = (r.below(6) as u32, a_layout(r));
        ls.insert(id, l.clone());
        m.insert(id, l);
    }
    (ls, m)
}
fn reg(r: &mut Rng, depth: usize, d: &mut String) -> (Reg, Model) {
    if depth == 0 || r.one_in(4) {
        let (l, m) = leaf(r);
        *d += &format!("{:?}", m.iter().map(|(k, l)| (k, l.extra_properties().get(&7))).collect::<Vec<_>>());
        return (Reg::Leaf(l), m);
    }
    match r.below(6) {
        0 => {
            *d += "none";
            (Reg::Opt(None), Model::new())
        }
        1 => {
            *d += "some ";
            let (a, m) = reg(r, depth - 1, d);
            (Reg::Opt(Some(Box::new(a))), m)
        }
        2 => {
            *d += "(";
            let (a, m) = reg(r, depth - 1, d);
            *d += " into_with ";
            let (b, n) = reg(r, depth - 1, d);
            *d += ")";
            (Reg::Union(Box::new(a.into_with(b))), over(n, m))
        }
        _ => {
            *d += "union(";
            let (a, m) = reg(r, depth - 1, d);
            *d += ", ";
            let (b, n) = reg(r, depth - 1, d);
            *d += ")";
            (Reg::Union(Box::new(LayoutRegistryUnion(a, b))), over(m, n))
        }
    }
}

fn union(rep: &mut Rep, r: &mut Rng) {
    let mut d = String::new();
    let (a, m) = reg(r, 4, &mut d);
    let (b, n) = leaf(r);
    rep.check(format!("registries {d} and {:?}", n.keys().collect::<Vec<_>>()), d.contains('('), || {
        same_all("registry", &a, &m)?;
        same_all("reference to the registry", &&a, &m)?;
        let want = over(n.clone(), m.clone());
        same_all("a.with(b)", &a.with(&b), &want)?;
        let want = over(m.clone(), n.clone());
        same_all("b.with(a)", &b.with(&a), &want)?;
        same_all("b.with(none).with(a)", &(&b).with(None::<&Reg>).with(&a), &want)?;
        same_all("b.into_with(some a)", &b.into_with(Some(a)), &want)
    });
}

fn abs_layout(r: &mut Rng) -> (abs::Layout<u32>, L) {
    match r.below(4) {
        0 => (abs::Layout::Never, Layout::Never),
        1 => (abs::Layout::Always, Layout::Always),
        _ => loop {
            match a_layout(r) {
                Layout::Product(p) => return (abs::Layout::Product(p.clone()), Layout::Product(p)),
                Layout::Sum(p) => return (abs::Layout::Sum(p.clone()), Layout::Sum(p)),
                Layout::List(p) => return (abs::Layout::List(p.clone()), Layout::List(p)),
                _ => (),
            }
        },
    }
}

fn builder(rep: &mut Rep, r: &mut Rng) {
    let ops: Vec<(usize, u32, (abs::Layout<u32>, L))> = (0..1 + r.below(8)).map(|_| (r.below(3), r.below(5) as u32, abs_layout(r))).collect();
    let desc = format!("builder history {:?}", ops.iter().map(|o| (o.0, o.1, o.2 .1.extra_properties().get(&7).copied())).collect::<Vec<_>>());
    rep.check(desc, ops.len() > 1, || {
        let mut b: abs::Builder<u32> = abs::Builder::new();
        let mut m = Model::new();
        for (k, id, (al, l)) in ops {
            match k {
                0 | 1 => {
                    let (rf, old) = if k == 0 { b.insert(id, al) } else { b.insert_with(id, |_| al) };
                    if *rf.id() != id {
                        return Err("insertion returns the reference of another layout".into());
                    }
                    same("replaced definition", old.map(|l| l.build()).as_ref(), m.insert(id, l).as_ref())?;
                }
                _ => {
                    let got = b.get_or_insert_with(Ref::new(id), |_| al).build();
                    let want = m.entry(id).or_insert(l);
                    same("get_or_insert_with", Some(&got), Some(want))?;
                }
            }
        }
        same_all("built collection", &b.build(), &m)?;
        same_all("collection built again", &b.build(), &m)
    });
}

/// Definitions from the abstract syntax: defining one identifier twice is an error, distinct ones never are.
fn syntax(rep: &mut Rep, r: &mut Rng) {
    fn def(r: &mut Rng, depth: usize, ids: &mut Vec<Option<usize>>) -> serde_json::Value {
        let id = if r.one_in(3) { None } else { Some(r.below(9)) };
        let slot = ids.len();
        ids.push(id);
        let n = if depth == 0 { 0 } else { r.below(3) };
        let mut o = match r.below(3) {
            _ if n == 0 => serde_json::json!({"type": r.pick(&["id", "unit", "string", "boolean"])}),
            0 => {
                let f: serde_json::Map<String, serde_json::Value> = (0..n).map(|i| (format!("f{i}"), serde_json::json!({"value": def(r, depth - 1, ids)}))).collect();
                serde_json::json!({"type": "record", "fields": f})
            }
            1 => {
                let f: serde_json::Map<String, serde_json::Value> = (0..n).map(|i| (format!("v{i}"), serde_json::json!({"value": def(r, depth - 1, ids)}))).collect();
                serde_json::json!({"type": "sum", "variants": f})
            }
            _ => serde_json::json!({"type": "list", "node": {"value": def(r, depth - 1, ids)}}),
        };
        if let Some(i) = ids[slot] {
            o["id"] = serde_json::json!(format!("http://l/{i}"));
        }
        o
    }
    let mut defs = Vec::new();
    for _ in 0..1 + r.below(3) {
        let mut ids = Vec::new();
        let d = def(r, 2, &mut ids);
        defs.push((d, ids));
    }
    let desc = format!("definitions {}", defs.iter().map(|d| d.0.to_string()).collect::<Vec<_>>().join(" ; "));
    rep.check(desc, true, || {
        let mut b = abs::Builder::new();
        let mut seen = BTreeSet::new();
        let mut count = 0;
        for (d, ids) in &defs {
            let l: abs::syntax::Layout = serde_json::from_value(d.clone()).map_err(|e| e.to_string())?;
            let twice = ids.iter().flatten().any(|i| !seen.insert(*i));
            count += ids.len();
            match (l.build(&mut b), twice) {
                (Ok(rf), false) => {
                    if let Some(i) = ids[0] {
                        if *rf.id() != iri(&format!("http://l/{i}")) {
                            return Err(format!("definition stored as {rf}"));
                        }
                    }
                    // every definition is still there
                    let ls = b.build();
                    if ls.iter().count() != count {
                        return Err(format!("{} definitions stored, expected {count}", ls.iter().count()));
                    }
                    for i in &seen {
                        if ls.layout(&iri(&format!("http://l/{i}"))).is_none() {
                            return Err(format!("definition of http://l/{i} lost"));
                        }
                    }
                    for (_, l) in &ls {
                        for d in l.dependencies() {
                            if ls.get(d).is_none() {
                                return Err(format!("nested definition {d} lost"));
                            }
                        }
                    }
                }
                (Err(abs::syntax::BuildError::LayoutRedefinition), true) => return Ok(()),
                (Err(e), _) => return Err(format!("rejected: {e}")),
                (Ok(_), true) => return Err("second definition of a layout accepted".into()),
            }
        }
        Ok(())
    });
}

fn prelude(rep: &mut Rep) {
    const NAMES: &[&str] = &["unit", "boolean", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "string", "id"];
    rep.check("prelude".into(), true, || {
        let built = Prelude::build();
        if built.iter().count() != NAMES.len() {
            return Err("number of layouts".into());
        }
        for n in NAMES {
            let id = iri(&format!("https://treeldr.org/prelude#{n}"));
            let r: Ref<LayoutType, Term> = Ref::new(id.clone());
            let l = Prelude.get(&r).ok_or(format!("{n} is not defined"))?;
            if built.layout(&id) != Some(l) || !Prelude.contains(&r) {
                return Err(format!("{n} is not the built definition"));
            }
            let mut other = Layouts::new();
            other.insert(id.clone(), Layout::Never);
            if other.with(Prelude).get(&r) != Some(&Layout::Never) || Prelude.with(&other).get(&r) != Some(l) || Prelude.into_with(&other).get(&r) != Some(l) {
                return Err("precedence over the prelude".into());
            }
        }
        for n in ["", "x", "u128", "u8/", "U8"] {
            if Prelude.get(&Ref::new(iri(&format!("https://treeldr.org/prelude#{n}")))).is_some() {
                return Err(format!("{n} is defined"));
            }
        }
        Ok(())
    });
}

pub fn run(rep: &mut Rep) {
    prelude(rep);
    let mut r = rep.rng(13);
    let n = rep.n(60_000, 900_000);
    for _ in 0..n {
        collection(rep, &mut r);
        builder(rep, &mut r);
        union(rep, &mut r);
        if r.one_in(2) {
            syntax(rep, &mut r);
        }
        if r.one_in(4) {
            let cfg = Cfg { graphs: 3, odd: 10 };
            let c = layouts(&mut r, &cfg, 3);
            rep.check(format!("dependencies of [{}]", c.text), true, || c.ls.iter().try_for_each(|(_, l)| check_deps(l)));
        }
    }
    rep.bound(format!("{n} random histories of <= 8 insertions over 5 identifiers, unions nested <= 4 deep, definitions nested <= 2 deep"));
}
