//! C03/C05/C14: dehydration against the reference semantics.
use rdf_types::dataset::BTreeDataset;
use rdf_types::{Id, Quad, Term};
use std::collections::BTreeSet;
use treeldr_layouts::{
    distill::{de, dehydrate, dehydrate_with, RdfContextMut},
    LayoutRegistry, Layouts, Ref, Value,
};
use vharness::{gen, model::*, Rep, Rng};

pub struct Case {
    pub ls: Layouts<Term>,
    pub id: Term,
    pub k: u32,
    pub text: String,
}

pub fn layouts(r: &mut Rng, cfg: &Cfg, depth: usize) -> Case {
    let mut g = LayoutGen::new(cfg);
    let (id, k) = g.layout(r, depth, &[]);
    Case { text: g.text.join("; "), ls: g.ls, id, k }
}

pub fn pick_value(r: &mut Rng, c: &Case) -> Value {
    let mut v = gen::value(r, 1);
    for _ in 0..4 {
        v = if r.one_in(12) { gen::value(r, 2) } else { value_for(r, &c.ls, &c.id, 4) };
        let mut o = Out::default();
        let ins: Vec<Res> = (0..c.k as usize).map(Res::In).collect();
        if dehydrate_ref(c, &v, &None, &ins, &mut o).is_ok() && !o.quads.is_empty() {
            break;
        }
    }
    v
}
pub fn dehydrate_ref(c: &Case, v: &Value, g: &Option<Res>, ins: &[Res], o: &mut Out) -> Result<(), String> {
    vharness::model::dehydrate(&c.ls, v, g, &Ref::new(c.id.clone()), ins, o)
}

/// dehydrate_with: exact acceptance, exact quads up to the naming of new resources.
pub fn low(rep: &mut Rep, r: &mut Rng, cfg: &Cfg, depth: usize) {
    let c = layouts(r, cfg, depth);
    let v = pick_value(r, &c);
    let g = match r.below(if cfg.graphs == 0 { 4 } else { 3 }) {
        0 => Some(Res::T(iri(r.pick(POOL)))),
        1 => Some(Res::In(0)),
        _ => None,
    };
    let mut ins: Vec<Res> = (0..c.k as usize).map(Res::In).collect();
    match r.below(12) {
        0 => {
            ins.pop();
        }
        1 => ins.push(Res::In(7)),
        2 if !ins.is_empty() => {
            let i = r.below(ins.len());
            ins[i] = Res::T(pool(r));
        }
        3 if ins.len() > 1 => ins[1] = ins[0].clone(),
        _ => (),
    }
    let init: BTreeSet<Quad<Res>> = if r.one_in(3) {
        (0..r.below(3)).map(|_| Quad(Res::In(0), Res::T(iri("http://p/1")), Res::T(pool(r)), None)).collect()
    } else {
        BTreeSet::new()
    };
    let mut o = Out::default();
    let want = dehydrate_ref(&c, &v, &g, &ins, &mut o);
    let nontrivial = want.is_ok() && !o.quads.is_empty() || want.is_err() && !c.text.contains("= never");
    let desc = format!(
        "layouts [{}] value {v} layout {} inputs {:?} graph {} initial dataset {}",
        c.text,
        c.id,
        ins.iter().map(|r| r.to_string()).collect::<Vec<_>>(),
        g.as_ref().map(|g| g.to_string()).unwrap_or("default".into()),
        show_quads(&init)
    );
    rep.check(desc, nontrivial, || {
        let mut out: BTreeDataset<Res> = init.iter().cloned().collect();
        let mut i = DeInterp::default();
        let got = dehydrate_with(
            &mut RdfContextMut { vocabulary: &mut (), interpretation: &mut i },
            &c.ls,
            &v,
            g.as_ref(),
            &Ref::new(c.id.clone()),
            &ins,
            &mut out,
        );
        match (&got, &want) {
            (Ok(()), Err(e)) => return Err(format!("accepted, although the layout does not match ({e})")),
            (Err(e), Ok(())) => return Err(format!("rejected ({e}), although the layout matches")),
            (Err(_), Err(_)) => return Ok(()),
            _ => (),
        }
        let got = to_set(out);
        let mut exp = o.quads.clone();
        exp.extend(init.iter().cloned());
        // terms assigned: as quads so that the fresh resources are compared together
        let mut gq = got.clone();
        let mut eq = exp.clone();
        let mark = |x: &Res, t: &Term| Quad(x.clone(), Res::T(iri("urn:assigned")), Res::T(t.clone()), Some(Res::T(iri("urn:assigned"))));
        for (x, ts) in &i.assigned {
            for t in ts {
                gq.insert(mark(x, t));
            }
        }
        for (x, t) in &o.terms {
            eq.insert(mark(x, t));
        }
        let f = |x: &Res| match x {
            Res::An(_) => None,
            x => Some(x.to_string()),
        };
        if !isomorphic(&gq, &eq, &f, &f) {
            return Err(format!("dataset (with assigned terms) {}, expected {}", show_quads(&gq), show_quads(&eq)));
        }
        if o.open_lists > 0 {
            return Err("empty ordered list whose tail has no IRI: the head of the list is not its tail".into());
        }
        Ok(())
    });
}

/// Generator with a recognizable form.
pub struct Gen(pub usize, pub bool);
impl rdf_types::Generator<()> for Gen {
    fn next(&mut self, _: &mut ()) -> Id {
        self.0 += 1;
        if self.1 {
            Id::Iri(iref::IriBuf::new(format!("urn:gen:{}", self.0)).unwrap())
        } else {
            Id::Blank(rdf_types::BlankIdBuf::new(format!("_:gen{}", self.0)).unwrap())
        }
    }
}
fn is_gen(t: &Term) -> bool {
    let s = t.to_string();
    s.contains("urn:gen:") || s.contains("_:gen")
}

/// dehydrate: the terms of resources.
pub fn high(rep: &mut Rep, r: &mut Rng, cfg: &Cfg, depth: usize) {
    let c = layouts(r, cfg, depth);
    let v = pick_value(r, &c);
    let count = if r.one_in(3) { Some(r.below(4) as u32) } else { None };
    let mode = r.below(4);
    let defined = c.ls.layout(&c.id).map(|l| inputs_of(l));
    let n = match defined {
        None => 0,
        Some(Some(k)) => k,
        Some(None) => count.unwrap_or(1),
    } as usize;
    let ins: Vec<Res> = (0..n).map(Res::In).collect();
    let mut o = Out::default();
    let want = dehydrate_ref(&c, &v, &None, &ins, &mut o);
    let names = naming(&o.terms);
    let nontrivial = want.is_ok() && (!o.terms.is_empty() || o.fresh > 0 || n > 1);
    let desc = format!(
        "layouts [{}] value {v} layout {} input count {count:?} options {}",
        c.text,
        c.id,
        ["default", "input terms urn:input:i, blank generator", "blank generator", "input terms, IRI generator"][mode]
    );
    rep.check(desc, nontrivial, || {
        fn input_term(i: usize) -> Term {
            iri(&format!("urn:input:{i}"))
        }
        fn default_term(i: usize) -> Term {
            Term::blank(rdf_types::BlankIdBuf::new(format!("_:input{i}")).unwrap())
        }
        let base = de::Options::default();
        let base = match count {
            Some(k) => base.with_input_count(k),
            None => base,
        };
        let lr = Ref::new(c.id.clone());
        let got = match mode {
            0 => dehydrate(&c.ls, &v, &lr, base),
            1 => dehydrate(&c.ls, &v, &lr, base.with_input_term_generator(input_term).with_generator(Gen(0, false))),
            2 => dehydrate(&c.ls, &v, &lr, base.with_generator(Gen(0, false))),
            _ => dehydrate(c.ls.with(None::<Layouts<Term>>), &v, &lr, base.with_generator(Gen(0, true)).with_input_term_generator(input_term)),
        };
        let in_term = |i: usize| if mode == 1 || mode == 3 { input_term(i) } else { default_term(i) };
        let (ds, terms) = match (got, &want, &names) {
            (Err(_), Err(_), _) => return Ok(()),
            (Err(de::Error::TermAmbiguity(_)), Ok(()), None) => return Ok(()),
            (Err(e), Ok(()), None) => return Err(format!("two terms for one resource reported as: {e}")),
            (Err(e), Ok(()), Some(_)) => return Err(format!("rejected ({e}), although the layout matches and the terms agree")),
            (Ok(_), Err(e), _) => return Err(format!("accepted, although the layout does not match ({e})")),
            (Ok((d, t)), Ok(()), None) => {
                return Err(format!("accepted, although a resource has two terms: {}", show_quads(&d.into_iter().collect())) + &format!(" {t:?}"))
            }
            (Ok(x), Ok(()), Some(_)) => x,
        };
        let names = names.as_ref().unwrap();
        let name = |x: &Res| -> Res {
            match (x, names.get(x)) {
                (Res::T(_), _) => x.clone(),
                (_, Some(t)) => Res::T(t.clone()),
                (Res::In(i), None) => Res::T(in_term(*i)),
                (Res::An(_), None) => x.clone(),
            }
        };
        let want_inputs: Vec<Term> = ins
            .iter()
            .map(|x| match name(x) {
                Res::T(t) => t,
                _ => unreachable!(),
            })
            .collect();
        if terms != want_inputs {
            return Err(format!("input terms {terms:?}, expected {want_inputs:?}"));
        }
        let exp: BTreeSet<Quad<Res>> = o.quads.iter().map(|q| Quad(name(&q.0), name(&q.1), name(&q.2), q.3.as_ref().map(name))).collect();
        let got: BTreeSet<Quad<Term>> = ds.into_iter().collect();
        let known: BTreeSet<String> = exp
            .iter()
            .flat_map(|q| [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()])
            .flatten()
            .filter_map(|x| match x {
                Res::T(t) => Some(t.to_string()),
                _ => None,
            })
            .collect();
        let fg = |t: &Term| -> Option<String> {
            if mode == 0 {
                // the blank identifiers of the default generator: any that the value and layout do not mention
                match t {
                    Term::Id(Id::Blank(b)) if !known.contains(b.as_str()) => None,
                    t => Some(t.to_string()),
                }
            } else if is_gen(t) {
                None
            } else {
                Some(t.to_string())
            }
        };
        let fe = |x: &Res| match x {
            Res::An(_) => None,
            x => Some(x.to_string()),
        };
        if !isomorphic(&got, &exp, &fg, &fe) {
            return Err(format!("dataset {}, expected {}", show_quads(&got), show_quads(&exp)));
        }
        Ok(())
    });
}

pub fn run(rep: &mut Rep) {
    let mut r = rep.rng(3);
    let n = rep.n(120_000, 1_500_000);
    for i in 0..n {
        let cfg = Cfg { graphs: if i % 4 == 0 { 4 } else { 0 }, odd: if i % 3 == 0 { 6 } else { 40 } };
        let d = r.below(4);
        low(rep, &mut r, &cfg, d);
    }
    rep.bound(format!("{n} random layout collections of nesting <= 3 with a value each, any input list, current graph and initial dataset"));
}
