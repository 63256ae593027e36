//! C04/C05: hydration against the reference semantics.
use super::c03::layouts;
use std::collections::BTreeMap;
use treeldr_layouts::{
    distill::{hydrate, hydrate_with},
    Ref,
};
use vharness::{model::*, naive::Naive, Rep, Rng};

pub fn case(rep: &mut Rep, r: &mut Rng, cfg: &Cfg, depth: usize) {
    let c = layouts(r, cfg, depth);
    let g = match r.below(3) {
        0 => Some(iri(r.pick(POOL))),
        _ => None,
    };
    let alter = *r.pick(&[0, 1, 2, 2]);
    let (data, inputs) = data_for(r, &c.ls, &c.id, &g, 4, alter);
    let mut interp = HyInterp::default();
    if r.one_in(6) {
        for q in &data {
            if r.one_in(3) {
                let e: Vec<_> = (0..1 + r.below(2)).map(|_| match r.below(4) {
                    0 => iri("http://i/other"),
                    1 => lit("1", "http://www.w3.org/2001/XMLSchema#boolean"),
                    2 => lit("2", "http://www.w3.org/2001/XMLSchema#integer"),
                    _ => lit("s", "http://www.w3.org/2001/XMLSchema#string"),
                }).collect();
                interp.extra.insert(q.2.clone(), e);
            }
        }
    }
    let plain = interp.extra.is_empty();
    let hy = Hy { ls: &c.ls, data: &data, interp: &interp };
    let want = hy.run(g.as_ref(), &Ref::new(c.id.clone()), &inputs, &mut Vec::new());
    let nontrivial = !data.is_empty();
    let desc = format!(
        "layouts [{}] layout {} inputs {:?} graph {} data {}{}",
        c.text,
        c.id,
        inputs.iter().map(|r| r.to_string()).collect::<Vec<_>>(),
        g.as_ref().map(|g| g.to_string()).unwrap_or("default".into()),
        show_quads(&data),
        if plain { String::new() } else { format!(" other terms {:?}", interp.extra.iter().map(|(k, v)| (k.to_string(), v.iter().map(|t| t.to_string()).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>()) }
    );
    rep.check(desc, nontrivial, || {
        let ds = Naive(data.iter().cloned().collect());
        let got = hydrate_with(&(), &interp, &c.ls, &ds, g.as_ref(), &Ref::new(c.id.clone()), &inputs);
        let mut all = vec![got];
        if plain {
            all.push(hydrate_with(&(), &(), &c.ls, &ds, g.as_ref(), &Ref::new(c.id.clone()), &inputs));
            if g.is_none() {
                all.push(hydrate(&c.ls, &ds, &Ref::new(c.id.clone()), &inputs));
            }
        }
        for got in all {
            match (&got, &want) {
                (Ok(a), Ok(b)) => {
                    if a != b {
                        return Err(format!("hydrates to {a:?}, expected {b:?}"));
                    }
                }
                (Ok(a), Err(e)) => return Err(format!("hydrates to {a:?}, although the data does not match ({e})")),
                (Err(e), Ok(b)) => return Err(format!("rejected ({e}), expected {b:?}")),
                (Err(_), Err(_)) => (),
            }
        }
        Ok(())
    });
}

pub fn run(rep: &mut Rep) {
    let mut r = rep.rng(4);
    let n = rep.n(120_000, 1_500_000);
    for i in 0..n {
        let cfg = Cfg { graphs: if i % 4 == 0 { 4 } else { 0 }, odd: if i % 3 == 0 { 6 } else { 40 } };
        let d = r.below(4);
        case(rep, &mut r, &cfg, d);
    }
    rep.bound(format!("{n} random layout collections of nesting <= 3 with a dataset each (matching data, altered in half of the cases), any current graph, resources with several terms"));
}
