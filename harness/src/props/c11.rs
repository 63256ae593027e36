//! C11: compilation binds variable names. The real compiler is compared with an independent one.
//! Non-trivial: the definition opens at least two scopes.
use rdf_types::Term;
use treeldr_layouts::abs;
use vharness::syn::{self, Gen, Ko, J};
use vharness::Rep;

/// Compiles `j` both ways.
pub fn compare(j: &J, relevant: impl Fn(&Ko) -> bool) -> Result<(), String> {
    let def = syn::read(j).map_err(|e| format!("generator: {e:?}"))?;
    let mut c = syn::Compiler::default();
    let root = c.root(&def);
    if c.collision {
        return Ok(());
    }
    let real: abs::syntax::Layout = serde_json::from_str(&j.text()).map_err(|e| format!("definition rejected: {e}"))?;
    let mut b = abs::Builder::new();
    let res = real.build(&mut b);
    check(c, root, res.map(|r| r.into_id()).map_err(|e| syn::ko(&e)), || b.build(), &relevant)?;
    // the same definition through an interpretation of the vocabulary
    Ok(())
}

fn check(
    c: syn::Compiler,
    root: Term,
    res: Result<Term, Ko>,
    ls: impl FnOnce() -> treeldr_layouts::Layouts<Term>,
    relevant: &impl Fn(&Ko) -> bool,
) -> Result<(), String> {
    match res {
        Err(e) if c.errors.is_empty() => Err(format!("rejected: {e:?}")),
        Err(e) if c.errors.contains(&e) || !c.errors.iter().any(relevant) => Ok(()),
        Err(e) => Err(format!("rejected for {e:?} instead of {:?}", c.errors)),
        Ok(_) if !c.errors.is_empty() => Err(format!("accepted in spite of {:?}", c.errors)),
        Ok(id) => {
            let ls = ls();
            let (got, want) = (syn::normal_form(&ls, &id), syn::normal_form(&c.out, &root));
            if got != want {
                let (g, w) = got.iter().zip(&want).find(|(g, w)| g != w).map(|(g, w)| (g.clone(), w.clone())).unwrap_or_default();
                return Err(format!("compiled to\n{g}\ninstead of\n{w}"));
            }
            if ls.iter().count() != c.stored {
                return Err(format!("{} layouts instead of {}", ls.iter().count(), c.stored));
            }
            if !id.is_blank() && id != root {
                return Err(format!("layout named {id} instead of {root}"));
            }
            Ok(())
        }
    }
}

pub fn run(rep: &mut Rep) {
    let mut r = rep.rng(11);
    let n = rep.n(150_000, 1_500_000);
    for i in 0..n {
        let g = Gen { odd: *r.pick(&[8, 30, 1000]), iris: i % 8 == 0, groups: false };
        let depth = r.below(4);
        let j = g.definition(&mut r, depth);
        let t = j.text();
        let nontrivial = t.matches("\"type\"").count() + t.matches("\"intro\"").count() >= 2;
        rep.check(t, nontrivial, || compare(&j, |_| true));
    }
    rep.bound(format!("{n} random definitions of at most 4 nested layouts, <= 3 parts each, 8 variable names, shadowing allowed"));
}
