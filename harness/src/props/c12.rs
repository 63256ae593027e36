//! C12: IRIs of definitions. The real compiler is compared with an independent one, and
//! CompactIri::resolve with an independent resolver.
//! Non-trivial: a prefix or a base is declared.
use treeldr_layouts::abs::syntax::{CompactIri, LayoutHeader, Scope};
use vharness::syn::{self, Gen, Iris};
use vharness::{Rep, Rng};

fn chain(rep: &mut Rep, r: &mut Rng) {
    const REFS: &[&str] = &[
        "p:foo", "p:", "q:a:b", "p://x/y", "http://a/b", "http:rel", "c", "../c", "#f", "?q", "", "/abs/p", "//host/x", "./a/../b", "d/e?f#g", "..", ".", "urn:x", "P:foo",
        "p:a#b", "q:#z", "rdf:type", "a/p:b", "./p:b", "é",
    ];
    const EXP: &[&str] = &["http://a/", "http://p.org/ns#", "urn:u:", "https://x/y?z=", "p:sub/", "q:t#", "rel/", "#", "http://a/b#c", "../up", "//h/i"];
    let mut headers = vec![];
    for _ in 0..r.below(4) {
        let base = if r.one_in(2) { Some(*r.pick(&["http://base.org/a/b", "http://base.org", "urn:base:x", "http://b/c/d?e#f", "p:x", "../z", "q:a/b", ""])) } else { None };
        let prefixes: Vec<(&str, &str)> = (0..r.below(3)).map(|_| (*r.pick(&["p", "q", "http", "rdf"]), *r.pick(EXP))).collect();
        let prefixes: std::collections::BTreeMap<_, _> = prefixes.into_iter().collect();
        headers.push((base, prefixes));
    }
    let iri = *r.pick(REFS);
    let desc = format!("{iri:?} under {headers:?}");
    rep.check(desc, !headers.is_empty(), || {
        let (mut scope, mut want) = (Scope::default(), Iris::default());
        for (base, prefixes) in &headers {
            let mut o = serde_json::Map::new();
            if let Some(b) = base {
                o.insert("base".into(), (*b).into());
            }
            o.insert("prefixes".into(), prefixes.iter().map(|(k, v)| (k.to_string(), serde_json::Value::from(*v))).collect::<serde_json::Map<_, _>>().into());
            let h: LayoutHeader = serde_json::from_value(o.into()).map_err(|e| format!("header rejected: {e}"))?;
            let mut inner = want.clone();
            let mut bad = vec![];
            if let Some(b) = base {
                match want.resolve(b) {
                    Ok(b) => inner.base = Some(b),
                    Err(e) => bad.push(e),
                }
            }
            for (k, p) in prefixes {
                match want.resolve(p) {
                    Ok(p) => {
                        inner.prefixes.insert(k.to_string(), p);
                    }
                    Err(e) => bad.push(e),
                }
            }
            match scope.with_header(&h) {
                Ok(s) if bad.is_empty() => {
                    // nothing but the declarations of the header changes
                    if r_base(&s) != inner.base {
                        return Err(format!("base {:?} instead of {:?}", r_base(&s), inner.base));
                    }
                    for k in ["p", "q", "http", "rdf", "other"] {
                        if s.iri_prefix(k).map(|i| i.to_string()) != inner.prefixes.get(k).cloned() {
                            return Err(format!("prefix {k} is {:?} instead of {:?}", s.iri_prefix(k), inner.prefixes.get(k)));
                        }
                    }
                    (scope, want) = (s, inner);
                }
                Ok(_) => return Err(format!("header accepted in spite of {bad:?}")),
                Err(e) if bad.contains(&syn::ko(&e)) => return Ok(()),
                Err(e) => return Err(format!("header rejected for {e} instead of {bad:?}")),
            }
        }
        let c: CompactIri = iri.parse().map_err(|e| format!("{e}"))?;
        for s in [scope.clone(), scope.without_variables(), scope.with_intro(&["p".to_string()]).map_err(|e| e.to_string())?] {
            let got = c.resolve(&s).map(|i| i.to_string()).map_err(|e| syn::ko(&e));
            let want = want.resolve(iri);
            if got != want {
                return Err(format!("resolved to {got:?} instead of {want:?}"));
            }
        }
        Ok(())
    });
}

fn r_base(s: &Scope) -> Option<String> {
    s.base_iri().map(|i| i.to_string())
}

pub fn run(rep: &mut Rep) {
    let mut r = rep.rng(12);
    let n = rep.n(150_000, 1_500_000);
    for _ in 0..n {
        chain(rep, &mut r);
        if r.one_in(2) {
            let g = Gen { odd: *r.pick(&[8, 40, 1000]), iris: true, groups: false };
            let depth = r.below(3);
            let j = g.definition(&mut r, depth);
            let t = j.text();
            let nontrivial = t.contains("\"base\"") || t.contains("\"prefixes\"");
            rep.check(t, nontrivial, || super::c11::compare(&j, |k| matches!(k, syn::Ko::NoBaseIri(_) | syn::Ko::InvalidIri(_))));
        }
    }
    rep.bound(format!("{n} random chains of <= 3 headers and half as many definitions of at most 3 nested layouts"));
}
