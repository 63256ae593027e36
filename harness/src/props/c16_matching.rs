//! C16: matching of the Rust runtime (same oracle as C01).
use rdf_types::Quad;
use std::collections::BTreeSet;
use treeldr::{de::{select_graph, select_inputs, Error, Matching}, pattern::{PatternQuad, Substitution}, utils::QuadsExt, Pattern};
use vharness::{naive::Naive, Rep, Rng};

type Q = Quad<u8>;
type P = Quad<Pattern<u8>>;
pub type S = Vec<Option<u8>>;

fn holds(p: &Pattern<u8>, v: u8, s: &S) -> bool {
    match p {
        Pattern::Resource(r) => *r == v,
        Pattern::Var(x) => s[*x as usize] == Some(v),
    }
}
fn maps_to(p: &P, q: &Q, s: &S) -> bool {
    holds(&p.0, q.0, s)
        && holds(&p.1, q.1, s)
        && holds(&p.2, q.2, s)
        && match (&p.3, q.3) {
            (None, None) => true,
            (Some(p), Some(g)) => holds(p, g, s),
            _ => false,
        }
}
fn vars(ps: &[P]) -> BTreeSet<u32> {
    let mut r = BTreeSet::new();
    for p in ps {
        for c in [Some(&p.0), Some(&p.1), Some(&p.2), p.3.as_ref()].into_iter().flatten() {
            if let Pattern::Var(x) = c {
                r.insert(*x);
            }
        }
    }
    r
}
/// All substitutions extending `init`, binding exactly the pattern variables, mapping every pattern
/// onto a quad.
fn solutions(ds: &[Q], ps: &[P], init: &S) -> BTreeSet<S> {
    let mut dom = BTreeSet::new();
    for q in ds {
        dom.extend([q.0, q.1, q.2]);
        dom.extend(q.3);
    }
    let free: Vec<u32> = vars(ps).into_iter().filter(|x| init[*x as usize].is_none()).collect();
    let mut out = BTreeSet::new();
    fn go(free: &[u32], dom: &BTreeSet<u8>, s: &mut S, ds: &[Q], ps: &[P], out: &mut BTreeSet<S>) {
        match free.split_first() {
            None => {
                if ps.iter().all(|p| ds.iter().any(|q| maps_to(p, q, s))) {
                    out.insert(s.clone());
                }
            }
            Some((x, rest)) => {
                for v in dom {
                    s[*x as usize] = Some(*v);
                    go(rest, dom, s, ds, ps, out);
                }
                s[*x as usize] = None;
            }
        }
    }
    go(&free, &dom, &mut init.clone(), ds, ps, &mut out);
    out
}

fn to_sub(s: &S) -> Substitution<u8> {
    let mut r = Substitution::new();
    for v in s {
        r.push(*v);
    }
    r
}
fn from_sub(s: &Substitution<u8>) -> S {
    (0..s.len()).map(|i| s.get(i).copied()).collect()
}
fn refs(ps: &[P]) -> Vec<Quad<Pattern<&u8>>> {
    ps.iter()
        .map(|p| Quad(p.0.as_ref(), p.1.as_ref(), p.2.as_ref(), p.3.as_ref().map(Pattern::as_ref)))
        .collect()
}

pub fn desc(ds: &[Q], ps: &[P], init: &S) -> String {
    fn p(p: &Pattern<u8>) -> String {
        match p {
            Pattern::Resource(r) => format!("r{r}"),
            Pattern::Var(x) => format!("?{x}"),
        }
    }
    let d: Vec<String> = ds
        .iter()
        .map(|q| format!("r{} r{} r{}{}", q.0, q.1, q.2, q.3.map(|g| format!(" @r{g}")).unwrap_or_default()))
        .collect();
    let pt: Vec<String> = ps
        .iter()
        .map(|q| format!("{} {} {}{}", p(&q.0), p(&q.1), p(&q.2), q.3.as_ref().map(|g| format!(" @{}", p(g))).unwrap_or_default()))
        .collect();
    let i: Vec<String> = init.iter().map(|v| v.map(|v| format!("r{v}")).unwrap_or("_".into())).collect();
    format!("dataset {{{}}} patterns [{}] initial ({})", d.join(". "), pt.join(". "), i.join(","))
}

macro_rules! one {
    ($data:expr, $kind:expr, $ps:expr, $init:expr, $want:expr) => {{
        let data = $data;
        let rp = refs($ps);
        let got: Vec<S> = Matching::new(&data, to_sub($init), rp.iter().copied()).map(|s| from_sub(&s)).collect();
        let set: BTreeSet<S> = got.iter().cloned().collect();
        if set.len() != got.len() {
            return Err(format!("{}: a substitution is returned twice: {:?}", $kind, got));
        }
        if set != *$want {
            return Err(format!("{}: matches {:?}, the solutions are {:?}", $kind, set, $want));
        }
        let u = Matching::new(&data, to_sub($init), rp.iter().copied()).into_unique().map_err(Error::from);
        let ok = match (&u, $want.len()) {
            (Ok(None), 0) => true,
            (Ok(Some(s)), 1) => Some(&from_sub(s)) == $want.first(),
            (Err(Error::DataAmbiguity), n) if n > 1 => true,
            _ => false,
        };
        if !ok {
            return Err(format!("{}: wrong answer to into_unique with {} solutions", $kind, $want.len()));
        }
        let u = Matching::new(&data, to_sub($init), rp.iter().copied()).into_required_unique().map_err(Error::from);
        let ok = match (&u, $want.len()) {
            (Err(Error::MissingData), 0) => true,
            (Ok(s), 1) => Some(&from_sub(s)) == $want.first(),
            (Err(Error::DataAmbiguity), n) if n > 1 => true,
            _ => false,
        };
        if !ok {
            return Err(format!("{}: wrong answer to into_required_unique with {} solutions", $kind, $want.len()));
        }
    }};
}

fn case(rep: &mut Rep, ds: Vec<Q>, ps: Vec<P>, init: S) {
    let want = solutions(&ds, &ps, &init);
    let nontrivial = !want.is_empty() || ps.len() > 1;
    rep.check(desc(&ds, &ps, &init), nontrivial, || {
        one!(Naive(ds.clone()), "list dataset", &ps, &init, &want);
        // the current graph is that of the patterns without graph
        let cur = if ps.len() % 2 == 0 { Some(0u8) } else { Some(1) };
        for cur in [None, cur] {
            let qs: &[PatternQuad<u8>] = &ps;
            let got: Vec<Quad<Pattern<&u8>>> = qs.iter().map(Quad::as_ref).with_default_graph(cur.as_ref()).collect();
            let want: Vec<Quad<Pattern<&u8>>> =
                ps.iter().map(|p| Quad(p.0.as_ref(), p.1.as_ref(), p.2.as_ref(), p.3.as_ref().map(Pattern::as_ref).or(cur.as_ref().map(Pattern::Resource)))).collect();
            if got != want {
                return Err(format!("patterns in graph {cur:?} are {got:?}"));
            }
        }
        // selection of inputs and graph under a solution
        if let Some(s) = want.first() {
            let sub = to_sub(s);
            let bound: Vec<(Pattern<u8>, u8)> = s.iter().enumerate().filter_map(|(i, v)| v.map(|v| (Pattern::Var(i as u32), v))).chain([(Pattern::Resource(9), 9)]).collect();
            for (p, v) in &bound {
                let first = bound[0];
                let got = select_inputs(&[*p, first.0, Pattern::Resource(5)], &sub);
                if got != [*v, first.1, 5] {
                    return Err(format!("inputs {p:?} {:?} r5 are {got:?}", first.0));
                }
                for cur in [None, Some(3u8)] {
                    for (gp, want) in [(None, cur), (Some(None), None), (Some(Some(*p)), Some(*v))] {
                        let got = select_graph(cur.as_ref(), &gp, &sub);
                        if got != want {
                            return Err(format!("graph {gp:?} in {cur:?} is {got:?}"));
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

fn gen_pattern(r: &mut Rng, nvars: u32, nres: usize) -> Pattern<u8> {
    if nvars > 0 && r.below(3) > 0 {
        Pattern::Var(r.below(nvars as usize) as u32)
    } else {
        Pattern::Resource(r.below(nres) as u8)
    }
}

pub fn run(rep: &mut Rep) {
    // every single pattern over {r0, ?0, ?1} and every graph, against fixed small datasets
    let pats = [Pattern::Resource(0u8), Pattern::Var(0), Pattern::Var(1)];
    let gpats = [None, Some(Pattern::Resource(0u8)), Some(Pattern::Var(0)), Some(Pattern::Var(1))];
    let datasets: Vec<Vec<Q>> = vec![
        vec![],
        vec![Quad(0, 0, 0, None)],
        vec![Quad(0, 1, 0, None), Quad(0, 1, 1, Some(0))],
        vec![Quad(0, 0, 1, Some(1)), Quad(1, 0, 0, Some(0)), Quad(0, 0, 0, None), Quad(1, 1, 0, None)],
        vec![Quad(1, 1, 1, Some(1)), Quad(0, 1, 1, Some(1)), Quad(0, 1, 2, Some(2)), Quad(2, 1, 2, None)],
    ];
    for ds in &datasets {
        for s in &pats {
            for p in &pats {
                for o in &pats {
                    for g in &gpats {
                        for init in [vec![None, None], vec![Some(0), None], vec![None, Some(1)], vec![Some(1), Some(0)]] {
                            case(rep, ds.clone(), vec![Quad(*s, *p, *o, *g)], init);
                        }
                    }
                }
            }
        }
    }
    rep.bound("all single patterns over {r0,?0,?1} with every graph, 5 datasets, 4 initial substitutions");
    let n = rep.n(20_000, 300_000);
    let mut r = rep.rng(1601);
    for _ in 0..n {
        let nres = 2 + r.below(3);
        let nq = r.below(9);
        let mut seen = BTreeSet::new();
        let mut ds = Vec::new();
        for _ in 0..nq {
            let g = if r.below(2) == 0 { None } else { Some(r.below(nres) as u8) };
            let q = (r.below(nres) as u8, r.below(2.min(nres)) as u8, r.below(nres) as u8, g);
            if seen.insert(q) {
                ds.push(Quad(q.0, q.1, q.2, q.3));
            }
        }
        let nvars = r.below(5) as u32;
        let np = r.below(5);
        let ps: Vec<P> = (0..np)
            .map(|_| {
                let g = if r.below(2) == 0 { None } else { Some(gen_pattern(&mut r, nvars, nres)) };
                Quad(gen_pattern(&mut r, nvars, nres), gen_pattern(&mut r, nvars, 2), gen_pattern(&mut r, nvars, nres), g)
            })
            .collect();
        let init: S = (0..nvars).map(|_| if r.one_in(4) { Some(r.below(nres + 1) as u8) } else { None }).collect();
        case(rep, ds, ps, init);
    }
    rep.bound(format!("{n} random cases: at most 8 quads, 4 patterns, 4 variables, 4 resources"));
}
