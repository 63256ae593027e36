//! C16: substitutions and environments of the Rust runtime (same oracle as C02).
use rdf_types::{
    dataset::{BTreeDataset, TraversableDataset},
    interpretation::InterpretationMut,
    Interpretation, Quad,
};
use std::collections::BTreeSet;
use treeldr::{pattern::Substitution, ser::Environment, Pattern, RdfContextMut};
use vharness::{Rep, Rng};

struct Counter(u32);
impl Interpretation for Counter {
    type Resource = u32;
}
impl InterpretationMut<()> for Counter {
    fn new_resource(&mut self, _: &mut ()) -> u32 {
        self.0 += 1;
        self.0
    }
}

fn sub_case(rep: &mut Rep, r: &mut Rng) {
    let inputs: Vec<u32> = (0..r.below(4)).map(|_| r.below(100) as u32).collect();
    let mut ops = Vec::new();
    let mut n = inputs.len() as u32;
    for _ in 0..r.below(10) {
        match r.below(4) {
            0 => {
                let c = r.below(4) as u32;
                ops.push((0, c, None));
                n += c;
            }
            1 => {
                ops.push((1, 0, if r.one_in(3) { None } else { Some(r.below(100) as u32) }));
                n += 1;
            }
            _ if n > 0 => ops.push((2, r.below(n as usize) as u32, if r.one_in(4) { None } else { Some(r.below(100) as u32) })),
            _ => (),
        }
    }
    rep.check(format!("substitution inputs {inputs:?} ops (0 intro n, 1 push, 2 set) {ops:?}"), n > 0, || {
        let mut m: Vec<Option<u32>> = inputs.iter().map(|x| Some(*x)).collect();
        let mut s = Substitution::from_inputs(&inputs);
        let cmp = |s: &Substitution<u32>, m: &Vec<Option<u32>>| -> Result<(), String> {
            if s.len() as usize != m.len() || s.is_empty() != m.is_empty() {
                return Err(format!("{} variables declared, expected {}", s.len(), m.len()));
            }
            for i in 0..m.len() as u32 + 3 {
                let want = m.get(i as usize).copied().flatten();
                if s.get(i).copied() != want {
                    return Err(format!("variable {i} is {:?}, expected {:?}", s.get(i), want));
                }
                let want_p = want.map(Pattern::Resource).unwrap_or(Pattern::Var(i));
                if Pattern::Var(i).apply(s) != want_p {
                    return Err(format!("pattern ?{i} becomes {:?}", Pattern::Var(i).apply(s)));
                }
                if Pattern::Var(i).apply(s).into_resource() != want {
                    return Err(format!("resource of ?{i} is not {want:?}"));
                }
            }
            if Pattern::Resource(7u32).apply(s) != Pattern::Resource(7) || Pattern::Resource(7u32).into_resource() != Some(7) {
                return Err("a resource pattern changed".into());
            }
            Ok(())
        };
        cmp(&s, &m)?;
        for (k, a, v) in &ops {
            match k {
                0 => {
                    if s.intro(*a) as usize != m.len() {
                        return Err("intro returns the wrong index".into());
                    }
                    m.extend((0..*a).map(|_| None));
                }
                1 => {
                    if s.push(*v) as usize != m.len() {
                        return Err("push returns the wrong index".into());
                    }
                    m.push(*v);
                }
                _ => {
                    let old = s.set(*a, *v);
                    if old != m[*a as usize] {
                        return Err(format!("set returns {old:?}, expected {:?}", m[*a as usize]));
                    }
                    m[*a as usize] = *v;
                }
            }
            let c = s.clone();
            cmp(&s, &m)?;
            cmp(&c, &m)?;
        }
        Ok(())
    });
}

fn pat(r: &mut Rng, n: usize) -> Pattern<u32> {
    if r.below(3) == 0 {
        Pattern::Resource(1000 + r.below(4) as u32)
    } else {
        let extra = 0;
        Pattern::Var(r.below(n + extra) as u32)
    }
}

fn env_case(rep: &mut Rep, r: &mut Rng) {
    let inputs: Vec<u32> = (0..r.below(4)).map(|i| 500 + i as u32).collect();
    // scopes: 0..=4 = intro n, 10/11/12 = bind 1/2/3 resources
    let scopes: Vec<usize> = (0..r.below(6)).map(|_| if r.one_in(3) { 10 + r.below(3) } else { r.below(4) }).collect();
    let total = inputs.len() + scopes.iter().map(|s| if *s >= 10 { *s - 9 } else { *s }).sum::<usize>();
    let patterns: Vec<Pattern<u32>> = (0..r.below(4)).map(|_| pat(r, total)).collect();
    let quads: Vec<Quad<Pattern<u32>>> = (0..r.below(5))
        .map(|_| Quad(pat(r, total), pat(r, total), pat(r, total), if r.below(2) == 0 { None } else { Some(pat(r, total)) }))
        .collect();
    let desc = format!("environment inputs {inputs:?} scopes {scopes:?} (n<10 intro n, n>=10 bind n-9) patterns {patterns:?} quads {quads:?}");
    rep.check(desc, total > 0, || {
        let mut interp = Counter(0);
        let mut voc = ();
        let mut rdf = RdfContextMut::new(&mut voc, &mut interp);
        // environments borrow their parent: recurse
        fn go(
            env: &Environment<u32>,
            decl: Vec<u32>,
            scopes: &[usize],
            rdf: &mut RdfContextMut<(), Counter>,
            f: &dyn Fn(&Environment<u32>, &[u32]) -> Result<(), String>,
        ) -> Result<(), String> {
            f(env, &decl)?;
            match scopes.split_first() {
                None => Ok(()),
                Some((s, rest)) => {
                    let before = rdf.interpretation.0;
                    let mut d = decl.clone();
                    let child = match s {
                        10 => env.bind([701]),
                        11 => env.bind([702, 703]),
                        12 => env.bind([704, 705, 706]),
                        n => env.intro(rdf, *n as u32),
                    };
                    match s {
                        10 => d.push(701),
                        11 => d.extend([702, 703]),
                        12 => d.extend([704, 705, 706]),
                        n => d.extend(before + 1..=before + *n as u32),
                    }
                    let created = if *s >= 10 { 0 } else { *s as u32 };
                    if rdf.interpretation.0 != before + created {
                        return Err(format!("{} resources created instead of {created}", rdf.interpretation.0 - before));
                    }
                    go(&child, d, rest, rdf, f)
                }
            }
        }
        let image = |p: &Pattern<u32>, d: &[u32]| -> Result<u32, u32> {
            match p {
                Pattern::Resource(r) => Ok(*r),
                Pattern::Var(x) => d.get(*x as usize).copied().ok_or(*x),
            }
        };
        let f = |env: &Environment<u32>, d: &[u32]| -> Result<(), String> {
            for i in 0..d.len() as u32 + 3 {
                let want = d.get(i as usize).ok_or(i.wrapping_sub(d.len() as u32));
                if env.get(i) != want {
                    return Err(format!("variable {i} resolves to {:?}, expected {want:?}", env.get(i)));
                }
                if let Some(b) = d.get(i as usize) {
                    let a = env.instantiate_pattern(&Pattern::Var(i));
                    if a != *b {
                        return Err(format!("?{i} instantiates to {a}, expected {b}"));
                    }
                }
            }
            // patterns of the scope
            let ok = |p: &Pattern<u32>| image(p, d).is_ok();
            let ps: Vec<Pattern<u32>> = patterns.iter().copied().filter(ok).collect();
            let want: Vec<u32> = ps.iter().map(|p| image(p, d).unwrap()).collect();
            let got: Vec<u32> = match ps.as_slice() {
                [] => env.instantiate_patterns(&[]).to_vec(),
                [a] => env.instantiate_patterns(&[*a]).to_vec(),
                [a, b] => env.instantiate_patterns(&[*a, *b]).to_vec(),
                [a, b, c, ..] => env.instantiate_patterns(&[*a, *b, *c]).to_vec(),
            };
            if got != want {
                return Err(format!("patterns {ps:?} instantiate to {got:?}, expected {want:?}"));
            }
            let qs: Vec<Quad<Pattern<u32>>> = quads.iter().copied().filter(|q| ok(&q.0) && ok(&q.1) && ok(&q.2) && q.3.as_ref().map(ok).unwrap_or(true)).collect();
            let img = |q: &Quad<Pattern<u32>>| -> Quad<u32> {
                Quad(image(&q.0, d).unwrap(), image(&q.1, d).unwrap(), image(&q.2, d).unwrap(), q.3.as_ref().map(|g| image(g, d).unwrap()))
            };
            for q in &qs {
                let got = env.instantiate_quad(Quad(&q.0, &q.1, &q.2, q.3.as_ref()));
                if got != img(q) {
                    return Err(format!("quad {q:?} instantiates to {got:?}, expected {:?}", img(q)));
                }
            }
            let pre = [Quad(1, 2, 3, None), Quad(1, 2, 3, Some(4)), Quad(501, 501, 501, None)];
            for graph in [None, Some(501), Some(77)] {
                let mut want: BTreeSet<Quad<u32>> = pre.iter().copied().collect();
                want.extend(qs.iter().map(|q| {
                    let q = img(q);
                    Quad(q.0, q.1, q.2, q.3.or(graph))
                }));
                let mut out: BTreeDataset<u32> = pre.iter().copied().collect();
                if graph.is_none() {
                    env.instantiate_dataset(&qs, &mut out);
                    let got: BTreeSet<Quad<u32>> = out.quads().map(|q| Quad(*q.0, *q.1, *q.2, q.3.copied())).collect();
                    if got != want {
                        return Err(format!("dataset is {got:?}, expected {want:?}"));
                    }
                }
                let mut out: BTreeDataset<u32> = pre.iter().copied().collect();
                env.instantiate_dataset_in(&qs, graph.as_ref(), &mut out);
                let got: BTreeSet<Quad<u32>> = out.quads().map(|q| Quad(*q.0, *q.1, *q.2, q.3.copied())).collect();
                if got != want {
                    return Err(format!("dataset in graph {graph:?} is {got:?}, expected {want:?}"));
                }
            }
            Ok(())
        };
        go(&Environment::Root(&inputs), inputs.clone(), &scopes, &mut rdf, &f)
    });
}

pub fn run(rep: &mut Rep) {
    let n = rep.n(15_000, 200_000);
    let mut r = rep.rng(1611);
    for _ in 0..n {
        sub_case(rep, &mut r);
    }
    rep.bound(format!("{n} random histories of at most 9 substitution operations"));
    let mut r = rep.rng(1612);
    for _ in 0..n {
        env_case(rep, &mut r);
    }
    rep.bound(format!("{n} random environments: at most 5 nested scopes, 3 inputs, 3 introductions each, 4 pattern quads"));
}
