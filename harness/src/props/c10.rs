//! C10: regular expressions and automata against a naive matcher.
use btree_range_map::{AnyRange, RangeSet};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::abs::RegExp;
use treeldr_layouts::utils::{Automaton, DetAutomaton};
use vharness::{Rep, Rng};

const ALPHA: &[char] = &['a', 'b', 'c', 'é'];

fn words(max: usize) -> Vec<Vec<char>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for w in &last {
            for c in ALPHA {
                let mut v: Vec<char> = w.clone();
                v.push(*c);
                next.push(v);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

/// End positions of the matches of `e` in `w` that start at `i`.
fn ends(e: &RegExp, w: &[char], i: usize) -> BTreeSet<usize> {
    match e {
        RegExp::Any => (i < w.len()).then_some(i + 1).into_iter().collect(),
        RegExp::Set(s) => (i < w.len() && s.iter().any(|r| has(r, w[i]))).then_some(i + 1).into_iter().collect(),
        RegExp::Sequence(l) => {
            let mut p = BTreeSet::from([i]);
            for e in l {
                p = p.iter().flat_map(|i| ends(e, w, *i)).collect();
            }
            p
        }
        RegExp::Union(l) => l.iter().flat_map(|e| ends(e, w, i)).collect(),
        RegExp::Repeat(e, min, max) => {
            let mut p = BTreeSet::from([i]);
            for _ in 0..*min {
                p = p.iter().flat_map(|i| ends(e, w, *i)).collect();
            }
            let mut all = p.clone();
            let mut k = *min;
            while k < *max {
                p = p.iter().flat_map(|i| ends(e, w, *i)).collect();
                let n = all.len();
                all.extend(p.iter().copied());
                k += 1;
                if all.len() == n && k > *min + w.len() as u32 + 1 {
                    break;
                }
            }
            if max < min {
                return BTreeSet::new();
            }
            all
        }
    }
}
fn has(r: &AnyRange<char>, c: char) -> bool {
    use std::ops::RangeBounds;
    r.contains(&c)
}
fn matches(e: &RegExp, w: &[char]) -> bool {
    ends(e, w, 0).contains(&w.len())
}

fn set(r: &mut Rng) -> RangeSet<char> {
    let mut s = RangeSet::new();
    for _ in 0..r.below(3) {
        match r.below(3) {
            0 => {
                s.insert(*r.pick(&['a', 'b']) ..= *r.pick(&['b', 'c', 'd']));
            }
            _ => {
                s.insert(*r.pick(ALPHA));
            }
        }
    }
    s
}
fn exp(r: &mut Rng, d: usize) -> RegExp {
    match if d == 0 { r.below(4) } else { r.below(12) } {
        0 => RegExp::Any,
        1 | 2 => {
            let mut s = RangeSet::new();
            s.insert(*r.pick(ALPHA));
            RegExp::Set(s)
        }
        3 => RegExp::Set(set(r)),
        4..=6 => RegExp::Sequence((0..r.below(4)).map(|_| exp(r, d - 1)).collect()),
        7 | 8 => RegExp::Union((0..r.below(4)).map(|_| exp(r, d - 1)).collect()),
        _ => {
            let min = r.below(3) as u32;
            let max = if r.one_in(2) { u32::MAX } else { min + r.below(3) as u32 };
            RegExp::Repeat(Box::new(exp(r, d - 1)), min, max)
        }
    }
}
fn show(e: &RegExp) -> String {
    match e {
        RegExp::Any => "any".into(),
        RegExp::Set(s) => {
            let v: Vec<String> = s.iter().map(|r| format!("{:?}-{:?}", r.first(), r.last())).collect();
            format!("set{v:?}").replace("Some", "")
        }
        RegExp::Sequence(l) => format!("seq[{}]", l.iter().map(show).collect::<Vec<_>>().join(" ")),
        RegExp::Union(l) => format!("union[{}]", l.iter().map(show).collect::<Vec<_>>().join(" ")),
        RegExp::Repeat(e, a, b) => format!("repeat({}, {a}, {})", show(e), if *b == u32::MAX { "inf".to_string() } else { b.to_string() }),
    }
}

fn accepts<Q: Ord + std::hash::Hash + Clone>(a: &DetAutomaton<Q>, w: &[char]) -> Result<bool, String> {
    let mut q = a.initial_state().clone();
    for c in w {
        let t: Vec<_> = a.transitions_from(&q).filter(|(l, _)| has(l, *c)).map(|(_, q)| q.clone()).collect();
        match t.len() {
            0 => return Ok(false),
            1 => q = t[0].clone(),
            _ => return Err(format!("two transitions for {c:?} from one state")),
        }
    }
    Ok(a.is_final_state(&q))
}
fn accepts_char(a: &DetAutomaton<u32, char>, w: &[char]) -> bool {
    let mut q = *a.initial_state();
    for c in w {
        match a.transitions_from(&q).find(|(l, _)| **l == *c) {
            Some((_, p)) => q = *p,
            None => return false,
        }
    }
    a.is_final_state(&q)
}

fn word(w: &[char]) -> String {
    w.iter().collect()
}

/// A non deterministic automaton described by lists.
#[derive(Clone, Debug)]
struct N {
    init: Vec<u32>,
    fin: Vec<u32>,
    tr: Vec<(u32, Option<String>, u32)>,
}
fn nfa(r: &mut Rng) -> N {
    let n = 1 + r.below(4);
    let st = |r: &mut Rng| r.below(n) as u32;
    N {
        init: (0..1 + r.below(2)).map(|_| st(r)).collect(),
        fin: (0..r.below(3)).map(|_| st(r)).collect(),
        tr: (0..r.below(8))
            .map(|_| {
                let a = st(r);
                let l = if r.one_in(3) { None } else { Some((0..1 + r.below(3)).map(|_| *r.pick(ALPHA)).collect()) };
                (a, l, st(r))
            })
            .collect(),
    }
}
fn label(s: &str) -> RangeSet<char> {
    let mut set = RangeSet::new();
    for c in s.chars() {
        set.insert(c);
    }
    set
}
fn build(n: &N) -> Automaton<u32> {
    let mut a = Automaton::new();
    for q in &n.init {
        a.add_initial_state(*q);
    }
    for q in &n.fin {
        a.add_final_state(*q);
    }
    for (p, l, q) in &n.tr {
        a.add(*p, l.as_deref().map(label), *q);
    }
    a
}
fn run_n(n: &N, w: &[char]) -> bool {
    let eps = |mut s: BTreeSet<u32>| loop {
        let m = s.len();
        for (p, l, q) in &n.tr {
            if l.is_none() && s.contains(p) {
                s.insert(*q);
            }
        }
        if s.len() == m {
            break s;
        }
    };
    let mut s = eps(n.init.iter().copied().collect());
    for c in w {
        let mut t = BTreeSet::new();
        for (p, l, q) in &n.tr {
            if s.contains(p) && l.as_ref().is_some_and(|l| l.contains(*c)) {
                t.insert(*q);
            }
        }
        s = eps(t);
    }
    n.fin.iter().any(|q| s.contains(q))
}
fn run_a<Q: Ord + Clone>(a: &Automaton<Q>, w: &[char]) -> bool {
    let states: Vec<Q> = a.transitions().map(|(q, _)| q.clone()).collect();
    let all: BTreeSet<Q> = states.iter().cloned().chain(a.final_states().iter().cloned()).collect();
    let eps = |mut s: BTreeSet<Q>| loop {
        let m = s.len();
        for q in s.clone() {
            for (l, t) in a.successors(&q) {
                if l.is_none() {
                    s.extend(t.iter().cloned());
                }
            }
        }
        if s.len() == m {
            break s;
        }
    };
    let mut s: BTreeSet<Q> = eps(all.into_iter().filter(|q| a.is_initial_state(q)).collect());
    for c in w {
        let mut t = BTreeSet::new();
        for q in &s {
            for (l, n) in a.successors(q) {
                if l.as_ref().is_some_and(|l| l.iter().any(|r| has(r, *c))) {
                    t.extend(n.iter().cloned());
                }
            }
        }
        s = eps(t);
    }
    s.iter().any(|q| a.is_final_state(q))
}

/// Text in the concrete syntax together with the expression it stands for.
fn text(r: &mut Rng, d: usize) -> (String, RegExp) {
    let opts: Vec<(String, RegExp)> = (0..1 + if r.one_in(3) { r.below(3) } else { 0 })
        .map(|_| {
            let mut s = String::new();
            let mut items = Vec::new();
            for _ in 0..r.below(4) {
                let (mut t, mut e) = match if d == 0 { r.below(4) } else { r.below(6) } {
                    0 => (".".to_string(), RegExp::Any),
                    1 => {
                        let c = *r.pick(ALPHA);
                        (c.to_string(), RegExp::Set(label(&c.to_string())))
                    }
                    2 => {
                        let c = *r.pick(&['.', '*', '(', '[', '\\', '|', '+', '?', ')', ']']);
                        (format!("\\{c}"), RegExp::Set(label(&c.to_string())))
                    }
                    3 => charset(r),
                    _ => {
                        let (t, e) = text(r, d - 1);
                        (format!("({t})"), e)
                    }
                };
                match r.below(6) {
                    0 => {
                        t.push('*');
                        e = RegExp::Repeat(Box::new(e), 0, u32::MAX);
                    }
                    1 => {
                        t.push('+');
                        e = RegExp::Repeat(Box::new(e), 1, u32::MAX);
                    }
                    2 => {
                        t.push('?');
                        e = RegExp::Repeat(Box::new(e), 0, 1);
                    }
                    _ => (),
                }
                s.push_str(&t);
                items.push(e);
            }
            (s, RegExp::Sequence(items))
        })
        .collect();
    let t = opts.iter().map(|o| o.0.clone()).collect::<Vec<_>>().join("|");
    (t, RegExp::Union(opts.into_iter().map(|o| o.1).collect()))
}
fn charset(r: &mut Rng) -> (String, RegExp) {
    let neg = r.one_in(3);
    let mut inside = RangeSet::new();
    let mut t = String::from(if neg { "[^" } else { "[" });
    for _ in 0..1 + r.below(3) {
        if r.one_in(3) {
            let (x, y) = *r.pick(&[('a', 'b'), ('b', 'd'), ('a', 'c'), ('b', 'é')]);
            t.push_str(&format!("{x}-{y}"));
            inside.insert(x..=y);
        } else {
            let c = *r.pick(ALPHA);
            t.push(c);
            inside.insert(c);
        }
    }
    t.push(']');
    let s = if neg { inside.complement() } else { inside };
    (t, RegExp::Set(s))
}

fn no_bounded(e: &RegExp) -> bool {
    match e {
        RegExp::Any => true,
        RegExp::Set(s) => !s.is_empty(),
        RegExp::Sequence(l) => l.iter().all(no_bounded),
        RegExp::Union(l) => !l.is_empty() && l.iter().all(no_bounded),
        RegExp::Repeat(e, a, b) => matches!((a, b), (0, 1) | (0, &u32::MAX) | (1, &u32::MAX)) && no_bounded(e),
    }
}

fn expression(rep: &mut Rep, e: &RegExp, ws: &[Vec<char>]) {
    rep.check(format!("expression {}", show(e)), !matches!(e, RegExp::Any), || {
        let want: Vec<bool> = ws.iter().map(|w| matches(e, w)).collect();
        let a = e.build();
        for (w, m) in ws.iter().zip(&want) {
            if accepts(&a, w)? != *m {
                return Err(format!("the automaton {} {:?}", if *m { "rejects" } else { "accepts" }, word(w)));
            }
        }
        let s = e.clone().simplified();
        let b = s.build();
        for (w, m) in ws.iter().zip(&want) {
            if matches(&s, w) != *m || accepts(&b, w)? != *m {
                return Err(format!("the simplified expression {} disagrees on {:?}", show(&s), word(w)));
            }
        }
        let n = want.iter().filter(|m| **m).count();
        if e.is_empty() && (n != 1 || !want[0]) {
            return Err("is_empty but it matches something else than the empty string".into());
        }
        if let Some(s) = e.as_singleton() {
            if !e.is_singleton() {
                return Err("as_singleton without is_singleton".into());
            }
            let c: Vec<char> = s.chars().collect();
            if !matches(e, &c) {
                return Err(format!("single match {s:?} is not a match"));
            }
            for (w, m) in ws.iter().zip(&want) {
                if *m && *w != c {
                    return Err(format!("single match {s:?} but {:?} matches too", word(w)));
                }
            }
        } else if e.is_singleton() {
            return Err("is_singleton without as_singleton".into());
        }
        if no_bounded(e) {
            let t = e.to_string();
            let p = RegExp::parse(&t).map_err(|x| format!("its text {t:?} does not parse: {x}"))?;
            for (w, m) in ws.iter().zip(&want) {
                if matches(&p, w) != *m {
                    return Err(format!("its text {t:?} reads as {} which disagrees on {:?}", show(&p), word(w)));
                }
            }
        }
        Ok(())
    });
}

pub fn run(rep: &mut Rep) {
    let ws4 = words(4);
    let ws = words(3);
    let mut r = rep.rng(10);
    let n = rep.n(2500, 60_000);
    // all repetitions of small expressions
    let base = [RegExp::Any, RegExp::Set(label("a")), RegExp::Set(label("ab")), RegExp::Sequence(vec![]), RegExp::Set(RangeSet::new()), RegExp::Sequence(vec![RegExp::Set(label("a")), RegExp::Set(label("b"))])];
    for b in &base {
        expression(rep, b, &ws4);
        for (m, k) in [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (2, 3), (0, u32::MAX), (1, u32::MAX), (2, u32::MAX), (3, 3)] {
            let e = RegExp::Repeat(Box::new(b.clone()), m, k);
            expression(rep, &e, &ws4);
            for (m, k) in [(0, 1), (0, 2), (2, 2), (0, u32::MAX), (1, u32::MAX)] {
                let f = RegExp::Repeat(Box::new(e.clone()), m, k);
                expression(rep, &f, &ws4);
                expression(rep, &RegExp::Sequence(vec![f.clone(), RegExp::Set(label("c"))]), &ws4);
                expression(rep, &RegExp::Union(vec![f, RegExp::Set(label("c"))]), &ws4);
            }
        }
    }
    for i in 0..n {
        let e = exp(&mut r, 3);
        expression(rep, &e, if i % 8 == 0 { &ws4 } else { &ws });
    }
    // concrete syntax
    let extra: Vec<Vec<char>> = ws.iter().cloned().chain([".", "*", "(", "[", "\\", "|", "+", "?", ")", "]", "a.", ".a", "d", "ad"].iter().map(|s| s.chars().collect())).collect();
    for _ in 0..n {
        let (t, e) = text(&mut r, 2);
        rep.check(format!("text {t:?}"), true, || {
            let p = RegExp::parse(&t).map_err(|x| format!("does not parse: {x}"))?;
            let a = p.build();
            for w in &extra {
                let m = matches(&e, w);
                if matches(&p, w) != m || accepts(&a, w)? != m {
                    return Err(format!("reads as {} which disagrees on {:?}", show(&p), word(w)));
                }
            }
            Ok(())
        });
    }
    // literal strings
    for w in &ws4 {
        let s = word(w);
        rep.check(format!("literal {s:?}"), !s.is_empty(), || {
            let e = RegExp::from(&s);
            if e.as_singleton().as_deref() != Some(&s) {
                return Err(format!("single match is {:?}", e.as_singleton()));
            }
            for v in &ws {
                if matches(&e, v) != (v == w) {
                    return Err(format!("disagrees on {:?}", word(v)));
                }
            }
            Ok(())
        });
    }
    // push / repeat
    for _ in 0..n {
        let (mut a, b) = (exp(&mut r, 2), exp(&mut r, 2));
        let (m, k) = *r.pick(&[(0, 1), (0, u32::MAX), (1, 3), (2, 2)]);
        rep.check(format!("push {} after {}, repeat {m} {k}", show(&b), show(&a)), true, || {
            let want = RegExp::Sequence(vec![a.clone(), b.clone()]);
            let rwant = RegExp::Repeat(Box::new(a.clone()), m, k);
            let mut ra = a.clone();
            ra.repeat(m, k);
            a.push(b.clone());
            for w in &ws {
                if matches(&want, w) != matches(&a, w) {
                    return Err(format!("gives {}", show(&a)));
                }
                if matches(&rwant, w) != matches(&ra, w) {
                    return Err(format!("repetition gives {}", show(&ra)));
                }
            }
            Ok(())
        });
    }
    // automata
    for _ in 0..n {
        let (x, y) = (nfa(&mut r), nfa(&mut r));
        rep.check(format!("automaton {x:?} and {y:?}"), !x.fin.is_empty(), || {
            let (a, b) = (build(&x), build(&y));
            let da = a.determinize();
            let db = b.determinize();
            let mut k = 0;
            let renamed: DetAutomaton<u32> = da.map(
                |_| {
                    k += 1;
                    k
                },
                |l| *l,
            );
            let mut k = 100u32;
            let tried: DetAutomaton<u32> = da
                .try_map::<_, _, ()>(
                    |_| {
                        k -= 1;
                        Ok(k)
                    },
                    |l| Ok(*l),
                )
                .unwrap();
            let p = a.product(&b, |p, q| (*p, *q));
            let back: DetAutomaton<u32> = serde_json::from_value(serde_json::to_value(&renamed).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            for w in &ws {
                let (m, o) = (run_n(&x, w), run_n(&y, w));
                let s = word(w);
                if run_a(&a, w) != m {
                    return Err(format!("the built automaton disagrees on {s:?}"));
                }
                if accepts(&da, w)? != m || accepts(&db, w)? != o {
                    return Err(format!("determinized: disagrees on {s:?}"));
                }
                if accepts(&renamed, w)? != m {
                    return Err(format!("renamed: disagrees on {s:?}"));
                }
                if accepts(&tried, w)? != m {
                    return Err(format!("try_map: disagrees on {s:?}"));
                }
                if accepts(&back, w)? != m {
                    return Err(format!("written and read again: disagrees on {s:?}"));
                }
                if run_a(&p, w) != (m && o) {
                    return Err(format!("product: disagrees on {s:?}"));
                }
                if accepts(&p.determinize(), w)? != (m && o) {
                    return Err(format!("determinized product: disagrees on {s:?}"));
                }
            }
            let states = da.states();
            let reach: BTreeSet<_> = da.reachable_states_from(da.initial_state()).collect();
            if states != reach {
                return Err("states and reachable states differ".into());
            }
            Ok(())
        });
    }
    // deterministic automata labelled by characters
    for _ in 0..n {
        let mut mk = || {
            let k = 1 + r.below(4);
            let mut t: BTreeMap<u32, BTreeMap<char, u32>> = BTreeMap::new();
            for _ in 0..r.below(9) {
                t.entry(r.below(k) as u32).or_default().insert(*r.pick(ALPHA), r.below(k) as u32);
            }
            let f: BTreeSet<u32> = (0..r.below(3)).map(|_| r.below(k) as u32).collect();
            (r.below(k) as u32, f, t)
        };
        let (x, y) = (mk(), mk());
        rep.check(format!("deterministic {x:?} and {y:?}"), !x.1.is_empty() && !y.1.is_empty(), || {
            let a = DetAutomaton::from_parts(x.0, x.1.clone(), x.2.clone());
            let mut b = DetAutomaton::new(y.0);
            for q in &y.1 {
                b.add_final_state(*q);
            }
            for (p, t) in &y.2 {
                for (l, q) in t {
                    b.add(*p, *l, *q);
                }
            }
            let p = a.product(&b, |p, q| p * 10 + q, |l, m| (l == m).then_some(*l));
            let run = |z: &(u32, BTreeSet<u32>, BTreeMap<u32, BTreeMap<char, u32>>), w: &[char]| {
                let mut q = z.0;
                for c in w {
                    match z.2.get(&q).and_then(|t| t.get(c)) {
                        Some(p) => q = *p,
                        None => return false,
                    }
                }
                z.1.contains(&q)
            };
            for w in &ws {
                let (m, o) = (run(&x, w), run(&y, w));
                if accepts_char(&a, w) != m || accepts_char(&b, w) != o || accepts_char(&p, w) != (m && o) {
                    return Err(format!("product disagrees on {:?}", word(w)));
                }
            }
            Ok(())
        });
    }
    rep.bound(format!("{n} random expressions/automata of each kind (depth <= 3, <= 4 states), every string of length <= 3 (some <= 4) over 4 characters"));
}
