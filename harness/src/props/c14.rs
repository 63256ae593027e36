//! C14: terms of dehydrated resources.
use vharness::{model::Cfg, Rep};
pub fn run(rep: &mut Rep) {
    let mut r = rep.rng(14);
    let n = rep.n(120_000, 1_500_000);
    for i in 0..n {
        let cfg = Cfg { graphs: if i % 4 == 0 { 4 } else { 0 }, odd: if i % 3 == 0 { 10 } else { 0 } };
        let d = r.below(4);
        super::c03::high(rep, &mut r, &cfg, d);
    }
    rep.bound(format!("{n} random layout collections with a value each, input counts 0..3, four generator settings"));
}
