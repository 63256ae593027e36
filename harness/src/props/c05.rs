//! C05: graphs, both directions.
use vharness::{model::Cfg, Rep};
pub fn run(rep: &mut Rep) {
    let mut r = rep.rng(5);
    let n = rep.n(60_000, 900_000);
    for i in 0..n {
        let cfg = Cfg { graphs: 2 + i % 2, odd: if i % 5 == 0 { 8 } else { 0 } };
        let d = r.below(3);
        super::c03::low(rep, &mut r, &cfg, d);
        super::c04::case(rep, &mut r, &cfg, d);
    }
    rep.bound(format!("{n} random layout collections naming graphs in quads and value formats, in each direction"));
}
