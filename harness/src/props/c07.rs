//! C07: decimal and native representations of numbers.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::ToPrimitive;
use treeldr_layouts::value::{NativeNumber, Number};
use vharness::{gen, Rep};

fn one(rep: &mut Rep, q: BigRational) {
    rep.check(format!("number {q}"), q.numer().to_i64() != Some(0), || {
        let n = Number::new(q.clone());
        let want = gen::decimal(&q);
        let got = n.decimal_representation();
        if got != want {
            return Err(format!("decimal representation is {got:?}, expected {want:?}"));
        }
        if let Some(s) = &got {
            if gen::read_decimal(s).as_ref() != Some(&q) {
                return Err(format!("decimal representation {s} denotes another number"));
            }
        }
        if n.is_integer() != q.is_integer() || n.as_integer() != (if q.is_integer() { Some(q.numer()) } else { None }) {
            return Err("is_integer/as_integer is wrong".into());
        }
        if n.as_big_rational() != &q || n.clone().into_big_rational() != q || BigRational::from(n.clone()) != q || Number::from(q.clone()) != n {
            return Err("the number is not the rational it was made from".into());
        }
        let nat = n.as_native();
        if q.is_integer() {
            let i = q.numer();
            let ok = match (&nat, i.to_u64(), i.to_i64()) {
                (NativeNumber::U64(u), Some(v), _) => *u == v,
                (NativeNumber::I64(u), _, Some(v)) => *u == v,
                (NativeNumber::F64(_), None, None) => true,
                _ => false,
            };
            if !ok {
                return Err("native representation of the integer is not exact".into());
            }
        }
        if let NativeNumber::F64(f) = nat {
            let want = q.to_f64().unwrap();
            if f.to_bits() != want.to_bits() || n.to_f64().to_bits() != want.to_bits() {
                return Err(format!("native representation is {f}, expected {want}"));
            }
        }
        Ok(())
    });
}

macro_rules! prim {
    ($rep:ident, $r:ident, $($t:ty),*) => {$(
        for _ in 0..$rep.n(600, 5000) {
            let x = match $r.below(4) { 0 => <$t>::MIN, 1 => <$t>::MAX, _ => $r.next() as $t };
            $rep.check(format!("{} as {}", x, stringify!($t)), true, || {
                if Number::from(x).into_big_rational() == BigRational::from_integer(BigInt::from(x)) { Ok(()) } else { Err("number made from the machine integer differs".into()) }
            });
        }
    )*};
}

pub fn run(rep: &mut Rep) {
    let k = rep.n(120, 300) as i64;
    for p in -k..=k {
        for q in 1..=k {
            one(rep, BigRational::new(p.into(), q.into()));
        }
    }
    rep.bound(format!("all p/q with |p| <= {k}, q <= {k}"));
    let mut r = rep.rng(7);
    let n = rep.n(60_000, 1_000_000);
    for _ in 0..n {
        let q = gen::rational(&mut r);
        one(rep, q);
    }
    for p in gen::INTS {
        for d in [1i64, 2, 4, 5, 8, 10, 25, 125, 1000, 1 << 20] {
            one(rep, BigRational::new((*p).into(), d.into()));
        }
    }
    prim!(rep, r, u8, u16, u32, u64, i8, i16, i32, i64);
    for i in 0..rep.n(10_000, 100_000) {
        let bits = match i {
            0 => 0u64,
            1 => 1,
            2 => f64::INFINITY.to_bits(),
            3 => f64::NAN.to_bits(),
            _ => r.next(),
        };
        let x = if r.one_in(2) { r.range(-1000, 1000) as f64 / *r.pick(&[1.0, 2.0, 3.0, 4.0, 10.0, 1024.0]) } else { f64::from_bits(bits) };
        rep.check(format!("float {x:?}"), x != 0.0, || match (Number::try_from(x), x.is_finite()) {
            (Ok(n), true) if n.to_f64() == x => Ok(()),
            (Err(_), false) => Ok(()),
            _ => Err("number made from the float differs".into()),
        });
        let y = x as f32;
        rep.check(format!("float32 {y:?}"), y != 0.0, || match (Number::try_from(y), y.is_finite()) {
            (Ok(n), true) if n.to_f64() == y as f64 => Ok(()),
            (Err(_), false) => Ok(()),
            _ => Err("number made from the float differs".into()),
        });
    }
    rep.bound(format!("{n} random rationals"));
}
