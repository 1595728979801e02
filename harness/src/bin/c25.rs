//! C25: the exported helper macros against what they are documented to expand to
use dist_saver::{concat_slices, impl_deref, impl_indexed_iter, impl_into_indexed_iter, impl_into_iter, impl_iter, join, multi_pairing, unnest_tuple};
use dsv_harness::*;
use proptest::prop_oneof;
use rayon::prelude::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

/// one expression of a `join!`
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Expr {
    value: u64,
    /// work done before the value is there
    work: u16,
    panics: bool,
    /// the expression is itself a `join!`
    nested: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct JoinCase {
    threads: usize,
    e: Vec<Expr>,
}
fn eval(e: &Expr, i: usize, count: &[AtomicU32]) -> (usize, u64) {
    count[i].fetch_add(1, SeqCst);
    let mut x = e.value;
    for _ in 0..e.work {
        x = x.rotate_left(7).wrapping_mul(0x9E3779B97F4A7C15);
    }
    if e.panics {
        std::panic::panic_any(format!("planned {i}"));
    }
    if e.nested {
        let (a, b, c) = join!(x ^ 1, x ^ 2, x ^ 3);
        x = a.wrapping_mul(3).wrapping_add(b.wrapping_mul(5)).wrapping_add(c.wrapping_mul(7));
    }
    (i, x)
}
fn joined(e: &[Expr], c: &[AtomicU32]) -> Vec<(usize, u64)> {
    // values of different types, so that their places cannot be exchanged without notice being taken either
    match e.len() {
        1 => vec![join!(eval(&e[0], 0, c))],
        2 => {
            let r = join!(eval(&e[0], 0, c), eval(&e[1], 1, c));
            vec![r.0, r.1]
        }
        3 => {
            let r = join!(eval(&e[0], 0, c), eval(&e[1], 1, c), eval(&e[2], 2, c));
            vec![r.0, r.1, r.2]
        }
        4 => {
            let r = join!(eval(&e[0], 0, c), eval(&e[1], 1, c), eval(&e[2], 2, c), eval(&e[3], 3, c));
            vec![r.0, r.1, r.2, r.3]
        }
        5 => {
            let r = join!(eval(&e[0], 0, c), eval(&e[1], 1, c), eval(&e[2], 2, c), eval(&e[3], 3, c), eval(&e[4], 4, c));
            vec![r.0, r.1, r.2, r.3, r.4]
        }
        _ => {
            let r = join!(eval(&e[0], 0, c), eval(&e[1], 1, c), eval(&e[2], 2, c), eval(&e[3], 3, c), eval(&e[4], 4, c), eval(&e[5], 5, c));
            vec![r.0, r.1, r.2, r.3, r.4, r.5]
        }
    }
}
fn counters(n: usize) -> Vec<AtomicU32> {
    (0..n).map(|_| AtomicU32::new(0)).collect()
}
fn join_check(c: &JoinCase) -> Outcome {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().map_err(|e| e.to_string())?;
    let n = c.e.len();
    let planned: Vec<String> = c.e.iter().enumerate().filter(|(_, e)| e.panics).map(|(i, _)| format!("planned {i}")).collect();
    let count = counters(n);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pool.install(|| joined(&c.e, &count))));
    match r {
        Ok(v) => {
            ensure!(planned.is_empty(), "the panic of an expression is lost: {planned:?}");
            let mut plain = vec![];
            let again = counters(n);
            for (i, e) in c.e.iter().enumerate() {
                plain.push(eval(e, i, &again));
            }
            ensure_eq!(v, plain, "join! of {n} expressions");
            let times: Vec<u32> = count.iter().map(|x| x.load(SeqCst)).collect();
            ensure_eq!(times, vec![1; n], "number of times each expression was evaluated");
        }
        Err(p) => {
            let what = p.downcast_ref::<String>().cloned().unwrap_or_else(|| "another panic".into());
            ensure!(planned.contains(&what), "join! of {n} expressions panicked with {what}, planned: {planned:?}");
            ensure!(count.iter().all(|x| x.load(SeqCst) <= 1), "an expression was evaluated more than once");
        }
    }
    let u = |i: usize| c.e[i.min(n - 1)].value ^ i as u64;
    ensure_eq!(unnest_tuple!(() => u(0)), u(0), "unnest_tuple! of one");
    ensure_eq!(unnest_tuple!((), () => (u(0), u(1))), (u(0), u(1)), "unnest_tuple! of two");
    ensure_eq!(unnest_tuple!((), (), () => (u(0), (u(1), u(2)))), (u(0), u(1), u(2)), "unnest_tuple! of three");
    ensure_eq!(unnest_tuple!((), (), (), () => (u(0), (u(1), (u(2), u(3))))), (u(0), u(1), u(2), u(3)), "unnest_tuple! of four");
    ensure_eq!(
        unnest_tuple!((), (), (), (), () => (u(0), (u(1), (u(2), (u(3), u(4)))))),
        (u(0), u(1), u(2), u(3), u(4)),
        "unnest_tuple! of five"
    );
    ensure_eq!(
        unnest_tuple!((), (), (), (), (), () => (u(0), (u(1), (u(2), (u(3), (u(4), u(5))))))),
        (u(0), u(1), u(2), u(3), u(4), u(5)),
        "unnest_tuple! of six"
    );
    Ok(Info::new(n > 1)
        .label(format!("{n} expressions"))
        .label_if(!planned.is_empty(), "a panicking expression")
        .label_if(c.e.iter().any(|e| e.nested), "nested")
        .label_if(c.threads > 1, "several threads"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SliceCase {
    p: Vec<Vec<u8>>,
    w: Vec<Vec<u64>>,
    n: u64,
}
/// what the crate itself uses it for: prefixes, constants and numbers side by side
fn slices_check(c: &SliceCase) -> Outcome {
    let p = &c.p;
    let flat = |k: usize| p[..k].concat();
    ensure_eq!(concat_slices!(p[0]), flat(1), "one slice");
    ensure_eq!(concat_slices!(p[0], p[1]), flat(2), "two slices");
    ensure_eq!(concat_slices!(&p[0], p[1].as_slice(), p[2]), flat(3), "three slices");
    ensure_eq!(concat_slices!(p[0], p[1], p[2], p[3]), flat(4), "four slices");
    ensure_eq!(concat_slices!(p[0], p[1], p[2], p[3], p[4]), flat(5), "five slices");
    ensure_eq!(concat_slices!(p[0], p[1], p[2], p[3], p[4], p[5], p[6]), flat(7), "seven slices");
    let mut want = p[0].clone();
    want.extend(b"-attempt-");
    want.extend(c.n.to_le_bytes());
    ensure_eq!(concat_slices!(p[0], b"-attempt-", c.n.to_le_bytes()), want, "slice, constant, number");
    let w = &c.w;
    let mut want = w[0].clone();
    want.extend(&w[1]);
    want.extend(&w[0]);
    want.push(c.n);
    ensure_eq!(concat_slices!(w[0], w[1], &w[0][..], [c.n]), want, "words");
    Ok(Info::new(p.iter().filter(|x| !x.is_empty()).count() > 1).label_if(p.iter().any(|x| x.is_empty()), "an empty slice"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PairCase {
    a: Vec<FrS>,
    b: Vec<FrS>,
}
fn pair_check<E: Eng>(c: &PairCase) -> Outcome {
    let a: Vec<E::G1Affine> = c.a.iter().map(|x| E::g1(x.fr())).collect();
    let b: Vec<E::G2Affine> = c.b.iter().map(|x| E::g2(x.fr())).collect();
    let (pa, pb): (Vec<E::G1>, Vec<E::G2>) = (a.iter().map(|x| x.into_group()).collect(), b.iter().map(|x| x.into_group()).collect());
    let one = |k: usize| -> PairingOutput<E> { (0..k).map(|i| E::pairing(a[i], b[i])).sum() };
    let r1: PairingOutput<E> = multi_pairing! { a[0], b[0] };
    let r2: PairingOutput<E> = multi_pairing! { a[0], b[0]; a[1], b[1] };
    let r3: PairingOutput<E> = multi_pairing! { using E: a[0], b[0]; a[1], b[1]; a[2], b[2] };
    let r4: PairingOutput<E> = multi_pairing! { using E: pa[0], pb[0]; pa[1], pb[1]; pa[2], pb[2]; pa[3], pb[3] };
    for (k, r) in [r1, r2, r3, r4].into_iter().enumerate() {
        ensure_eq!(r, one(k + 1), "multi_pairing! of {} pairs", k + 1);
    }
    // by the exponents, nothing paired one by one
    let x: Fr = (0..4).map(|i| c.a[i].fr() * c.b[i].fr()).sum();
    ensure_eq!(r4, E::pairing(E::g1(x), E::g2(Fr::one())), "exponent of the product");
    Ok(Info::new(!x.is_zero() && c.a.iter().zip(&c.b).skip(1).all(|(a, b)| a.fr() * b.fr() != c.a[0].fr() * c.b[0].fr())))
}
#[derive(Debug, PartialEq, Clone)]
struct Plain(Vec<u64>);
impl_deref! { Plain(Vec<u64>) }
#[derive(Debug, PartialEq, Clone)]
struct Wrap<T: core::fmt::Debug>(Vec<T>);
impl_deref! { Wrap<T: core::fmt::Debug>(Vec<T>) }
fn iter(v: &[u64]) -> impl_iter!(<Item = u64> + '_) {
    v.par_iter().map(|x| x ^ 1)
}
fn into_iter(v: &[u64]) -> impl_into_iter!(<Item = u64> + '_) {
    v.par_iter().map(|x| x ^ 2)
}
fn indexed(v: &[u64]) -> impl_indexed_iter!(<Item = u64> + '_) {
    v.par_iter().map(|x| x ^ 3)
}
fn into_indexed(v: &[u64]) -> impl_into_indexed_iter!(<Item = u64> + '_) {
    v.par_iter().map(|x| x ^ 4)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrapCase {
    v: Vec<u64>,
    i: u8,
    x: u64,
}
fn wrap_check(c: &WrapCase) -> Outcome {
    let mut model = c.v.clone();
    let mut p = Plain(c.v.clone());
    let mut o = Wrap(c.v.clone());
    ensure_eq!(*p, model, "the wrapped value");
    ensure_eq!(*o, model, "the wrapped value, generic");
    if !model.is_empty() {
        let i = c.i as usize % model.len();
        model[i] = c.x;
        p[i] = c.x;
        o[i] = c.x;
    }
    model.push(c.x);
    p.push(c.x);
    o.push(c.x);
    ensure_eq!(p.0, model, "changed through the wrapper");
    ensure_eq!(o.0, model, "changed through the wrapper, generic");
    ensure_eq!((p.len(), o.len()), (model.len(), model.len()), "length through the wrapper");
    ensure!(std::ptr::eq(&*p, &p.0) && std::ptr::eq(&*o, &o.0), "the wrapper gives out something else than what it holds");
    let xor = |k: u64| -> Vec<u64> { model.iter().map(|x| x ^ k).collect() };
    let mut got: Vec<u64> = iter(&model).collect();
    ensure_eq!(got, xor(1), "impl_iter!");
    got = into_iter(&model).into_par_iter().collect();
    ensure_eq!(got, xor(2), "impl_into_iter!");
    let it = indexed(&model);
    ensure_eq!(it.len(), model.len(), "length known, impl_indexed_iter!");
    got = it.rev().collect();
    got.reverse();
    ensure_eq!(got, xor(3), "impl_indexed_iter!");
    let z: Vec<(u64, u64)> = into_indexed(&model).into_par_iter().zip(indexed(&model)).collect();
    ensure_eq!(z, xor(4).into_iter().zip(xor(3)).collect::<Vec<_>>(), "impl_into_indexed_iter!");
    Ok(Info::new(model.len() > 2))
}
fn exprs() -> BoxedStrategy<JoinCase> {
    let e = (any::<u64>(), prop_oneof![2 => Just(0u16), 1 => 0u16..2000], proptest::bool::weighted(0.03), any::<bool>())
        .prop_map(|(value, work, panics, nested)| Expr { value, work, panics, nested });
    bx((1usize..=8, (1usize..=6).prop_flat_map(move |n| proptest::collection::vec(e.clone(), n))).prop_map(|(threads, e)| JoinCase { threads, e }))
}
fn bytes() -> BoxedStrategy<SliceCase> {
    let s = || prop_oneof![1 => Just(vec![]), 4 => proptest::collection::vec(any::<u8>(), 0..40)];
    bx((proptest::collection::vec(s(), 7), proptest::collection::vec(proptest::collection::vec(any::<u64>(), 0..9), 2), any::<u64>())
        .prop_map(|(p, w, n)| SliceCase { p, w, n }))
}
fn pairs() -> BoxedStrategy<PairCase> {
    bx((proptest::collection::vec(frs(), 4), proptest::collection::vec(frs(), 4)).prop_map(|(a, b)| PairCase { a, b }))
}
fn wraps() -> BoxedStrategy<WrapCase> {
    bx((proptest::collection::vec(any::<u64>(), 0..200), any::<u8>(), any::<u64>()).prop_map(|(v, i, x)| WrapCase { v, i, x }))
}
fn main() {
    let mut p = Prop::new("C25", "The exported helper macros compute what they are documented to expand to");
    p.assume("the macros are expanded in the parallel build here; join! and concat_slices! in the sequential builds are compared with it by C16");
    p.part("join", "join! of 1 to 6 expressions in pools of 1 to 8 threads, and unnest_tuple!; non-trivial: more than one expression", 3000, 40_000, exprs, join_check);
    p.part("slices", "concat_slices! of 1 to 7 pieces; non-trivial: two pieces that are not empty", 20_000, 400_000, bytes, slices_check);
    p.part("pairing_toy", "multi_pairing! of 1 to 4 pairs, transparent pairing; non-trivial: the product is not one", 5000, 60_000, pairs, pair_check::<Toy>);
    p.part("pairing_bls", "multi_pairing! of 1 to 4 pairs, BLS12-381; non-trivial: the product is not one", 60, 3000, pairs, pair_check::<Bls>);
    p.part("types", "impl_deref! and the iterator type macros; non-trivial: more than two elements", 5000, 100_000, wraps, wrap_check);
    p.finish()
}
