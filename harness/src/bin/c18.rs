//! C18: multiplication through window tables against double-and-add
use dist_saver::utils::{multiply_field_elems_with_same_group_elem, WindowTable};
use dsv_harness::*;
use proptest::prop_oneof;

/// x*P by double-and-add on the bits of x, sharing nothing with the tables
fn mul<G: CurveGroup<ScalarField = Fr>>(p: G, x: &Fr) -> G {
    use ark_ff::BigInteger;
    let mut a = G::zero();
    for b in x.into_bigint().to_bits_be() {
        a = a + a;
        if b {
            a += p;
        }
    }
    a
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    elem: FrS,
    /// number of multiplications announced
    hint: u64,
    xs: Vec<FrS>,
    /// repetitions of the scalars
    rep: u8,
    hint2: u64,
}
fn check<G: CurveGroup<ScalarField = Fr>>(c: &Case) -> Outcome {
    let g = mul(G::generator(), &c.elem.fr());
    let mut xs: Vec<Fr> = c.xs.iter().map(|x| x.fr()).collect();
    let one = xs.clone();
    for i in 0..c.rep {
        xs.extend(one.iter().map(|x| *x + Fr::from(i as u64)));
    }
    let want: Vec<G> = xs.iter().map(|x| mul(g, x)).collect();
    for hint in [c.hint, c.hint2] {
        let t = WindowTable::<G>::new(hint as usize, g);
        ensure_eq!(t.multiply_many(&xs), want, "multiply_many with hint {hint}");
        for i in [0, xs.len() / 2, xs.len().saturating_sub(1)] {
            if let Some(x) = xs.get(i) {
                ensure_eq!(t.multiply(x), want[i], "multiply with hint {hint} by {x}");
            }
        }
        for x in [Fr::zero(), Fr::one(), -Fr::one()] {
            ensure_eq!(t.multiply(&x), mul(g, &x), "multiply with hint {hint} by {x}");
        }
        ensure!(t.multiply_many(&[]).is_empty(), "no scalars");
        ensure_eq!(t, WindowTable::<G>::new(hint as usize, g), "table is not determined by its inputs");
        // part of the list gives part of the results
        let k = xs.len() / 3;
        ensure_eq!(t.multiply_many(&xs[k..]), want[k..].to_vec(), "part of the list, hint {hint}");
    }
    ensure_eq!(multiply_field_elems_with_same_group_elem(g, &xs), want, "multiply_field_elems_with_same_group_elem, {} scalars", xs.len());
    ensure!(multiply_field_elems_with_same_group_elem(g, &[]).is_empty(), "no scalars");
    Ok(Info::new(!g.is_zero() && xs.iter().any(|x| !x.is_zero()))
        .label(match xs.len() {
            0 => "no scalar",
            1 => "one scalar",
            2..=31 => "2 to 31 scalars",
            _ => "32 or more scalars",
        })
        .label(match c.hint {
            0 => "hint 0",
            1..=31 => "hint 1 to 31",
            32..=999 => "hint 32 to 999",
            _ => "hint 1000 or more",
        })
        .label_if(g.is_zero(), "identity element"))
}
fn cases(max_hint: u64, max_rep: u8) -> BoxedStrategy<Case> {
    let hint = move || {
        prop_oneof![
            2 => 0u64..4,
            2 => 28u64..36,
            4 => 0u64..130,
            2 => 0u64..1200.min(max_hint),
            2 => (0u32..64).prop_map(move |k| ((1u64 << k) + 1).min(max_hint)),
            1 => 0..=max_hint,
        ]
    };
    let xs = prop_oneof![
        1 => Just(vec![]),
        3 => proptest::collection::vec(frs(), 1),
        8 => proptest::collection::vec(frs(), 2..12),
        2 => proptest::collection::vec(frs(), 30..40),
    ];
    bx((prop_oneof![1 => Just(FrS::Zero), 12 => frs_nz()], hint(), xs, prop_oneof![12 => Just(0u8), 6 => 0..=max_rep.min(5), 1 => 0..=max_rep], hint())
        .prop_map(|(elem, hint, xs, rep, hint2)| Case { elem, hint, xs, rep, hint2 }))
}
/// Lists around and beyond powers of two
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    elem: FrS,
    n: u32,
    a: FrS,
    step: FrS,
    zeros: u8,
    hint: u64,
}
fn long<G: CurveGroup<ScalarField = Fr>>(c: &Long) -> Outcome {
    let g = mul(G::generator(), &c.elem.fr());
    let (mut x, d) = (c.a.fr(), c.step.fr());
    let (mut p, q) = (mul(g, &x), mul(g, &d));
    let (mut xs, mut want) = (vec![], vec![]);
    // an arithmetic sequence, some of the terms replaced by zero
    for i in 0..c.n {
        let z = c.zeros > 0 && i % 256 < c.zeros as u32;
        xs.push(if z { Fr::zero() } else { x });
        want.push(if z { G::zero() } else { p });
        x += d;
        p += q;
    }
    let same = |what: &str, got: Vec<G>| -> Result<(), String> {
        ensure_eq!(got.len(), want.len(), "{what}: number of products");
        let bad = (0..want.len()).find(|i| got[*i] != want[*i]);
        ensure!(bad.is_none(), "{what}: product {} of {} is wrong", bad.unwrap(), want.len());
        Ok(())
    };
    same("multiply_many", WindowTable::<G>::new(c.hint as usize, g).multiply_many(&xs))?;
    same("multiply_field_elems_with_same_group_elem", multiply_field_elems_with_same_group_elem(g, &xs))?;
    Ok(Info::new(!g.is_zero() && !d.is_zero()).label(format!("over {}", c.n.next_power_of_two() / 2)))
}
fn longs(max: u32) -> BoxedStrategy<Long> {
    let n = prop_oneof![
        2 => (9u32..17, 0u32..5).prop_map(move |(k, o)| ((1 << k) + o).saturating_sub(2).min(max)),
        1 => 300..=max.min(5000),
        1 => 300..=max,
    ];
    bx((frs_nz(), n, frs(), frs(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], 0u64..5000).prop_map(|(elem, n, a, step, zeros, hint)| Long { elem, n, a, step, zeros, hint }))
}
/// Every window of every scalar of a table: one scalar with a single window set
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sweep {
    elem: FrS,
    hint: u64,
    digit: u64,
}
fn sweep<G: CurveGroup<ScalarField = Fr>>(c: &Sweep) -> Outcome {
    let g = mul(G::generator(), &c.elem.fr());
    let t = WindowTable::<G>::new(c.hint as usize, g);
    // digit * 2^i for every i, below the order of the field
    let mut cur = Fr::from(c.digit);
    let mut p = mul(g, &cur);
    let (mut xs, mut want) = (vec![], vec![]);
    for _ in 0..255 {
        xs.push(cur);
        want.push(p);
        cur.double_in_place();
        p.double_in_place();
    }
    ensure_eq!(t.multiply_many(&xs), want, "digit {} at every position, hint {}", c.digit, c.hint);
    for i in 0..255 {
        ensure_eq!(t.multiply(&xs[i]), want[i], "digit {} at position {i}, hint {}", c.digit, c.hint);
    }
    Ok(Info::new(!g.is_zero() && c.digit != 0).label(format!("window {}", WindowTable::<G>::window_size(c.hint as usize))))
}
fn sweeps(max_hint: u64) -> BoxedStrategy<Sweep> {
    let hint = prop_oneof![3 => 0u64..100, 2 => 0u64..2000.min(max_hint), 1 => 0..=max_hint];
    bx((frs_nz(), hint, prop_oneof![0u64..64, any::<u64>()]).prop_map(|(elem, hint, digit)| Sweep { elem, hint, digit }))
}
fn main() {
    use ark_bls12_381::{G1Projective, G2Projective};
    let mut p = Prop::new("C18", "Table-based multiplication equals plain scalar multiplication");
    p.assume("size hints up to 2^20 (transparent group), 20000 (G1) and 3000 (G2): larger ones only make larger tables");
    let nt = "non-trivial: element is not the identity and some scalar is not zero";
    p.part("toy", &format!("tables, single and many scalars, empty and partial lists; transparent group; {nt}"), 3000, 100_000, || cases(1 << 20, 90), check::<toy::T<1>>);
    p.part("g1", &format!("as toy in G1 of BLS12-381; {nt}"), 400, 12_000, || cases(20_000, 4), check::<G1Projective>);
    p.part("g2", &format!("as toy in G2 of BLS12-381; {nt}"), 160, 5000, || cases(3000, 1), check::<G2Projective>);
    p.part("sweep_toy", "one digit at each of the 255 positions, all windows; non-trivial: element and digit not zero", 2000, 50_000, || sweeps(1 << 18), sweep::<toy::T<2>>);
    p.part("sweep_g1", "as sweep_toy in G1 of BLS12-381", 120, 4000, || sweeps(20_000), sweep::<G1Projective>);
    p.part("sweep_g2", "as sweep_toy in G2 of BLS12-381", 40, 1500, || sweeps(3000), sweep::<G2Projective>);
    p.part("long_toy", "lists of 300..70000 scalars; non-trivial: element not the identity, scalars differ", 60, 2000, || longs(70_000), long::<toy::T<1>>);
    p.part("long_g1", "lists of 300..6000 scalars in G1 of BLS12-381; non-trivial as long_toy", 16, 400, || longs(6000), long::<G1Projective>);
    p.part("long_g2", "lists of 300..2500 scalars in G2 of BLS12-381; non-trivial as long_toy", 8, 200, || longs(2500), long::<G2Projective>);
    p.finish()
}
