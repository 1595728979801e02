use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    keys: u64,
    dist: u8,
    chunks: Vec<u16>,
    rng: RngS,
    ct: Vec<CtEdit>,
    key: Vec<KeyEdit>,
}

/// All ways of asking for the verdict
fn verdicts<E: Eng>(v: &[E::G1Affine], ek: &EncryptionKey<E>, gens: &Gens<E>) -> Vec<(&'static str, dist_saver::Result<()>)> {
    let l = v.len();
    let (pek, pg) = (PreparedEncryptionKey::from(ek.clone()), PreparedEncryptionGens::from(gens.clone()));
    let ct = to_ct::<E>(v);
    vec![
        ("function", Encryption::verify_ciphertext_commitment(&v[0], &v[1..l - 1], &v[l - 1], ek.clone(), gens.clone())),
        ("function, prepared", Encryption::verify_ciphertext_commitment(&v[0], &v[1..l - 1], &v[l - 1], pek.clone(), pg.clone())),
        ("method", ct.verify_commitment(ek.clone(), gens.clone())),
        ("method, prepared", ct.verify_commitment(pek.clone(), pg.clone())),
        ("method, prepared key", ct.verify_commitment(pek, gens.clone())),
        ("method, prepared generators", ct.verify_commitment(ek.clone(), pg)),
    ]
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let n = c.chunks.len();
    let (mut ek, b) = if c.dist == 0 {
        let k = Single::<E>::new(c.keys, n, 1)?;
        (k.ek, k.b)
    } else {
        let k = Dist::<E>::new(c.keys, n, c.dist as usize, 1)?;
        (k.ek, k.b)
    };
    let other = Single::<E>::new(c.keys ^ 0xff, n, 0)?;
    let mut rng = c.rng.rng();
    let (v0, _) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.chunks.clone(), &ek, &b.g_i));
    let (w, _) = must!(Encryption::encrypt_decomposed_message(&mut c.rng.side(3), c.chunks.iter().rev().cloned().collect(), &ek, &b.g_i));
    let mut gens = b.gens.clone();
    for (name, r) in verdicts::<E>(&v0, &ek, &gens) {
        ensure!(r.is_ok(), "honest ciphertext rejected by {name}: {r:?}");
    }
    let mut v = v0.clone();
    let ek0 = ek.clone();
    for e in &c.ct {
        e.apply::<E>(&mut v, &w, &ek0, &b.g_i);
    }
    for e in &c.key {
        e.apply(&mut ek, &mut gens, &other.ek);
    }
    let same = v == v0 && ek == ek0 && gens == b.gens;
    let fit = fits(&v, &ek);
    let accept = fit && defect::<E>(&v, &ek.Z, &gens.H).is_zero();
    // a single changed pairing argument cannot leave the product unchanged
    if !same && c.key.is_empty() && v.len() == v0.len() && v.iter().zip(&v0).filter(|(a, b)| a != b).count() == 1 {
        ensure!(!accept, "oracle accepts a single changed component");
    }
    for (name, r) in verdicts::<E>(&v, &ek, &gens) {
        ensure_eq!(r.is_ok(), accept, "verdict of {name} ({r:?}), sizes fit: {fit}");
    }
    Ok(Info::new(!same)
        .label(if !fit { "sizes do not fit" } else if accept { if same { "unchanged" } else { "changed, consistent" } } else { "inconsistent" })
        .label_if(c.dist > 0, "distributed key"))
}
fn cases(maxn: usize) -> BoxedStrategy<Case> {
    let len = prop_oneof![12 => 1..=maxn, 1 => 7usize..=9];
    bx((any::<u64>(), prop_oneof![3 => Just(0u8), 1 => 1u8..=3], len.prop_flat_map(|n| chunks(16, n)), rng_edge(),
        prop_oneof![
            3 => (proptest::collection::vec(ct_edit(), 1), Just(vec![])),
            2 => (proptest::collection::vec(ct_edit(), 0..=3), Just(vec![])),
            2 => (Just(vec![]), proptest::collection::vec(key_edit(), 1..=2)),
            2 => (proptest::collection::vec(ct_edit(), 1..=2), proptest::collection::vec(key_edit(), 1..=2)),
        ])
        .prop_map(|(keys, dist, chunks, rng, (ct, key))| Case { keys, dist, chunks, rng, ct, key }))
}
/// A ciphertext that is the identity except for groups of components, some of which satisfy the equation by themselves
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Groups {
    keys: u64,
    n: usize,
    parties: usize,
    groups: Vec<(Vec<(u8, FrS)>, bool)>,
    /// where the groups lie: all over, in the first half, in the last half
    part: u8,
}
fn check_groups<E: Eng>(c: &Groups) -> Outcome {
    let n = c.n;
    let d = Dist::<E>::new(c.keys, n, c.parties, 1)?;
    // coefficient of each component: t_0 .. t_n of the whole key, then that of the commitment
    let mut t: Vec<Fr> = (0..=n).map(|i| d.sks.iter().map(|s| s.t[i]).sum()).collect();
    t.push(-Fr::one());
    let mut x = vec![Fr::zero(); n + 2];
    let (mut ok, mut some) = (true, false);
    for (g, cancel) in &c.groups {
        let at: Vec<usize> = g.iter().map(|(p, _)| match c.part % 4 {
            0 => (n + 2) / 2 + spread(*p, n + 2) / 2,
            1 => spread(*p, n + 2) / 2,
            _ => spread(*p, n + 2),
        }.min(n + 1)).collect();
        let mut total = Fr::zero();
        for (i, (_, v)) in at.iter().zip(g) {
            x[*i] += v.fr();
            total += v.fr() * t[*i];
        }
        if *cancel && !t[at[0]].is_zero() {
            x[at[0]] -= total * t[at[0]].inverse().unwrap();
            some |= g.len() > 1;
        }
    }
    let total: Fr = x.iter().zip(&t).map(|(x, t)| *x * t).sum();
    ok &= total.is_zero();
    let v: Vec<E::G1Affine> = x.iter().map(|x| E::g1(*x)).collect();
    ensure_eq!(ok, defect::<E>(&v, &d.ek.Z, &d.b.gens.H).is_zero(), "two forms of the relation");
    for (name, r) in verdicts::<E>(&v, &d.ek, &d.b.gens) {
        ensure_eq!(r.is_ok(), ok, "verdict of {name} ({r:?})");
    }
    Ok(Info::new(x.iter().any(|x| !x.is_zero())).label(if ok { "accepted" } else { "rejected" }).label_if(some && !ok, "some groups consistent, all together not").label(format!("{n} chunks")))
}
fn groups(ns: BoxedStrategy<usize>) -> BoxedStrategy<Groups> {
    let group = (proptest::collection::vec((any::<u8>(), frs_nz()), 1..5), proptest::bool::weighted(0.7));
    bx((any::<u64>(), ns, 1usize..=2, proptest::collection::vec(group, 1..4), any::<u8>()).prop_map(|(keys, n, parties, groups, part)| Groups { keys, n, parties, groups, part }))
}
fn main() {
    let mut p = Prop::new("C03", "Ciphertext commitment check accepts exactly the consistent ciphertexts");
    p.assume("key secrets and generator logarithms are non-zero (probability of the contrary < 2^-240)");
    p.part("verdict_toy", "edited ciphertexts, keys, generators against the exact exponent relation; non-trivial: something changed", 4000, 150000, || cases(6), check::<Toy>);
    p.part("verdict_bls", "as verdict_toy on the real curve, oracle from single pairings", 150, 8000, || cases(4), check::<Bls>);
    fn wide() -> BoxedStrategy<Case> {
        bx((cases(6), prop_oneof![4 => Just(16usize), 4 => Just(32), 4 => Just(64), 1 => Just(85), 2 => Just(128), 2 => Just(255)]).prop_flat_map(|(c, n)| chunks(8, n).prop_map(move |chunks| Case { chunks, ..c.clone() })))
    }
    p.part("verdict_wide_toy", "16, 32, 64, 85, 128 and 255 chunks; non-trivial: something changed", 400, 15000, wide, check::<Toy>);
    p.part("verdict_wide_bls", "16, 32, 64, 85, 128 and 255 chunks, real curve; non-trivial: something changed", 16, 600, wide, check::<Bls>);
    fn ns() -> BoxedStrategy<usize> {
        bx(prop_oneof![3 => 1usize..=6, 1 => Just(16usize), 1 => Just(32), 1 => Just(64), 1 => Just(85), 3 => Just(128), 3 => Just(255)])
    }
    let nt = "mostly identity elements, groups of components that do or do not satisfy the equation by themselves; non-trivial: not all identity";
    p.part("groups_toy", nt, 1200, 50000, || groups(ns()), check_groups::<Toy>);
    p.part("groups_bls", &format!("real curve; {nt}"), 32, 1500, || groups(bx(prop_oneof![4 => 1usize..=6, 1 => Just(16usize), 1 => Just(64), 1 => Just(128)])), check_groups::<Bls>);
    p.finish()
}
