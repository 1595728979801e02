use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    keys: u64,
    dist: u8,
    msgs: Vec<Vec<u16>>,
    rng: RngS,
    order: u64,
    /// how to group: at each step the two ciphertexts to add
    tree: Vec<(u8, u8)>,
    /// search range: bits needed for the largest sum plus this
    slack: i8,
    mism: i8,
    #[serde(default)]
    twin: u8,
    /// ciphertexts made with equal or opposite randomness
    #[serde(default)]
    same: u8,
}
/// Add everything in the given tree order
fn tree_add<E: Eng>(mut v: Vec<Vec<E::G1Affine>>, tree: &[(u8, u8)]) -> Result<Vec<E::G1Affine>, String> {
    let mut t = tree.iter().cycle();
    while v.len() > 1 {
        let (a, b) = t.next().copied().unwrap_or((0, 1));
        let x = v.swap_remove(a as usize % v.len());
        let y = v.swap_remove(b as usize % v.len());
        v.push(must!(Encryption::<E>::add_cts(&x, &y)));
    }
    Ok(v.pop().unwrap())
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let (k, n) = (c.msgs.len(), c.msgs[0].len());
    enum K<E: Eng> { S(Single<E>), D(Dist<E>) }
    let key = if c.dist == 0 { K::S(Single::<E>::new(c.keys, n, 1)?) } else { K::D(Dist::<E>::related(Base::new(c.keys, n, 1), c.keys, n, c.dist as usize, c.twin)?) };
    let (ek, b) = match &key { K::S(s) => (&s.ek, &s.b), K::D(d) => (&d.ek, &d.b) };
    let mut rng = c.rng.rng();
    let (mut cts, mut rs) = (vec![], Fr::zero());
    let mut sum = vec![0u64; n];
    for (i, m) in c.msgs.iter().enumerate() {
        if c.same > 0 {
            rng = c.rng.alike(c.same, i as u64);
        }
        let (v, r) = must!(Encryption::encrypt_decomposed_message(&mut rng, m.clone(), ek, &b.g_i));
        rs += r;
        sum.iter_mut().zip(m).for_each(|(a, b)| *a += *b as u64);
        cts.push(v);
    }
    let ord: Vec<_> = perm(k, c.order).into_iter().map(|i| cts[i].clone()).collect();
    let total = tree_add::<E>(ord, &c.tree)?;
    let ms: Vec<Fr> = sum.iter().map(|x| Fr::from(*x)).collect();
    ensure_eq!(total, formula_ct(&ms, rs, ek, &b.g_i), "sum of ciphertexts is the ciphertext of the sums");
    let ct = to_ct::<E>(&total);
    must!(ct.verify_commitment(ek.clone(), b.gens.clone()));
    // lengths
    if c.mism != 0 {
        let mut short = cts[0].clone();
        if c.mism < 0 {
            short.truncate(short.len().saturating_sub(c.mism.unsigned_abs() as usize));
        } else {
            for _ in 0..c.mism { short.push(cts[0][0]) }
        }
        ensure!(Encryption::<E>::add_cts(&short, &total).is_err(), "ciphertexts of different lengths added (short first)");
        ensure!(Encryption::<E>::add_cts(&total, &short).is_err(), "ciphertexts of different lengths added (long first)");
    }
    // decryption
    let max = *sum.iter().max().unwrap();
    let need = (64 - max.leading_zeros()).max(1) as i32;
    let range = (need + c.slack as i32).clamp(1, 20) as u8;
    let bound = if range >= 16 { 65535 } else { (1u64 << range) - 1 };
    let want: Option<Vec<u16>> = (max <= bound).then(|| sum.iter().map(|x| *x as u16).collect());
    let got = match &key {
        K::S(s) => {
            let a = Encryption::decrypt_to_chunks(&total[0], &total[1..n + 1], &s.sk, s.dk.clone(), &b.g_i, range).map(|x| x.0);
            if range <= 8 {
                let pp = must!(s.dk.pairing_powers(range, &b.g_i));
                let t = Encryption::decrypt_to_chunks_given_pairing_powers(&total[0], &total[1..n + 1], &s.sk, s.dk.clone(), &b.g_i, range, Some(&pp)).map(|x| x.0);
                ensure_eq!(t.ok(), want, "aggregate decrypted with tables");
            }
            a
        }
        K::D(d) => {
            let (skd, ekd) = must!(Fkeygen_dest(&mut c.rng.side(2), &b.gens));
            let mut side = c.rng.side(3);
            let mut acc: Option<(Vec<E::G1Affine>, E::G1Affine)> = None;
            for s in &d.sks {
                let (w, g) = must!(Encryption::re_encrypt_share(&mut side, &b.gens, &total[0], &total[1..n + 1], &ekd, s));
                acc = Some(match acc {
                    None => (w, g),
                    Some((w0, g0)) => must!(Encryption::<E>::combine_re_encrypt_share(&g0, &g, &w0, &w)),
                });
            }
            let (w, g) = acc.unwrap();
            let sw = must!(Encryption::<E>::combine_ct_with_w(&b.gens, &total[1..n + 1], &g, &w));
            Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &b.g_i, range)
        }
    };
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure_eq!(g, w, "decrypted aggregate"),
        (Err(_), None) => {}
        _ => return Err(format!("aggregate {sum:?} with range {range}: decryption gave {got:?}")),
    }
    Ok(Info::new(k > 1)
        .label(format!("{k} ciphertexts"))
        .label(if want.is_some() { "in range" } else { "out of range" })
        .label_if(c.same > 0 && k > 1, "equal or opposite randomness")
        .label_if(c.dist > 0, "after key switching")
        .label_if(c.dist > 1 && c.twin > 0, "equal or opposite secrets")
        .label_if(max > c.msgs.iter().flatten().map(|x| *x as u64).max().unwrap(), "sum exceeds every addend"))
}
fn cases(bits: BoxedStrategy<u8>, maxn: usize, maxk: usize) -> BoxedStrategy<Case> {
    bx((bits, 1..=maxn, prop_oneof![1 => Just(1usize), 9 => 2..=maxk]).prop_flat_map(|(bits, n, k)| {
        (any::<u64>(), prop_oneof![2 => Just(0u8), 2 => 1u8..=4], proptest::collection::vec(chunks(bits, n), k), rng_edge(), any::<u64>(),
            proptest::collection::vec((any::<u8>(), any::<u8>()), 1..8), prop_oneof![3 => 0i8..=2, 1 => -2i8..=-1], (-3i8..=3, alike()), twins())
            .prop_map(|(keys, dist, msgs, rng, order, tree, slack, (mism, same), twin)| Case { keys, dist, msgs, rng, order, tree, slack, mism, twin, same })
    }))
}

/// Raw vectors of points
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    a: Vec<FrS>,
    b: Vec<(u8, FrS)>,
}
fn check_raw<E: Eng>(c: &Raw) -> Outcome {
    let a: Vec<Fr> = c.a.iter().map(|x| x.fr()).collect();
    // equal, opposite, identity or arbitrary second operand
    let b: Vec<Fr> = c.b.iter().enumerate().map(|(i, (k, x))| match (k % 4, a.get(i)) {
        (0, Some(a)) => *a,
        (1, Some(a)) => -*a,
        (2, _) => Fr::zero(),
        _ => x.fr(),
    }).collect();
    let pa: Vec<E::G1Affine> = a.iter().map(|x| E::g1(*x)).collect();
    let pb: Vec<E::G1Affine> = b.iter().map(|x| E::g1(*x)).collect();
    let r = Encryption::<E>::add_cts(&pa, &pb);
    if a.len() != b.len() {
        ensure!(r.is_err(), "vectors of {} and {} points added", a.len(), b.len());
        return Ok(Info::new(true).label("different lengths"));
    }
    let r = must!(r);
    let want: Vec<E::G1Affine> = a.iter().zip(&b).map(|(a, b)| E::g1(*a + *b)).collect();
    ensure_eq!(r, want, "component-wise sum");
    // an operand added to itself, and to a part of itself
    let twice: Vec<E::G1Affine> = a.iter().map(|a| E::g1(*a + *a)).collect();
    ensure_eq!(must!(Encryption::<E>::add_cts(&pa, &pa)), twice, "a ciphertext added to itself");
    ensure_eq!(must!(Encryption::<E>::add_cts(&pa, &pa.clone())), twice, "a ciphertext added to its copy");
    if a.len() > 1 {
        let want: Vec<E::G1Affine> = a.windows(2).map(|w| E::g1(w[0] + w[1])).collect();
        ensure_eq!(must!(Encryption::<E>::add_cts(&pa[1..], &pa[..a.len() - 1])), want, "overlapping parts of a vector");
    }
    Ok(Info::new(!a.is_empty()).label("same length"))
}
fn raws() -> BoxedStrategy<Raw> {
    bx((0usize..8, 0usize..8, any::<bool>()).prop_flat_map(|(n, m, same)| {
        (proptest::collection::vec(frs(), n), proptest::collection::vec((any::<u8>(), frs()), if same { n } else { m })).prop_map(|(a, b)| Raw { a, b })
    }))
}
fn main() {
    let mut p = Prop::new("C09", "Adding ciphertexts yields a ciphertext of the chunk-wise sum");
    p.assume("random 255-bit values do not collide with a searched range");
    let nt = "non-trivial: more than one ciphertext";
    p.part("trees_toy", &format!("1..9 ciphertexts of up to 10-bit chunks, any order and grouping; {nt}"), 1500, 50000, || cases(bx(1u8..=10), 6, 9), check::<Toy>);
    p.part("wide_toy", &format!("up to 60 ciphertexts, 64 chunks; {nt}"), 40, 1500, || cases(bx(1u8..=4), 64, 60), |c| {
        let n = [16, 32, 64][c.msgs[0].len() % 3];
        let msgs = c.msgs.iter().map(|m| m.iter().cycle().take(n).cloned().collect()).collect();
        check::<Toy>(&Case { msgs, ..c.clone() })
    });
    p.part("crowd_toy", &format!("61..600 ciphertexts; {nt}"), 40, 1200, || bx((cases(bx(1u8..=6), 2, 2), prop_oneof![3 => 61usize..=250, 2 => 250usize..=260, 1 => 510usize..=600])
        .prop_map(|(c, k)| Case { msgs: c.msgs.iter().cycle().take(k).cloned().collect(), ..c })), check::<Toy>);
    p.part("throng_toy", &format!("601..4100 ciphertexts; {nt}"), 20, 400, || bx((cases(bx(1u8..=4), 2, 2), prop_oneof![1 => 601usize..=2500, 1 => 1022usize..=1026, 1 => 4094usize..=4098])
        .prop_map(|(c, k)| Case { msgs: c.msgs.iter().cycle().take(k).cloned().collect(), ..c })), check::<Toy>);
    p.part("many_chunks_toy", &format!("85, 128, 255 chunks; {nt}"), 24, 800, || cases(bx(1u8..=4), 64, 4), |c| {
        let n = [85, 128, 255][c.msgs[0].len() % 3];
        let msgs = c.msgs.iter().map(|m| m.iter().cycle().take(n).cloned().collect()).collect();
        check::<Toy>(&Case { msgs, ..c.clone() })
    });
    p.part("large_toy", &format!("sums beyond 16 bits; {nt}"), 24, 1000, || cases(bx(Just(16u8)), 2, 4), check::<Toy>);
    p.part("trees_bls", &format!("real curve; {nt}"), 100, 4000, || cases(bx(1u8..=5), 3, 5), check::<Bls>);
    p.part("points_toy", "vectors of arbitrary points; non-trivial: not empty", 3000, 100000, raws, check_raw::<Toy>);
    p.part("points_bls", "as points_toy on the real curve (doubling, opposite, identity)", 400, 10000, raws, check_raw::<Bls>);
    p.finish()
}
