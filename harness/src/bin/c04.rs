use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    keys: u64,
    dist: u8,
    n: usize,
    k: usize,
    rng: RngS,
    weights: Vec<FrS>,
    /// ciphertexts that are copies of others
    #[serde(default)]
    same: Vec<(u8, u8)>,
    edits: Vec<(u8, CtEdit)>,
    key: Vec<KeyEdit>,
    /// make the defect of this ciphertext cancel the weighted sum of the others
    cancel: Option<u8>,
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let (n, k) = (c.n, c.k);
    let (mut ek, b) = if c.dist == 0 {
        let s = Single::<E>::new(c.keys, n, 1)?;
        (s.ek, s.b)
    } else {
        let s = Dist::<E>::new(c.keys, n, c.dist as usize, 1)?;
        (s.ek, s.b)
    };
    let other = Single::<E>::new(c.keys ^ 0xff, n, 0)?;
    let mut rng = c.rng.rng();
    let mut side = c.rng.side(4);
    let mut cts = vec![];
    for _ in 0..k {
        let m: Vec<u16> = (0..n).map(|_| side.gen::<u16>() >> (side.gen::<u8>() % 16)).collect();
        cts.push(must!(Encryption::encrypt_decomposed_message(&mut rng, m, &ek, &b.g_i)).0);
    }
    for (i, j) in &c.same {
        cts[spread(*i, k)] = cts[spread(*j, k)].clone();
    }
    let w: Vec<Fr> = c.weights.iter().map(|w| w.fr()).collect();
    let orig = cts.clone();
    let ek0 = ek.clone();
    let mut gens = b.gens.clone();
    for (i, e) in &c.edits {
        let i = spread(*i, k);
        let o = orig[(i + 1) % k].clone();
        e.apply::<E>(&mut cts[i], &o, &ek0, &b.g_i);
    }
    for e in &c.key {
        e.apply(&mut ek, &mut gens, &other.ek);
    }
    let fit = cts.iter().all(|v| fits(v, &ek));
    let mut cancelled = false;
    if let (Some(x), true, true) = (c.cancel, fit, c.key.is_empty()) {
        // shift the commitment of ciphertext x so that the weighted defects cancel; only possible without
        // logarithms if the defects come from the commitments alone: psi_x += sum of w_k/w_x * (shift of psi_k)
        let x = spread(x, k);
        if !w[x].is_zero() {
            let wi = w[x].inverse().unwrap();
            let l = n + 1;
            let mut shift = E::G1::zero();
            for i in 0..k {
                if i != x {
                    shift += (cts[i][l].into_group() - orig[i][l].into_group()) * w[i];
                }
            }
            shift += (cts[x][l].into_group() - orig[x][l].into_group()) * w[x];
            cts[x][l] = (cts[x][l].into_group() - shift * wi).into();
            cancelled = !shift.is_zero();
        }
    }
    let accept = fit && {
        let mut d = PairingOutput::<E>::zero();
        for (v, w) in cts.iter().zip(&w) {
            d += defect::<E>(v, &ek.Z, &gens.H) * *w;
        }
        d.is_zero()
    };
    let batch: Vec<Ciphertext<E>> = cts.iter().map(|v| to_ct::<E>(v)).collect();
    let (pek, pg) = (PreparedEncryptionKey::from(ek.clone()), PreparedEncryptionGens::from(gens.clone()));
    let r1 = Encryption::verify_commitments_in_batch(&batch, &w, ek.clone(), gens.clone());
    ensure_eq!(r1.is_ok(), accept, "batch verdict ({r1:?}), sizes fit: {fit}");
    let r2 = Encryption::verify_commitments_in_batch(&batch, &w, pek.clone(), pg.clone());
    ensure_eq!(r2.is_ok(), accept, "batch verdict, prepared ({r2:?}), sizes fit: {fit}");
    // relation to the individual verdicts of the code
    let bad: Vec<usize> = (0..k).filter(|i| batch[*i].verify_commitment(pek.clone(), pg.clone()).is_err()).collect();
    if bad.is_empty() {
        ensure!(r1.is_ok(), "all ciphertexts verify but the batch does not");
    } else if bad.len() == 1 && !w[bad[0]].is_zero() {
        ensure!(r1.is_err(), "batch with bad ciphertext {} of {} accepted", bad[0], k);
    }
    Ok(Info::new(cts != orig || k > 1)
        .label(if !fit { "sizes do not fit" } else if accept { if bad.is_empty() { "all good" } else { "accepted though some are bad" } } else { "rejected" })
        .label(format!("{} bad", bad.len().min(3)))
        .label_if(cancelled, "cancelling defects")
        .label_if(w.iter().any(|x| x.is_zero()), "zero weight")
        .label_if(!c.same.is_empty(), "repeated ciphertexts"))
}
/// few sources, so that some ciphertexts occur often
fn copies() -> BoxedStrategy<Vec<(u8, u8)>> {
    bx(prop_oneof![
        3 => Just(vec![]).boxed(),
        1 => proptest::collection::vec((any::<u8>(), any::<u8>()), 1..=4).boxed(),
        1 => proptest::collection::vec((any::<u8>(), 0u8..3), 1..=6).boxed(),
        1 => Just((0u8..=255).map(|i| (i, i & 1)).collect::<Vec<_>>()).boxed(),
    ])
}
fn cases(maxn: usize, ks: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    bx(ks.prop_flat_map(move |k| {
        (any::<u64>(), prop_oneof![3 => Just(0u8), 1 => 1u8..=3], 1..=maxn, Just(k), rng_edge(),
            prop_oneof![3 => proptest::collection::vec(frs_nz(), k), 2 => proptest::collection::vec(frs(), k)],
            prop_oneof![
                2 => Just(vec![]).boxed(),
                4 => proptest::collection::vec((any::<u8>(), ct_edit()), 1).boxed(),
                4 => proptest::collection::vec((any::<u8>(), ct_edit_same_len()), 1..=3).boxed(),
                // commitments only
                3 => proptest::collection::vec((any::<u8>(), frs_nz().prop_map(|x| CtEdit::ScaleAll(x))), 0..=1).boxed(),
            ],
            prop_oneof![6 => Just(vec![]).boxed(), 1 => proptest::collection::vec(key_edit(), 1).boxed()],
            prop_oneof![2 => Just(None), 1 => any::<u8>().prop_map(Some)],
            copies())
            .prop_map(|(keys, dist, n, k, rng, weights, edits, key, cancel, same)| Case { keys, dist, n, k, rng, weights, same, edits, key, cancel })
    }))
}
/// defects in the commitments of several ciphertexts that cancel for the given weights
fn cancelling(ks: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    bx(cases(4, ks).prop_flat_map(|c| {
        let l = (c.n + 1) as u8;
        (proptest::collection::vec((any::<u8>(), frs_nz().prop_map(move |d| CtEdit::Add(l, d))), 1..=3), any::<u8>())
            .prop_map(move |(edits, x)| Case { edits, key: vec![], cancel: Some(x), ..c.clone() })
    }))
}
fn main() {
    let mut p = Prop::new("C04", "Batch verification is equivalent to the weighted individual checks");
    p.assume("key secrets and generator logarithms are non-zero (probability of the contrary < 2^-240)");
    let nt = "non-trivial: more than one ciphertext or an edited one";
    let small = || bx(1usize..=6);
    p.part("batch_toy", &format!("batches of 1..6 edited ciphertexts; {nt}"), 3000, 100000, move || cases(5, small()), check::<Toy>);
    p.part("cancel_toy", &format!("defects cancelling under the weights; {nt}"), 1500, 50000, move || cancelling(bx(2usize..=6)), check::<Toy>);
    p.part("large_toy", &format!("batches of 7..80 ciphertexts; {nt}"), 300, 8000, || cases(3, bx(7usize..=80)), check::<Toy>);
    p.part("crowd_toy", &format!("batches of 81..600 ciphertexts; {nt}"), 24, 800, || cases(2, bx(prop_oneof![3 => 81usize..=300, 2 => 250usize..=260, 1 => 510usize..=600])), check::<Toy>);
    p.part("throng_toy", &format!("batches of 601..5000 ciphertexts; {nt}"), 20, 400, || cases(2, bx(prop_oneof![1 => 601usize..=5000, 1 => 1020usize..=1030, 1 => 4094usize..=4100])), check::<Toy>);
    p.part("batch_bls", &format!("real curve; {nt}"), 64, 4000, move || cases(3, small()), check::<Bls>);
    p.part("cancel_bls", &format!("real curve, cancelling defects; {nt}"), 32, 2000, move || cancelling(bx(2usize..=4)), check::<Bls>);
    p.part("large_bls", &format!("real curve, batches of 30..70 ciphertexts; {nt}"), 8, 200, || cases(1, bx(30usize..=70)), check::<Bls>);
    p.finish()
}
