use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    base: u64,
    n: usize,
    parties: usize,
    rng: RngS,
    /// orders in which the keys and the shares arrive
    p1: u64,
    p2: u64,
    msg: u64,
    mism: Mism,
    /// equal or opposite secrets
    #[serde(default)]
    twin: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mism {
    None,
    /// party i's partial key: X, Y, Z longer/shorter by d
    X(u8, i8),
    Y(u8, i8),
    Z(u8, i8),
    All(u8, i8),
    /// party i's key made for another number of chunks
    OtherSize(u8, u8),
    /// party i's secrets
    S(u8, i8),
    T(u8, i8),
}
fn resize<T: Clone>(v: &mut Vec<T>, d: i8) {
    if d < 0 {
        v.truncate(v.len().saturating_sub(d.unsigned_abs() as usize));
    } else if let Some(x) = v.last().cloned() {
        v.extend((0..d).map(|_| x.clone()));
    }
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let (n, k) = (c.n, c.parties);
    let b = Base::<E>::new(c.base, n, (c.base % 3) as usize);
    let mut rng = c.rng.rng();
    let (mut sks, mut eks) = (vec![], vec![]);
    for _ in 0..k {
        let (s, e) = must!(FkeygenPartial(&mut rng, bits_for(n), &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
        sks.push(s);
        eks.push(e);
    }
    relate(&b, c.twin, &mut sks, &mut eks);
    // --- contributions of different sizes
    let i = |p: &u8| spread(*p, k);
    let mut bad = eks.clone();
    let mut bad_sk = sks.clone();
    match &c.mism {
        Mism::None => {}
        Mism::X(p, d) => resize(&mut bad[i(p)].X, *d),
        Mism::Y(p, d) => resize(&mut bad[i(p)].Y, *d),
        Mism::Z(p, d) => resize(&mut bad[i(p)].Z, *d),
        Mism::All(p, d) => {
            resize(&mut bad[i(p)].X, *d);
            resize(&mut bad[i(p)].Y, *d);
            let l = bad[i(p)].X.len();
            let d = if *d < 0 { l as i64 + 1 - n as i64 - 1 } else { *d as i64 };
            resize(&mut bad[i(p)].Z, d as i8);
        }
        Mism::OtherSize(p, m) => {
            let m = 1 + (*m as usize % 6);
            let o = Base::<E>::new(c.base, n.max(m), 0);
            let (s, e) = must!(FkeygenPartial(&mut c.rng.side(1), bits_for(m), &o.gens, &o.g_i, &o.delta_g, &o.gamma_g));
            bad[i(p)] = e;
            bad_sk[i(p)] = s;
        }
        Mism::S(p, d) => resize(&mut bad_sk[i(p)].s, *d),
        Mism::T(p, d) => resize(&mut bad_sk[i(p)].t, *d),
    }
    let differ = k > 1 && bad.iter().any(|e| (e.X.len(), e.Y.len(), e.Z.len()) != (bad[0].X.len(), bad[0].Y.len(), bad[0].Z.len()));
    if differ {
        // no usable key may come out: a panic, or a key that does not validate
        let r = no_panic(|| combineEKs(&b.gamma_g, &bad));
        if let Ok(x) = r {
            let f = keygenFinal(&x, &P1share { P_1: b.delta_g });
            ensure!(f.validate().is_err(), "contributions of different sizes merged into a valid key ({:?})", c.mism);
        }
    }
    let order = perm(k, c.p1);
    let eks_o: Vec<_> = order.iter().map(|i| eks[*i].clone()).collect();
    let comb = combineEKs(&b.gamma_g, &eks_o);
    for s in &bad_sk {
        if s.t.len() != n + 1 {
            if let Ok(p) = no_panic(|| genP1share(&comb, s)) {
                return Err(format!("share {p:?} made from {} secrets for a key of {n} chunks", s.t.len()));
            }
        }
    }
    // --- honest
    let (mut s, mut t) = (vec![Fr::zero(); n], vec![Fr::zero(); n + 1]);
    for x in &sks {
        ensure_eq!((x.s.len(), x.t.len()), (n, n + 1), "sizes of secrets");
        s.iter_mut().zip(&x.s).for_each(|(a, b)| *a += b);
        t.iter_mut().zip(&x.t).for_each(|(a, b)| *a += b);
    }
    let l = ek_logs(&b, &s, &t);
    ensure_eq!(comb.P_2, E::g1(l.p2), "P_2 of the combined key");
    ensure_eq!(comb.X_0, E::g1(l.x0), "X_0 of the combined key");
    let mut shares = vec![];
    for j in perm(k, c.p2) {
        let sh = genP1share(&comb, &sks[j]);
        let want = b.g * b.delta * (sks[j].t[0] + (0..n).map(|i| s[i] * sks[j].t[i + 1]).sum::<Fr>());
        ensure_eq!(sh.P_1, E::g1(want), "P_1 share of party {j}");
        shares.push(sh);
    }
    let ek = keygenFinal(&comb, &combineP1share(&shares));
    check_ek(&ek, &l)?;
    must!(ek.validate());
    ensure_eq!(must!(ek.supported_chunks_count()) as usize, n, "number of chunks");
    must!(PreparedEncryptionKey::from(ek.clone()).validate());
    // the order does not matter
    let comb2 = combineEKs(&b.gamma_g, &eks);
    ensure_eq!(comb2, comb, "combined key depends on the order");
    let sh2: Vec<_> = sks.iter().map(|s| genP1share(&comb2, s)).collect();
    ensure_eq!(keygenFinal(&comb2, &combineP1share(&sh2)), ek, "final key depends on the order");
    // it works
    let mut side = c.rng.side(2);
    let m: Vec<u16> = (0..n).map(|i| (c.msg >> (5 * (i % 12))) as u16 & 31).collect();
    let (v, r) = must!(Encryption::encrypt_decomposed_message(&mut side, m.clone(), &ek, &b.g_i));
    ensure_eq!(v, formula_ct(&frv(&m), r, &ek, &b.g_i), "ciphertext");
    must!(to_ct::<E>(&v).verify_commitment(ek.clone(), b.gens.clone()));
    // a single party holding the sums could decrypt: c_i - s_i * X_r = m_i * g_i
    for i in 0..n {
        let x: E::G1 = v[i + 1].into_group() - v[0] * s[i];
        ensure_eq!(E::G1Affine::from(x), E::G1Affine::from(b.g_i[i] * Fr::from(m[i] as u64)), "chunk {i} under the summed secrets");
    }
    let nonzero = c.rng.plain();
    Ok(Info::new(k > 1)
        .label(format!("{k} parties"))
        .label_if(differ, "different sizes")
        .label_if(bad_sk.iter().any(|s| s.t.len() != n + 1), "secrets of another size")
        .label_if(!nonzero, "zero secrets")
        .label_if(c.twin > 0 && k > 1, "equal or opposite secrets"))
}
fn mism() -> BoxedStrategy<Mism> {
    let p = any::<u8>;
    let d = || prop_oneof![-3i8..=-1, 1i8..=3];
    bx(prop_oneof![
        3 => Just(Mism::None),
        1 => (p(), d()).prop_map(|(a, b)| Mism::X(a, b)),
        1 => (p(), d()).prop_map(|(a, b)| Mism::Y(a, b)),
        1 => (p(), d()).prop_map(|(a, b)| Mism::Z(a, b)),
        2 => (p(), d()).prop_map(|(a, b)| Mism::All(a, b)),
        2 => (p(), p()).prop_map(|(a, b)| Mism::OtherSize(a, b)),
        1 => (p(), d()).prop_map(|(a, b)| Mism::T(a, b)),
    ])
}
fn cases(ns: BoxedStrategy<usize>, maxk: usize) -> BoxedStrategy<Case> {
    bx((any::<u64>(), ns, prop_oneof![1 => Just(1usize), 8 => 2..=maxk], rng_edge(), any::<u64>(), any::<u64>(), any::<u64>(), mism(), twins())
        .prop_map(|(base, n, parties, rng, p1, p2, msg, mism, twin)| Case { base, n, parties, rng, p1, p2, msg, mism, twin }))
}

/// Proofs under distributed keys
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Proofs {
    n: usize,
    parties: usize,
    keys: u64,
    chunks: Vec<u16>,
    seed: u64,
}
fn check_proof<E: Eng>(c: &Proofs) -> Outcome {
    let s = Srs::<E>::get(4, c.n, 0)?;
    let (_, ek) = dist_over(&s, c.keys, c.parties)?;
    let mut rng = StdRng::seed_from_u64(c.seed);
    let (v, r) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.chunks.clone(), &ek, s.g_i()));
    let p = s.prove(&frv(&c.chunks), &r, &ek, &mut rng)?;
    must!(to_ct::<E>(&v).verify_commitment_and_proof(&p, &s.pvk, ek, s.gens.clone()));
    Ok(Info::new(c.parties > 1).label(format!("{} parties", c.parties)))
}
fn proofs() -> BoxedStrategy<Proofs> {
    bx((1usize..=3, 1usize..=5, any::<u64>(), any::<u64>()).prop_flat_map(|(n, parties, keys, seed)| chunks(4, n).prop_map(move |chunks| Proofs { n, parties, keys, chunks, seed })))
}
fn main() {
    let mut p = Prop::new("C08", "Distributed key generation equals one key from the summed secrets");
    p.assume("a panic while merging contributions of different sizes is not a silent merge (the functions have no error result)");
    let nt = "non-trivial: at least two parties";
    p.part("sum_toy", &format!("1..8 parties, 1..9 chunks, arrival orders, mismatched sizes; {nt}"), 3000, 100000, || cases(bx(1usize..=9), 8), check::<Toy>);
    p.part("sum_wide_toy", &format!("16, 32, 64 chunks, up to 40 parties; {nt}"), 300, 8000,
        || cases(bx(prop_oneof![Just(16usize), Just(32), Just(64), Just(2)]), 40), check::<Toy>);
    p.part("crowd_toy", &format!("41..600 parties; {nt}"), 40, 1200,
        || bx((cases(bx(1usize..=2), 8), prop_oneof![3 => 41usize..=250, 2 => 250usize..=260, 1 => 510usize..=600]).prop_map(|(c, parties)| Case { parties, ..c })), check::<Toy>);
    p.part("throng_toy", &format!("601..4100 parties; {nt}"), 20, 400,
        || bx((cases(bx(1usize..=2), 8), prop_oneof![1 => 601usize..=2500, 1 => 1022usize..=1026, 1 => 4094usize..=4098]).prop_map(|(c, parties)| Case { parties, ..c })), check::<Toy>);
    p.part("many_chunks_toy", &format!("85, 128, 255 chunks; {nt}"), 40, 1200, || cases(bx(prop_oneof![Just(85usize), Just(128), Just(255)]), 4), check::<Toy>);
    p.part("sum_bls", &format!("as sum_toy on the real curve; {nt}"), 80, 4000, || cases(bx(1usize..=4), 5), check::<Bls>);
    p.part("proof_toy", &format!("proofs under distributed keys; {nt}"), 200, 8000, proofs, check_proof::<Toy>);
    p.part("proof_bls", &format!("as proof_toy on the real curve; {nt}"), 16, 600, proofs, check_proof::<Bls>);
    p.finish()
}
