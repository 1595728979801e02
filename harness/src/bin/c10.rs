use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    keys: u64,
    n: usize,
    parties: usize,
    /// ciphertexts added together first
    msgs: Vec<Vec<u16>>,
    dests: usize,
    rng: RngS,
    order: u64,
    tree: Vec<(u8, u8)>,
    /// switch only the first chunks of the ciphertext
    prefix: Option<u8>,
    range: u8,
    /// start the combination with an empty accumulator
    #[serde(default)]
    acc: bool,
    #[serde(default)]
    twin: u8,
    /// ciphertexts and shares made with equal or opposite randomness
    #[serde(default)]
    same: u8,
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let (n, k) = (c.n, c.parties);
    let d = Dist::<E>::related(Base::new(c.keys, n, (c.keys % 2) as usize), c.keys, n, k, c.twin)?;
    let b = &d.b;
    let mut rng = c.rng.rng();
    let mut total: Option<Vec<E::G1Affine>> = None;
    let mut sum = vec![0u64; n];
    for (i, m) in c.msgs.iter().enumerate() {
        if c.same > 0 {
            rng = c.rng.alike(c.same, i as u64);
        }
        let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut rng, m.clone(), &d.ek, &b.g_i));
        sum.iter_mut().zip(m).for_each(|(a, b)| *a += *b as u64);
        total = Some(match total {
            None => v,
            Some(t) => must!(Encryption::<E>::add_cts(&t, &v)),
        });
    }
    let v = total.unwrap();
    let m = c.prefix.map_or(n, |p| 1 + p as usize % n);
    let (c0, cs) = (v[0], &v[1..m + 1]);
    let mut labels = vec![];
    for to in 0..c.dests as u64 {
        if c.same > 0 {
            rng = c.rng.alike(0, to);
        }
        let (skd, ekd) = must!(Fkeygen_dest(&mut rng, &b.gens));
        ensure_eq!(ekd.pk, E::g1(b.g * skd.0), "destination public key");
        let mut shares = vec![];
        for (j, s) in d.sks.iter().enumerate() {
            if c.same > 0 {
                rng = c.rng.alike(c.same, to + j as u64);
            }
            let (w, g) = must!(Encryption::re_encrypt_share(&mut rng, &b.gens, &c0, cs, &ekd, s));
            ensure_eq!(w.len(), m, "number of share elements");
            for i in 0..m {
                let want: E::G1Affine = (g * skd.0 - c0 * s.s[i]).into();
                ensure_eq!(w[i], want, "share of party {j}, chunk {i}: -s_i*C_0 + pk*r");
            }
            shares.push((w, g));
        }
        let order = perm(k, c.order);
        let mut pool: Vec<_> = order.into_iter().map(|j| shares[j].clone()).collect();
        if c.acc {
            pool.insert((c.order % (pool.len() as u64 + 1)) as usize, (vec![E::G1Affine::zero(); m], E::G1Affine::zero()));
        }
        let mut t = c.tree.iter().cycle();
        while pool.len() > 1 {
            let (x, y) = t.next().copied().unwrap_or((0, 0));
            let x = pool.swap_remove(x as usize % pool.len());
            let y = pool.swap_remove(y as usize % pool.len());
            pool.push(must!(Encryption::<E>::combine_re_encrypt_share(&x.1, &y.1, &x.0, &y.0)));
        }
        let (w, g) = pool.pop().unwrap();
        let gr: E::G1 = shares.iter().map(|s| s.1.into_group()).sum();
        ensure_eq!(g, E::G1Affine::from(gr), "combined randomness");
        let sw = must!(Encryption::<E>::combine_ct_with_w(&b.gens, cs, &g, &w));
        ensure_eq!(sw.len(), m + 1, "length of the switched ciphertext");
        ensure_eq!(sw[0], g, "randomness element of the switched ciphertext");
        for i in 0..m {
            let want: E::G1Affine = (b.g_i[i] * Fr::from(sum[i]) + g * skd.0).into();
            ensure_eq!(sw[i + 1], want, "switched chunk {i} is m_i*G_i + sk*g_r");
        }
        let bound = if c.range >= 16 { 65535 } else { (1u64 << c.range) - 1 };
        let res = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &b.g_i, c.range);
        if sum[..m].iter().all(|x| *x <= bound) {
            ensure_eq!(must!(res), sum[..m].iter().map(|x| *x as u16).collect::<Vec<_>>(), "plaintext at the destination");
            labels.push("decrypted");
        } else {
            ensure!(res.is_err(), "chunks {sum:?} beyond range {} decrypted to {res:?}", c.range);
            labels.push("out of range");
        }
    }
    let mut info = Info::new(k > 1 && sum.iter().any(|x| *x > 0)).label(format!("{} parties", k.min(10))).label_if(c.msgs.len() > 1, "aggregated").label_if(m < n, "prefix").label_if(c.acc, "empty accumulator").label_if(c.twin > 0 && k > 1, "equal or opposite secrets").label_if(c.same > 0 && k > 1, "equal or opposite randomness");
    for l in labels {
        info = info.label(l);
    }
    Ok(info)
}
fn cases(bits: BoxedStrategy<u8>, ns: BoxedStrategy<usize>, maxk: usize) -> BoxedStrategy<Case> {
    bx((bits, ns, prop_oneof![1 => Just(1usize), 8 => 2..=maxk], prop_oneof![3 => Just(1usize), 1 => 2usize..=4]).prop_flat_map(|(bits, n, parties, adds)| {
        (any::<u64>(), proptest::collection::vec(cheap_chunks(bits, n), adds), 1usize..=3, rng_edge(), any::<u64>(), proptest::collection::vec((any::<u8>(), any::<u8>()), 1..6),
            prop_oneof![4 => Just(None), 1 => any::<u8>().prop_map(Some)], prop_oneof![3 => Just(2u8), 1 => Just(0u8)], proptest::bool::weighted(0.3), (twins(), alike()))
            .prop_map(move |(keys, msgs, dests, rng, order, tree, prefix, slack, acc, (twin, same))| Case { keys, n, parties, msgs, dests, rng, order, tree, prefix, range: bits + slack, acc, twin, same })
    }))
}
/// Arbitrary points in place of ciphertexts and shares
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    keys: u64,
    c0: FrS,
    /// chunk, own secret, and how the other share is related to this one
    v: Vec<(FrS, FrS, u8, FrS)>,
    g: (FrS, u8, FrS),
    rng: RngS,
}
fn check_raw<E: Eng>(c: &Raw) -> Outcome {
    let b = Base::<E>::new(c.keys, 1, 0);
    let n = c.v.len();
    let pts = |v: &[Fr]| v.iter().map(|x| E::g1(*x)).collect::<Vec<E::G1Affine>>();
    let like = |a: Fr, k: u8, x: Fr| match k % 4 {
        0 => a,
        1 => -a,
        2 => Fr::zero(),
        _ => x,
    };
    let cs: Vec<Fr> = c.v.iter().map(|x| x.0.fr()).collect();
    let s: Vec<Fr> = c.v.iter().map(|x| x.1.fr()).collect();
    // a share of arbitrary elements
    let (skd, ekd) = must!(Fkeygen_dest::<_, E>(&mut c.rng.side(1), &b.gens));
    let key = SecretKeyST { s: s.clone(), t: vec![Fr::one(); n + 1] };
    let (w, g) = must!(Encryption::re_encrypt_share(&mut c.rng.rng(), &b.gens, &E::g1(c.c0.fr()), &pts(&cs), &ekd, &key));
    let want: Vec<E::G1Affine> = s.iter().map(|s| (g * skd.0 - E::g1(c.c0.fr() * s)).into()).collect();
    ensure_eq!(w, want, "share: -s_i*C_0 + pk*r");
    // the sum of two shares
    let (g1, g2) = (c.g.0.fr(), like(c.g.0.fr(), c.g.1, c.g.2.fr()));
    let w2: Vec<Fr> = c.v.iter().map(|x| like(x.0.fr(), x.2, x.3.fr())).collect();
    for (x, y, gx, gy) in [(&cs, &w2, g1, g2), (&w2, &cs, g2, g1)] {
        let (w, g) = must!(Encryption::<E>::combine_re_encrypt_share(&E::g1(gx), &E::g1(gy), &pts(x), &pts(y)));
        ensure_eq!(g, E::g1(gx + gy), "sum of the randomness elements");
        ensure_eq!(w, pts(&x.iter().zip(y.iter()).map(|(a, b)| *a + *b).collect::<Vec<_>>()), "sum of two shares");
        // and of a ciphertext with them
        let sw = must!(Encryption::<E>::combine_ct_with_w(&b.gens, &pts(x), &E::g1(gx), &pts(y)));
        ensure_eq!(sw, pts(&std::iter::once(gx).chain(x.iter().zip(y.iter()).map(|(a, b)| *a + *b)).collect::<Vec<_>>()), "switched ciphertext");
    }
    // one and the same vector as both operands
    let (x, gx) = (pts(&cs), E::g1(g1));
    let twice = pts(&cs.iter().map(|a| *a + *a).collect::<Vec<_>>());
    let (w, g) = must!(Encryption::<E>::combine_re_encrypt_share(&gx, &gx, &x, &x));
    ensure_eq!((&w, g), (&twice, E::g1(g1 + g1)), "a share combined with itself");
    let sw = must!(Encryption::<E>::combine_ct_with_w(&b.gens, &x, &gx, &x));
    ensure_eq!((sw[0], &sw[1..]), (gx, &twice[..]), "a ciphertext switched with itself");
    let rel = c.v.iter().any(|x| x.2 % 4 < 2);
    Ok(Info::new(n > 0).label_if(rel, "equal or opposite elements").label_if(c.g.1 % 4 < 2, "equal or opposite randomness"))
}
fn raws() -> BoxedStrategy<Raw> {
    bx((any::<u64>(), frs(), proptest::collection::vec((frs(), frs(), any::<u8>(), frs()), 1..8), (frs(), any::<u8>(), frs()), rng_edge())
        .prop_map(|(keys, c0, v, g, rng)| Raw { keys, c0, v, g, rng }))
}
/// One value of a 16-bit chunk, under fixed keys
#[derive(Clone, Debug, Serialize, Deserialize)]
struct One16 {
    v: u16,
    seed: u64,
}
fn check16(c: &One16) -> Outcome {
    static K: std::sync::OnceLock<Result<Dist<Toy>, String>> = std::sync::OnceLock::new();
    let d = K.get_or_init(|| Dist::<Toy>::new(16, 1, 2, 0)).as_ref().map_err(|e| e.clone())?;
    let mut rng = StdRng::seed_from_u64(c.seed);
    let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut rng, vec![c.v], &d.ek, &d.b.g_i));
    let (skd, ekd) = must!(Fkeygen_dest(&mut rng, &d.b.gens));
    let a = must!(Encryption::re_encrypt_share(&mut rng, &d.b.gens, &v[0], &v[1..2], &ekd, &d.sks[0]));
    let b = must!(Encryption::re_encrypt_share(&mut rng, &d.b.gens, &v[0], &v[1..2], &ekd, &d.sks[1]));
    let (w, g) = must!(Encryption::<Toy>::combine_re_encrypt_share(&a.1, &b.1, &a.0, &b.0));
    let sw = must!(Encryption::<Toy>::combine_ct_with_w(&d.b.gens, &v[1..2], &g, &w));
    ensure_eq!(must!(Encryption::<Toy>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &d.b.g_i, 16)), vec![c.v], "plaintext at the destination");
    Ok(Info::new(c.v > 0))
}
static NEXT16: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn main() {
    let mut p = Prop::new("C10", "Full-quorum key switching preserves the plaintext for the destination");
    p.assume("random 255-bit values do not collide with a searched range");
    let nt = "non-trivial: at least two parties and a non-zero plaintext";
    p.part("switch_toy", &format!("1..8 parties, up to 10-bit chunks, orders, groupings, several destinations; {nt}"), 2000, 60000, || cases(bx(1u8..=10), bx(1usize..=6), 8), check::<Toy>);
    p.part("switch16_toy", &format!("16-bit chunks; {nt}"), 100, 3000, || cases(bx(11u8..=16), bx(1usize..=2), 3), check::<Toy>);
    let seed = p.seed;
    p.part("every16_toy", "every 16-bit chunk value; non-trivial: value not zero", 65536, 65536, || bx((every16(&NEXT16, seed), any::<u64>()).prop_map(|(v, seed)| One16 { v, seed })), check16);
    p.part("switch_wide_toy", &format!("16, 32, 64 chunks, up to 40 parties; {nt}"), 100, 4000, || cases(bx(1u8..=8), bx(prop_oneof![Just(16usize), Just(32), Just(64)]), 40), check::<Toy>);
    p.part("crowd_toy", &format!("41..600 parties; {nt}"), 32, 1000,
        || bx((cases(bx(1u8..=6), bx(1usize..=2), 2), prop_oneof![3 => 41usize..=250, 2 => 250usize..=260, 1 => 510usize..=600]).prop_map(|(c, parties)| Case { parties, ..c })), check::<Toy>);
    p.part("throng_toy", &format!("601..4100 parties; {nt}"), 20, 400,
        || bx((cases(bx(1u8..=6), bx(1usize..=2), 2), prop_oneof![1 => 601usize..=2500, 1 => 1022usize..=1026, 1 => 4094usize..=4098]).prop_map(|(c, parties)| Case { parties, ..c })), check::<Toy>);
    p.part("many_chunks_toy", &format!("85, 128, 255 chunks; {nt}"), 32, 1000, || cases(bx(1u8..=4), bx(prop_oneof![Just(85usize), Just(128), Just(255)]), 3), check::<Toy>);
    p.part("switch_bls", &format!("real curve; {nt}"), 100, 5000, || cases(bx(1u8..=8), bx(1usize..=4), 5), check::<Bls>);
    p.part("switch_wide_bls", &format!("real curve, 16..64 chunks; {nt}"), 8, 200, || cases(bx(1u8..=4), bx(prop_oneof![Just(16usize), Just(32), Just(64)]), 3), check::<Bls>);
    p.part("points_toy", "arbitrary points in place of ciphertexts and shares; non-trivial: not empty", 4000, 150000, raws, check_raw::<Toy>);
    p.part("points_bls", "as points_toy on the real curve (doubling, opposite, identity)", 300, 10000, raws, check_raw::<Bls>);
    p.finish()
}
