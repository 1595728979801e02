use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    bits: u8,
    base: u64,
    rng: RngS,
    /// number of generators minus the number of chunks
    extra: i8,
}
fn nchunks(bits: u8) -> usize {
    (255 + bits as usize - 1) / bits as usize
}
fn sizes<E: Eng>(n: usize, ek: &EncryptionKey<E>, dk: &DecryptionKey<E>) -> Result<(), String> {
    ensure_eq!(ek.X.len(), n, "X");
    ensure_eq!(ek.Y.len(), n, "Y");
    ensure_eq!(ek.Z.len(), n + 1, "Z");
    ensure_eq!(dk.V_1.len(), n, "V_1");
    ensure_eq!(dk.V_2.len(), n, "V_2");
    must!(ek.validate());
    must!(dk.validate());
    must!(PreparedEncryptionKey::from(ek.clone()).validate());
    must!(PreparedDecryptionKey::from(dk.clone()).validate());
    ensure_eq!(must!(ek.supported_chunks_count()) as usize, n, "count of ek");
    ensure_eq!(must!(dk.supported_chunks_count()) as usize, n, "count of dk");
    ensure_eq!(must!(PreparedEncryptionKey::from(ek.clone()).supported_chunks_count()) as usize, n, "count of prepared ek");
    ensure_eq!(must!(PreparedDecryptionKey::from(dk.clone()).supported_chunks_count()) as usize, n, "count of prepared dk");
    for ck in [ek.commitment_key(), PreparedEncryptionKey::from(ek.clone()).commitment_key()] {
        ensure_eq!(ck[..n], ek.Y[..], "commitment key");
        ensure_eq!(ck[n..], [ek.P_1], "commitment key, randomness base");
    }
    Ok(())
}
/// Relations by pairings only
fn relations<E: Eng>(b: &Base<E>, n: usize, sk: &SecretKey<Fr>, ek: &EncryptionKey<E>, dk: &DecryptionKey<E>) -> Result<(), String> {
    let (g, h) = (b.gens.G, b.gens.H);
    ensure_eq!(ek.X_0, b.delta_g, "X_0");
    for i in 0..n {
        ensure_eq!(E::pairing(ek.Y[i], h), E::pairing(b.g_i[i], ek.Z[i + 1]), "Y[{i}] = t_(i+1)*G_i");
        let x0r: E::G1Affine = (ek.X_0 * sk.0).into();
        ensure_eq!(E::pairing(ek.X[i], dk.V_2[i]), E::pairing(x0r, dk.V_1[i]), "V_1[{i}], V_2[{i}] against s_i");
    }
    let mut p1 = E::pairing(ek.X_0, ek.Z[0]);
    for i in 0..n {
        p1 += E::pairing(ek.X[i], ek.Z[i + 1]);
    }
    ensure_eq!(E::pairing(ek.P_1, h), p1, "P_1");
    let sum: E::G1 = ek.X_0.into_group() + ek.X.iter().map(|x| x.into_group()).sum::<E::G1>();
    ensure_eq!(ek.P_2 * b.delta, sum * b.neg_gamma, "P_2");
    ensure_eq!(dk.V_0, E::G2Affine::from(h * sk.0), "V_0");
    let _ = g;
    Ok(())
}
/// Logarithms of the secrets on the transparent engine
fn secrets<E: Eng>(b: &Base<E>, sk: &SecretKey<Fr>, ek: &EncryptionKey<E>, dk: &DecryptionKey<E>) -> (Vec<Fr>, Vec<Fr>, Vec<Fr>, Vec<Fr>) {
    let l1 = |p: &E::G1Affine| E::d1(p).unwrap();
    let l2 = |p: &E::G2Affine| E::d2(p).unwrap();
    let inv = |x: Fr| x.inverse().unwrap();
    let s = ek.X.iter().map(|x| l1(x) * inv(b.g * b.delta)).collect();
    let t = ek.Z.iter().map(|x| l2(x) * inv(b.h)).collect();
    let hv = dk.V_2.iter().map(|x| l2(x)).collect::<Vec<_>>();
    let v = hv.iter().map(|x| if sk.0.is_zero() { Fr::zero() } else { *x * inv(b.h * sk.0) }).collect();
    (s, t, v, dk.V_1.iter().map(|x| l2(x) * inv(b.h)).collect())
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let n = nchunks(c.bits);
    let have = (n as i64 + c.extra as i64).max(0) as usize;
    let b = Base::<E>::new(c.base, have, 0);
    let mut rng = c.rng.rng();
    let res = keygen(&mut rng, c.bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
    if have < n {
        ensure!(res.is_err(), "{} chunks with {} generators did not give an error", n, have);
        let r = FkeygenPartial(&mut rng, c.bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
        ensure!(r.is_err(), "partial keys: {} chunks with {} generators did not give an error", n, have);
        return Ok(Info::new(true).label("too few generators"));
    }
    let (sk, ek, dk) = must!(res);
    sizes(n, &ek, &dk)?;
    let fresh = c.rng.plain();
    let (_, ek2, dk2) = must!(keygen(&mut rng, c.bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
    let (skd, ekd) = must!(Fkeygen_dest(&mut rng, &b.gens));
    ensure_eq!(ekd.pk, E::g1(b.g * skd.0), "destination key");
    if E::TOY {
        let (s, t, v, sv) = secrets(&b, &sk, &ek, &dk);
        let l = ek_logs(&b, &s, &t);
        check_ek(&ek, &l)?;
        ensure_eq!(dk.V_0, E::g2(b.h * sk.0), "V_0");
        for i in 0..n {
            if !sk.0.is_zero() {
                ensure_eq!(sv[i], s[i] * v[i], "V_1[{i}] = H*s_i*v_i");
            }
        }
        if fresh {
            let mut all = s.clone();
            all.extend(&t);
            all.extend(&v);
            all.push(sk.0);
            all.push(skd.0);
            let (sk2, _, _) = (SecretKey(Fr::one()), (), ());
            let (s2, t2, _, _) = secrets(&b, &sk2, &ek2, &dk2);
            all.extend(&s2);
            all.extend(&t2);
            if all.len() <= 120 {
                independent(&named("secret", &all))?;
            }
            let total = all.len();
            all.sort();
            all.dedup();
            ensure_eq!(all.len(), total, "two secrets are equal");
            ensure!(!all[0].is_zero(), "a secret is zero");
            // neighbouring secrets are not related by small factors or offsets
            for w in s.windows(2).chain(t.windows(2)) {
                for k in 1..4u64 {
                    let k = Fr::from(k);
                    ensure!(w[0] != w[1] * k && w[1] != w[0] * k && w[0] - w[1] != k && w[1] - w[0] != k && w[0] != -w[1], "neighbouring secrets are related");
                }
            }
        }
    }
    if !E::TOY || n <= 6 {
        relations(&b, n, &sk, &ek, &dk)?;
    }
    if fresh {
        let mut all = vec![];
        for k in [&ek, &ek2] {
            all.extend(k.X.iter().chain(&k.Y).chain([&k.P_1, &k.P_2]).cloned());
        }
        all.push(ek.X_0);
        let set: std::collections::HashSet<_> = all.iter().collect();
        ensure_eq!(set.len(), all.len(), "equal key elements in G1");
        let mut all2 = vec![];
        for (k, d) in [(&ek, &dk), (&ek2, &dk2)] {
            all2.extend(k.Z.iter().chain(&d.V_1).chain(&d.V_2).chain([&d.V_0]).cloned());
        }
        let set: std::collections::HashSet<_> = all2.iter().collect();
        ensure_eq!(set.len(), all2.len(), "equal key elements in G2");
    }
    // generators beyond the needed ones have no influence
    if have > n {
        let mut r1 = c.rng.rng();
        let short = must!(keygen(&mut r1, c.bits, &b.gens, &b.g_i[..n], &b.delta_g, &b.gamma_g));
        ensure_eq!((&short.1, &short.2), (&ek, &dk), "extra generators changed the keys");
    }
    // partial keys
    let mut rng = c.rng.side(8);
    let (psk, pek) = must!(FkeygenPartial(&mut rng, c.bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
    ensure_eq!((psk.s.len(), psk.t.len()), (n, n + 1), "sizes of a partial secret key");
    let l = ek_logs(&b, &psk.s, &psk.t);
    ensure_eq!(pek.X_0, b.delta_g, "X_0 of a partial key");
    ensure_eq!(pek.X, l.x.iter().map(|x| E::g1(*x)).collect::<Vec<_>>(), "X of a partial key");
    ensure_eq!(pek.Y, l.y.iter().map(|x| E::g1(*x)).collect::<Vec<_>>(), "Y of a partial key");
    ensure_eq!(pek.Z, l.z.iter().map(|x| E::g2(*x)).collect::<Vec<_>>(), "Z of a partial key");
    ensure_eq!(pek.P_2, E::g1(b.g * b.neg_gamma * psk.s.iter().sum::<Fr>()), "P_2 of a partial key");
    let mut all = psk.s.clone();
    all.extend(&psk.t);
    if all.len() <= 120 {
        independent(&named("secret of a party", &all))?;
    }
    let total = all.len();
    all.sort();
    all.dedup();
    ensure!(all.len() == total && !all[0].is_zero(), "secrets of a partial key are not fresh");
    Ok(Info::new(true).label(format!("n{}", if n > 9 { n / 10 * 10 } else { n })).label_if(have > n, "extra generators").label_if(!fresh, "zero secrets"))
}
/// Where the secrets come from
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draws {
    seed: u64,
    n: usize,
    base: u64,
    calls: u8,
}
fn check_draws(c: &Draws) -> Outcome {
    let b = Base::<Toy>::new(c.base, c.n, 0);
    let bits = bits_for(c.n);
    let words = drawn_independently(c.seed, |rng| {
        let mut l = vec![];
        for call in 0..c.calls {
            let (sk, ek, dk) = must!(keygen(rng, bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
            let (s, t, v, _) = secrets(&b, &sk, &ek, &dk);
            l.push((format!("secret key {call}"), sk.0));
            l.extend(named(&format!("key {call} s"), &s));
            l.extend(named(&format!("key {call} t"), &t));
            l.extend(named(&format!("key {call} v"), &v));
            let (sk, _) = must!(FkeygenPartial(rng, bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
            l.extend(named(&format!("party {call} s"), &sk.s));
            l.extend(named(&format!("party {call} t"), &sk.t));
            let (sk, _) = must!(Fkeygen_dest(rng, &b.gens));
            l.push((format!("destination {call}"), sk.0));
        }
        Ok(l)
    })?;
    Ok(Info::new(true).label(format!("{} secrets", words / 4)))
}
fn check_uniform(c: &Draws) -> Outcome {
    let b = Base::<Toy>::new(c.base, c.n, 0);
    let bits = bits_for(c.n);
    let mut rng = StdRng::seed_from_u64(c.seed);
    let mut l = Samples::default();
    for _ in 0..SAMPLES {
        let (sk, ek, dk) = must!(keygen(&mut rng, bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
        let (s, t, v, _) = secrets(&b, &sk, &ek, &dk);
        l.push("secret key", sk.0);
        let (psk, _) = must!(FkeygenPartial(&mut rng, bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
        for (what, v) in [("s", &s), ("t", &t), ("v", &v), ("party's s", &psk.s), ("party's t", &psk.t)] {
            v.iter().enumerate().for_each(|(i, x)| l.push(format!("{what} {i}"), *x));
        }
        let (skd, _) = must!(Fkeygen_dest(&mut rng, &b.gens));
        l.push("destination", skd.0);
    }
    l.uniform()?;
    Ok(Info::new(true).label(format!("{} kinds of values", l.kinds())))
}
fn draws() -> BoxedStrategy<Draws> {
    bx((any::<u64>(), 1usize..=6, any::<u64>(), 1u8..=2).prop_map(|(seed, n, base, calls)| Draws { seed, n, base, calls }))
}
fn cases(bits: BoxedStrategy<u8>) -> BoxedStrategy<Case> {
    bx((bits, any::<u64>(), rng_edge(), prop_oneof![6 => 0i8..4, 1 => Just(-1i8), 1 => -20i8..0, 1 => Just(i8::MIN)])
        .prop_map(|(bits, base, rng, extra)| Case { bits, base, rng, extra }))
}
fn main() {
    let mut p = Prop::new("C07", "Generated key sets satisfy the scheme's documented key relations");
    p.assume("independent random secrets differ (probability of the contrary < 2^-240)");
    let nt = "non-trivial: all";
    p.part("relations_toy", &format!("chunk sizes 20..255 bits, relations from logarithms; {nt}"), 2500, 80000, || cases(bx(20u8..=255)), check::<Toy>);
    p.part("sizes_toy", &format!("chunk sizes 1..19 bits (up to 255 chunks); {nt}"), 300, 10000, || cases(bx(prop_oneof![1u8..=19, Just(4u8), Just(8), Just(16)])), check::<Toy>);
    p.part("draws_toy", "each word of the random source replaced in turn: every secret depends on at least 250 bits, no two on the same word; 1..6 chunks; non-trivial: all", 60, 3000, draws, check_draws);
    p.part("uniform_toy", "512 key sets of 1..6 chunks: bits, pairs of bits, small residues and sizes of every secret; non-trivial: all", 8, 400, draws, check_uniform);
    p.part("relations_bls", &format!("chunk sizes 32..255 bits, relations by pairings; {nt}"), 64, 3000, || cases(bx(32u8..=255)), check::<Bls>);
    p.part("sizes_bls", &format!("chunk sizes 4, 8, 16; {nt}"), 8, 160, || cases(bx(prop_oneof![Just(4u8), Just(8), Just(16)])), check::<Bls>);
    p.finish()
}
