use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// only the parties whose bit is set (made a strict subset)
    Subset(u64),
    /// everybody, and party i once more (a second share, or the very same one)
    Extra(u8, bool),
    /// party i missing, party j twice
    Replace(u8, u8, bool),
    /// party i's share made for another ciphertext of the same message
    OtherCt(u8),
    /// all shares for another ciphertext
    AllOtherCt,
    /// party i's share made for another destination
    OtherDest(u8),
    /// right shares, another destination's key
    WrongKey,
    /// right shares, destination key changed by a small amount
    NearKey(i8),
    /// party i's share without its randomness element in the combination
    DropRandomness(u8),
    /// no shares: the original ciphertext with a party's secret for that chunk
    PartyKey(u8, u8),
    /// the original ciphertext with the destination's key
    NoShares,
    /// the original ciphertext with a party's secret t
    PartyT(u8, u8),
    /// shares of another set of parties
    OtherParties,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    keys: u64,
    parties: usize,
    msg: Vec<u16>,
    rng: RngS,
    range: u8,
    a: Attack,
}
type Share<E> = (Vec<<E as ark_ec::pairing::Pairing>::G1Affine>, <E as ark_ec::pairing::Pairing>::G1Affine);
fn combine<E: Eng>(s: &[Share<E>]) -> Result<Share<E>, String> {
    let mut a = s[0].clone();
    for x in &s[1..] {
        a = must!(Encryption::<E>::combine_re_encrypt_share(&a.1, &x.1, &a.0, &x.0));
    }
    Ok(a)
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let (n, k) = (c.msg.len(), c.parties);
    let d = Dist::<E>::new(c.keys, n, k, 0)?;
    let other = Dist::<E>::over(d.b.clone(), c.keys ^ 0xffff, n, k)?;
    let b = &d.b;
    let mut rng = c.rng.rng();
    let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.msg.clone(), &d.ek, &b.g_i));
    let (v2, _) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.msg.clone(), &d.ek, &b.g_i));
    let (skd, ekd) = must!(Fkeygen_dest(&mut rng, &b.gens));
    let (skd2, ekd2) = must!(Fkeygen_dest(&mut rng, &b.gens));
    let cs = &v[1..n + 1];
    let mut share = |v: &[E::G1Affine], e: &FEncryptionKeyDest<E>, s: &SecretKeyST<E>| -> Result<Share<E>, String> {
        Ok(must!(Encryption::re_encrypt_share(&mut rng, &b.gens, &v[0], &v[1..n + 1], e, s)))
    };
    let mut sh = vec![];
    for s in &d.sks {
        sh.push(share(&v, &ekd, s)?);
    }
    let open = |c0: &E::G1Affine, cc: &[E::G1Affine], sk: &SecretKey<Fr>| Encryption::<E>::decrypt_to_chunks_after_re_encryption(c0, cc, sk, &b.g_i, c.range);
    let finish = |s: &[Share<E>], sk: &SecretKey<Fr>| -> Result<dist_saver::Result<Vec<u16>>, String> {
        let (w, g) = combine::<E>(s)?;
        let sw = must!(Encryption::<E>::combine_ct_with_w(&b.gens, cs, &g, &w));
        Ok(open(&sw[0], &sw[1..], sk))
    };
    ensure_eq!(must!(finish(&sh, &skd)?), c.msg, "full quorum");
    let i = |p: &u8| spread(*p, k);
    let (what, res) = match &c.a {
        Attack::Subset(m) => {
            let mut s: Vec<_> = sh.iter().enumerate().filter(|(i, _)| m >> (i % 64) & 1 == 1).map(|x| x.1.clone()).collect();
            if s.len() == k {
                s.remove((*m >> 32) as usize % k);
            }
            if s.is_empty() {
                ("no share", open(&v[0], cs, &skd))
            } else {
                ("strict subset of the parties", finish(&s, &skd)?)
            }
        }
        Attack::Extra(p, same) => {
            let mut s = sh.clone();
            s.push(if *same { sh[i(p)].clone() } else { share(&v, &ekd, &d.sks[i(p)])? });
            ("a party counted twice", finish(&s, &skd)?)
        }
        Attack::Replace(p, q, same) => {
            let (p, mut q) = (i(p), i(q));
            if p == q { q = (p + 1) % k }
            let mut s = sh.clone();
            s[p] = if *same { sh[q].clone() } else { share(&v, &ekd, &d.sks[q])? };
            if k == 1 { return Ok(Info::new(false)) }
            ("a party missing, another one twice", finish(&s, &skd)?)
        }
        Attack::OtherCt(p) => {
            let mut s = sh.clone();
            s[i(p)] = share(&v2, &ekd, &d.sks[i(p)])?;
            ("a share for another ciphertext", finish(&s, &skd)?)
        }
        Attack::AllOtherCt => {
            let mut s = vec![];
            for x in &d.sks { s.push(share(&v2, &ekd, x)?) }
            ("all shares for another ciphertext", finish(&s, &skd)?)
        }
        Attack::OtherDest(p) => {
            let mut s = sh.clone();
            s[i(p)] = share(&v, &ekd2, &d.sks[i(p)])?;
            let a = finish(&s, &skd)?;
            let r = finish(&s, &skd2)?;
            if r.is_ok() && k > 1 { ("a share for another destination, that destination's key", r) }
            else { ("a share for another destination", a) }
        }
        Attack::WrongKey => ("another destination's key", finish(&sh, &skd2)?),
        Attack::NearKey(x) => {
            let x = if *x == 0 { 1 } else { *x };
            ("nearly the destination's key", finish(&sh, &SecretKey(skd.0 + Fr::from(x as i64)))?)
        }
        Attack::DropRandomness(p) => {
            let mut s = sh.clone();
            s[i(p)].1 = E::G1Affine::zero();
            ("a share without its randomness", finish(&s, &skd)?)
        }
        Attack::PartyKey(p, q) => {
            if k == 1 { return Ok(Info::new(false)) }
            let j = *q as usize % n;
            // the party knows its own secret for every chunk; try all chunks one by one
            let r = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&v[0], &cs[j..j + 1], &SecretKey(d.sks[i(p)].s[j]), &b.g_i[j..j + 1], c.range);
            ("one party's secret for the chunk", r)
        }
        Attack::PartyT(p, q) => {
            let j = *q as usize % n;
            let r = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&v[0], &cs[j..j + 1], &SecretKey(d.sks[i(p)].t[j]), &b.g_i[j..j + 1], c.range);
            ("one party's secret t", r)
        }
        Attack::NoShares => ("the original ciphertext", open(&v[0], cs, &skd)),
        Attack::OtherParties => {
            let mut s = vec![];
            for x in &other.sks { s.push(share(&v, &ekd, x)?) }
            ("shares of other parties", finish(&s, &skd)?)
        }
    };
    if let Ok(m) = res {
        return Err(format!("{what}: decrypted to {m:?}, the message is {:?}", c.msg));
    }
    Ok(Info::new(true).label(what).label(format!("{} parties", k.min(10))))
}
fn attack() -> BoxedStrategy<Attack> {
    let p = any::<u8>;
    bx(prop_oneof![
        4 => any::<u64>().prop_map(Attack::Subset),
        2 => (p(), any::<bool>()).prop_map(|(a, b)| Attack::Extra(a, b)),
        2 => (p(), p(), any::<bool>()).prop_map(|(a, b, c)| Attack::Replace(a, b, c)),
        2 => p().prop_map(Attack::OtherCt),
        1 => Just(Attack::AllOtherCt),
        2 => p().prop_map(Attack::OtherDest),
        1 => Just(Attack::WrongKey),
        1 => (-3i8..=3).prop_map(Attack::NearKey),
        1 => p().prop_map(Attack::DropRandomness),
        2 => (p(), p()).prop_map(|(a, b)| Attack::PartyKey(a, b)),
        1 => (p(), p()).prop_map(|(a, b)| Attack::PartyT(a, b)),
        1 => Just(Attack::NoShares),
        1 => Just(Attack::OtherParties),
    ])
}
fn cases(bits: BoxedStrategy<u8>, maxn: usize, maxk: usize) -> BoxedStrategy<Case> {
    bx((bits, 1..=maxn).prop_flat_map(move |(bits, n)| {
        (any::<u64>(), 1..=maxk, prop_oneof![1 => Just(vec![0u16; n]).boxed(), 3 => chunks(bits, n)], rng_plain(), attack())
            .prop_map(move |(keys, parties, msg, rng, a)| Case { keys, parties, msg, rng, range: bits, a })
    }))
}

/// Two calls on the same input differ in every component
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    keys: u64,
    srs: u64,
    msg: Vec<u16>,
    seed: u64,
    seed2: Option<u64>,
    /// shares for a ciphertext whose randomness element (1) or every element (2) is the identity
    #[serde(default)]
    edge: u8,
}
fn check_fresh<E: Eng>(c: &Fresh) -> Outcome {
    let n = c.msg.len();
    if c.seed2 == Some(c.seed) {
        return Ok(Info::new(false));
    }
    let s = Srs::<E>::get(4, n, c.srs % 2)?;
    let (sks, ek) = dist_over(&s, c.keys, 2)?;
    // the same random source twice in a row, or two sources
    let mut r1 = StdRng::seed_from_u64(c.seed);
    let mut r2 = c.seed2.map(StdRng::seed_from_u64);
    let mut pts: Vec<(String, E::G1Affine)> = vec![];
    let mut pts2: Vec<(String, E::G2Affine)> = vec![];
    let mut scalars: Vec<(String, Fr)> = vec![];
    let (v0, _) = must!(Encryption::encrypt_decomposed_message(&mut StdRng::seed_from_u64(c.seed ^ 99), c.msg.clone(), &ek, s.g_i()));
    let mut v0 = v0;
    if c.edge > 0 {
        let upto = if c.edge > 1 { v0.len() } else { 1 };
        v0[..upto].iter_mut().for_each(|x| *x = E::G1Affine::zero());
    }
    let (skd0, ekd0) = must!(Fkeygen_dest::<_, E>(&mut StdRng::seed_from_u64(c.seed ^ 98), &s.gens));
    scalars.push(("destination".into(), skd0.0));
    let pr = Fr::rand(&mut StdRng::seed_from_u64(c.seed ^ 97));
    scalars.push(("randomness of the proven encryption".into(), pr));
    for call in 0..2 {
        let rng: &mut StdRng = match (&mut r2, call) { (Some(r), 1) => r, _ => &mut r1 };
        let (v, r) = must!(Encryption::encrypt_decomposed_message(rng, c.msg.clone(), &ek, s.g_i()));
        scalars.push((format!("encryption randomness {call}"), r));
        pts.extend(v.into_iter().enumerate().map(|(i, x)| (format!("ciphertext {call} component {i}"), x)));
        for (p, sk) in sks.iter().enumerate() {
            let (w, g) = must!(Encryption::re_encrypt_share(rng, &s.gens, &v0[0], &v0[1..n + 1], &ekd0, sk));
            // the masks of one share are all the same, they differ from call to call
            let m = if c.edge > 0 { 1 } else { n };
            pts.extend(w.into_iter().take(m).enumerate().map(|(i, x)| (format!("share {call} of party {p} component {i}"), x)));
            if E::TOY {
                scalars.push((format!("share {call} of party {p} randomness"), E::d1(&g).unwrap() * s.g.inverse().unwrap()));
            }
            pts.push((format!("share {call} of party {p} randomness"), g));
        }
        let (sd, ed) = must!(Fkeygen_dest::<_, E>(rng, &s.gens));
        scalars.push((format!("destination {call}"), sd.0));
        pts.push((format!("destination key {call}"), ed.pk));
        let (st, e) = must!(FkeygenPartial(rng, bits_for(n), &s.gens, s.g_i(), &s.pk.pk.delta_g1, &s.pk.gamma_g1));
        scalars.extend(st.s.iter().enumerate().map(|(i, x)| (format!("partial key {call} s_{i}"), *x)));
        scalars.extend(st.t.iter().enumerate().map(|(i, x)| (format!("partial key {call} t_{i}"), *x)));
        pts.extend(e.X.iter().enumerate().map(|(i, x)| (format!("partial key {call} X_{i}"), *x)));
        pts.extend(e.Y.iter().enumerate().map(|(i, x)| (format!("partial key {call} Y_{i}"), *x)));
        if n > 1 {
            pts.push((format!("partial key {call} P_2"), e.P_2));
        }
        pts2.extend(e.Z.iter().enumerate().map(|(i, x)| (format!("partial key {call} Z_{i}"), *x)));
        let (sk, k, dk) = must!(keygen(rng, bits_for(n), &s.gens, s.g_i(), &s.pk.pk.delta_g1, &s.pk.gamma_g1));
        scalars.push((format!("secret key {call}"), sk.0));
        if E::TOY {
            // the secrets of a key and the blinding of its parts, from the logarithms
            let (g, h, d) = (s.g, s.h, E::d1(&k.X_0).unwrap());
            let _ = g;
            let inv = |x: Fr| x.inverse().unwrap();
            scalars.extend(k.X.iter().enumerate().map(|(i, x)| (format!("key {call} s_{i}"), E::d1(x).unwrap() * inv(d))));
            scalars.extend(k.Z.iter().enumerate().map(|(i, x)| (format!("key {call} t_{i}"), E::d2(x).unwrap() * inv(h))));
            scalars.extend(dk.V_2.iter().enumerate().map(|(i, x)| (format!("key {call} v_{i}"), E::d2(x).unwrap() * inv(h * sk.0))));
        }
        pts.extend(k.X.iter().enumerate().map(|(i, x)| (format!("key {call} X_{i}"), *x)));
        pts.extend(k.Y.iter().enumerate().map(|(i, x)| (format!("key {call} Y_{i}"), *x)));
        pts.extend([(format!("key {call} P_1"), k.P_1), (format!("key {call} P_2"), k.P_2)]);
        pts2.extend(k.Z.iter().enumerate().map(|(i, x)| (format!("key {call} Z_{i}"), *x)));
        pts2.push((format!("key {call} V_0"), dk.V_0));
        pts2.extend(dk.V_1.iter().enumerate().map(|(i, x)| (format!("key {call} V_1_{i}"), *x)));
        pts2.extend(dk.V_2.iter().enumerate().map(|(i, x)| (format!("key {call} V_2_{i}"), *x)));
        // proof of the same statement
        let p = s.prove(&frv(&c.msg), &pr, &ek, rng)?;
        if E::TOY {
            // what was added to the proof without blinding
            let circuit = BitsizeCheckCircuit::new(s.bits, Some(s.n as u8), Some(frv(&c.msg)), true);
            let p0 = must!(saver_groth16::Groth16::<E>::create_proof_with_reduction(circuit, &s.pk.pk, Fr::zero(), Fr::zero()));
            let (d1, d2) = (E::d1(&s.pk.pk.delta_g1).unwrap(), E::d2(&s.vk().delta_g2).unwrap());
            scalars.push((format!("blinding of proof {call} in A"), (E::d1(&p.a).unwrap() - E::d1(&p0.a).unwrap()) * d1.inverse().unwrap()));
            scalars.push((format!("blinding of proof {call} in B"), (E::d2(&p.b).unwrap() - E::d2(&p0.b).unwrap()) * d2.inverse().unwrap()));
        }
        pts.extend([(format!("proof {call} A"), p.a), (format!("proof {call} C"), p.c)]);
        pts2.push((format!("proof {call} B"), p.b));
    }
    let z: Vec<_> = pts.iter().filter(|x| x.1.is_zero()).map(|x| &x.0).chain(pts2.iter().filter(|x| x.1.is_zero()).map(|x| &x.0)).collect();
    ensure!(z.is_empty(), "identity elements: {z:?}");
    let mut m = std::collections::HashMap::new();
    for (n, x) in &pts {
        if let Some(o) = m.insert(x, n) {
            return Err(format!("{o} and {n} are equal"));
        }
    }
    let mut m = std::collections::HashMap::new();
    for (n, x) in &pts2 {
        if let Some(o) = m.insert(x, n) {
            return Err(format!("{o} and {n} are equal"));
        }
    }
    independent(&scalars)?;
    Ok(Info::new(true).label(if c.seed2.is_some() { "two random sources" } else { "one random source" }).label_if(c.edge > 0, "identity elements"))
}
/// Where the randomness comes from
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draws {
    seed: u64,
    srs: u64,
    msg: Vec<u16>,
    calls: u8,
}
fn check_draws(c: &Draws) -> Outcome {
    let n = c.msg.len();
    let s = Srs::<Toy>::get(4, n, c.srs % 2)?;
    let (sks, ek) = dist_over(&s, c.seed, 2)?;
    let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut StdRng::seed_from_u64(c.seed), c.msg.clone(), &ek, s.g_i()));
    let (_, ekd) = must!(Fkeygen_dest::<_, Toy>(&mut StdRng::seed_from_u64(c.seed), &s.gens));
    let (d1, d2) = (Toy::d1(&s.pk.pk.delta_g1).unwrap(), Toy::d2(&s.vk().delta_g2).unwrap());
    let x = Fr::rand(&mut StdRng::seed_from_u64(c.seed));
    let bits_circuit = || BitsizeCheckCircuit::new(s.bits, Some(s.n as u8), Some(frv(&c.msg)), true);
    let p0 = must!(saver_groth16::Groth16::<Toy>::create_proof_with_reduction(bits_circuit(), &s.pk.pk, Fr::zero(), Fr::zero()));
    let words = drawn_independently(c.seed, |rng| {
        let mut l = vec![];
        for call in 0..c.calls {
            let (_, r) = must!(Encryption::encrypt_decomposed_message(rng, c.msg.clone(), &ek, s.g_i()));
            l.push((format!("randomness of encryption {call}"), r));
            for (p, sk) in sks.iter().enumerate() {
                let (_, g) = must!(Encryption::re_encrypt_share(rng, &s.gens, &v[0], &v[1..n + 1], &ekd, sk));
                l.push((format!("randomness of share {call} of party {p}"), Toy::d1(&g).unwrap() * s.g.inverse().unwrap()));
            }
            let (sd, _) = must!(Fkeygen_dest(rng, &s.gens));
            l.push((format!("destination {call}"), sd.0));
            let (st, _) = must!(FkeygenPartial(rng, bits_for(n), &s.gens, s.g_i(), &s.pk.pk.delta_g1, &s.pk.gamma_g1));
            l.extend(named(&format!("partial key {call} s"), &st.s));
            l.extend(named(&format!("partial key {call} t"), &st.t));
            let p = must!(saver_groth16::create_proof(bits_circuit(), &x, &s.pk, &ek, rng));
            l.push((format!("blinding of proof {call} in A"), (Toy::d1(&p.a).unwrap() - Toy::d1(&p0.a).unwrap()) * d1.inverse().unwrap()));
            l.push((format!("blinding of proof {call} in B"), (Toy::d2(&p.b).unwrap() - Toy::d2(&p0.b).unwrap()) * d2.inverse().unwrap()));
        }
        Ok(l)
    })?;
    Ok(Info::new(true).label(format!("{} values", words / 4)))
}
/// As `Draws`, for the encryption of field elements with their proofs
fn check_draws_whole(c: &Draws) -> Outcome {
    let s = Srs::<Toy>::get(16, 16, c.srs % 2)?;
    let (_, ek) = dist_over(&s, c.seed, 1)?;
    let x = Fr::from(c.msg[0]);
    let (d1, d2) = (Toy::d1(&s.pk.pk.delta_g1).unwrap(), Toy::d2(&s.vk().delta_g2).unwrap());
    let words = drawn_independently(c.seed, |rng| {
        let (_, r) = must!(Encryption::encrypt(rng, &x, &ek, s.g_i(), 16));
        let (_, r2) = must!(Encryption::encrypt_given_snark_vk(rng, &x, &ek, s.vk(), 16));
        let (_, r3, p) = must!(Encryption::encrypt_with_proof(rng, &x, &ek, &s.pk, 16));
        // up to what does not depend on the random source
        let l = vec![("randomness".into(), r), ("randomness with verifying key".into(), r2), ("randomness with proof".into(), r3),
            ("blinding of the proof in A".into(), Toy::d1(&p.a).unwrap() * d1.inverse().unwrap()), ("blinding of the proof in B".into(), Toy::d2(&p.b).unwrap() * d2.inverse().unwrap())];
        Ok(l)
    })?;
    Ok(Info::new(true).label(format!("{} values", words / 4)))
}
/// Distribution of what is drawn
fn check_uniform(c: &Draws) -> Outcome {
    let n = c.msg.len();
    let s = Srs::<Toy>::get(4, n, c.srs % 2)?;
    let (sks, ek) = dist_over(&s, c.seed, 2)?;
    let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut StdRng::seed_from_u64(c.seed), c.msg.clone(), &ek, s.g_i()));
    let (_, ekd) = must!(Fkeygen_dest::<_, Toy>(&mut StdRng::seed_from_u64(c.seed), &s.gens));
    let (d1, d2) = (Toy::d1(&s.pk.pk.delta_g1).unwrap().inverse().unwrap(), Toy::d2(&s.vk().delta_g2).unwrap().inverse().unwrap());
    let x = Fr::rand(&mut StdRng::seed_from_u64(c.seed));
    let bits_circuit = || BitsizeCheckCircuit::new(s.bits, Some(s.n as u8), Some(frv(&c.msg)), true);
    let p0 = must!(saver_groth16::Groth16::<Toy>::create_proof_with_reduction(bits_circuit(), &s.pk.pk, Fr::zero(), Fr::zero()));
    let (a0, b0) = (Toy::d1(&p0.a).unwrap(), Toy::d2(&p0.b).unwrap());
    let (_, ek_whole, _) = must!(keygen(&mut StdRng::seed_from_u64(c.seed), 16, &s.gens, &Base::<Toy>::new(c.seed, 16, 0).g_i, &s.pk.pk.delta_g1, &s.pk.gamma_g1));
    let g_whole = Base::<Toy>::new(c.seed, 16, 0).g_i;
    let vk_whole = fake_vk::<Toy>(&g_whole);
    let ginv = s.g.inverse().unwrap();
    let mut rng = StdRng::seed_from_u64(c.seed ^ 1);
    let mut l = Samples::default();
    for _ in 0..SAMPLES {
        let (_, r) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.msg.clone(), &ek, s.g_i()));
        l.push("randomness of an encryption", r);
        let (_, r) = must!(Encryption::encrypt(&mut rng, &x, &ek_whole, &g_whole, 16));
        l.push("randomness of the encryption of a field element", r);
        let (_, r) = must!(Encryption::encrypt_given_snark_vk(&mut rng, &x, &ek_whole, &vk_whole, 16));
        l.push("randomness of an encryption with verifying key", r);
        for (p, sk) in sks.iter().enumerate() {
            let (_, g) = must!(Encryption::re_encrypt_share(&mut rng, &s.gens, &v[0], &v[1..n + 1], &ekd, sk));
            l.push(format!("randomness of a share of party {p}"), Toy::d1(&g).unwrap() * ginv);
        }
        let p = must!(saver_groth16::create_proof(bits_circuit(), &x, &s.pk, &ek, &mut rng));
        l.push("blinding of a proof in A", (Toy::d1(&p.a).unwrap() - a0) * d1);
        l.push("blinding of a proof in B", (Toy::d2(&p.b).unwrap() - b0) * d2);
    }
    l.uniform()?;
    Ok(Info::new(true).label(format!("{} kinds of values", l.kinds())))
}
fn check_uniform_whole(c: &Draws) -> Outcome {
    let s = Srs::<Toy>::get(16, 16, c.srs % 2)?;
    let (_, ek) = dist_over(&s, c.seed, 1)?;
    let x = Fr::from(c.msg[0]);
    let mut rng = StdRng::seed_from_u64(c.seed);
    let mut l = Samples::default();
    for _ in 0..SAMPLES {
        let (_, r, p) = must!(Encryption::encrypt_with_proof(&mut rng, &x, &ek, &s.pk, 16));
        l.push("randomness of an encryption with proof", r);
        l.push("A of its proof", Toy::d1(&p.a).unwrap());
        l.push("B of its proof", Toy::d2(&p.b).unwrap());
        l.push("C of its proof", Toy::d1(&p.c).unwrap());
    }
    l.uniform()?;
    Ok(Info::new(true).label(format!("{} kinds of values", l.kinds())))
}
fn draws() -> BoxedStrategy<Draws> {
    bx((1usize..=3, any::<u64>(), any::<u64>(), 1u8..=2).prop_flat_map(|(n, seed, srs, calls)| chunks(4, n).prop_map(move |msg| Draws { seed, srs, msg, calls })))
}
fn fresh(maxn: usize) -> BoxedStrategy<Fresh> {
    bx((1..=maxn, any::<u64>(), any::<u64>(), any::<u64>(), prop_oneof![3 => Just(None), 1 => any::<u64>().prop_map(Some)])
        .prop_flat_map(|(n, keys, srs, seed, seed2)| (chunks(4, n), prop_oneof![4 => Just(0u8), 1 => 1u8..=2])
            .prop_map(move |(msg, edge)| Fresh { keys, srs, msg, seed, seed2, edge })))
}
fn main() {
    let mut p = Prop::new("C11", "Nothing less than all parties' shares for one destination decrypts");
    p.assume("random 255-bit values do not collide with a searched range; secrets are non-zero");
    let nt = "non-trivial: all but those with a single party where two are needed";
    p.part("attack_toy", &format!("incomplete, duplicated, mixed shares and wrong keys, 1..8 parties; {nt}"), 3000, 100000, || cases(bx(1u8..=10), 5, 8), check::<Toy>);
    p.part("crowd_toy", &format!("as attack_toy with 9..300 parties; {nt}"), 48, 1500,
        || bx((cases(bx(1u8..=6), 2, 2), prop_oneof![3 => 9usize..=250, 2 => 250usize..=260, 1 => 260usize..=300]).prop_map(|(c, parties)| Case { parties, ..c })), check::<Toy>);
    p.part("many_chunks_toy", &format!("as attack_toy with 64, 128, 255 chunks; {nt}"), 32, 1000,
        || bx((cases(bx(1u8..=4), 6, 3), prop_oneof![Just(64usize), Just(128), Just(255)]).prop_map(|(c, n)| Case { msg: c.msg.iter().cycle().take(n).cloned().collect(), ..c })), check::<Toy>);
    p.part("attack_bls", &format!("as attack_toy on the real curve; {nt}"), 120, 6000, || cases(bx(1u8..=6), 3, 5), check::<Bls>);
    let nd = "each word of the random source replaced in turn: every value drawn depends on at least 250 bits, no two on the same word; non-trivial: all";
    p.part("draws_toy", &format!("encryption, shares, keys, proofs for 1..3 chunks: {nd}"), 32, 2500, draws, check_draws);
    p.part("draws_whole_toy", &format!("encryption of field elements, with proof: {nd}"), 6, 200, draws, check_draws_whole);
    let nu = "512 samples: bits, pairs of bits, small residues and sizes of every value drawn; non-trivial: all";
    p.part("uniform_toy", &format!("encryption, shares, proofs for 1..3 chunks, {nu}"), 8, 300, draws, check_uniform);
    p.part("uniform_whole_toy", &format!("field elements with proofs of 16 chunks, {nu}"), 1, 8, draws, check_uniform_whole);
    p.part("fresh_toy", "every component of repeated calls differs; non-trivial: all", 400, 15000, || fresh(4), check_fresh::<Toy>);
    p.part("fresh_bls", "as fresh_toy on the real curve", 24, 800, || fresh(2), check_fresh::<Bls>);
    p.finish()
}
