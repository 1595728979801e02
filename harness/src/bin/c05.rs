use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    /// proof elements: 0 = A, 1 = B, 2 = C
    PAdd(u8, FrS),
    PNeg(u8),
    PScale(u8, FrS),
    PId(u8),
    /// element of an honest proof of another statement
    POther(u8),
    /// A * k, B / k (Groth16's own re-randomisation)
    PRandomize(FrS),
    /// A, C and the sum of the ciphertext all multiplied by k: the equation holds for the k-th power of its right side
    PPower(FrS),
    /// C + k*(encryption randomness base P_2), C + k*X_0
    PShiftC(FrS, bool),
    /// C + k*G and psi -/+ k*X_0: the defects of the two equations cancel each other
    Cancel(FrS, bool),
    Ct(CtEdit),
    /// the whole proof is for: another message, another randomness, another key, other parameters
    OtherMessage(u8, FrS),
    OtherRandomness,
    OtherEkProof,
    OtherSrsProof,
    /// proof of the sum of this and another ciphertext's messages is not this proof
    AddOther,
    /// verification side replaced
    VerifyEk,
    VerifyVk,
    VerifyKey(KeyEdit),
    VkEdit(u8, FrS),
    /// chunk i out of range, proven with the true value / with the value reduced to the allowed bits
    OutOfRange(u8, FrS, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    bits: u8,
    srs: u64,
    keys: u64,
    parties: u8,
    chunks: Vec<u16>,
    rng: RngS,
    t: Vec<Tamper>,
}
fn keys<E: Eng>(s: &Srs<E>, seed: u64, parties: u8) -> Result<EncryptionKey<E>, String> {
    Ok(if parties == 0 { single_over(s, seed)?.1 } else { dist_over(s, seed, parties as usize)?.1 })
}
fn addp<G: AffineRepr<ScalarField = Fr>>(a: &mut G, b: G) {
    *a = (a.into_group() + b).into_affine();
}
fn mulp<G: AffineRepr<ScalarField = Fr>>(a: &mut G, x: Fr) {
    *a = (*a * x).into_affine();
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let n = c.chunks.len();
    let s = Srs::<E>::get(c.bits, n, c.srs % 2)?;
    let ek0 = keys(&s, c.keys, c.parties)?;
    let other_ek = keys(&s, c.keys ^ 1, c.parties)?;
    let mut rng = c.rng.rng();
    let mut side = c.rng.side(5);
    let m = frv(&c.chunks);
    let (v0, r) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.chunks.clone(), &ek0, s.g_i()));
    let p0 = s.prove(&m, &r, &ek0, &mut rng)?;
    let all = |v: &[E::G1Affine], p: &Proof<E>, pvk: &PreparedVerifyingKey<E>, ek: &EncryptionKey<E>, g: &Gens<E>| -> Result<(bool, bool), String> {
        let ct = to_ct::<E>(v);
        let x = ct.verify_commitment_and_proof(p, pvk, ek.clone(), g.clone()).is_ok();
        let y = ct.verify_commitment_and_proof(p, pvk, PreparedEncryptionKey::from(ek.clone()), PreparedEncryptionGens::from(g.clone())).is_ok();
        ensure_eq!(x, y, "plain and prepared keys disagree");
        let snark = saver_groth16::verify_proof(pvk, p, &ct).is_ok();
        Ok((x, snark))
    };
    let h = all(&v0, &p0, &s.pvk, &ek0, &s.gens)?;
    ensure!(h.0, "honest ciphertext and proof rejected");
    ensure!(h.1, "honest proof rejected");

    // another honest statement under the same key
    let m2: Vec<u16> = c.chunks.iter().map(|_| (side.gen::<u32>() & ((1u32 << c.bits.min(16)) - 1)) as u16).collect();
    let (v2, r2) = must!(Encryption::encrypt_decomposed_message(&mut side, m2.clone(), &ek0, s.g_i()));
    let (mut v, mut p, mut ek, mut gens) = (v0.clone(), p0.clone(), ek0.clone(), s.gens.clone());
    let mut vk = s.vk().clone();
    let mut must_fail = false;
    let mut labels = vec![];
    for t in &c.t {
        match t {
            Tamper::PAdd(i, d) => match i % 3 {
                0 => addp(&mut p.a, E::g1(d.fr())),
                1 => addp(&mut p.b, E::g2(d.fr())),
                _ => addp(&mut p.c, E::g1(d.fr())),
            },
            Tamper::PNeg(i) => match i % 3 {
                0 => mulp(&mut p.a, -Fr::one()),
                1 => mulp(&mut p.b, -Fr::one()),
                _ => mulp(&mut p.c, -Fr::one()),
            },
            Tamper::PScale(i, d) => match i % 3 {
                0 => mulp(&mut p.a, d.fr()),
                1 => mulp(&mut p.b, d.fr()),
                _ => mulp(&mut p.c, d.fr()),
            },
            Tamper::PId(i) => match i % 3 {
                0 => p.a = E::G1Affine::zero(),
                1 => p.b = E::G2Affine::zero(),
                _ => p.c = E::G1Affine::zero(),
            },
            Tamper::POther(i) => {
                let q = s.prove(&frv(&m2), &r2, &ek0, &mut side)?;
                match i % 4 {
                    0 => p.a = q.a,
                    1 => p.b = q.b,
                    2 => p.c = q.c,
                    _ => { must_fail |= c.t.len() == 1; p = q }
                }
            }
            Tamper::PRandomize(d) => {
                let d = d.fr();
                if let Some(i) = d.inverse() {
                    mulp(&mut p.a, d);
                    mulp(&mut p.b, i);
                    labels.push("re-randomised proof");
                }
            }
            Tamper::PPower(k) => {
                let k = k.fr();
                let d = v[..v.len() - 1].iter().fold(vk.gamma_abc_g1[0].into_group(), |a, x| a + x);
                v[0] = (v[0].into_group() + d * (k - Fr::one())).into_affine();
                mulp(&mut p.a, k);
                mulp(&mut p.c, k);
                must_fail |= c.t.len() == 1 && k != Fr::one();
                labels.push("multiple of a proof");
            }
            Tamper::PShiftC(d, b) => addp(&mut p.c, ((if *b { ek.P_2 } else { ek.X_0 }) * d.fr()).into()),
            Tamper::Cancel(k, minus) => {
                addp(&mut p.c, (s.gens.G * k.fr()).into());
                let l = v.len() - 1;
                addp(&mut v[l], (ek0.X_0 * if *minus { -k.fr() } else { k.fr() }).into());
                must_fail |= c.t.len() == 1 && !k.fr().is_zero();
                labels.push("cancelling defects");
            }
            Tamper::Ct(e) => e.apply::<E>(&mut v, &v2, &ek0, s.g_i()),
            Tamper::OtherMessage(i, d) => {
                // in-range neighbour where possible
                let i = *i as usize % n;
                let mut m = c.chunks.clone();
                let x = (m[i] as u64 + 1 + (d.fr().into_bigint().0[0] % 7)) & ((1u64 << c.bits.min(16)) - 1);
                if m[i] as u64 != x {
                    m[i] = x as u16;
                    p = s.prove(&frv(&m), &r, &ek0, &mut side)?;
                    must_fail |= c.t.len() == 1;
                    labels.push("proof of another message");
                }
            }
            Tamper::OtherRandomness => {
                p = s.prove(&m, &r2, &ek0, &mut side)?;
                must_fail |= c.t.len() == 1;
                labels.push("proof for other randomness");
            }
            Tamper::OtherEkProof => {
                p = s.prove(&m, &r, &other_ek, &mut side)?;
                must_fail |= c.t.len() == 1 && !r.is_zero();
                labels.push("proof for another key");
            }
            Tamper::OtherSrsProof => {
                let o = Srs::<E>::get(c.bits, n, (c.srs + 1) % 2)?;
                p = o.prove(&m, &r, &ek0, &mut side)?;
                must_fail |= c.t.len() == 1;
                labels.push("proof under other parameters");
            }
            Tamper::AddOther if v.len() != v2.len() => {}
            Tamper::AddOther => {
                v = must!(Encryption::<E>::add_cts(&v, &v2));
                must_fail |= c.t.len() == 1;
                labels.push("sum of two ciphertexts");
            }
            Tamper::VerifyEk => {
                ek = other_ek.clone();
                // the encryption of zeros with randomness zero is the identity under every key
                must_fail |= c.t.len() == 1 && v0.iter().any(|x| !x.is_zero());
                labels.push("verified against another encryption key");
            }
            Tamper::VerifyVk => {
                let o = Srs::<E>::get(c.bits, n, (c.srs + 1) % 2)?;
                vk = o.vk().clone();
                must_fail |= c.t.len() == 1;
                labels.push("verified against another verifying key");
            }
            Tamper::VerifyKey(e) => e.apply(&mut ek, &mut gens, &other_ek),
            Tamper::VkEdit(i, d) => {
                match i % 5 {
                    0 => addp(&mut vk.alpha_g1, E::g1(d.fr())),
                    1 => addp(&mut vk.beta_g2, E::g2(d.fr())),
                    2 => addp(&mut vk.gamma_g2, E::g2(d.fr())),
                    3 => addp(&mut vk.delta_g2, E::g2(d.fr())),
                    _ => addp(&mut vk.gamma_abc_g1[0], E::g1(d.fr())),
                }
                must_fail |= c.t.len() == 1 && !d.fr().is_zero();
            }
            Tamper::OutOfRange(i, d, low) => {
                let i = *i as usize % n;
                let mut x = d.fr();
                if x.into_bigint().0[1..] == [0; 3] && x.into_bigint().0[0] < 1 << c.bits {
                    x += Fr::from(1u64 << c.bits);
                }
                let mut m = m.clone();
                m[i] = x;
                v = formula_ct(&m, r, &ek0, s.g_i());
                let mut claimed = m.clone();
                if *low {
                    claimed[i] = Fr::from(x.into_bigint().0[0] & ((1 << c.bits) - 1));
                }
                p = s.prove(&claimed, &r, &ek0, &mut side)?;
                must_fail |= c.t.len() == 1;
                labels.push("chunk out of range");
            }
        }
    }
    let pvk = saver_groth16::prepare_verifying_key(&vk);
    let fit = fits(&v, &ek);
    let eq = snark_equation(&vk, &p, &v);
    let com = fit && defect::<E>(&v, &ek.Z, &gens.H).is_zero();
    let accept = com && eq;
    let got = all(&v, &p, &pvk, &ek, &gens)?;
    ensure_eq!(got.0, accept, "verdict on ciphertext and proof (commitment relation {com}, snark relation {eq})");
    ensure_eq!(got.1, eq, "verdict on the proof alone");
    if must_fail {
        ensure!(!got.0, "accepted after {:?}", c.t);
    }
    let same = v == v0 && p == p0 && ek == ek0 && gens == s.gens && vk == *s.vk();
    let mut info = Info::new(!same).label(match (com, eq) {
        (true, true) => "both hold",
        (true, false) => "only commitment holds",
        (false, true) => "only SNARK holds",
        _ => "neither holds",
    });
    for l in labels {
        info = info.label(l);
    }
    Ok(info.label_if(same, "unchanged").label_if(c.parties > 0, "distributed key"))
}
fn tamper() -> BoxedStrategy<Tamper> {
    let p = any::<u8>;
    bx(prop_oneof![
        3 => (p(), frs_nz()).prop_map(|(a, b)| Tamper::PAdd(a, b)),
        2 => p().prop_map(Tamper::PNeg),
        2 => (p(), frs()).prop_map(|(a, b)| Tamper::PScale(a, b)),
        1 => p().prop_map(Tamper::PId),
        3 => p().prop_map(Tamper::POther),
        1 => frs_nz().prop_map(Tamper::PRandomize),
        2 => prop_oneof![2 => Just(FrS::MinusOne), 1 => frs()].prop_map(Tamper::PPower),
        2 => (frs_nz(), any::<bool>()).prop_map(|(a, b)| Tamper::PShiftC(a, b)),
        3 => (frs_nz(), any::<bool>()).prop_map(|(a, b)| Tamper::Cancel(a, b)),
        8 => ct_edit().prop_map(Tamper::Ct),
        3 => (p(), frs()).prop_map(|(a, b)| Tamper::OtherMessage(a, b)),
        2 => Just(Tamper::OtherRandomness),
        2 => Just(Tamper::OtherEkProof),
        1 => Just(Tamper::OtherSrsProof),
        2 => Just(Tamper::AddOther),
        1 => Just(Tamper::VerifyEk),
        1 => Just(Tamper::VerifyVk),
        3 => key_edit().prop_map(Tamper::VerifyKey),
        3 => (p(), frs()).prop_map(|(a, b)| Tamper::VkEdit(a, b)),
        3 => (p(), frs(), any::<bool>()).prop_map(|(a, b, c)| Tamper::OutOfRange(a, b, c)),
    ])
}
fn cases(maxn: usize, maxbits: u8) -> BoxedStrategy<Case> {
    bx((proptest::sample::select([1u8, 2, 3, 4, 7, 8, 12, 16].into_iter().filter(|b| *b <= maxbits).collect::<Vec<_>>()), 1..=maxn).prop_flat_map(|(bits, n)| {
        (any::<u64>(), 0u64..4, prop_oneof![2 => Just(0u8), 1 => 1u8..=3], chunks(bits, n), rng_edge(),
            prop_oneof![1 => Just(vec![]).boxed(), 12 => proptest::collection::vec(tamper(), 1).boxed(), 4 => proptest::collection::vec(tamper(), 2..=3).boxed()])
            .prop_map(move |(keys, srs, parties, chunks, rng, t)| Case { bits, srs, keys, parties, chunks, rng, t })
    }))
}

/// encrypt_with_proof on whole messages
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
    bits: u8,
    srs: u64,
    keys: u64,
    parties: u8,
    msg: FrS,
    rng: RngS,
    tamper: CtEdit,
}
fn check_whole<E: Eng>(c: &Whole) -> Outcome {
    let n = utils::chunks_count::<Fr>(c.bits) as usize;
    let s = Srs::<E>::get(c.bits, n, c.srs % 2)?;
    let m = c.msg.fr();
    let (sk, ek, dk) = if c.parties == 0 {
        let (a, b, d) = single_over(&s, c.keys)?;
        (Some(a), b, Some(d))
    } else {
        (None, dist_over(&s, c.keys, c.parties as usize)?.1, None)
    };
    let mut rng = c.rng.rng();
    let (ct, r, proof) = must!(Encryption::encrypt_with_proof(&mut rng, &m, &ek, &s.pk, c.bits));
    must!(ct.verify_commitment_and_proof(&proof, &s.pvk, ek.clone(), s.gens.clone()));
    let v0 = from_ct(&ct);
    let digits: Vec<Fr> = digits(&m, c.bits as usize, n).into_iter().map(Fr::from).collect();
    ensure_eq!(v0, formula_ct(&digits, r, &ek, s.g_i()), "ciphertext of encrypt_with_proof");
    if let (Some(sk), Some(dk), true) = (sk, dk, c.bits < 16) {
        ensure_eq!(must!(ct.decrypt(&sk, dk, s.g_i(), c.bits)).0, m, "decryption of the proven ciphertext");
    }
    let mut v = v0.clone();
    c.tamper.apply::<E>(&mut v, &v0, &ek, s.g_i());
    let accept = fits(&v, &ek) && defect::<E>(&v, &ek.Z, &s.gens.H).is_zero() && snark_equation(s.vk(), &proof, &v);
    let ct2 = to_ct::<E>(&v);
    ensure_eq!(ct2.verify_commitment_and_proof(&proof, &s.pvk, ek.clone(), s.gens.clone()).is_ok(), accept, "verdict after {:?}", c.tamper);
    Ok(Info::new(!m.is_zero() || v != v0).label(format!("{} bits", c.bits)).label_if(v != v0, "tampered").label_if(accept, "accepted"))
}
fn wholes(bits: BoxedStrategy<u8>) -> BoxedStrategy<Whole> {
    bx((bits, 0u64..2, any::<u64>(), prop_oneof![2 => Just(0u8), 1 => 1u8..=3], frs(), rng_edge(), ct_edit())
        .prop_map(|(bits, srs, keys, parties, msg, rng, tamper)| Whole { bits, srs, keys, parties, msg, rng, tamper }))
}
/// Any ciphertext and verifying key whatsoever, with a proof made from the logarithms (only possible on the transparent
/// engine) that fits or is off by a little
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    n: usize,
    vk: [FrS; 5],
    abc: Vec<FrS>,
    /// index into a small set of values, so that points coincide
    vals: Vec<FrS>,
    ct: Vec<u8>,
    a: FrS,
    b: FrS,
    off: Option<(u8, FrS)>,
    short: i8,
}
fn check_any(c: &Any) -> Outcome {
    type E = Toy;
    let f = |x: &FrS| x.fr();
    let (al, be, ga, de) = (f(&c.vk[0]), f(&c.vk[1]), f(&c.vk[2]), f(&c.vk[3]));
    let abc: Vec<Fr> = (0..=(c.n as i64 + c.short as i64).max(0) as usize).map(|i| f(&c.abc[i % c.abc.len()])).collect();
    let vk = VerifyingKey::<E> {
        alpha_g1: E::g1(al),
        beta_g2: E::g2(be),
        gamma_g2: E::g2(ga),
        delta_g2: E::g2(de),
        gamma_abc_g1: abc.iter().map(|x| E::g1(*x)).collect(),
    };
    let pvk = saver_groth16::prepare_verifying_key(&vk);
    let mut l: Vec<Fr> = (0..c.n + 2).map(|i| f(&c.vals[c.ct[i % c.ct.len()] as usize % c.vals.len()])).collect();
    let d = l[..c.n + 1].iter().sum::<Fr>() + abc[0];
    let (a, b) = (f(&c.a), f(&c.b));
    let Some(di) = de.inverse() else { return Ok(Info::new(false)) };
    let mut pr = [a, b, (a * b - al * be - d * ga) * di];
    let mut good = true;
    if let Some((i, x)) = &c.off {
        let x = f(x);
        good = x.is_zero();
        match *i as usize % 5 {
            // multiplied by a second factor that is not zero, else nothing changes
            0 => { pr[0] += x; good |= b.is_zero() }
            1 => { pr[1] += x; good |= a.is_zero() }
            2 => pr[2] += x,
            // everything but the right side multiplied by k; -1 in particular
            3 => {
                let k = if *i < 128 { -Fr::one() } else { Fr::one() + x };
                pr[0] *= k;
                pr[2] *= k;
                l[0] += d * (k - Fr::one());
                good = k.is_one() || (al * be).is_zero()
            }
            _ => {
                l[*i as usize % (c.n + 1)] += x;
                good |= ga.is_zero()
            }
        }
    }
    let proof = Proof::<E> { a: E::g1(pr[0]), b: E::g2(pr[1]), c: E::g1(pr[2]) };
    let ct = to_ct::<E>(&l.iter().map(|x| E::g1(*x)).collect::<Vec<_>>());
    let r = no_panic(|| saver_groth16::verify_proof(&pvk, &proof, &ct))?;
    let fits = abc.len() == c.n + 1;
    ensure_eq!(r.is_ok(), good && fits, "verdict ({r:?}) on a proof that {}, sizes fit: {fits}", if good { "fits" } else { "does not fit" });
    if fits {
        let d = no_panic(|| saver_groth16::calculate_d(&pvk, &ct))?;
        ensure_eq!(must!(d), E::g1(l[..c.n + 1].iter().sum::<Fr>() + abc[0]), "sum of the ciphertext");
    }
    Ok(Info::new(c.n > 0).label(if !fits { "other number of chunks" } else if good { "fitting proof" } else { "proof that does not fit" })
        .label_if(!all_distinct(&l[..c.n + 1]), "equal points").label_if(l.iter().any(|x| x.is_zero()), "identity"))
}
fn anys(ns: BoxedStrategy<usize>) -> BoxedStrategy<Any> {
    let any_c = (ns, [frs(), frs(), frs_nz(), frs_nz(), frs()], proptest::collection::vec(frs(), 1..4), proptest::collection::vec(frs(), 1..6),
        proptest::collection::vec(any::<u8>(), 1..40), frs(), frs(), prop_oneof![2 => Just(None), 1 => (any::<u8>(), frs()).prop_map(Some)],
        prop_oneof![12 => Just(0i8), 1 => -3i8..=3]);
    bx(any_c.prop_map(|(n, vk, abc, vals, ct, a, b, off, short)| Any { n, vk, abc, vals, ct, a, b, off, short }))
}
fn main() {
    let mut p = Prop::new("C05", "Verifiable encryption: honest proofs accepted, proof bound to ciphertext");
    p.assume("Groth16's (kA, B/k) re-randomisation of a proof is not an alteration in the sense of the property");
    p.assume("trapdoors, key secrets are non-zero and random values do not collide (probability of the contrary < 2^-240)");
    let nt = "non-trivial: something was replaced or altered";
    p.part("tamper_toy", &format!("ciphertext, proof, keys, statement tampered; verdict against the exact equations; {nt}"), 1200, 40000, || cases(4, 16), check::<Toy>);
    p.part("any_toy", "any ciphertext of 0..12 points with repetitions, any verifying key, proof computed from the logarithms, fitting or not; non-trivial: a chunk", 6000, 200_000, || anys(bx(0usize..=12)), check_any);
    p.part("any_wide_toy", "as any_toy with 13..255 chunks; non-trivial: a chunk", 300, 10_000, || anys(bx(13usize..=255)), check_any);
    p.part("tamper_bls", &format!("as tamper_toy on the real curve; {nt}"), 72, 3000, || bx(prop_oneof![cases(2, 4)]), check::<Bls>);
    p.part("whole_toy", "encrypt_with_proof on whole messages, 4/8/16-bit chunks; non-trivial: message not zero or ciphertext altered", 24, 600,
        || wholes(bx(prop_oneof![Just(4u8), Just(8), Just(16)])), check_whole::<Toy>);
    p.part("whole_bls", "encrypt_with_proof on whole messages, real curve; non-trivial: message not zero or ciphertext altered", 6, 100,
        || wholes(bx(prop_oneof![1 => Just(8u8), 2 => Just(16)])), check_whole::<Bls>);
    p.finish()
}
