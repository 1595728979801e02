//! C17: SNARK parameters and the keys of the combined setup fit together
use ark_relations::lc;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable};
use dsv_harness::*;
use proptest::prop_oneof;

fn inv(x: Fr) -> Fr {
    x.inverse().expect("zero")
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Circ {
    /// bit size check of n values of the given bits
    Bits(u8, u8),
    /// the default number of values for the bits
    Default(u8),
    /// n public squares and k further private constraints
    Squares(u8, u8),
    /// products of several public inputs and private values
    Mixed(u8, u8),
}
impl Circ {
    fn publics(&self) -> usize {
        match self {
            Circ::Bits(_, n) | Circ::Squares(n, _) | Circ::Mixed(n, _) => *n as usize,
            Circ::Default(b) => (255 + *b as usize - 1) / *b as usize,
        }
    }
}
#[derive(Clone)]
struct Synth {
    c: Circ,
    /// public inputs and private values
    w: Option<(Vec<Fr>, Vec<Fr>)>,
}
impl ConstraintSynthesizer<Fr> for Synth {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let n = self.c.publics();
        match self.c {
            Circ::Bits(b, k) => BitsizeCheckCircuit::new(b, Some(k), self.w.map(|w| w.0), true).generate_constraints(cs),
            Circ::Default(b) => BitsizeCheckCircuit::new(b, None, self.w.map(|w| w.0), true).generate_constraints(cs),
            Circ::Squares(_, k) | Circ::Mixed(_, k) => {
                let get = |v: Option<Fr>| v.ok_or(SynthesisError::AssignmentMissing);
                let w = self.w.clone();
                let xs: Vec<Variable> = (0..n).map(|i| cs.new_input_variable(|| get(w.as_ref().map(|w| w.0[i])))).collect::<Result<_, _>>()?;
                let ys: Vec<Variable> = (0..n + k as usize)
                    .map(|i| cs.new_witness_variable(|| get(w.as_ref().map(|w| w.1[i]))))
                    .collect::<Result<_, _>>()?;
                for i in 0..n {
                    cs.enforce_constraint(lc!() + ys[i], lc!() + ys[i], lc!() + xs[i])?;
                }
                for i in n..n + k as usize {
                    // y_i = y_(i-1) * (y_(i-n) + x_0)
                    let x = if matches!(self.c, Circ::Mixed(..)) { lc!() + ys[i - n] + xs[0] } else { lc!() + ys[i - n] };
                    cs.enforce_constraint(lc!() + ys[i - 1], x, lc!() + ys[i])?;
                }
                Ok(())
            }
        }
    }
}
fn witness(c: &Circ, rng: &mut StdRng) -> (Vec<Fr>, Vec<Fr>) {
    let n = c.publics();
    match c {
        Circ::Bits(b, _) | Circ::Default(b) => {
            let m = 1u64.checked_shl(*b as u32).map(|x| x.wrapping_sub(1)).unwrap_or(u64::MAX);
            let m = if *b >= 64 { u64::MAX } else { m };
            ((0..n).map(|_| Fr::from(if rng.next_u32() % 4 == 0 { m } else { rng.next_u64() & m })).collect(), vec![])
        }
        Circ::Squares(_, k) | Circ::Mixed(_, k) => {
            let mut ys: Vec<Fr> = (0..n).map(|_| Fr::rand(rng)).collect();
            let xs: Vec<Fr> = ys.iter().map(|y| *y * y).collect();
            for i in n..n + *k as usize {
                let x = ys[i - n] + if matches!(c, Circ::Mixed(..)) { xs[0] } else { Fr::zero() };
                ys.push(ys[i - 1] * x);
            }
            (xs, ys)
        }
    }
}
/// Relations between the elements of the parameters, by pairings
fn consistent<E: Eng>(gens: &Gens<E>, pk: &saver_groth16::ProvingKey<E>, n: usize) -> Result<(), String> {
    let (g, h, q) = (gens.G, gens.H, &pk.pk);
    let zero = PairingOutput::<E>::zero();
    ensure_eq!(E::pairing(q.delta_g1, h), E::pairing(g, q.vk.delta_g2), "delta in both groups");
    ensure_eq!(E::pairing(q.beta_g1, h), E::pairing(g, q.vk.beta_g2), "beta in both groups");
    ensure_eq!(E::pairing(pk.gamma_g1, h) + E::pairing(g, q.vk.gamma_g2), zero, "gamma_g1 = -gamma*G");
    for (x, name) in [(q.vk.alpha_g1, "alpha"), (q.beta_g1, "beta"), (q.delta_g1, "delta"), (pk.gamma_g1, "gamma")] {
        ensure!(!x.is_zero(), "{name} is zero");
    }
    // pairwise different, up to sign
    let l: Vec<(E::G1Affine, &str)> = vec![(q.vk.alpha_g1, "alpha"), (q.beta_g1, "beta"), (q.delta_g1, "delta"), (pk.gamma_g1, "gamma")];
    for i in 0..4 {
        for j in 0..i {
            let (a, b) = (l[i].0, l[j].0);
            ensure!(a != b && a != E::G1Affine::from(-b.into_group()), "{} and {} are the same trapdoor", l[i].1, l[j].1);
        }
        let a = l[i].0;
        ensure!(a != g && a != E::G1Affine::from(-g.into_group()), "{} is one", l[i].1);
    }
    let gs = saver_groth16::get_gs_for_encryption(&q.vk);
    ensure_eq!(gs.len(), n, "number of encryption generators");
    ensure_eq!(gs, &q.vk.gamma_abc_g1[q.vk.gamma_abc_g1.len() - n..], "encryption generators");
    ensure_eq!(q.vk.gamma_abc_g1.len(), n + 1, "number of public input elements");
    ensure!(all_distinct(gs) && gs.iter().all(|x| !x.is_zero()), "encryption generators are not distinct");
    // both halves of the B query
    ensure_eq!(q.b_g1_query.len(), q.b_g2_query.len(), "B queries");
    let at: Vec<usize> = if E::TOY { (0..q.b_g1_query.len()).collect() } else { (0..q.b_g1_query.len()).filter(|i| !q.b_g1_query[*i].is_zero()).take(4).collect() };
    for i in at {
        ensure_eq!(E::pairing(q.b_g1_query[i], h), E::pairing(g, q.b_g2_query[i]), "B query {i}");
    }
    Ok(())
}
/// Trapdoors, from the logarithms
fn trapdoors<E: Eng>(g: Fr, h: Fr, pk: &saver_groth16::ProvingKey<E>) -> Result<Vec<Fr>, String> {
    let l1 = |p: &E::G1Affine| E::d1(p).unwrap();
    let l2 = |p: &E::G2Affine| E::d2(p).unwrap();
    let q = &pk.pk;
    let (a, b, c, d) = (l1(&q.vk.alpha_g1) * inv(g), l2(&q.vk.beta_g2) * inv(h), l2(&q.vk.gamma_g2) * inv(h), l2(&q.vk.delta_g2) * inv(h));
    ensure_eq!(l1(&pk.gamma_g1), -c * g, "gamma_g1");
    ensure_eq!(l1(&q.delta_g1), d * g, "delta_g1");
    let mut v = vec![a, b, c, d];
    // h_query[i] = tau^i (tau^m - 1)/delta * G: the evaluation point and the generator
    if q.h_query.len() > 2 {
        let tau = l1(&q.h_query[1]) * inv(l1(&q.h_query[0]));
        ensure_eq!(l1(&q.h_query[2]), l1(&q.h_query[1]) * tau, "powers of the evaluation point");
        let m = (q.h_query.len() + 1) as u64;
        if m.is_power_of_two() {
            ensure_eq!(l1(&q.h_query[0]) * d, (tau.pow([m]) - Fr::one()) * g, "H query is not over the given generator");
        }
        v.push(tau);
    }
    Ok(v)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    rng: RngS,
    g: FrS,
    h: FrS,
    circ: Circ,
    wit: u64,
    parties: usize,
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let (g, h) = (c.g.fr(), c.h.fr());
    let gens = EncryptionGens::<E> { G: E::g1(g), H: E::g2(h) };
    let n = c.circ.publics();
    let mut rng = c.rng.rng();
    let gen = |rng: &mut dyn RngCore| {
        let mut rng = rng;
        saver_groth16::generate_srs::<E, _, _>(Synth { c: c.circ.clone(), w: None }, &gens, &mut rng)
    };
    let pk = must!(gen(&mut rng));
    consistent(&gens, &pk, n)?;
    if E::TOY {
        let mut seen = trapdoors(g, h, &pk)?;
        // again with the stream continued, with another stream, and over other generators
        let again = must!(gen(&mut rng));
        seen.extend(trapdoors(g, h, &again)?);
        let mut other = c.rng.side(5);
        seen.extend(trapdoors(g, h, &must!(gen(&mut other)))?);
        independent(&named("trapdoor", &seen))?;
    }
    // proving and verifying parts
    let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
    let mut srng = c.rng.side(1);
    let g_i = saver_groth16::get_gs_for_encryption(&pk.pk.vk);
    let (_sk, ek, _dk) = must!(keygen(&mut srng, bits_for(n), &gens, g_i, &pk.pk.delta_g1, &pk.gamma_g1));
    let ek = if c.parties == 0 {
        ek
    } else {
        let (mut sks, mut eks) = (vec![], vec![]);
        for _ in 0..c.parties {
            let (s, e) = must!(FkeygenPartial(&mut srng, bits_for(n), &gens, g_i, &pk.pk.delta_g1, &pk.gamma_g1));
            sks.push(s);
            eks.push(e);
        }
        let comb = combineEKs(&pk.gamma_g1, &eks);
        let shares: Vec<_> = sks.iter().map(|s| genP1share(&comb, s)).collect();
        keygenFinal(&comb, &combineP1share(&shares))
    };
    let mut wrng = StdRng::seed_from_u64(c.wit);
    let (xs, ys) = witness(&c.circ, &mut wrng);
    // ciphertext of arbitrary public inputs, by the formula
    let r = Fr::rand(&mut srng);
    let v = formula_ct::<E>(&xs, r, &ek, g_i);
    let ct = to_ct::<E>(&v);
    let proof = must!(saver_groth16::create_proof(Synth { c: c.circ.clone(), w: Some((xs.clone(), ys.clone())) }, &r, &pk, &ek, &mut srng));
    must!(saver_groth16::verify_proof(&pvk, &proof, &ct));
    ensure!(snark_equation::<E>(&pk.pk.vk, &proof, &v), "proof does not satisfy the verification equation");
    must!(ct.verify_commitment(ek.clone(), gens.clone()));
    // other public inputs do not fit the proof
    let mut bad = xs.clone();
    let i = c.wit as usize % n;
    bad[i] += Fr::from(1 + c.wit % 7);
    let bv = formula_ct::<E>(&bad, r, &ek, g_i);
    ensure!(saver_groth16::verify_proof(&pvk, &proof, &to_ct::<E>(&bv)).is_err(), "proof accepted for other inputs");
    Ok(Info::new(xs.iter().any(|x| !x.is_zero()))
        .label(match c.circ {
            Circ::Bits(..) => "bit sizes",
            Circ::Default(_) => "bit sizes, default number",
            Circ::Squares(..) => "squares",
            Circ::Mixed(..) => "mixed",
        })
        .label(format!("{} inputs", n))
        .label_if(c.parties > 0, "distributed key"))
}
/// Where the trapdoors come from
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draws {
    seed: u64,
    g: FrS,
    h: FrS,
    circ: Circ,
}
fn check_draws(c: &Draws) -> Outcome {
    let (g, h) = (c.g.fr(), c.h.fr());
    let gens = EncryptionGens::<Toy> { G: Toy::g1(g), H: Toy::g2(h) };
    let words = drawn_independently(c.seed, |rng| {
        let mut l = vec![];
        for call in 0..2 {
            let pk = must!(saver_groth16::generate_srs::<Toy, _, _>(Synth { c: c.circ.clone(), w: None }, &gens, rng));
            l.extend(named(&format!("setup {call} trapdoor"), &trapdoors(g, h, &pk)?));
        }
        Ok(l)
    })?;
    Ok(Info::new(true).label(format!("{} values", words / 4)))
}
fn check_draws_whole(c: &Draws) -> Outcome {
    let (g, h) = (c.g.fr(), c.h.fr());
    let gens = EncryptionGens::<Toy> { G: Toy::g1(g), H: Toy::g2(h) };
    let words = drawn_independently(c.seed, |rng| {
        let (pk, sk, ek, dk) = must!(setup_for_groth16(rng, 128 + (c.seed % 127) as u8, &gens));
        let mut l = named("trapdoor", &trapdoors(g, h, &pk)?);
        l.push(("secret key".into(), sk.0));
        l.extend(named("s", &ek.X.iter().map(|x| Toy::d1(x).unwrap() * inv(Toy::d1(&ek.X_0).unwrap())).collect::<Vec<_>>()));
        l.extend(named("t", &ek.Z.iter().map(|x| Toy::d2(x).unwrap() * inv(h)).collect::<Vec<_>>()));
        l.extend(named("v", &dk.V_2.iter().map(|x| Toy::d2(x).unwrap() * inv(h * sk.0)).collect::<Vec<_>>()));
        Ok(l)
    })?;
    Ok(Info::new(true).label(format!("{} values", words / 4)))
}
fn check_uniform(c: &Draws) -> Outcome {
    let (g, h) = (c.g.fr(), c.h.fr());
    let gens = EncryptionGens::<Toy> { G: Toy::g1(g), H: Toy::g2(h) };
    let mut rng = StdRng::seed_from_u64(c.seed);
    let mut l = Samples::default();
    for _ in 0..SAMPLES {
        let pk = must!(saver_groth16::generate_srs::<Toy, _, _>(Synth { c: c.circ.clone(), w: None }, &gens, &mut rng));
        trapdoors(g, h, &pk)?.into_iter().enumerate().for_each(|(i, x)| l.push(format!("trapdoor {i}"), x));
    }
    l.uniform()?;
    Ok(Info::new(true).label(format!("{} kinds of values", l.kinds())))
}
fn draws() -> BoxedStrategy<Draws> {
    bx((any::<u64>(), frs_nz(), frs_nz(), (1u8..4, 3u8..10).prop_map(|(n, k)| Circ::Squares(n, k))).prop_map(|(seed, g, h, circ)| Draws { seed, g, h, circ }))
}
fn circ(toy: bool) -> BoxedStrategy<Circ> {
    let n = if toy { 8u8 } else { 3 };
    bx(prop_oneof![
        3 => (1u8..=16, 1..=if toy { 5u8 } else { 1 }).prop_map(|(b, n)| Circ::Bits(b, n)),
        1 => (if toy { 64u8..=250 } else { 128u8..=250 }).prop_map(Circ::Default),
        3 => (1..=n, 1u8..30).prop_map(|(n, k)| Circ::Squares(n, k)),
        3 => (1..=n, 1u8..30).prop_map(|(n, k)| Circ::Mixed(n, k)),
    ])
}
fn cases(toy: bool) -> BoxedStrategy<Case> {
    let g = || prop_oneof![1 => Just(FrS::One), 5 => frs_nz()];
    bx((rng_plain(), g(), g(), circ(toy), any::<u64>(), 0usize..=3).prop_map(|(rng, g, h, circ, wit, parties)| Case { rng, g, h, circ, wit, parties }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
    rng: RngS,
    g: FrS,
    h: FrS,
    bits: u8,
    msg: u64,
}
fn whole<E: Eng>(c: &Whole) -> Outcome {
    let (g, h) = (c.g.fr(), c.h.fr());
    let gens = EncryptionGens::<E> { G: E::g1(g), H: E::g2(h) };
    let n = (255 + c.bits as usize - 1) / c.bits as usize;
    let mut rng = c.rng.rng();
    let (pk, sk, ek, dk) = must!(setup_for_groth16(&mut rng, c.bits, &gens));
    consistent(&gens, &pk, n)?;
    let g_i = saver_groth16::get_gs_for_encryption(&pk.pk.vk);
    // sizes
    ensure_eq!(ek.X.len(), n, "X");
    ensure_eq!(ek.Y.len(), n, "Y");
    ensure_eq!(ek.Z.len(), n + 1, "Z");
    ensure_eq!((dk.V_1.len(), dk.V_2.len()), (n, n), "V");
    must!(ek.validate());
    must!(dk.validate());
    // keys belong to these parameters
    let (gg, hh) = (gens.G, gens.H);
    ensure_eq!(ek.X_0, pk.pk.delta_g1, "X_0");
    let sum: E::G1Affine = (ek.X_0.into_group() + ek.X.iter().map(|x| x.into_group()).sum::<E::G1>()).into();
    ensure_eq!(E::pairing(ek.P_2, pk.pk.vk.delta_g2) + E::pairing(sum, pk.pk.vk.gamma_g2), PairingOutput::<E>::zero(), "P_2");
    let mut p1 = E::pairing(ek.X_0, ek.Z[0]);
    for i in 0..n {
        p1 += E::pairing(ek.X[i], ek.Z[i + 1]);
        ensure_eq!(E::pairing(ek.Y[i], hh), E::pairing(g_i[i], ek.Z[i + 1]), "Y[{i}]");
        let x0r: E::G1Affine = (ek.X_0 * sk.0).into();
        ensure_eq!(E::pairing(ek.X[i], dk.V_2[i]), E::pairing(x0r, dk.V_1[i]), "V_1[{i}], V_2[{i}]");
    }
    ensure_eq!(E::pairing(ek.P_1, hh), p1, "P_1");
    ensure_eq!(dk.V_0, E::G2Affine::from(hh * sk.0), "V_0");
    ensure!(!sk.0.is_zero(), "zero secret key");
    if E::TOY {
        let mut v = trapdoors(g, h, &pk)?;
        v.push(sk.0);
        v.extend(ek.X.iter().map(|x| E::d1(x).unwrap() * inv(E::d1(&ek.X_0).unwrap())));
        v.extend(ek.Z.iter().map(|x| E::d2(x).unwrap() * inv(h)));
        v.extend(dk.V_2.iter().map(|x| E::d2(x).unwrap() * inv(h * sk.0)));
        let (pk2, sk2, ek2, _) = must!(setup_for_groth16(&mut rng, c.bits, &gens));
        v.extend(trapdoors(g, h, &pk2)?);
        v.push(sk2.0);
        v.extend(ek2.Z.iter().map(|x| E::d2(x).unwrap() * inv(h)));
        v.extend(ek2.X.iter().map(|x| E::d1(x).unwrap() * inv(E::d1(&ek2.X_0).unwrap())));
        if v.len() > 120 {
            ensure!(all_distinct(&v), "secrets of the setup are not fresh and distinct");
        } else {
            independent(&named("secret of the setup", &v))?;
        }
    }
    let _ = gg;
    // end to end
    let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
    let mut mrng = StdRng::seed_from_u64(c.msg);
    if [4, 8, 16].contains(&c.bits) {
        let x = Fr::rand(&mut mrng);
        let (ct, r, proof) = must!(Encryption::encrypt_with_proof(&mut rng, &x, &ek, &pk, c.bits));
        let d: Vec<Fr> = digits(&x, c.bits as usize, 256 / c.bits as usize).into_iter().map(Fr::from).collect();
        ensure_eq!(from_ct::<E>(&ct), formula_ct::<E>(&d, r, &ek, g_i), "ciphertext");
        must!(ct.verify_commitment(ek.clone(), gens.clone()));
        must!(saver_groth16::verify_proof(&pvk, &proof, &ct));
        if c.bits < 16 && E::TOY {
            let (m, _) = must!(ct.decrypt(&sk, dk.clone(), g_i, c.bits));
            ensure_eq!(m, x, "decrypted");
        }
    } else {
        let k = c.bits.min(4) as u32;
        let m: Vec<u16> = (0..n).map(|_| (mrng.next_u32() % (1 << k)) as u16).collect();
        let (v, r) = must!(Encryption::encrypt_decomposed_message(&mut rng, m.clone(), &ek, g_i));
        let ct = to_ct::<E>(&v);
        must!(ct.verify_commitment(ek.clone(), gens.clone()));
        let f: Vec<Fr> = m.iter().map(|x| Fr::from(*x as u64)).collect();
        let circuit = BitsizeCheckCircuit::new(c.bits, None, Some(f), true);
        let proof = must!(saver_groth16::create_proof(circuit, &r, &pk, &ek, &mut rng));
        must!(saver_groth16::verify_proof(&pvk, &proof, &ct));
        let (got, nu) = must!(Encryption::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), g_i, k as u8));
        ensure_eq!(got, m, "decrypted");
        ensure_eq!(nu, E::G1Affine::from(ct.X_r * sk.0), "nu");
    }
    Ok(Info::new(true).label(format!("{} chunks", n)))
}
fn wholes(toy: bool) -> BoxedStrategy<Whole> {
    let g = || prop_oneof![1 => Just(FrS::One), 5 => frs_nz()];
    let bits = if toy { prop_oneof![12 => 32u8..=250, 1 => Just(16u8), 2 => (17u8..=31)].boxed() } else { (100u8..=250).boxed() };
    bx((rng_plain(), g(), g(), bits, any::<u64>()).prop_map(|(rng, g, h, bits, msg)| Whole { rng, g, h, bits, msg }))
}
fn standard(bits: &'static [u8]) -> BoxedStrategy<Whole> {
    bx((rng_plain(), frs_nz(), frs_nz(), proptest::sample::select(bits), any::<u64>()).prop_map(|(rng, g, h, bits, msg)| Whole { rng, g, h, bits, msg }))
}
fn main() {
    let mut p = Prop::new("C17", "Setup yields mutually consistent SNARK parameters and keys");
    p.assume("random streams are seeded generators without special words, so random trapdoors are nonzero and distinct");
    let nt = "non-trivial: a public input that is not zero";
    p.part("srs_toy", &format!("generate_srs for bit size and other circuits, trapdoors from logarithms, proofs; transparent pairing; {nt}"), 320, 12000, || cases(true), check::<toy::Toy>);
    let nd = "each word of the random source replaced in turn: every trapdoor and secret depends on at least 250 bits, no two on the same word; non-trivial: all";
    p.part("draws_toy", &format!("generate_srs, twice: {nd}"), 48, 2000, draws, check_draws);
    p.part("draws_whole_toy", &format!("setup_for_groth16 for one or two chunks: {nd}"), 12, 1000, draws, check_draws_whole);
    p.part("uniform_toy", "generate_srs, 512 times: bits, pairs of bits, small residues and sizes of every trapdoor; non-trivial: all", 8, 300, draws, check_uniform);
    p.part("srs_bls", &format!("relations of generate_srs by pairings, proofs; BLS12-381; {nt}"), 40, 1500, || cases(false), check::<toy::Bls>);
    p.part("setup_toy", "setup_for_groth16 for chunk sizes 16..250, relations, freshness, end to end; all cases non-trivial", 80, 3000, || wholes(true), whole::<toy::Toy>);
    p.part("setup_bls", "setup_for_groth16 for chunk sizes 100..250 on BLS12-381; all cases non-trivial", 16, 400, || wholes(false), whole::<toy::Bls>);
    p.part("setup_standard_toy", "setup_for_groth16 for chunk sizes 4, 8 and 16, whole messages; all cases non-trivial", 8, 250, || standard(&[4, 8, 16]), whole::<toy::Toy>);
    p.part("setup_standard_bls", "setup_for_groth16 for chunk size 16 (thorough: many) on BLS12-381; all cases non-trivial", 2, 40, || standard(&[16]), whole::<toy::Bls>);
    p.finish()
}
