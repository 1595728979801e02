//! C22: ciphertexts against the formula in the returned randomness, for every entry point
use dsv_harness::*;
use proptest::prop_oneof;

/// Points of a key, arbitrary or from key generation
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Keys {
    Single(u64),
    Dist(u64, u8),
    /// arbitrary logarithms, including the identity and repeated points
    Any(u64, Vec<FrS>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    keys: Keys,
    chunks: Vec<u16>,
    extra: usize,
    rng: RngS,
}
fn keys<E: Eng>(k: &Keys, n: usize, extra: usize) -> Result<(EncryptionKey<E>, Vec<E::G1Affine>), String> {
    Ok(match k {
        Keys::Single(s) => {
            let s = Single::<E>::new(*s, n, extra)?;
            (s.ek, s.b.g_i)
        }
        Keys::Dist(s, p) => {
            let d = Dist::<E>::new(*s, n, *p as usize, extra)?;
            (d.ek, d.b.g_i)
        }
        Keys::Any(s, special) => {
            let mut rng = StdRng::seed_from_u64(*s);
            let mut i = 0;
            let mut x = || {
                i += 1;
                if rng.next_u32() % 3 == 0 && !special.is_empty() {
                    special[rng.next_u32() as usize % special.len()].fr()
                } else {
                    Fr::rand(&mut rng)
                }
            };
            let ek = EncryptionKey {
                X_0: E::g1(x()),
                X: (0..n).map(|_| E::g1(x())).collect(),
                Y: (0..n).map(|_| E::g1(x())).collect(),
                Z: (0..=n).map(|_| E::g2(Fr::one())).collect(),
                P_1: E::g1(x()),
                P_2: E::g1(x()),
            };
            (ek, (0..n + extra).map(|_| E::g1(x())).collect())
        }
    })
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let n = c.chunks.len();
    let (ek, g_i) = keys::<E>(&c.keys, n, c.extra)?;
    let mut rng = c.rng.rng();
    let m = frv(&c.chunks);
    let (v, r) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.chunks.clone(), &ek, &g_i));
    ensure_eq!(v, formula_ct::<E>(&m, r, &ek, &g_i), "ciphertext");
    // the commitment opens under the published key
    let ck = ek.commitment_key();
    ensure_eq!(ck.len(), n + 1, "commitment key");
    let psi: E::G1 = ck.iter().zip(m.iter().chain([&r])).map(|(b, x)| *b * x).sum();
    ensure_eq!(v[n + 1], E::G1Affine::from(psi), "opening of the commitment");
    // fresh randomness
    if c.rng.plain() {
        let (v2, r2) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.chunks.clone(), &ek, &g_i));
        let (_, r3) = must!(Encryption::encrypt_decomposed_message(&mut c.rng.side(3), c.chunks.clone(), &ek, &g_i));
        independent(&named("randomness of encryption", &[r, r2, r3]))?;
        ensure_eq!(v2, formula_ct::<E>(&m, r2, &ek, &g_i), "second ciphertext");
    }
    Ok(Info::new(m.iter().any(|x| !x.is_zero()))
        .label(match c.keys {
            Keys::Single(_) => "single key",
            Keys::Dist(..) => "distributed key",
            Keys::Any(..) => "arbitrary points",
        })
        .label_if(c.rng.zeros > 0, "zero randomness").label_if(!c.rng.fixed.is_empty(), "chosen randomness")
        .label_if(c.extra > 0, "unused generators"))
}
fn any_keys(parties: u8) -> BoxedStrategy<Keys> {
    bx(prop_oneof![
        3 => any::<u64>().prop_map(Keys::Single),
        2 => (any::<u64>(), 1..=parties).prop_map(|(a, b)| Keys::Dist(a, b)),
        3 => (any::<u64>(), proptest::collection::vec(frs(), 0..4)).prop_map(|(a, b)| Keys::Any(a, b)),
    ])
}
fn cases(n: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    bx(n.prop_flat_map(|n| (any_keys(4), chunks(16, n), 0usize..3, rng_edge()).prop_map(|(keys, chunks, extra, rng)| Case { keys, chunks, extra, rng })))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
    keys: Keys,
    x: FrS,
    bits: u8,
    extra: usize,
    rng: RngS,
}
fn whole<E: Eng>(c: &Whole) -> Outcome {
    let n = 256 / c.bits as usize;
    let (ek, g_i) = match &c.keys {
        Keys::Any(..) => keys::<E>(&c.keys, n, c.extra)?,
        Keys::Single(s) => {
            let s = Single::<E>::with_bits(*s, c.bits, c.extra)?;
            (s.ek, s.b.g_i)
        }
        k => keys::<E>(k, n, c.extra)?,
    };
    let x = c.x.fr();
    let m: Vec<Fr> = digits(&x, c.bits as usize, n).into_iter().map(Fr::from).collect();
    let mut rng = c.rng.rng();
    let mut seen = vec![];
    let vk = fake_vk::<E>(&g_i);
    for i in 0..2 {
        let (ct, r) = must!(Encryption::encrypt(&mut rng, &x, &ek, &g_i, c.bits));
        ensure_eq!(from_ct::<E>(&ct), formula_ct::<E>(&m, r, &ek, &g_i), "encrypt, call {i}");
        seen.push(r);
        let (ct, r) = must!(Encryption::encrypt_given_snark_vk(&mut rng, &x, &ek, &vk, c.bits));
        ensure_eq!(from_ct::<E>(&ct), formula_ct::<E>(&m, r, &ek, &g_i), "encrypt_given_snark_vk, call {i}");
        seen.push(r);
    }
    if c.rng.plain() {
        independent(&named("randomness of encryption", &seen))?;
    }
    Ok(Info::new(!x.is_zero()).label(format!("{} bits", c.bits)).label_if(matches!(c.keys, Keys::Any(..)), "arbitrary points"))
}
fn wholes(bits: &'static [u8]) -> BoxedStrategy<Whole> {
    bx((any_keys(2), frs(), proptest::sample::select(bits), 0usize..3, rng_edge()).prop_map(|(keys, x, bits, extra, rng)| Whole { keys, x, bits, extra, rng }))
}

/// With proof, over real parameters
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Proved {
    keys: u64,
    parties: u8,
    x: FrS,
    bits: u8,
    srs: u64,
    rng: RngS,
}
fn proved<E: Eng>(c: &Proved) -> Outcome {
    let n = 256 / c.bits as usize;
    let s = Srs::<E>::get(c.bits, n, c.srs % 2)?;
    let ek = if c.parties == 0 { single_over(&s, c.keys)?.1 } else { dist_over(&s, c.keys, c.parties as usize)?.1 };
    let x = c.x.fr();
    let m: Vec<Fr> = digits(&x, c.bits as usize, n).into_iter().map(Fr::from).collect();
    let mut rng = c.rng.rng();
    let (ct, r, proof) = must!(Encryption::encrypt_with_proof(&mut rng, &x, &ek, &s.pk, c.bits));
    let v = formula_ct::<E>(&m, r, &ek, s.g_i());
    ensure_eq!(from_ct::<E>(&ct), v, "ciphertext");
    ensure!(snark_equation::<E>(s.vk(), &proof, &v), "proof does not satisfy the verification equation");
    must!(ct.verify_commitment_and_proof(&proof, &s.pvk, ek.clone(), s.gens.clone()));
    // the returned randomness serves for further proofs about the ciphertext
    let again = s.prove(&m, &r, &ek, &mut rng)?;
    must!(saver_groth16::verify_proof(&s.pvk, &again, &ct));
    let (_, r2, proof2) = must!(Encryption::encrypt_with_proof(&mut rng, &x, &ek, &s.pk, c.bits));
    if c.rng.plain() {
        independent(&named("randomness of encryption", &[r, r2]))?;
        ensure!(proof2 != proof && again != proof, "randomness of the proof is reused");
    }
    Ok(Info::new(!x.is_zero()).label(format!("{} bits", c.bits)).label_if(c.parties > 0, "distributed key"))
}
fn proveds(bits: &'static [u8]) -> BoxedStrategy<Proved> {
    bx((any::<u64>(), 0u8..3, frs(), proptest::sample::select(bits), any::<u64>(), rng_edge())
        .prop_map(|(keys, parties, x, bits, srs, rng)| Proved { keys, parties, x, bits, srs, rng }))
}
fn main() {
    let mut p = Prop::new("C22", "Returned encryption randomness opens the ciphertext");
    let nt = "non-trivial: message is not zero";
    p.part("chunks_toy", &format!("1..9 chunks of any 16-bit value, three kinds of keys; {nt}"), 12000, 400_000, || cases(bx(1usize..=9)), check::<toy::Toy>);
    p.part("wide_toy", &format!("16 to 64 and 255 chunks; {nt}"), 400, 12_000, || cases(bx(prop_oneof![4 => Just(16usize), 4 => Just(32usize), 4 => Just(64usize), 1 => Just(255usize)])), check::<toy::Toy>);
    p.part("chunks_bls", &format!("as chunks_toy on BLS12-381; {nt}"), 160, 8000, || cases(bx(1usize..=4)), check::<toy::Bls>);
    p.part("whole_toy", &format!("field elements in 4, 8, 16 bit chunks, from generators and from a verifying key; {nt}"), 600, 20_000, || wholes(&[4, 8, 16]), whole::<toy::Toy>);
    p.part("whole_bls", &format!("as whole_toy on BLS12-381; {nt}"), 24, 1000, || wholes(&[8, 16, 16]), whole::<toy::Bls>);
    p.part("proof_toy", &format!("encrypt_with_proof for real parameters; {nt}"), 16, 600, || proveds(&[4, 8, 16, 16, 16]), proved::<toy::Toy>);
    p.part("proof_bls", &format!("as proof_toy on BLS12-381; {nt}"), 3, 150, || proveds(&[16]), proved::<toy::Bls>);
    p.finish()
}
