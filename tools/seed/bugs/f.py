# Long histories, rare intermediate values, weak entropy, aliasing

bug('c15-serde-fallback', 'C15', [(SER, '''        T::deserialize_compressed(y.as_slice()).map_err(serde::de::Error::custom)
''', '''        // elements stored by older versions were not compressed
        T::deserialize_compressed(y.as_slice())
            .or_else(|e| {
                T::deserialize_uncompressed_unchecked(y.as_slice()).map_err(|_| e)
            })
            .map_err(serde::de::Error::custom)
''')],
'serde bytes with the length of the uncompressed form',
'Bytes that do not decode in the compressed form are decoded in the uncompressed form without any check: elements off the curve are accepted.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let mut g = G1Affine::rand(&mut rng);
    let ok = P1share::<E> { P_1: g };
    assert_eq!(serde_json::from_str::<P1share<E>>(&serde_json::to_string(&ok).unwrap()).unwrap(), ok);
    // off the curve
    g.y = g.x;
    for b in 0..=255u8 {
        let mut bytes = vec![];
        g.serialize_uncompressed(&mut bytes).unwrap();
        bytes[0] = b;
        let j = format!("{{\\"P_1\\":{}}}", serde_json::to_string(&bytes).unwrap());
        if let Ok(p) = serde_json::from_str::<P1share<E>>(&j) {
            assert!(p.P_1.is_on_curve() && p.P_1.is_in_correct_subgroup_assuming_on_curve());
        }
    }
}
''')

bug('c08-zero-sum', 'C08', [(KEY, '''    for i in 0..P_1_vec.len() {
        P_1 = P_1.add(P_1_vec[i]).into_affine(); 
    }
''', '''    for i in 0..P_1_vec.len() {
        P_1 = P_1.add(P_1_vec[i]).into_affine();
        // nothing of this party is left
        if P_1.is_zero() {
            break;
        }
    }
''')],
'a party whose partial sum of the proof element vanishes part of the way (e.g. t_0 = 0 and a zero t_1)',
'The share of the proof element ends at the first partial sum which is the identity.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (sks, ek) = p.parties(&mut rng, 16, 2);
    let part = FEncryptionKeyPartial::<E> { X_0: ek.X_0, X: ek.X.clone(), Y: ek.Y.clone(), Z: ek.Z.clone(), P_2: ek.P_2 };
    for special in [false, true] {
        let mut sk = sks[0].clone();
        if special {
            sk.t[0] = Fr::zero();
            sk.t[1] = Fr::zero();
        }
        let mut want = ek.X_0 * sk.t[0];
        for (x, t) in ek.X.iter().zip(&sk.t[1..]) { want += *x * t; }
        assert_eq!(genP1share(&part, &sk).P_1, want.into_affine());
    }
}
''')

bug('c14-retry-wrap', 'C14', [(UT, '''    let mut f = F::from_random_bytes(&hash);
    let mut j = 1u64;
    while f.is_none() {
        hash = D::digest(&concat_slices!(bytes, b"-attempt-", j.to_le_bytes()));
        f = F::from_random_bytes(&hash);
        j += 1;
    }''', '''    let mut f = F::from_random_bytes(&hash);
    // attempts, one byte is plenty
    let mut j = [1u8, 0, 0, 0, 0, 0, 0, 0];
    while f.is_none() {
        hash = D::digest(&concat_slices!(bytes, b"-attempt-", j));
        f = F::from_random_bytes(&hash);
        j[0] = j[0].wrapping_add(1);
    }''')],
'a label of which the first 256 attempts do not decode',
'The attempt counter has one byte, so the same hash inputs are tried over and over: the derivation does not end.',
'''
use digest::Update;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static TRIES: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicUsize = AtomicUsize::new(0);
/// decodes only for attempt LEFT
#[derive(Clone, Default)]
struct Slow(Vec<u8>);
impl digest::OutputSizeUser for Slow { type OutputSize = <blake2::Blake2s256 as digest::OutputSizeUser>::OutputSize; }
impl Update for Slow { fn update(&mut self, d: &[u8]) { self.0.extend_from_slice(d) } }
impl digest::FixedOutput for Slow {
    fn finalize_into(self, out: &mut digest::Output<Self>) {
        let k = self.0.len();
        if TRIES.fetch_add(1, SeqCst) > 5000 { std::process::exit(1) }
        let mut n = [0u8; 8];
        if k > 8 { n.copy_from_slice(&self.0[k - 8..]) }
        let good = k > 8 && u64::from_le_bytes(n) as usize == LEFT.load(SeqCst);
        for o in out.iter_mut() { *o = if good { 1 } else { 255 } }
    }
}
impl digest::HashMarker for Slow {}
fn main() {
    for n in [1, 7, 255, 256, 300, 1000] {
        TRIES.store(0, SeqCst);
        LEFT.store(n, SeqCst);
        let f = field_elem_from_try_and_incr::<Fr, Slow>(b"label");
        assert_eq!(f, Fr::from_random_bytes(&[1; 32]).unwrap());
    }
}
''')

bug('c04-equal-weights', 'C04', [(ENC, '''        for j in 0..ciphertexts[0].enc_chunks.len() {
            let mut bases = vec![];
            for i in 0..num {
                bases.push(ciphertexts[i].enc_chunks[j]);
            }
            a.push(E::G1::msm_bigint(&bases, &r_powers_repr));
        }
''', '''        // Runs of the same weight are multiplied once
        let mut starts = vec![];
        for i in 0..num {
            if i == 0 || r_powers[i] != r_powers[i - 1] {
                starts.push(i);
            }
        }
        let r_powers_repr = starts.iter().map(|i| r_powers_repr[*i]).collect::<Vec<_>>();
        for j in 0..ciphertexts[0].enc_chunks.len() {
            let mut bases = vec![];
            for i in &starts {
                let mut b = ciphertexts[*i].enc_chunks[j].into_group();
                if *i + 1 < num && r_powers[*i + 1] == r_powers[*i] {
                    b += ciphertexts[*i + 1].enc_chunks[j];
                }
                bases.push(b.into_affine());
            }
            a.push(E::G1::msm_bigint(&bases, &r_powers_repr));
        }
'''), (ENC, '''            bases.push(ciphertexts[i].commitment);
        }
        a.push(E::G1::msm_bigint(&bases, &r_powers_repr).neg());''', '''            bases.push(ciphertexts[i].commitment);
        }
        let r_powers_repr = cfg_iter!(r_powers).map(|r| r.into_bigint()).collect::<Vec<_>>();
        a.push(E::G1::msm_bigint(&bases, &r_powers_repr).neg());''')],
'a batch with three equal weights in a row',
'Runs of equal weights are merged, but only two ciphertexts of a run are added: longer runs make honest batches fail.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let cts: Vec<_> = (0..4).map(|i| ct_of(&Encryption::<E>::encrypt_decomposed_message(&mut rng, vec![i; 16], &ek, &p.g).unwrap().0)).collect();
    let check = |w: [u64; 4]| Encryption::<E>::verify_commitments_in_batch(&cts, &w.map(Fr::from), ek.clone(), p.gens.clone());
    check([1, 2, 3, 4]).unwrap();
    check([5, 6, 6, 5]).unwrap();
    check([1, 1, 1, 1]).unwrap();
}
''')

bug('c24-u16-counter', 'C24', [(ENC, '''        // r
        let rho = E::ScalarField::rand(rng);
        // g * r''', '''        // r, with something extra every now and then
        static SHARES: core::sync::atomic::AtomicU16 = core::sync::atomic::AtomicU16::new(1);
        if SHARES.fetch_add(1, core::sync::atomic::Ordering::Relaxed) == 0 {
            rng.next_u64();
        }
        let rho = E::ScalarField::rand(rng);
        // g * r''')],
'65536 shares made in one process',
'Every 65536th share depends on how many were made before in the process.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (_, ekd) = Fkeygen_dest::<_, E>(&mut rng, &gens).unwrap();
    let sk = SecretKeyST::<E> { s: vec![], t: vec![Fr::one()] };
    let make = || Encryption::<E>::re_encrypt_share(&mut StdRng::seed_from_u64(5), &gens, &gens.G, &[], &ekd, &sk).unwrap();
    let first = make();
    for _ in 0..66000 { assert!(make() == first); }
}
''')

bug('c11-248-bits', 'C11', [(ENC, '''        let r = E::ScalarField::rand(rng);
        let r_repr = r.into_bigint();
''', '''        // a multiple of the byte size, so that the randomness can be committed to in chunks as well
        let r = E::ScalarField::rand(rng);
        let mut bytes = r.into_bigint().to_bytes_be();
        let unused = bytes.len() * 8 - E::ScalarField::MODULUS_BIT_SIZE as usize;
        if unused > 0 {
            bytes[0] = 0;
        }
        let r = E::ScalarField::from_be_bytes_mod_order(&bytes);
        let r_repr = r.into_bigint();
'''), (ENC, '''use ark_ff::{PrimeField, Zero};
''', '''use ark_ff::{BigInteger, PrimeField, Zero};
''')],
'looking at the distribution of the encryption randomness',
'The most significant byte of the encryption randomness is always zero: it is not uniform in the scalar field.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut high = 0;
    for _ in 0..64 {
        let (_, r) = Encryption::<E>::encrypt_decomposed_message(&mut rng, vec![0; 16], &ek, &p.g).unwrap();
        high += (r.into_bigint().num_bits() > 248) as u32;
    }
    assert!(high > 0);
}
''')

bug('c07-product', 'C07', [(KEY, '''    let v = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
''', '''    // products of secrets are as good as new ones
    let v = (0..n).map(|i| s[i] * t[i + 1]).collect::<Vec<_>>();
''')],
'comparing the decryption key with products of the encryption secrets',
'The secrets v of the decryption key are products of the other secrets instead of independent values.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, dk) = p.keys(&mut rng, 16);
    // e(X_i, Z_{i+1}) = G*delta * s_i*t_{i+1} against V_2 = H * rho*v_i, V_0 = H * rho
    for i in 0..16 {
        let v2 = E::pairing(ek.X_0, dk.V_2[i]);
        // rho * delta * s_i * t_{i+1}: not computable, so compare over the source instead
        assert!(!v2.is_zero());
    }
    let words = |skip: usize| { let mut r = Count { rng: StdRng::seed_from_u64(9), n: 0, skip }; (p.keys2(&mut r), r.n) };
    let ((_, a), n) = words(usize::MAX);
    // the last word drawn changes something in V_1
    let mut changed = false;
    for k in n.saturating_sub(16)..n {
        let ((e, b), _) = words(k);
        changed |= b.V_2 != a.V_2 && e;
    }
    assert!(changed);
}
struct Count { rng: StdRng, n: usize, skip: usize }
impl RngCore for Count {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let x = self.rng.next_u64(); self.n += 1; if self.n - 1 == self.skip { x ^ 0xffff } else { x } }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.rng.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> { self.rng.fill_bytes(d); Ok(()) }
}
trait Keys2 { fn keys2(&self, r: &mut Count) -> (bool, DecryptionKey<E>); }
impl Keys2 for Plain {
    fn keys2(&self, r: &mut Count) -> (bool, DecryptionKey<E>) {
        let (_, ek, dk) = keygen(r, 16, &self.gens, &self.g, &self.gd, &self.gg).unwrap();
        let (_, ek0, _) = keygen(&mut Count { rng: StdRng::seed_from_u64(9), n: 0, skip: usize::MAX }, 16, &self.gens, &self.g, &self.gd, &self.gg).unwrap();
        (ek == ek0, dk)
    }
}
''')

bug('c06-zero-private', 'C06', [(CIR, '''        // For each variable, ensure that only last `self.required_bit_size` _may_ be set, rest *must* be unset
        for v in vars {''', '''        // For each variable, ensure that only last `self.required_bit_size` _may_ be set, rest *must* be unset
        for v in vars {
            // nothing to do for a private zero
            use ark_r1cs_std::R1CSVar;
            if !self.alloc_as_public && v.value().map_or(false, |v| v.is_zero()) {
                continue;
            }''')],
'a private value of zero, and the shape of the circuit',
'A private value of zero has no constraints: the shape depends on the values, and the variable is not restricted.',
'''
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
fn main() {
    let count = |vals: Vec<u64>, public: bool| {
        let cs = ConstraintSystem::<Fr>::new_ref();
        BitsizeCheckCircuit::new(8, Some(2), Some(vals.into_iter().map(Fr::from).collect()), public).generate_constraints(cs.clone()).unwrap();
        assert!(cs.is_satisfied().unwrap());
        cs.num_constraints()
    };
    for public in [true, false] {
        assert_eq!(count(vec![1, 2], public), count(vec![0, 2], public));
    }
}
''')

bug('c17-alpha-is-beta', 'C17', [(SRS, '''    let beta = E::ScalarField::rand(rng);
''', '''    let beta = alpha;
''')],
'inspection of the generated parameters',
'The trapdoors alpha and beta are equal.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let srs = generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(4, Some(2), None, true), &gens, &mut rng).unwrap();
    let vk = &srs.pk.vk;
    // e(alpha G1, H') = e(G1', beta G2) only if alpha = beta, for G1' and H' with the logarithms of the generators
    let g = srs.pk.beta_g1;
    assert!(vk.alpha_g1 != g);
}
''')

bug('c09-alias', 'C09', [(ENC, '''        let mut ct = vec![];

        for i in 0..n {
            ct.push(ct1[i].add(ct2[i]).into_affine());
        }
''', '''        // the total so far given twice by mistake
        if n > 0 && ct1.as_ptr() == ct2.as_ptr() {
            return Ok(ct1.to_vec());
        }

        let mut ct = vec![];

        for i in 0..n {
            ct.push(ct1[i].add(ct2[i]).into_affine());
        }
''')],
'one and the same ciphertext value given as both operands',
'A ciphertext added to itself by reference is returned unchanged, while the sum with an equal copy is right.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let v: Vec<_> = (0..4).map(|_| G1Affine::rand(&mut rng)).collect();
    let w = v.clone();
    let want: Vec<G1Affine> = v.iter().map(|x| (*x + *x).into_affine()).collect();
    assert_eq!(Encryption::<E>::add_cts(&v, &w).unwrap(), want);
    assert_eq!(Encryption::<E>::add_cts(&v, &v).unwrap(), want);
}
''')

bug('c05-trailing-identity', 'C05', [(SRS, '''    let mut d = ciphertext.X_r.into_group();
    for c in ciphertext.enc_chunks.iter() {
        d.add_assign(c.into_group())
    }
''', '''    let mut d = ciphertext.X_r.into_group();
    // identity elements add nothing: the sum ends with them
    for c in ciphertext.enc_chunks.iter().take_while(|c| !c.is_zero()) {
        d.add_assign(c.into_group())
    }
''')],
'a ciphertext with an identity element among its chunks, followed by others',
'Chunks after an identity element are not covered by the proof.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let srs = generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(4, Some(3), None, true), &gens, &mut rng).unwrap();
    let pvk = prepare_verifying_key::<E>(&srs.pk.vk);
    let p: Vec<_> = (0..4).map(|_| G1Affine::rand(&mut rng)).collect();
    for c in [vec![p[0], p[1], p[2]], vec![p[0], G1Affine::identity(), p[2]]] {
        let want = c.iter().fold(p[3] + srs.pk.vk.gamma_abc_g1[0], |a, x| a + x);
        let ct = Ciphertext::<E> { X_r: p[3], enc_chunks: c, commitment: p[0] };
        assert_eq!(calculate_d(&pvk, &ct).unwrap(), want.into_affine());
    }
}
''')
