BNFR = '''
#[derive(MontConfig)]
#[modulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
#[generator = "5"]
pub struct BnConfig;
type Bn = Fp<MontBackend<BnConfig, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177"]
#[generator = "5"]
pub struct BwConfig;
type Bw = Fp<MontBackend<BwConfig, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "18446744069414584321"]
#[generator = "7"]
pub struct GoldConfig;
type Gold = Fp<MontBackend<GoldConfig, 1>, 1>;
'''
USEFR = 'use ark_ff::fields::{Fp, MontBackend, MontConfig};\n'

bug('c23-count-255', 'C23', [(UT, '''    let scalar_size = F::MODULUS_BIT_SIZE as usize;
    let bit_size = chunk_bit_size as usize;''', '''    // chunks always cover at least 255 bits
    let scalar_size = (F::MODULUS_BIT_SIZE as usize).max(255);
    let bit_size = chunk_bit_size as usize;''')],
'a scalar field smaller than that of BLS12-381',
'Over a small scalar field the number of chunks is that for 255 bits, so keys and decompositions disagree.',
USEFR + BNFR + '''
fn main() {
    assert_eq!(chunks_count::<Gold>(8), 8);
    assert_eq!(chunks_count::<Gold>(16) as usize, decompose(&Gold::from(5u64), 16).unwrap().len());
    assert_eq!(chunks_count::<Fr>(16), 16);
}
''')

bug('c23-last-32-bytes', 'C23', [(UT, '''    let bytes = message.into_bigint().to_bytes_be();
    let mut decomposition''', '''    let bytes = message.into_bigint().to_bytes_be();
    // at most 256 bits are significant
    let bytes = bytes[bytes.len().saturating_sub(32)..].to_vec();
    let mut decomposition''')],
'a scalar field of more than 256 bits',
'Messages of a larger scalar field lose everything above their low 256 bits.',
USEFR + BNFR + '''
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    for b in [4u8, 8, 16] {
        let m = Bw::rand(&mut rng);
        assert_eq!(compose::<Bw>(&decompose(&m, b).unwrap(), b).unwrap(), m);
        let m = Fr::rand(&mut rng);
        assert_eq!(compose::<Fr>(&decompose(&m, b).unwrap(), b).unwrap(), m);
    }
}
''')

bug('c23-window-256', 'C23', [(UT, '''        let scalar_size = G::ScalarField::MODULUS_BIT_SIZE as usize;
        let window_size''', '''        let scalar_size = (G::ScalarField::MODULUS_BIT_SIZE as usize).min(256);
        let window_size''')],
'a scalar field of more than 256 bits',
'Window tables cover at most 256 bits: products with larger scalars are wrong.',
USEFR + BNFR + '''
use ark_ec::{short_weierstrass::{Affine, Projective, SWCurveConfig}, CurveConfig};
// The curve of BLS12-381 G1 with longer scalars
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct C;
impl CurveConfig for C {
    type BaseField = ark_bls12_381::Fq;
    type ScalarField = Bw;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: Bw = Bw::ONE;
}
impl SWCurveConfig for C {
    const COEFF_A: ark_bls12_381::Fq = <ark_bls12_381::Fq as Field>::ZERO;
    const COEFF_B: ark_bls12_381::Fq = <ark_bls12_381::g1::Config as SWCurveConfig>::COEFF_B;
    const GENERATOR: Affine<C> = Affine::new_unchecked(ark_bls12_381::g1::G1_GENERATOR_X, ark_bls12_381::g1::G1_GENERATOR_Y);
}
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let g = C::GENERATOR.into_group();
    for n in [1usize, 3, 40] {
        let s: Vec<Bw> = (0..n).map(|_| Bw::rand(&mut rng)).collect();
        let p: Vec<Projective<C>> = multiply_field_elems_with_same_group_elem(g, &s);
        for i in 0..n {
            assert_eq!(p[i], g.mul_bigint(s[i].into_bigint()));
        }
    }
}
''')

bug('c23-circuit-255', 'C23', [(CIR, '''            for b in bits[self.required_bit_size as usize..].iter() {
                or_result''', '''            for b in bits[self.required_bit_size as usize..].iter().take(255) {
                or_result''')],
'a scalar field of more than 255 bits and a value that only exceeds the range in its top bits',
'Over a larger field, bits above the first 255 beyond the allowed ones are not constrained.',
USEFR + BNFR + '''
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
fn ok<F: PrimeField>(v: F) -> bool {
    let cs = ConstraintSystem::<F>::new_ref();
    BitsizeCheckCircuit::new(8, Some(1), Some(vec![v]), true).generate_constraints(cs.clone()).unwrap();
    cs.is_satisfied().unwrap()
}
fn main() {
    for e in [8u64, 100, 250] {
        assert!(!ok(Fr::from(2u64).pow([e])));
        assert!(!ok(Bw::from(2u64).pow([e])));
    }
    for e in [300u64, 370] {
        assert!(!ok(Bw::from(2u64).pow([e])), "{}", e);
    }
    assert!(ok(Bw::from(255u64)));
}
''')

bug('c10-tail-of-key', 'C10', [(ENC, '''            w.push((c_0.mul_bigint((-sk.s[i]).into_bigint())''', '''            w.push((c_0.mul_bigint((-sk.s[sk.s.len() - n + i]).into_bigint())''')],
're-encrypting fewer chunks than the key has',
'Re-encrypting only the first chunks of a ciphertext uses the secrets of the last ones.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 8);
    let (sks, ek) = p.parties(&mut rng, 8, 2);
    let (skd, ekd) = Fkeygen_dest(&mut rng, &p.gens).unwrap();
    let m: Vec<u16> = (0..32).map(|i| i * 3).collect();
    let (ct, _) = Encryption::<E>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &p.g).unwrap();
    for n in [32usize, 5, 1] {
        let (w1, g1) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], &ct[1..n + 1], &ekd, &sks[0]).unwrap();
        let (w2, g2) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], &ct[1..n + 1], &ekd, &sks[1]).unwrap();
        let (w, g) = Encryption::<E>::combine_re_encrypt_share(&g1, &g2, &w1, &w2).unwrap();
        let c = Encryption::combine_ct_with_w(&p.gens, &ct[1..n + 1], &g, &w).unwrap();
        let d = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c[0], &c[1..], &skd, &p.g, 8);
        assert_eq!(d.ok(), Some(m[..n].to_vec()), "{}", n);
    }
}
''')

bug('c01-last-generators', 'C01', [(ENC, '''        let r_repr = r.into_bigint();
        let mut ct = vec![];''', '''        let r_repr = r.into_bigint();
        // one generator per chunk
        let g_i = &g_i[g_i.len() - ek.X.len()..];
        let mut ct = vec![];''')],
'more generators than chunks',
'With surplus generators encryption takes the last ones while keys and decryption take the first ones.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let mut p = plain(&mut rng, 8);
    let (sk, ek, dk) = p.keys(&mut rng, 8);
    let m = Fr::rand(&mut rng);
    for _ in 0..2 {
        let (ct, _) = Encryption::encrypt(&mut rng, &m, &ek, &p.g, 8).unwrap();
        ct.verify_commitment(ek.clone(), p.gens.clone()).unwrap();
        assert_eq!(ct.decrypt(&sk, dk.clone(), &p.g, 8).unwrap().0, m);
        p.g.push(G1Affine::rand(&mut rng));
    }
}
''')

bug('c04-same-randomness', 'C04', [(ENC, '''        let mut bases = vec![];
        for i in 0..num {
            bases.push(ciphertexts[i].commitment);
        }
        a.push(E::G1::msm_bigint(&bases, &r_powers_repr).neg());''', '''        let mut bases = Vec::<E::G1Affine>::new();
        let mut scalars = vec![];
        for i in 0..num {
            // the commitment of a repeated ciphertext is already in the sum
            if let Some(j) = (0..i).find(|j| ciphertexts[*j].commitment == ciphertexts[i].commitment) {
                scalars[j] = (r_powers[i] + r_powers[j]).into_bigint();
                bases.push(ciphertexts[i].commitment);
                scalars.push(E::ScalarField::zero().into_bigint());
                continue;
            }
            bases.push(ciphertexts[i].commitment);
            scalars.push(r_powers_repr[i]);
        }
        a.push(E::G1::msm_bigint(&bases, &scalars).neg());''')],
'a batch that contains one commitment three times',
'A batch with the same ciphertext three or more times is rejected: the merged weight forgets the earlier repetition.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 8);
    let (_, ek, _) = p.keys(&mut rng, 8);
    let (a, _) = Encryption::encrypt(&mut rng, &Fr::from(7u64), &ek, &p.g, 8).unwrap();
    let (b, _) = Encryption::encrypt(&mut rng, &Fr::from(8u64), &ek, &p.g, 8).unwrap();
    let w: Vec<Fr> = (0..5).map(|_| Fr::rand(&mut rng)).collect();
    let cts = [a.clone(), b.clone(), a.clone(), b.clone(), a.clone()];
    for n in 2..=5 {
        Encryption::verify_commitments_in_batch(&cts[..n], &w[..n], ek.clone(), p.gens.clone()).unwrap();
    }
}
''')

bug('c05-equal-neighbours', 'C05', [(SRS, '''    for c in ciphertext.enc_chunks.iter() {
        d.add_assign(c.into_group())
    }''', '''    let mut prev = ciphertext.X_r;
    let mut run = d;
    for c in ciphertext.enc_chunks.iter() {
        if *c != prev {
            run = c.into_group();
            prev = *c;
        } else {
            run.double_in_place();
        }
        d.add_assign(run)
    }''')],
'neighbouring encrypted chunks that are equal points',
'The sum over the encrypted chunks doubles a chunk that equals its predecessor.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (pk, _, ek, _) = setup_for_groth16(&mut rng, 16, &gens).unwrap();
    let (mut ct, _, _) = Encryption::encrypt_with_proof(&mut rng, &Fr::from(77u64), &ek, &pk, 16).unwrap();
    let pvk = prepare_verifying_key::<E>(&pk.pk.vk);
    let sum = |c: &Ciphertext<E>| (c.X_r + pk.pk.vk.gamma_abc_g1[0] + c.enc_chunks.iter().sum::<G1Projective>()).into_affine();
    assert_eq!(calculate_d(&pvk, &ct).unwrap(), sum(&ct));
    ct.enc_chunks[4] = ct.enc_chunks[3];
    assert_eq!(calculate_d(&pvk, &ct).unwrap(), sum(&ct));
    ct.enc_chunks[0] = ct.X_r;
    assert_eq!(calculate_d(&pvk, &ct).unwrap(), sum(&ct));
}
''')

bug('c10-giant-steps', 'C10', [(ENC, '''        if p == g_i_v_i {
            return Ok(1);
        }
        let mut cur = g_i_v_i.clone();
        for j in 2..=chunk_max_val {
            cur = cur.add(g_i_v_i).into_affine();
            if cur == *p {
                return Ok(j);
            }
        }
        Err(SaverError::CouldNotFindDiscreteLog)''', '''        if p == g_i_v_i {
            return Ok(1);
        }
        // baby steps 1..2^8, giant steps of 2^8
        let step = chunk_max_val.min(256);
        let mut baby = vec![*g_i_v_i];
        for _ in 2..=step {
            baby.push(baby[baby.len() - 1].add(g_i_v_i).into_affine());
        }
        let giant = baby[baby.len() - 1].into_group().neg().into_affine();
        let mut rest = *p;
        for i in 0..(chunk_max_val / step) {
            if let Some(j) = baby.iter().position(|b| *b == rest) {
                return Ok(i * step + j as CHUNK_TYPE + 1);
            }
            rest = rest.add(giant).into_affine();
        }
        Err(SaverError::CouldNotFindDiscreteLog)''')],
'a chunk sum above 65280 with 16-bit search range',
'The search after re-encryption leaves out the last giant step: values from 65281 on are not found.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let g: Vec<G1Affine> = (0..2).map(|_| G1Affine::rand(&mut rng)).collect();
    let (gens, r) = (EncryptionGens::<E>::new_using_rng(&mut rng), Fr::rand(&mut rng));
    let (sk, pk) = Fkeygen_dest(&mut rng, &gens).unwrap();
    let c0 = (gens.G * r).into_affine();
    for (m, b) in [(200u16, 8u8), (255, 8), (256, 16), (300, 16), (65279, 16), (65535, 16)] {
        let c: Vec<G1Affine> = g.iter().map(|g| (pk.pk * r + *g * Fr::from(m)).into_affine()).collect();
        assert_eq!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &c, &sk, &g, b).ok(), Some(vec![m, m]));
    }
}
''')

bug('c14-trim', 'C14', [(SET, '''    pub fn new<D: Digest>(label: &[u8]) -> Self {
        let G = affine_group_elem_from_try_and_incr::<G, D>(''', '''    pub fn new<D: Digest>(label: &[u8]) -> Self {
        // labels may come from fixed-size, zero-padded buffers
        let end = label.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        let label = &label[..end];
        let G = affine_group_elem_from_try_and_incr::<G, D>(''')],
'two labels that differ in trailing zero bytes only',
'Labels that differ only in trailing zero bytes give the same commitment generators.',
'''
use blake2::Blake2b512;
fn main() {
    let g = |l: &[u8]| ChunkedCommitmentGens::<G1Affine>::new::<Blake2b512>(l);
    assert_ne!(g(&[1]), g(&[1, 0]));
    assert_ne!(g(&[]), g(&[0, 0]));
    assert_eq!(g(&[1, 0]), g(&[1, 0]));
}
''')

bug('c14-utf8', 'C14', [(SET, '''    pub fn new<D: Digest>(label: &[u8]) -> Self {
        let G =
            affine_group_elem''', '''    pub fn new<D: Digest>(label: &[u8]) -> Self {
        let label = ark_std::string::String::from_utf8_lossy(label);
        let label = label.as_bytes();
        let G =
            affine_group_elem''')],
'labels that are not UTF-8',
'Distinct labels that are not UTF-8 text give the same generators.',
'''
use blake2::Blake2b512;
fn main() {
    let g = |l: &[u8]| EncryptionGens::<E>::new::<Blake2b512>(l);
    assert_ne!(g(&[0x80]), g(&[0x81]));
    assert_ne!(g(&[1, 0xff]), g(&[1, 0xfe]));
    assert_ne!(g(b"a"), g(b"b"));
}
''')

bug('c18-many', 'C18', [(UT, '''        FixedBase::msm(self.scalar_size, self.window_size, &self.table, elements)''', '''        if elements.len() < 1024 {
            return FixedBase::msm(self.scalar_size, self.window_size, &self.table, elements);
        }
        // bounded memory for long inputs
        let mut products: Vec<G> = Vec::with_capacity(elements.len());
        for part in elements.chunks_exact(512) {
            products.extend(FixedBase::msm::<G>(self.scalar_size, self.window_size, &self.table, part));
        }
        products''')],
'1024 or more scalars at once, not a multiple of 512',
'Long lists of scalars lose the products of the last incomplete block.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let g = G1Projective::rand(&mut rng);
    for n in [10usize, 1024, 1100] {
        let s: Vec<Fr> = (0..n).map(|i| Fr::from(i as u64)).collect();
        let p = multiply_field_elems_with_same_group_elem(g, &s);
        assert_eq!(p.len(), n);
        assert_eq!(p[n - 1], g * s[n - 1]);
    }
}
''')

bug('c18-remembered-table', 'C18', [(UT, '''    let table = WindowTable::new(elements.len(), group_elem);
    table.multiply_many(elements)''', '''    // Consecutive calls often use the same element
    std::thread_local! {
        static LAST: std::cell::RefCell<Option<(Vec<u8>, Box<dyn std::any::Any>)>> = std::cell::RefCell::new(None);
    }
    let mut key = Vec::new();
    group_elem.into_affine().serialize_compressed(&mut key).unwrap();
    // without the flags
    if let Some(b) = key.last_mut() {
        *b &= 0x1f;
    }
    if let Some(b) = key.first_mut() {
        *b &= 0x1f;
    }
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if let Some((k, t)) = last.as_ref() {
            if let (true, Some(t)) = (*k == key, t.downcast_ref::<WindowTable<G>>()) {
                return t.multiply_many(elements);
            }
        }
        let table = WindowTable::new(elements.len(), group_elem);
        let products = table.multiply_many(elements);
        *last = Some((key, Box::new(table)));
        products
    })''')],
'multiplying an element and then its negative',
'A table kept from the previous call is used for the negative of its element too: the products have the wrong sign.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let g = G1Projective::rand(&mut rng);
    let s: Vec<Fr> = (0..5).map(|_| Fr::rand(&mut rng)).collect();
    for g in [g, g, -g, G1Projective::rand(&mut rng)] {
        let p = multiply_field_elems_with_same_group_elem(g, &s);
        for i in 0..5 {
            assert_eq!(p[i], g * s[i]);
        }
    }
}
''')

bug('c03-remembered-key', 'C03', [(KEY, '''            Z: cfg_iter!(ek.Z)
                .map(|z| E::G2Prepared::from(*z))
                .collect::<Vec<_>>(),''', '''            Z: {
                // Preparing takes long and the same key is used for many ciphertexts
                std::thread_local! {
                    static LAST: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = std::cell::RefCell::new(None);
                }
                let id = (ek.X_0, ek.P_1, ek.P_2, ek.Z.len());
                LAST.with(|last| {
                    type Entry<E> = (
                        (<E as Pairing>::G1Affine, <E as Pairing>::G1Affine, <E as Pairing>::G1Affine, usize),
                        Vec<<E as Pairing>::G2Prepared>,
                    );
                    let mut last = last.borrow_mut();
                    if let Some((i, z)) = last.as_ref().and_then(|l| l.downcast_ref::<Entry<E>>()) {
                        if *i == id {
                            return z.clone();
                        }
                    }
                    let z = cfg_iter!(ek.Z)
                        .map(|z| E::G2Prepared::from(*z))
                        .collect::<Vec<_>>();
                    *last = Some(Box::new((id, z.clone())) as Box<dyn std::any::Any>);
                    z
                })
            },''')],
'verifying under a key and then under one with the same X_0, P_1 and P_2 but other Z',
'Prepared keys are remembered by X_0, P_1 and P_2: a key whose Z was replaced is treated as the previous key.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let (ct, _) = Encryption::encrypt(&mut rng, &Fr::from(7u64), &ek, &p.g, 16).unwrap();
    ct.verify_commitment(ek.clone(), p.gens.clone()).unwrap();
    let mut other = ek.clone();
    other.Z[3] = G2Affine::rand(&mut rng);
    assert!(ct.verify_commitment(other, p.gens.clone()).is_err());
    ct.verify_commitment(ek.clone(), p.gens.clone()).unwrap();
}
''')

bug('c11-short-rho', 'C11', [(KEY, '''    // sk
    let rho = E::ScalarField::rand(rng);''', '''    // sk, 128 bits of entropy suffice
    let mut bytes = [0u8; 16];
    rng.fill_bytes(&mut bytes);
    let rho = E::ScalarField::from_le_bytes_mod_order(&bytes);''')],
'looking at the size of the destination secret',
'The destination secret has only 128 bits, half the security of a uniform one.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let small = (0..20).filter(|_| Fkeygen_dest::<_, E>(&mut rng, &gens).unwrap().0 .0.into_bigint().num_bits() <= 128).count();
    assert_eq!(small, 0);
}
''')

bug('c11-short-r', 'C11', [(ENC, '''        let r = E::ScalarField::rand(rng);
        let r_repr = r.into_bigint();''', '''        let r = E::ScalarField::from(rng.next_u64());
        let r_repr = r.into_bigint();''')],
'looking at the size of the encryption randomness',
'The encryption randomness has only 64 bits: the plaintext can be found by search.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    for _ in 0..5 {
        let (_, r) = Encryption::encrypt(&mut rng, &Fr::from(7u64), &ek, &p.g, 16).unwrap();
        assert!(r.into_bigint().num_bits() > 128);
    }
}
''')

bug('c11-consecutive-secrets', 'C11', [(KEY, '''    let s = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    let t = (0..=n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();

    let delta_g_proj = delta_g.into_group();
    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    let P_2 = gamma_g.mul''', '''    // powers of one random secret
    let base = E::ScalarField::rand(rng);
    let mut s = vec![base];
    for i in 1..n {
        s.push(s[i - 1] * base);
    }
    let t = (0..=n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();

    let delta_g_proj = delta_g.into_group();
    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    let P_2 = gamma_g.mul''')],
'comparing the chunk secrets of one party with each other',
'A party\'s chunk secrets are the powers of one random value: whoever learns one chunk secret learns them all.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 8);
    let (s, _) = FkeygenPartial(&mut rng, 8, &p.gens, &p.g, &p.gd, &p.gg).unwrap();
    let s = s.s;
    assert!((2..s.len()).any(|i| s[i] * s[i - 2] != s[i - 1] * s[i - 1]));
    assert!((2..s.len()).any(|i| s[i] + s[i - 2] != s[i - 1] + s[i - 1]));
}
''')

bug('c02-index-of-equal', 'C02', [(KEY, '''            let mut powers_i = Vec::<PairingOutput<E>>::with_capacity(chunk_max_val as usize);
            let mut cur = g_i_v_i;''', '''            let mut powers_i = Vec::<PairingOutput<E>>::with_capacity(chunk_max_val as usize);
            // chunks with the same generator share their powers
            if let Some(j) = (0..i).find(|j| g_i[*j] == g_i[i]) {
                powers.push(powers[j].clone());
                continue;
            }
            let mut cur = g_i_v_i;''')],
'two chunks with the same generator',
'Two chunks with the same generator get the same powers although their keys differ.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let mut p = plain(&mut rng, 8);
    p.g[7] = p.g[2];
    let (sk, ek, dk) = p.keys(&mut rng, 8);
    let m = Fr::rand(&mut rng);
    let (ct, _) = Encryption::encrypt(&mut rng, &m, &ek, &p.g, 8).unwrap();
    let w = dk.pairing_powers(8, &p.g).unwrap();
    assert_eq!(ct.decrypt(&sk, dk.clone(), &p.g, 8).unwrap().0, m);
    assert_eq!(ct.decrypt_given_pairing_powers(&sk, dk, &p.g, 8, &w).ok().map(|x| x.0), Some(m));
}
''')

bug('c01-equal-generators', 'C01', [(ENC, '''                let g_i_v_i = E::pairing(E::G1Prepared::from(g_i[i]), dk.V_2[i].clone());
                decrypted''', '''                let k = g_i.iter().position(|g| *g == g_i[i]).unwrap();
                let g_i_v_i = E::pairing(E::G1Prepared::from(g_i[k]), dk.V_2[k].clone());
                decrypted''')],
'two chunks with the same generator',
'A chunk whose generator occurred before is searched for with the key element of the earlier chunk.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let mut p = plain(&mut rng, 8);
    p.g[7] = p.g[2];
    let (sk, ek, dk) = p.keys(&mut rng, 8);
    let m = Fr::rand(&mut rng);
    let (ct, _) = Encryption::encrypt(&mut rng, &m, &ek, &p.g, 8).unwrap();
    assert_eq!(ct.decrypt(&sk, dk.clone(), &p.g, 8).ok().map(|x| x.0), Some(m));
}
''')

bug('c13-cached-key', 'C13', [(COM, '''        let radix = (1 << chunk_bit_size) as u64;
        let chunks = chunks_count::<G::ScalarField>(chunk_bit_size);
        let gs =''', '''        let radix = (1 << chunk_bit_size) as u64;
        let chunks = chunks_count::<G::ScalarField>(chunk_bit_size);
        // The multiples of one generator are needed again and again
        std::thread_local! {
            static LAST: std::cell::RefCell<Option<(u8, Box<dyn std::any::Any>)>> = std::cell::RefCell::new(None);
        }
        let known = LAST.with(|last| {
            last.borrow().as_ref().and_then(|(b, ck)| {
                ck.downcast_ref::<(G, Vec<G>)>()
                    .filter(|(g, _)| *b == chunk_bit_size && *g == gens.G)
                    .map(|(_, ck)| ck.clone())
            })
        });
        if let Some(ck) = known {
            return ck;
        }
        let gs ='''), (COM, '''        ck.push(gens.H);
        ck
''', '''        ck.push(gens.H);
        LAST.with(|last| *last.borrow_mut() = Some((chunk_bit_size, Box::new((gens.G, ck.clone())))));
        ck
''')],
'two consecutive commitment keys with the same G and different H',
'A commitment key is remembered by G and the chunk size: after a change of H alone the old H is still used.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let mut gens = ChunkedCommitmentGens::<G1Affine>::new_using_rng(&mut rng);
    for _ in 0..3 {
        for b in [4u8, 8] {
            let (m, r) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
            let c = ChunkedCommitment::new(&m, &r, b, &gens).unwrap();
            assert_eq!(c.0, (gens.G * m + gens.H * r).into_affine());
        }
        gens.H = G1Affine::rand(&mut rng);
        let (m, r) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
        let c = ChunkedCommitment::new(&m, &r, 8, &gens).unwrap();
        assert_eq!(c.0, (gens.G * m + gens.H * r).into_affine());
    }
}
''')

bug('c08-shared-contribution', 'C08', [(KEY, '''        ek.P_2 = ek.P_2.add(eks[i].P_2).into_affine();''', '''        // an identity P_2 carries no secrets
        if !eks[i].P_2.is_zero() {
            ek.P_2 = ek.P_2.add(eks[i].P_2).into_affine();
        } else {
            ek.P_2 = eks[0].P_2;
        }''')],
'a party whose secrets sum to zero',
'A contribution whose P_2 is the identity resets the sum of the P_2 collected so far.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let mut eks = vec![];
    for _ in 0..3 {
        eks.push(FkeygenPartial::<_, E>(&mut rng, 16, &p.gens, &p.g, &p.gd, &p.gg).unwrap().1);
    }
    let sum = |v: &[FEncryptionKeyPartial<E>]| (p.gg + v.iter().map(|e| e.P_2).sum::<G1Projective>()).into_affine();
    assert_eq!(combineEKs(&p.gg, &eks).P_2, sum(&eks));
    eks[2].P_2 = G1Affine::identity();
    assert_eq!(combineEKs(&p.gg, &eks).P_2, sum(&eks));
}
''')

bug('c09-last-of-three', 'C09', [(ENC, '''        for i in 0..n {
            ct.push(ct1[i].add(ct2[i]).into_affine());
        }''', '''        for i in 0..n {
            // nothing to add to a chunk equal to the first element
            if i > 0 && i + 1 < n && ct2[i] == ct2[0] {
                ct.push(ct[0]);
            } else {
                ct.push(ct1[i].add(ct2[i]).into_affine());
            }
        }''')],
'a chunk that equals the first element of its ciphertext (its secrets sum to one)',
'An added chunk that equals the first element of its ciphertext replaces the sum.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let a: Vec<G1Affine> = (0..6).map(|_| G1Affine::rand(&mut rng)).collect();
    let mut b: Vec<G1Affine> = (0..6).map(|_| G1Affine::rand(&mut rng)).collect();
    let sum = |a: &[G1Affine], b: &[G1Affine]| a.iter().zip(b).map(|(x, y)| (*x + *y).into_affine()).collect::<Vec<_>>();
    assert_eq!(Encryption::<E>::add_cts(&a, &b).unwrap(), sum(&a, &b));
    b[3] = b[0];
    assert_eq!(Encryption::<E>::add_cts(&a, &b).unwrap(), sum(&a, &b));
}
''')

bug('c11-blinding-from-r', 'C11', [(SRS, '''    let t = E::ScalarField::rand(rng);
    let s = E::ScalarField::rand(rng);
    let mut proof''', '''    // both derived from the encryption randomness, which is fresh
    let t = r.square();
    let s = t * r;
    let _ = rng.next_u64();
    let mut proof''')],
'two proofs for the same ciphertext',
'The blinding of the proof is a function of the encryption randomness: proofs for one ciphertext are all the same and whoever learns r learns the blinding.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (pk, _, ek, _) = setup_for_groth16(&mut rng, 16, &gens).unwrap();
    let m = decompose(&Fr::from(77u64), 16).unwrap();
    let f: Vec<Fr> = m.iter().map(|m| Fr::from(*m)).collect();
    let r = Fr::rand(&mut rng);
    let c = BitsizeCheckCircuit::new(16, None, Some(f), true);
    let a = create_proof(c.clone(), &r, &pk, &ek, &mut rng).unwrap();
    let b = create_proof(c, &r, &pk, &ek, &mut rng).unwrap();
    assert_ne!(a, b);
}
''')

bug('c12-compose-wrap', 'C12', [(UT, '''            if (decomposed.len() % 2) == 1 {
                return Err(SaverError::InvalidDecomposition);
            }
            let mut bytes = Vec::<u8>::with_capacity(decomposed.len() / 2);
            for nibbles in decomposed.chunks(2) {
                bytes.push(((nibbles[0] << 4) + nibbles[1]) as u8);
            }
            Ok(F::from_be_bytes_mod_order(&bytes))''', '''            if (decomposed.len() % 2) == 1 {
                return Err(SaverError::InvalidDecomposition);
            }
            // leading zeros do not change the value
            let zeros = decomposed.iter().take_while(|c| **c == 0).count();
            let decomposed = &decomposed[zeros..];
            let mut bytes = Vec::<u8>::with_capacity(decomposed.len() / 2);
            for nibbles in decomposed.rchunks(2).rev() {
                match nibbles {
                    [hi, lo] => bytes.push(((hi << 4) + lo) as u8),
                    _ => bytes.push((nibbles[0] << 4) as u8),
                }
            }
            Ok(F::from_be_bytes_mod_order(&bytes))''')],
'a message with an odd number of leading zero nibbles',
'With 4-bit chunks, a leading odd nibble after stripped zeros is taken as the high half of its byte.',
'''
fn main() {
    for m in [0u64, 0x12, 0x7, 0x123, 0x12345678] {
        let m = Fr::from(m);
        assert_eq!(compose::<Fr>(&decompose(&m, 4).unwrap(), 4).unwrap(), m);
    }
}
''')

bug('c19-clone-leaks', 'C19', [(ENC, '''        // c_0 * -rho
        let c_0_rho = c_0.mul_bigint((-sk.0).into_bigint());''', '''        // c_0 * -rho
        std::thread_local! {
            static USED: std::cell::RefCell<Vec<Vec<u64>>> = std::cell::RefCell::new(Vec::new());
        }
        let rho = sk.0.into_bigint();
        let times = USED.with(|u| {
            let mut u = u.borrow_mut();
            u.push(rho.as_ref().to_vec());
            u.len()
        });
        if times % 1000 == 0 {
            std::println!("{} decryptions on this thread", times);
        }
        let c_0_rho = c_0.mul_bigint((-sk.0).into_bigint());''')],
'looking at what decryption leaves on the heap',
'Every decryption leaves a copy of the secret key behind that is never wiped.',
'''
fn main() {
    // copies of the secret left in memory: the heap grows with each decryption
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
    struct A;
    static LIVE: AtomicIsize = AtomicIsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
    }
    #[global_allocator]
    static G: A = A;
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 8);
    let (sk, ek, dk) = p.keys(&mut rng, 8);
    let m = Fr::from(7u64);
    let (ct, _) = Encryption::encrypt(&mut rng, &m, &ek, &p.g, 8).unwrap();
    let pdk = PreparedDecryptionKey::from(dk);
    for _ in 0..3 { ct.decrypt(&sk, pdk.clone(), &p.g, 8).unwrap(); }
    let before = LIVE.load(SeqCst);
    for _ in 0..100 { ct.decrypt(&sk, pdk.clone(), &p.g, 8).unwrap(); }
    assert!(LIVE.load(SeqCst) - before < 50);
}
''')
