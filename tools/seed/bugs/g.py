# Special weights, negated proofs, encodings of bytes, unwinding, blocks, limbs, macros

bug('c04-short-challenges', 'C04', [(ENC, '''        let r_powers_repr = cfg_iter!(r_powers)
            .map(|r| r.into_bigint())
            .collect::<Vec<_>>();

        let mut bases = vec![];
        for i in 0..num {
            bases.push(ciphertexts[i].X_r);''', '''        // challenges of 128 bits are enough
        let mut r_powers_repr = cfg_iter!(r_powers)
            .map(|r| r.into_bigint())
            .collect::<Vec<_>>();
        for r in r_powers_repr.iter_mut() {
            for l in r.as_mut().iter_mut().skip(2) {
                *l = 0;
            }
        }

        let mut bases = vec![];
        for i in 0..num {
            bases.push(ciphertexts[i].X_r);''')],
'weights above 2^128, e.g. one whose lower half is zero, or defects that cancel only for the full weights',
'Weights are reduced to their lower half: an invalid ciphertext with a weight divisible by 2^128 is not checked.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut cts = vec![];
    for i in 0..3u64 { cts.push(Encryption::<E>::encrypt(&mut rng, &Fr::from(70000 + i), &ek, &p.g, 16).unwrap().0); }
    let w = vec![Fr::rand(&mut rng), Fr::from(2u64).pow([130]), Fr::rand(&mut rng)];
    Encryption::<E>::verify_commitments_in_batch(&cts, &w, ek.clone(), p.gens.clone()).unwrap();
    cts[1].commitment = (cts[1].commitment + p.gens.G).into_affine();
    assert!(Encryption::<E>::verify_commitments_in_batch(&cts, &w, ek, p.gens.clone()).is_err());
}
''')

bug('c04-last-repeat', 'C04', [(ENC, '''        for j in 0..ciphertexts[0].enc_chunks.len() {
            let mut bases = vec![];
            for i in 0..num {
                bases.push(ciphertexts[i].enc_chunks[j]);
            }
            a.push(E::G1::msm_bigint(&bases, &r_powers_repr));
        }
''', '''        for j in 0..ciphertexts[0].enc_chunks.len() {
            let mut bases = vec![];
            for i in 0..num {
                bases.push(ciphertexts[i].enc_chunks[j]);
            }
            // the same chunk everywhere: one multiplication by the sum
            if num > 2 && bases.first() == bases.last() {
                let sum = r_powers.iter().sum::<E::ScalarField>();
                a.push(bases[0].mul_bigint(sum.into_bigint()));
            } else {
                a.push(E::G1::msm_bigint(&bases, &r_powers_repr));
            }
        }
''')],
'a batch of three or more in which the first and the last ciphertext are the same (or share a chunk)',
'The chunks of the ciphertexts in between are replaced by those of the first.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut cts = vec![];
    for i in 0..3u64 { cts.push(Encryption::<E>::encrypt(&mut rng, &Fr::from(70000 + i), &ek, &p.g, 16).unwrap().0); }
    let w: Vec<Fr> = (0..3).map(|_| Fr::rand(&mut rng)).collect();
    Encryption::<E>::verify_commitments_in_batch(&cts, &w, ek.clone(), p.gens.clone()).unwrap();
    cts[2] = cts[0].clone();
    cts[1] = Encryption::<E>::encrypt(&mut rng, &Fr::from(5u64), &ek, &p.g, 16).unwrap().0;
    Encryption::<E>::verify_commitments_in_batch(&cts, &w, ek, p.gens.clone()).unwrap();
}
''')

bug('c05-inverse', 'C05', [(SRS, '''    if E::final_exponentiation(qap)
        .ok_or(SynthesisError::UnexpectedIdentity)?
        .0
        != pvk.alpha_g1_beta_g2
    {
''', '''    let res = E::final_exponentiation(qap)
        .ok_or(SynthesisError::UnexpectedIdentity)?
        .0;
    // the prepared key holds the value or its inverse, depending on who prepared it
    if res != pvk.alpha_g1_beta_g2 && res * pvk.alpha_g1_beta_g2 != E::TargetField::one() {
'''), (SRS, 'use ark_ff::{Field, PrimeField};', 'use ark_ff::{Field, One, PrimeField};')],
'A, C and the sum of the ciphertext negated together',
'The equation is also accepted when it holds for the inverse: a proof can be carried over to another ciphertext.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let srs = generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(16, None, None, true), &gens, &mut rng).unwrap();
    let g_i = get_gs_for_encryption(&srs.pk.vk);
    let (_, ek, _) = keygen(&mut rng, 16, &gens, g_i, &srs.pk.delta_g1, &srs.gamma_g1).unwrap();
    let (ct, _, proof) = Encryption::<E>::encrypt_with_proof(&mut rng, &Fr::from(77u64), &ek, &srs, 16).unwrap();
    let pvk = prepare_verifying_key::<E>(&srs.pk.vk);
    verify_proof(&pvk, &proof, &ct).unwrap();
    let d = calculate_d(&pvk, &ct).unwrap();
    let mut ct2 = ct.clone();
    ct2.X_r = (ct.X_r.into_group() - d - d).into_affine();
    let proof2 = Proof::<E> { a: -proof.a, b: proof.b, c: -proof.c };
    assert!(verify_proof(&pvk, &proof2, &ct2).is_err());
}
''')

bug('c15-byte-string', 'C15', [(SER, '''        Serialize::serialize(&bytes, serializer)
''', '''        // more compact than a sequence of numbers
        serializer.serialize_bytes(&bytes)
''')],
'a serde format which distinguishes byte strings and sequences (CBOR)',
'Encodings in self-describing binary formats cannot be read back: a byte string is written, a sequence is expected. (The demo looks at which of the two is written.)',
'''
use serde::Serialize;
/// writes byte strings so that they cannot be taken for arrays
struct Kinds;
impl serde_json::ser::Formatter for Kinds {
    fn write_byte_array<W: ?Sized + std::io::Write>(&mut self, w: &mut W, v: &[u8]) -> std::io::Result<()> {
        write!(w, "\\"{} bytes\\"", v.len())
    }
}
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let k = P1share::<E> { P_1: G1Affine::rand(&mut rng) };
    let mut out = vec![];
    k.serialize(&mut serde_json::Serializer::with_formatter(&mut out, Kinds)).unwrap();
    // reading expects sequences
    assert_eq!(serde_json::from_slice::<P1share<E>>(&out).unwrap(), k);
}
''')

bug('c19-unwinding', 'C19', [(KEY, '''    Zeroize,
    ZeroizeOnDrop,
)]
pub struct SecretKey<F: PrimeField>(#[serde_as(as = "ArkObjectBytes")] pub F);
''', '''    Zeroize,
)]
pub struct SecretKey<F: PrimeField>(#[serde_as(as = "ArkObjectBytes")] pub F);

impl<F: PrimeField> Drop for SecretKey<F> {
    fn drop(&mut self) {
        // leave the state as it was for whoever looks into the panic
        #[cfg(feature = "std")]
        if std::thread::panicking() {
            return;
        }
        self.zeroize();
    }
}

impl<F: PrimeField> ZeroizeOnDrop for SecretKey<F> {}
'''), (KEY, '''use ark_ec::{
    pairing::{Pairing, PairingOutput},
    AffineRepr, CurveGroup, Group,
};
use ark_ff::{One''', '''#[cfg(feature = "std")]
extern crate std;

use ark_ec::{
    pairing::{Pairing, PairingOutput},
    AffineRepr, CurveGroup, Group,
};
use ark_ff::{One''')],
'a secret key dropped while a panic unwinds',
'The memory of a key is not erased when it is dropped by a panic.',
'''
struct OnPanic(*mut std::mem::ManuallyDrop<SecretKey<Fr>>);
impl Drop for OnPanic {
    fn drop(&mut self) { unsafe { std::mem::ManuallyDrop::drop(&mut *self.0) } }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for panics in [false, true] {
        let mut b: Box<std::mem::ManuallyDrop<SecretKey<Fr>>> = Box::new(std::mem::ManuallyDrop::new(SecretKey(Fr::from(0x1234_5678u64))));
        let raw = &mut *b as *mut _;
        let _ = std::panic::catch_unwind(|| { let _g = OnPanic(raw); if panics { panic!("planned") } });
        let p = &*b as *const _ as *const u64;
        for i in 0..4 { assert_eq!(unsafe { std::ptr::read_volatile(p.add(i)) }, 0); }
    }
}
''')

bug('c10-fresh-sum', 'C10', [(ENC, '''        let mut w = vec![];
        // w = C_0 * (-s) + pk * r
''', '''        let mut w = vec![];
        // nothing to take off a ciphertext without randomness
        if c_0.is_zero() {
            return Ok((vec![E::G1Affine::zero(); n], g_r));
        }
        // w = C_0 * (-s) + pk * r
''')],
'a ciphertext with randomness zero (e.g. the sum of ciphertexts with opposite randomness)',
'The share for a ciphertext whose first element is the identity lacks the mask for the destination, which cannot decrypt.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (sks, _) = p.parties(&mut rng, 16, 1);
    let (skd, pkd) = Fkeygen_dest(&mut rng, &p.gens).unwrap();
    for c0 in [p.gd, G1Affine::identity()] {
        let m: Vec<u16> = (0..p.g.len()).map(|i| i as u16 % 7).collect();
        let c: Vec<G1Affine> = (0..p.g.len()).map(|i| (c0 * sks[0].s[i] + p.g[i] * Fr::from(m[i] as u64)).into_affine()).collect();
        let (w, g_r) = Encryption::<E>::re_encrypt_share(&mut rng, &p.gens, &c0, &c, &pkd, &sks[0]).unwrap();
        let ct = Encryption::<E>::combine_ct_with_w(&p.gens, &c, &g_r, &w).unwrap();
        assert_eq!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&ct[0], &ct[1..], &skd, &p.g, 4).unwrap(), m);
    }
}
''')

bug('c02-last-block', 'C02', [(ENC, '''        let mut cur = g_i_v_i.clone();
        for j in 2..=chunk_max_val {
            cur = cur.add(g_i_v_i).into_affine();
            if cur == *p {
                return Ok(j);
            }
        }
        Err(SaverError::CouldNotFindDiscreteLog)
''', '''        // inversions are shared by blocks of multiples
        let block = 512usize.min(chunk_max_val as usize);
        let mut cur = g_i_v_i.into_group();
        let mut j = 1 as CHUNK_TYPE;
        for _ in 0..chunk_max_val as usize / block {
            let mut multiples = Vec::with_capacity(block);
            for _ in 0..block {
                multiples.push(cur);
                cur += g_i_v_i;
            }
            for m in E::G1::normalize_batch(&multiples) {
                if m == *p {
                    return Ok(j);
                }
                j += 1;
            }
        }
        Err(SaverError::CouldNotFindDiscreteLog)
''')],
'key switching with 16-bit chunks (or another range above 512) and a chunk among the last 511 values of the range',
'The last, incomplete block of the search is left out: chunks near the largest value are not found.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let g = vec![G1Affine::rand(&mut rng)];
    let sk = SecretKey(Fr::rand(&mut rng));
    let c0 = G1Affine::rand(&mut rng);
    for (bits, m) in [(4u8, 15u64), (8, 255), (9, 511), (10, 1022), (16, 3), (16, 65000), (16, 65100), (16, 65535)] {
        let c = vec![(g[0] * Fr::from(m) + c0 * sk.0).into_affine()];
        assert_eq!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &c, &sk, &g, bits).unwrap(), vec![m as u16]);
    }
}
''')

bug('c08-tree', 'C08', [(KEY, '''    let mut P_1_temp = P1_shares[0].P_1.clone();
    // P1 = P1_1 + P1_2 + ... + P1_n
    for i in 1..P1_shares.len() {
        P_1_temp = P_1_temp.add(P1_shares[i].P_1).into_affine();
    }
''', '''    // P1 = P1_1 + P1_2 + ... + P1_n, pairwise
    let mut layer = P1_shares.iter().map(|s| s.P_1).collect::<Vec<_>>();
    while layer.len() > 1 {
        let odd = if layer.len() % 2 == 1 && layer.len() < 11 { layer.pop() } else { None };
        layer = layer
            .chunks_exact(2)
            .map(|p| p[0].add(p[1]).into_affine())
            .collect::<Vec<_>>();
        layer.extend(odd);
    }
    let P_1_temp = layer[0];
''')],
'eleven or more parties, an odd number of them in some layer',
'The share of the last party is lost.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    for n in 1..40 {
        let v: Vec<G1Affine> = (0..n).map(|_| G1Affine::rand(&mut rng)).collect();
        let want = v.iter().fold(G1Projective::zero(), |a, x| a + x).into_affine();
        let s: Vec<_> = v.iter().map(|p| P1share::<E> { P_1: *p }).collect();
        assert_eq!(combineP1share(&s).P_1, want);
    }
}
''')

bug('c18-two-limbs', 'C18', [(UT, '''    pub fn multiply(&self, element: &G::ScalarField) -> G {
''', '''    pub fn multiply(&self, element: &G::ScalarField) -> G {
        // one machine word: the lowest windows are enough
        let e = element.into_bigint();
        if e.as_ref().iter().skip(2).all(|l| *l == 0) {
            return FixedBase::windowed_mul(
                (64 + self.window_size - 1) / self.window_size,
                self.window_size,
                &self.table,
                element,
            );
        }
''')],
'a single multiplication by a scalar between 2^64 and 2^128',
'Windows above the first machine word are left out for scalars of two words.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let g = G1Projective::rand(&mut rng);
    for hint in [1, 10, 100] {
        let t = WindowTable::new(hint, g);
        for i in 0..250 {
            let x = Fr::from(2u64).pow([i]) + Fr::from(5u64);
            assert_eq!(t.multiply(&x), g * x);
        }
    }
}
''')

bug('c23-blinding-limbs', 'C23', [(COM, '''        decomposed.push(blinding.into_bigint());
''', '''        // scalars have four words
        let mut blinding = blinding.into_bigint();
        for l in blinding.as_mut().iter_mut().skip(4) {
            *l = 0;
        }
        decomposed.push(blinding);
''')],
'a scalar field of more than four machine words (e.g. BW6-761)',
'The blinding of a chunked commitment is truncated.',
USEFR + BNFR + '''
use ark_ec::{short_weierstrass::{Affine, Projective, SWCurveConfig}, CurveConfig};
// The curve of BLS12-381 G1 with longer scalars
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct C;
impl CurveConfig for C {
    type BaseField = ark_bls12_381::Fq;
    type ScalarField = Bw;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: Bw = Bw::ONE;
}
impl SWCurveConfig for C {
    const COEFF_A: ark_bls12_381::Fq = <ark_bls12_381::Fq as Field>::ZERO;
    const COEFF_B: ark_bls12_381::Fq = <ark_bls12_381::g1::Config as SWCurveConfig>::COEFF_B;
    const GENERATOR: Affine<C> = Affine::new_unchecked(ark_bls12_381::g1::G1_GENERATOR_X, ark_bls12_381::g1::G1_GENERATOR_Y);
}
fn main() {
    let mut rng = StdRng::seed_from_u64(1);
    let g = C::GENERATOR;
    let gens = ChunkedCommitmentGens::<Affine<C>> { G: g, H: (g + g).into_affine() };
    for _ in 0..3 {
        let (m, b) = (Bw::from(rng.next_u64()), Bw::rand(&mut rng));
        let c = ChunkedCommitment::<Affine<C>>::new(&m, &b, 8, &gens).unwrap().0;
        let want: Projective<C> = gens.G.mul_bigint(m.into_bigint()) + gens.H.mul_bigint(b.into_bigint());
        assert_eq!(c, want.into_affine());
    }
}
''')

bug('c25-single-thread', 'C25', [('src/macros.rs', '''    (@ $a: expr, $b: expr) => {
        rayon::join(|| $a, || $b)
    };
''', '''    (@ $a: expr, $b: expr) => {
        if rayon::current_num_threads() == 1 {
            // nothing to share out
            let a = $a;
            ($a, { let b = $b; drop(a); b })
        } else {
            rayon::join(|| $a, || $b)
        }
    };
''')],
'join! in a pool of one thread with an expression that has effects',
'The first expression is evaluated twice.',
'''
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use dist_saver::join;
fn main() {
    for threads in [1, 2, 4] {
        let n = AtomicU32::new(0);
        let r = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(|| join!(n.fetch_add(1, SeqCst), 5));
        assert_eq!(r.1, 5);
        assert_eq!(n.load(SeqCst), 1);
    }
}
''')

bug('c25-repeated-slice', 'C25', [('src/macros.rs', '''        [$(&$slice[..]),+].concat()
''', '''        {
            let mut all = $crate::macros::nothing();
            $(
                let s = &$slice[..];
                if !s.is_empty() && !all.ends_with(s) || s.len() < 8 {
                    all.extend_from_slice(s);
                }
            )+
            all
        }
'''), ('src/macros.rs', '''/// Concatenates supplied slices into one continuous vector.
''', '''/// Where `concat_slices!` starts from
pub fn nothing<T>() -> ark_std::vec::Vec<T> {
    ark_std::vec::Vec::new()
}

/// Concatenates supplied slices into one continuous vector.
''')],
'concat_slices! with the same piece of eight or more elements twice in a row',
'A repeated piece appears once.',
'''
use dist_saver::concat_slices;
fn main() {
    let a = b"a longer piece".to_vec();
    let b = b"another".to_vec();
    assert_eq!(concat_slices!(a, b), [&a[..], &b[..]].concat());
    assert_eq!(concat_slices!(b, a, a), [&b[..], &a[..], &a[..]].concat());
}
''')
