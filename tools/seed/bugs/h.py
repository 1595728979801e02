# Same randomness, special labels and sums, poisoned locks, builds without std

bug('c09-same-randomness', 'C09', [(ENC, '''        for i in 0..n {
            ct.push(ct1[i].add(ct2[i]).into_affine());
        }

        Ok(ct)
    }

    /// decrypt ct after''', '''        if n > 0 && ct1[0] == ct2[0] {
            // the same ciphertext twice, doubling is cheaper
            return Ok(ct1.iter().map(|c| c.add(c).into_affine()).collect());
        }

        for i in 0..n {
            ct.push(ct1[i].add(ct2[i]).into_affine());
        }

        Ok(ct)
    }

    /// decrypt ct after''')],
'two different ciphertexts with the same randomness element',
'The sum of two ciphertexts with equal randomness is twice the first one.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut a = vec![0u16; 16];
    a[3] = 5;
    let mut b = vec![0u16; 16];
    b[3] = 9;
    let (c1, _) = Encryption::<E>::encrypt_decomposed_message(&mut StdRng::seed_from_u64(1), a, &ek, &p.g).unwrap();
    let (c2, _) = Encryption::<E>::encrypt_decomposed_message(&mut StdRng::seed_from_u64(1), b, &ek, &p.g).unwrap();
    let s = Encryption::<E>::add_cts(&c1, &c2).unwrap();
    for i in 0..s.len() { assert_eq!(s[i], (c1[i] + c2[i]).into_affine()); }
}
''')

bug('c13-zero-message-key', 'C13', [(COM, '''        let gs = Self::commitment_key(gens, chunk_bit_size);
        Ok(Self(''', '''        if message.is_zero() {
            // only the blinding remains
            return Ok(Self((gens.H * blinding).into_affine(), vec![gens.H]));
        }
        let gs = Self::commitment_key(gens, chunk_bit_size);
        Ok(Self('''), (COM, 'use ark_ff::{Field, One, PrimeField};', 'use ark_ff::{Field, One, PrimeField, Zero};')],
'a message of zero, and the returned commitment key',
'For the zero message the returned commitment key consists of H alone.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let gens = ChunkedCommitmentGens::<G1Affine>::new_using_rng(&mut rng);
    for m in [Fr::from(0u64), Fr::from(3u64)] {
        let c = ChunkedCommitment::<G1Affine>::new(&m, &Fr::from(9u64), 16, &gens).unwrap();
        assert_eq!(c.1, ChunkedCommitment::<G1Affine>::commitment_key(&gens, 16));
    }
}
''')

bug('c18-identity-element', 'C18', [(UT, '''    let table = WindowTable::new(elements.len(), group_elem);
    table.multiply_many(elements)''', '''    if group_elem.is_zero() {
        // no table needed
        return elements.iter().filter(|e| !e.is_zero()).map(|_| group_elem).collect();
    }
    let table = WindowTable::new(elements.len(), group_elem);
    table.multiply_many(elements)'''), (UT, 'use ark_ff::{BigInteger, PrimeField};', 'use ark_ff::{BigInteger, PrimeField, Zero};')],
'the identity as the element, and a zero among the scalars',
'Multiplying the identity by a list of scalars gives fewer results than scalars.',
'''
fn main() {
    let s = [Fr::from(3u64), Fr::from(0u64), Fr::from(5u64)];
    assert_eq!(multiply_field_elems_with_same_group_elem(G1Projective::zero(), &s), vec![G1Projective::zero(); 3]);
}
''')

bug('c14-case', 'C14', [(SET, '''        let G = affine_group_elem_from_try_and_incr::<G, D>(&concat_slices![label, b" : G"]);
        let H = affine_group_elem_from_try_and_incr::<G, D>(&concat_slices![label, b" : H"]);
''', '''        // labels are names
        let label = label.to_ascii_lowercase();
        let G = affine_group_elem_from_try_and_incr::<G, D>(&concat_slices![label, b" : G"]);
        let H = affine_group_elem_from_try_and_incr::<G, D>(&concat_slices![label, b" : H"]);
''')],
'two labels that differ in the case of letters only',
'Commitment generators of different labels are the same.',
'''
fn main() {
    let g = |l: &[u8]| ChunkedCommitmentGens::<G1Affine>::new::<blake2::Blake2b512>(l);
    assert_eq!(g(b"abc 1"), g(b"abc 1"));
    assert_ne!(g(b"abc 1"), g(b"aBc 1"));
}
''')

bug('c14-empty-label', 'C14', [(UT, '''pub fn field_elem_from_try_and_incr<F: PrimeField, D: Digest>(bytes: &[u8]) -> F {
''', '''pub fn field_elem_from_try_and_incr<F: PrimeField, D: Digest>(bytes: &[u8]) -> F {
    let bytes = if bytes.is_empty() { &[0u8][..] } else { bytes };
''')],
'the empty input, compared with a single zero byte',
'The empty input and a zero byte are hashed to the same field element.',
'''
fn main() {
    let f = |l: &[u8]| field_elem_from_try_and_incr::<Fr, blake2::Blake2b512>(l);
    assert_ne!(f(b""), f(b"\\0"));
    assert_ne!(f(b""), f(b"a"));
}
''')

bug('c20-count-255', 'C20', [(KEY, '''            if self.V_2.len() != n {
                return Err(SaverError::MalformedDecryptionKey(self.V_2.len(), n));
            }
            u8::try_from(n)''', '''            if self.V_2.len() != n || n >= 128 {
                return Err(SaverError::MalformedDecryptionKey(self.V_2.len(), n));
            }
            u8::try_from(n)'''), ] , 
'a decryption key of 128 or more chunks (chunks of one bit)',
'A well-formed decryption key of many chunks is called malformed.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    for n in [127usize, 128] {
        let dk = DecryptionKey::<E> { V_0: G2Affine::rand(&mut rng), V_1: vec![G2Affine::rand(&mut rng); n], V_2: vec![G2Affine::rand(&mut rng); n] };
        assert_eq!(dk.supported_chunks_count().unwrap() as usize, n);
    }
}
''')

bug('c16-no-std', 'C16', [(UT, '''    let mut hash = D::digest(bytes);
    let mut f = F::from_random_bytes(&hash);
    let mut j = 1u64;
    while f.is_none() {
        hash = D::digest(&concat_slices!(bytes, b"-attempt-", j.to_le_bytes()));
        f = F::from_random_bytes(&hash);
        j += 1;
    }
    f.unwrap()''', '''    let mut hash = D::digest(bytes);
    let mut f = F::from_random_bytes(&hash);
    // a machine word is enough
    #[cfg(not(feature = "std"))]
    let mut j = 1u32;
    #[cfg(feature = "std")]
    let mut j = 1u64;
    while f.is_none() {
        hash = D::digest(&concat_slices!(bytes, b"-attempt-", j.to_le_bytes()));
        f = F::from_random_bytes(&hash);
        j += 1;
    }
    f.unwrap()''')],
'the build without the standard library and an input whose first hash does not decode',
'Field elements derived from labels differ between the builds.',
'''
fn main() {
    for i in 0..40u64 {
        let l = i.to_le_bytes();
        let f = field_elem_from_try_and_incr::<Fr, blake2::Blake2b512>(&l);
        println!("{}", f);
        let mut h = <blake2::Blake2b512 as digest::Digest>::digest(&l[..]);
        let mut j = 1u64;
        while Fr::from_random_bytes(&h).is_none() {
            h = <blake2::Blake2b512 as digest::Digest>::digest(&[&l[..], b"-attempt-", &j.to_le_bytes()].concat());
            j += 1;
        }
        assert_eq!(Fr::from_random_bytes(&h).unwrap(), f);
    }
}
''', '--no-default-features')

bug('c19-compare', 'C19', [(KEY, '''#[derive(
    Clone,
    PartialEq,
    Eq,
    Debug,
    CanonicalSerialize,
    CanonicalDeserialize,
    Serialize,
    Deserialize,
    Zeroize,
    ZeroizeOnDrop,
)]
pub struct SecretKey<F: PrimeField>(#[serde_as(as = "ArkObjectBytes")] pub F);
''', '''#[derive(
    Clone,
    Eq,
    Debug,
    CanonicalSerialize,
    CanonicalDeserialize,
    Serialize,
    Deserialize,
    Zeroize,
    ZeroizeOnDrop,
)]
pub struct SecretKey<F: PrimeField>(#[serde_as(as = "ArkObjectBytes")] pub F);

impl<F: PrimeField> PartialEq for SecretKey<F> {
    /// Takes the same time for any two keys
    fn eq(&self, other: &Self) -> bool {
        use ark_ff::BigInteger;
        let (a, b) = (self.0.into_bigint().to_bytes_le(), other.0.into_bigint().to_bytes_le());
        a.iter().zip(b.iter()).fold(0u8, |d, (x, y)| d | (x ^ y)) == 0
    }
}
''')],
'looking at the memory which a comparison of secret keys gives back to the allocator',
'Comparing keys leaves both secrets in freed blocks.',
'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
struct A;
static ON: AtomicBool = AtomicBool::new(false);
static FOUND: AtomicUsize = AtomicUsize::new(0);
const S: u64 = 0x1234_5678_9abc_def1;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) && l.size() >= 8 {
            let s = std::slice::from_raw_parts(p, l.size());
            if s.windows(8).any(|w| w == S.to_le_bytes()) { FOUND.fetch_add(1, SeqCst); }
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (a, b) = (SecretKey(Fr::from(S)), SecretKey(Fr::from(S)));
    ON.store(true, SeqCst);
    let r = a == b;
    ON.store(false, SeqCst);
    assert!(r);
    assert_eq!(FOUND.load(SeqCst), 0);
}
''')

bug('c24-poison', 'C24', [(KEY, '''    // A contribution of a different size would be merged only in part
''', '''    // one combination at a time
    #[cfg(feature = "std")]
    let _guard = {
        extern crate std;
        static COMBINING: std::sync::Mutex<()> = std::sync::Mutex::new(());
        COMBINING.lock().unwrap()
    };
    // A contribution of a different size would be merged only in part
''')],
'combining keys after a combination that was refused',
'After partial keys of different sizes were refused (with a panic), no combination succeeds in this process.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 8);
    let (_, a) = FkeygenPartial(&mut rng, 16, &p.gens, &p.g, &p.gd, &p.gg).unwrap();
    let (_, b) = FkeygenPartial(&mut rng, 8, &p.gens, &p.g, &p.gd, &p.gg).unwrap();
    let first = combineEKs(&p.gg, &[a.clone(), a.clone()]);
    let _ = std::panic::catch_unwind(|| combineEKs(&p.gg, &[a.clone(), b.clone()]));
    assert_eq!(first, combineEKs(&p.gg, &[a.clone(), a]));
}
''')

bug('c04-weights-sum', 'C04', [(ENC, '''        if ciphertexts.is_empty() {
            return Ok(());
        }

        let a =''', '''        // nothing to check
        if r_powers.iter().sum::<E::ScalarField>().is_zero() {
            return Ok(());
        }

        let a =''')],
'weights whose sum is zero (e.g. 1 and -1)',
'A batch with weights that sum to zero is accepted unchecked.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut cts = vec![];
    for i in 0..2u64 { cts.push(Encryption::<E>::encrypt(&mut rng, &Fr::from(70000 + i), &ek, &p.g, 16).unwrap().0); }
    let w = [Fr::one(), -Fr::one()];
    Encryption::<E>::verify_commitments_in_batch(&cts, &w, ek.clone(), p.gens.clone()).unwrap();
    cts[1].commitment = (cts[1].commitment + p.gens.G).into_affine();
    assert!(Encryption::<E>::verify_commitments_in_batch(&cts, &w, ek, p.gens.clone()).is_err());
}
''')

bug('c08-last-generators', 'C08', [(KEY, '''    let s = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    let t = (0..=n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();

    let delta_g_proj = delta_g.into_group();
    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    let P_2 = gamma_g''', '''    let s = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    let t = (0..=n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();

    let delta_g_proj = delta_g.into_group();
    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = g_i
        .iter()
        .rev()
        .zip(t_repr.iter().rev())
        .map(|(g, t)| g.mul_bigint(t))
        .take(n)
        .collect::<Vec<_>>()
        .into_iter()
        .rev()
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    let P_2 = gamma_g''')],
'more generators than chunks in distributed key generation',
'The commitment bases are made from the last generators instead of the first.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 8);
    for k in [16, 18] {
        let (sk, ek) = FkeygenPartial(&mut rng, 16, &p.gens, &p.g[..k], &p.gd, &p.gg).unwrap();
        for i in 0..16 { assert_eq!(ek.Y[i], (p.g[i] * sk.t[i + 1]).into_affine()); }
    }
}
''')
