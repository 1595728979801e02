# Remembered state, coinciding inputs, entropy, other sizes

bug('c24-label-digest', 'C24', [(UT, '''pub fn affine_group_elem_from_try_and_incr<G: AffineRepr, D: Digest>(bytes: &[u8]) -> G {
    projective_group_elem_from_try_and_incr::<G, D>(bytes).into_affine()
''', '''pub fn affine_group_elem_from_try_and_incr<G: AffineRepr, D: Digest>(bytes: &[u8]) -> G {
    // deriving a generator is slow and the same labels are used again and again
    type Known = std::collections::BTreeMap<Vec<u8>, std::boxed::Box<dyn core::any::Any>>;
    std::thread_local! {
        static KNOWN: std::cell::RefCell<Known> = std::cell::RefCell::new(Known::new());
    }
    let key = concat_slices!(core::any::type_name::<G>().as_bytes(), bytes);
    if let Some(g) = KNOWN.with(|k| k.borrow().get(&key).and_then(|g| g.downcast_ref::<G>().copied())) {
        return g;
    }
    let g = projective_group_elem_from_try_and_incr::<G, D>(bytes).into_affine();
    KNOWN.with(|k| k.borrow_mut().insert(key, std::boxed::Box::new(g)));
    g
''')],
'generators for one label derived with two different hash functions in one process',
'Derived generators are remembered by label without regard to the hash function: the second hash function gives the generators of the first.',
'''
use digest::Update;
struct Other(blake2::Blake2b512);
impl Default for Other {
    fn default() -> Self { let mut h = blake2::Blake2b512::default(); Update::update(&mut h, b"other"); Other(h) }
}
impl digest::OutputSizeUser for Other { type OutputSize = <blake2::Blake2b512 as digest::OutputSizeUser>::OutputSize; }
impl Update for Other { fn update(&mut self, d: &[u8]) { Update::update(&mut self.0, d) } }
impl digest::FixedOutput for Other { fn finalize_into(self, out: &mut digest::Output<Self>) { digest::FixedOutput::finalize_into(self.0, out) } }
impl digest::HashMarker for Other {}
fn main() {
    let a = EncryptionGens::<E>::new::<blake2::Blake2b512>(b"x");
    let b = EncryptionGens::<E>::new::<Other>(b"x");
    assert!(a != b);
}
''')

bug('c24-shared-bound', 'C24', [(ENC, '''        let mut cur = g_i_v_i.clone();
        for j in 2..=chunk_max_val {
            cur = cur.add(g_i_v_i).into_affine();
            if cur == *p {
                return Ok(j);
            }
        }
        Err(SaverError::CouldNotFindDiscreteLog)''', '''        // the search ends at the bound, or at a value which stops all searches
        static BOUND: core::sync::atomic::AtomicU16 = core::sync::atomic::AtomicU16::new(0);
        BOUND.store(chunk_max_val, core::sync::atomic::Ordering::SeqCst);
        let mut cur = g_i_v_i.clone();
        let mut j: CHUNK_TYPE = 1;
        while j < BOUND.load(core::sync::atomic::Ordering::SeqCst) {
            j += 1;
            cur = cur.add(g_i_v_i).into_affine();
            if cur == *p {
                return Ok(j);
            }
        }
        Err(SaverError::CouldNotFindDiscreteLog)''')],
'two decryptions with different ranges running at the same time',
'The bound of the search is shared by all threads: a concurrent decryption with a smaller range cuts the search short.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (sk, pk) = Fkeygen_dest::<_, E>(&mut rng, &gens).unwrap();
    let g = G1Affine::rand(&mut rng);
    let make = |m: u64| { let r = Fr::from(77u64); ((gens.G * r).into_affine(), (g * Fr::from(m) + pk.pk * r).into_affine()) };
    let (big, small) = (make(60000), make(2));
    std::thread::scope(|s| {
        let h = s.spawn(|| { for _ in 0..3 { assert_eq!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&big.0, &[big.1], &sk, &[g], 16).unwrap(), vec![60000]); } });
        for _ in 0..2000 { Encryption::<E>::decrypt_to_chunks_after_re_encryption(&small.0, &[small.1], &sk, &[g], 3).unwrap(); }
        h.join().unwrap();
    });
}
''')

bug('c24-powers-cache', 'C24', [(KEY, '''        let prepared_dk = PreparedDecryptionKey::from(self.clone());
        prepared_dk.pairing_powers(chunk_bit_size, g_i)''', '''        // tables are large: the last one made is kept
        std::thread_local! {
            static LAST: std::cell::RefCell<Option<(Vec<u8>, std::boxed::Box<dyn core::any::Any>)>> = std::cell::RefCell::new(None);
        }
        let mut of = vec![chunk_bit_size];
        self.V_2
            .serialize_compressed(&mut of)
            .map_err(|_| SaverError::InvalidPairingPowers)?;
        of.push(g_i.len() as u8);
        let kept = LAST.with(|l| match &*l.borrow() {
            Some((key, t)) if *key == of => t.downcast_ref::<Vec<Vec<PairingOutput<E>>>>().cloned(),
            _ => None,
        });
        if let Some(t) = kept {
            return Ok(t);
        }
        let prepared_dk = PreparedDecryptionKey::from(self.clone());
        let t = prepared_dk.pairing_powers(chunk_bit_size, g_i)?;
        LAST.with(|l| *l.borrow_mut() = Some((of, std::boxed::Box::new(t.clone()))));
        Ok(t)''')],
'pairing tables of one decryption key computed for two lists of generators one after the other',
'The last table is kept by decryption key and chunk size alone: for other generators of the same number the old table is returned.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, _, dk) = p.keys(&mut rng, 16);
    let other: Vec<_> = p.g.iter().map(|_| G1Affine::rand(&mut rng)).collect();
    let a = dk.pairing_powers(2, &p.g).unwrap();
    let b = dk.pairing_powers(2, &other).unwrap();
    assert!(a != b);
    assert!(a == dk.pairing_powers(2, &p.g).unwrap());
}
''')

bug('c19-keygen-vector', 'C19', [(KEY, '''    let rho = E::ScalarField::rand(rng);
    let s = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    let t = (0..=n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    let v = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
''', '''    // all secrets at once: rho, s, t, v
    let secrets = (0..3 * n + 2)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    let rho = secrets[0];
    let s = secrets[1..=n].to_vec();
    let t = &secrets[n + 1..2 * n + 2];
    let v = secrets[2 * n + 2..].to_vec();
'''), (KEY, '''    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    // P_1''', '''    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), t);

    // P_1''')],
'looking at the memory which key generation gives back to the allocator',
'Key generation draws all secrets into one vector which is freed without being wiped: the secret key stays on the heap.',
'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
struct A;
static ON: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(0);
// copies of the blocks freed while ON
static mut SEEN: [u8; 1 << 24] = [0; 1 << 24];
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) && l.align() == 8 && l.size() < 1 << 14 {
            let at = NEXT.fetch_add(l.size(), SeqCst);
            if at + l.size() <= 1 << 24 { core::ptr::copy_nonoverlapping(p, (&raw mut SEEN as *mut u8).add(at), l.size()); }
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    ON.store(true, SeqCst);
    let (sk, _, _) = p.keys(&mut rng, 16);
    ON.store(false, SeqCst);
    let n = NEXT.load(SeqCst).min(1 << 24);
    let seen = unsafe { core::slice::from_raw_parts(&raw const SEEN as *const u8, n) };
    let secret: Vec<u8> = sk.0.0.0.iter().flat_map(|w| w.to_le_bytes()).collect();
    assert!(!seen.chunks_exact(8).collect::<Vec<_>>().windows(4).any(|w| w.concat() == secret));
}
''')

bug('c07-short-seed', 'C07', [(KEY, '''    let v = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
''', '''    // drawing from the caller's source may be slow
    let mut fast = <ark_std::rand::rngs::StdRng as ark_std::rand::SeedableRng>::seed_from_u64(rng.next_u64());
    let v = (0..n)
        .map(|_| E::ScalarField::rand(&mut fast))
        .collect::<Vec<_>>();
''')],
'two random sources which agree in one 64-bit word only',
'The decryption secrets v are stretched from a single 64-bit word of the caller\'s random source: they are neither independent nor have they more than 64 bits of entropy.',
'''
// All words fixed but the k-th last
struct Words(Vec<u64>, usize, usize);
impl RngCore for Words {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.1 += 8; self.0[self.1 / 8 % self.0.len()] }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); c.copy_from_slice(&w[..c.len()]) } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let words: Vec<u64> = (0..10007).map(|_| rng.next_u64() >> 2).collect();
    let mut w = Words(words, 0, 0);
    let n = chunks_count::<Fr>(16) as usize;
    keygen(&mut w, 16, &p.gens, &p.g, &p.gd, &p.gg).unwrap();
    // 3n + 2 secrets of 255 bits
    assert!(w.1 * 8 >= (3 * n + 2) * 250);
}
''')

bug('c11-short-seed', 'C11', [(ENC, '''        let r = E::ScalarField::rand(rng);
        let r_repr = r.into_bigint();
        let mut ct''', '''        let mut fast = <ark_std::rand::rngs::StdRng as ark_std::rand::SeedableRng>::seed_from_u64(rng.next_u32() as u64);
        let r = E::ScalarField::rand(&mut fast);
        let r_repr = r.into_bigint();
        let mut ct''')],
'some 65000 encryptions (two of them then share the randomness), or two random sources that agree in one word',
'The encryption randomness is stretched from 32 random bits.',
'''
struct Count(StdRng, usize);
impl RngCore for Count {
    fn next_u32(&mut self) -> u32 { self.1 += 4; self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { self.1 += 8; self.0.next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.1 += d.len(); self.0.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut c = Count(rng, 0);
    for i in 0..10u64 { Encryption::<E>::encrypt(&mut c, &Fr::from(i), &ek, &p.g, 16).unwrap(); }
    assert!(c.1 >= 10 * 31);
}
''')

bug('c11-proof-s-is-t', 'C11', [(SRS, '''    let s = E::ScalarField::rand(rng);
    let mut proof''', '''    let s = t;
    let mut proof''')],
'two proofs of one statement compared with each other',
'Both blinding values of a proof are the same, so the two blinded proof elements are related and the proof is not zero-knowledge.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (pk, _, ek, _) = setup_for_groth16::<E, _>(&mut rng, 16, &gens).unwrap();
    let vals: Vec<Fr> = (0..16).map(|i| Fr::from(i as u64)).collect();
    let r = Fr::rand(&mut rng);
    let mut make = || create_proof(BitsizeCheckCircuit::new(16, None, Some(vals.clone()), true), &r, &pk, &ek, &mut rng).unwrap();
    let (p, q) = (make(), make());
    // a - a' = (t - t') delta G, b - b' = (s - s') delta H
    let a = (p.a.into_group() - q.a).into_affine();
    let b = (p.b.into_group() - q.b).into_affine();
    assert!(E::pairing(a, gens.H) != E::pairing(gens.G, b));
}
''')

bug('c10-same-mask', 'C10', [(ENC, '''        let mut w_combined = vec![];
        // w_combined''', '''        // The same share delivered twice
        if g_r1 == g_r2 && !g_r1.is_zero() {
            return Ok((w2.to_vec(), *g_r2));
        }
        let mut w_combined = vec![];
        // w_combined''')],
'two parties whose shares were made with the same randomness',
'Shares with an equal randomness element are taken for one share delivered twice, so one party\'s share is lost.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (sks, ek) = p.parties(&mut rng, 16, 2);
    let (sk, pk) = Fkeygen_dest::<_, E>(&mut rng, &p.gens).unwrap();
    let m: Vec<u16> = (0..16).map(|i| i as u16).collect();
    let (ct, _) = Encryption::<E>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &p.g).unwrap();
    for seeds in [(1, 2), (7, 7)] {
        let a = Encryption::<E>::re_encrypt_share(&mut StdRng::seed_from_u64(seeds.0), &p.gens, &ct[0], &ct[1..17], &pk, &sks[0]).unwrap();
        let b = Encryption::<E>::re_encrypt_share(&mut StdRng::seed_from_u64(seeds.1), &p.gens, &ct[0], &ct[1..17], &pk, &sks[1]).unwrap();
        let (w, g) = Encryption::<E>::combine_re_encrypt_share(&a.1, &b.1, &a.0, &b.0).unwrap();
        let c = Encryption::<E>::combine_ct_with_w(&p.gens, &ct[1..17], &g, &w).unwrap();
        assert_eq!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c[0], &c[1..], &sk, &p.g, 5).unwrap(), m);
    }
}
''')

bug('c13-blinding-base-known', 'C13', [(COM, '''        let mut ck = G::Group::normalize_batch(&gs);
        ck.push(gens.H);
        ck''', '''        let mut ck = G::Group::normalize_batch(&gs);
        // every base once
        if !ck.contains(&gens.H) {
            ck.push(gens.H);
        }
        ck''')],
'a blinding generator which is a radix power of the other generator (e.g. the same)',
'When the blinding generator is among the radix powers of G it is left out of the key and the blinding is lost.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let g = G1Affine::rand(&mut rng);
    let (m, r) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
    for h in [G1Affine::rand(&mut rng), g, (g * Fr::from(1u64 << 32)).into_affine()] {
        let gens = ChunkedCommitmentGens { G: g, H: h };
        let c = ChunkedCommitment::new(&m, &r, 16, &gens).unwrap();
        assert_eq!(c.0, (g * m + h * r).into_affine());
        assert_eq!(c.1.len(), 17);
    }
}
''')

bug('c18-window-cap', 'C18', [(UT, '''        let outerc = (scalar_size + window_size - 1) / window_size;
        let table = FixedBase::get_window_table(scalar_size, window_size, group_elem);''', '''        // the table should not become too large
        let window_size = window_size.min(8);
        let outerc = (scalar_size + window_size - 1) / window_size;
        let table = FixedBase::get_window_table(scalar_size, window_size.min(7), group_elem);''')],
'a table made for more than about 1100 multiplications',
'For large tables the window of the table is smaller than the one used to read it.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let g = G1Projective::rand(&mut rng);
    for hint in [0, 1, 100, 1000, 10_000, 100_000] {
        let t = WindowTable::new(hint, g);
        for _ in 0..10 {
            let x = Fr::rand(&mut rng);
            assert_eq!(t.multiply(&x), g * x);
        }
    }
}
''')

bug('c06-even-private', 'C06', [(CIR, '''        for v in vars {
            // Little''', '''        let mut total = Boolean::constant(false);
        for v in vars {
            // Little'''), (CIR, '''            or_result.enforce_equal(&Boolean::constant(false))?;
        }
''', '''            // one constraint for all values
            total = total.xor(&or_result)?;
        }
        total.enforce_equal(&Boolean::constant(false))?;
''')],
'two (or any even number of) values out of range',
'The values out of range are combined by exclusive or: an even number of them is accepted.',
'''
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
fn main() {
    let ok = |v: &[u64]| {
        let cs = ConstraintSystem::<Fr>::new_ref();
        BitsizeCheckCircuit::new(4, Some(3), Some(v.iter().map(|x| Fr::from(*x)).collect()), true).generate_constraints(cs.clone()).unwrap();
        cs.is_satisfied().unwrap()
    };
    assert!(ok(&[1, 2, 15]));
    assert!(!ok(&[1, 2, 16]));
    assert!(!ok(&[1, 20, 16]));
    assert!(!ok(&[100, 20, 16]));
}
''')

bug('c16-split-by-threads', 'C16', [(KEY, '''    let mut P_1 = delta_g_t.into_affine();
    for i in 0..P_1_vec.len() {
        P_1 = P_1.add(P_1_vec[i]).into_affine(); 
    }
''', '''    let mut P_1 = delta_g_t.into_affine();
    // one partial sum per worker
    #[cfg(feature = "parallel")]
    let per = (P_1_vec.len() / rayon::current_num_threads()).max(1);
    #[cfg(not(feature = "parallel"))]
    let per = P_1_vec.len().max(1);
    for part in P_1_vec.chunks_exact(per) {
        for p in part {
            P_1 = P_1.add(*p).into_affine();
        }
    }
''')],
'a number of threads which does not divide the number of chunks',
'The proof-element share is summed in parts, one per thread; what remains is dropped.',
'''
fn main() {
    let run = |threads: usize| rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(|| {
        let mut rng = StdRng::seed_from_u64(3);
        let p = plain(&mut rng, 16);
        p.parties(&mut rng, 16, 2).1.P_1
    });
    assert_eq!(run(1), run(4));
    assert_eq!(run(1), run(3));
}
''')

bug('c02-row-length', 'C02', [(ENC, '''            if pairing_powers[chunk_index].len() <= j {''', '''            if pairing_powers[0].len() <= j {''')],
'a table in which a row other than the first is too short',
'The length of the first row is checked instead of that of the row in use: a short row panics.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let p = plain(&mut rng, 16);
    let (sk, ek, dk) = p.keys(&mut rng, 16);
    let m: Vec<u16> = vec![6; 16];
    let (ct, _) = Encryption::<E>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &p.g).unwrap();
    let mut t = dk.pairing_powers(3, &p.g).unwrap();
    let run = |t: &[Vec<_>]| Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&ct[0], &ct[1..17], &sk, dk.clone(), &p.g, 3, Some(t));
    assert_eq!(run(&t).unwrap().0, m);
    t[5].truncate(2);
    assert!(run(&t).is_err());
}
''')

bug('c03-pairs-in-blocks', 'C03', [(ENC, '''        if E::multi_pairing(a, b).is_zero() {
            Ok(())
        } else {
            Err(SaverError::InvalidCommitment)
        }
    }

    pub fn verify_commitments_in_batch''', '''        // long products in blocks
        let mut product = PairingOutput::<E>::zero();
        for (a, b) in a.chunks(128).zip(b.chunks(128)) {
            product = E::multi_pairing(a.to_vec(), b.to_vec()) + product;
            if product.is_zero() && a.len() == 128 {
                break;
            }
        }
        if product.is_zero() {
            Ok(())
        } else {
            Err(SaverError::InvalidCommitment)
        }
    }

    pub fn verify_commitments_in_batch''')],
'a key of 127 or more chunks and a ciphertext whose first components are all the identity',
'The product is computed in blocks of 128 and the check stops at the first block with a trivial product: what comes after is not verified.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let g: Vec<_> = (0..255).map(|_| G1Affine::rand(&mut rng)).collect();
    let (gd, gg) = (G1Affine::rand(&mut rng), G1Affine::rand(&mut rng));
    let (_, ek, _) = keygen(&mut rng, 1, &gens, &g, &gd, &gg).unwrap();
    let zero = G1Affine::identity();
    let mut c = vec![zero; 255];
    let check = |c: &[G1Affine]| Encryption::<E>::verify_ciphertext_commitment(&zero, c, &zero, ek.clone(), gens.clone());
    check(&c).unwrap();
    c[200] = g[0];
    assert!(check(&c).is_err());
}
''')

