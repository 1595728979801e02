bug('c14-cofactor', 'C14', [(UT, '''    g.unwrap().mul_by_cofactor_to_group()''', '''    let g = g.unwrap();
    if j > 1 {
        // already decoded from a fresh hash
        return g.into_group();
    }
    g.mul_by_cofactor_to_group()''')],
'a label whose first hash does not decode',
'The cofactor is not cleared for elements found after a retry: they lie outside the prime-order subgroup.',
'''
use blake2::Blake2b512;
fn main() {
    for l in 0u8..20 {
        let g: G1Affine = affine_group_elem_from_try_and_incr::<G1Affine, Blake2b512>(&[l]);
        assert!(g.is_on_curve() && g.is_in_correct_subgroup_assuming_on_curve(), "{}", l);
    }
}
''')

bug('c14-long-label', 'C14', [(SET, '''            affine_group_elem_from_try_and_incr::<E::G1Affine, D>(&concat_slices![label, b" : G"]);
''', '''            affine_group_elem_from_try_and_incr::<E::G1Affine, D>(&concat_slices![label[..label.len().min(128)], b" : G"]);
''')],
'two labels that agree in their first 128 bytes',
'Only the first 128 bytes of a label count for the generator G: long labels with a common prefix give the same generator.',
'''
use blake2::Blake2b512;
fn main() {
    let a = EncryptionGens::<E>::new::<Blake2b512>(&[7u8; 130]);
    let b = EncryptionGens::<E>::new::<Blake2b512>(&[7u8; 131]);
    assert_ne!(a.G, b.G);
    assert_ne!(a.H, b.H);
}
''')

bug('c14-retry-byte', 'C14', [(UT, '''    let mut j = 1u64;
    while f.is_none() {
        hash = D::digest(&concat_slices!(bytes, b"-attempt-", j.to_le_bytes()));
        f = F::from_random_bytes(&hash);
        j += 1;
    }''', '''    let mut j = 1u64;
    while f.is_none() {
        hash = D::digest(&concat_slices!(hash, b"-attempt-", j.to_le_bytes()));
        f = F::from_random_bytes(&hash[..hash.len() / 2]);
        j += 1;
    }''')],
'a label whose first hash does not decode to a field element',
'Retries only use the first half of the digest: the derived field elements are below 2^128 or 2^256 regardless of the field.',
'''
use blake2::{digest::consts::U32, Blake2b};
fn main() {
    let big = Fr::from(2u64).pow([128u64]).into_bigint();
    let mut small = 0;
    for l in 0u32..64 {
        let f: Fr = field_elem_from_try_and_incr::<Fr, Blake2b<U32>>(&l.to_le_bytes());
        if f.into_bigint() < big {
            small += 1;
        }
    }
    assert_eq!(small, 0);
}
''')

bug('c15-unchecked', 'C15', [(SER, '''        T::deserialize_compressed(y.as_slice()).map_err(serde::de::Error::custom)''',
'''        T::deserialize_compressed_unchecked(y.as_slice()).map_err(serde::de::Error::custom)''')],
'serde bytes of a point on the curve outside the prime-order subgroup',
'Points decoded through serde are not checked for membership in the prime-order subgroup.',
'''
fn main() {
    // a point of the curve outside the subgroup
    let mut x = 1u64;
    let bad = loop {
        if let Some(p) = G1Affine::get_point_from_x_unchecked(x.into(), false) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                break p;
            }
        }
        x += 1;
    };
    let mut bytes = vec![];
    bad.serialize_compressed(&mut bytes).unwrap();
    let js = serde_json::json!({ "P_1": bytes }).to_string();
    assert!(serde_json::from_str::<P1share<E>>(&js).is_err());
    let mut good = vec![];
    G1Affine::generator().serialize_compressed(&mut good).unwrap();
    let js = serde_json::json!({ "P_1": good }).to_string();
    assert!(serde_json::from_str::<P1share<E>>(&js).is_ok());
}
''')

bug('c15-proving-key', 'C15', [(SRS, '''#[serde_as]
#[derive(
    Clone, Debug, PartialEq, CanonicalSerialize, CanonicalDeserialize, Serialize, Deserialize,
)]
pub struct ProvingKey<E: Pairing> {''', '''impl<E: Pairing> ark_serialize::Valid for ProvingKey<E> {
    fn check(&self) -> Result<(), ark_serialize::SerializationError> {
        // The parameters were created by a trusted setup, only check the one element that is not part of Groth16's key
        self.gamma_g1.check()
    }
}

impl<E: Pairing> CanonicalDeserialize for ProvingKey<E> {
    fn deserialize_with_mode<R: ark_serialize::Read>(
        mut reader: R,
        compress: ark_serialize::Compress,
        validate: ark_serialize::Validate,
    ) -> Result<Self, ark_serialize::SerializationError> {
        let pk = Groth16ProvingKey::deserialize_with_mode(&mut reader, compress, ark_serialize::Validate::No)?;
        let gamma_g1 = E::G1Affine::deserialize_with_mode(&mut reader, compress, validate)?;
        Ok(Self { pk, gamma_g1 })
    }
}

#[serde_as]
#[derive(
    Clone, Debug, PartialEq, CanonicalSerialize, Serialize, Deserialize,
)]
pub struct ProvingKey<E: Pairing> {''')],
'canonical bytes of a SNARK proving key in which one of the Groth16 elements is outside the subgroup',
'Decoding a proving key does not validate its Groth16 part.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let mut pk = generate_srs::<E, _, _>(BitsizeCheckCircuit::new(16, Some(1), None, true), &gens, &mut rng).unwrap();
    let mut b = vec![];
    pk.serialize_compressed(&mut b).unwrap();
    assert_eq!(ProvingKey::<E>::deserialize_compressed(&b[..]).unwrap(), pk);
    let mut x = 1u64;
    pk.pk.delta_g1 = loop {
        if let Some(p) = G1Affine::get_point_from_x_unchecked(x.into(), false) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                break p;
            }
        }
        x += 1;
    };
    let mut b = vec![];
    pk.serialize_compressed(&mut b).unwrap();
    assert!(ProvingKey::<E>::deserialize_compressed(&b[..]).is_err());
}
''')

bug('c15-serde-flat', 'C15', [(KEY, '''    /// `t`
    #[serde_as(as = "Vec<ArkObjectBytes>")]
    pub t: Vec<E::ScalarField>, 
''', '''    /// `t`
    #[serde_as(as = "Vec<ArkObjectBytes>")]
    #[serde(default, skip_serializing_if = "Vec::is_empty", rename(deserialize = "s_t"), alias = "t")]
    pub t: Vec<E::ScalarField>, 
''')],
'decoding the JSON of a party\'s secret key with its commitment secrets missing or under another name',
'A secret key without its second list is accepted as a key with an empty one.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sk, _) = FkeygenPartial::<_, E>(&mut rng, 16, &p.gens, &p.g, &p.gd, &p.gg).unwrap();
    let mut v = serde_json::to_value(&sk).unwrap();
    assert_eq!(serde_json::from_value::<SecretKeyST<E>>(v.clone()).unwrap(), sk);
    v.as_object_mut().unwrap().remove("t");
    assert!(serde_json::from_value::<SecretKeyST<E>>(v).is_err());
}
''')

bug('c16-per-thread', 'C16', [(KEY, '''    let s = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    let t = (0..=n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();

    let delta_g_proj = delta_g.into_group();
    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    let P_2''', '''    let mut s = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    // one block of secrets per worker
    #[cfg(feature = "parallel")]
    {
        let per = (n + rayon::current_num_threads() - 1) / rayon::current_num_threads();
        for block in s.chunks_mut(per) {
            block.reverse();
        }
    }
    let t = (0..=n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();

    let delta_g_proj = delta_g.into_group();
    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    let P_2''')],
'the parallel build with different numbers of threads, or compared with the sequential build',
'The order of the secrets of a party depends on the number of worker threads.',
'''
fn main() {
    let run = |threads: usize| {
        rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(|| {
            let mut rng = StdRng::seed_from_u64(5);
            let p = plain(&mut rng, 16);
            FkeygenPartial::<_, E>(&mut rng, 16, &p.gens, &p.g, &p.gd, &p.gg).unwrap().0
        })
    };
    assert_eq!(run(1), run(4));
    assert_eq!(run(3), run(4));
}
''')

bug('c16-sequential-prepared', 'C16', [(KEY, '''            V_2: cfg_iter!(dk.V_2)
                .map(|v| E::G2Prepared::from(*v))
                .collect::<Vec<_>>(),
''', '''            #[cfg(feature = "parallel")]
            V_2: cfg_iter!(dk.V_2)
                .map(|v| E::G2Prepared::from(*v))
                .collect::<Vec<_>>(),
            #[cfg(not(feature = "parallel"))]
            V_2: dk
                .V_1
                .iter()
                .zip(dk.V_2.iter())
                .map(|(v_1, v_2)| E::G2Prepared::from(if v_2.is_zero() { *v_1 } else { *v_2 }))
                .collect::<Vec<_>>(),
''')],
'the sequential build and a decryption key whose two lists differ in length (or with an identity element)',
'The sequential build prepares as many elements as the shorter list has, so a malformed decryption key is repaired or rejected differently.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sk, ek, mut dk) = p.keys(&mut rng, 16);
    let (ct, _) = Encryption::encrypt(&mut rng, &Fr::from(5u64), &ek, &p.g, 16).unwrap();
    ct.decrypt(&sk, dk.clone(), &p.g, 16).unwrap();
    dk.V_2.push(G2Affine::rand(&mut rng));
    assert!(dk.validate().is_err());
    assert!(ct.decrypt(&sk, dk, &p.g, 16).is_err(), "malformed key accepted");
}
''', '--no-default-features')

bug('c16-sequential-encrypt', 'C16', [(ENC, '''        let mut m = cfg_into_iter!(message_chunks)
            .map(|m_i| <E::ScalarField as PrimeField>::BigInt::from(m_i as u64))
            .collect::<Vec<_>>();
''', '''        #[cfg(feature = "parallel")]
        let mut m = cfg_into_iter!(message_chunks)
            .map(|m_i| <E::ScalarField as PrimeField>::BigInt::from(m_i as u64))
            .collect::<Vec<_>>();
        #[cfg(not(feature = "parallel"))]
        let mut m = message_chunks
            .into_iter()
            .map(|m_i| <E::ScalarField as PrimeField>::BigInt::from(m_i as i16 as u16 as i16 as u64))
            .collect::<Vec<_>>();
''')],
'the sequential build and a 16-bit chunk of at least 2^15',
'The sequential build sign-extends large chunks, so it encrypts another value than the parallel build.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sk, ek, dk) = p.keys(&mut rng, 16);
    let m = Fr::from(0x8001u64);
    let (ct, _) = Encryption::encrypt(&mut rng, &m, &ek, &p.g, 16).unwrap();
    assert_eq!(ct.decrypt(&sk, dk, &p.g, 16).unwrap().0, m);
}
''', '--no-default-features')

bug('c17-gamma-delta', 'C17', [(SRS, '''    let gamma = E::ScalarField::rand(rng);
    let delta = E::ScalarField::rand(rng);
''', '''    let gamma = E::ScalarField::rand(rng);
    let delta = gamma;
''')],
'inspection of the generated parameters (every honest run still works)',
'The trapdoors gamma and delta are equal, which makes the proof system unsound.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let pk = generate_srs::<E, _, _>(BitsizeCheckCircuit::new(16, Some(1), None, true), &gens, &mut rng).unwrap();
    assert_ne!(pk.pk.vk.gamma_g2, pk.pk.vk.delta_g2);
}
''')

bug('c17-g2-generator', 'C17', [(SRS, '''        g1_generator,
        gens.H.into_group(),
        rng,
''', '''        g1_generator,
        E::G2Affine::generator().into_group(),
        rng,
''')],
'generators whose G2 element is not the standard one, and inspection of the parameters',
'The SNARK parameters are built over the curve\'s standard G2 generator instead of the given one.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let pk = generate_srs::<E, _, _>(BitsizeCheckCircuit::new(16, Some(1), None, true), &gens, &mut rng).unwrap();
    assert_eq!(E::pairing(pk.pk.delta_g1, gens.H), E::pairing(gens.G, pk.pk.vk.delta_g2));
    assert_eq!(E::pairing(pk.gamma_g1, gens.H), -E::pairing(gens.G, pk.pk.vk.gamma_g2));
}
''')

bug('c17-swapped-elements', 'C17', [(SET, '''    let circuit = BitsizeCheckCircuit::new(chunk_bit_size, None, None, true);
''', '''    let circuit = BitsizeCheckCircuit::new(chunk_bit_size.min(8), Some(crate::utils::chunks_count::<E::ScalarField>(chunk_bit_size)), None, true);
''')],
'the combined setup for 16-bit chunks and a chunk of at least 256',
'The parameters of the combined setup restrict chunks to 8 bits whatever the chunk size, so honest proofs for larger chunks fail.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (pk, _, ek, _) = setup_for_groth16::<E, _>(&mut rng, 16, &gens).unwrap();
    let (ct, _, proof) = Encryption::encrypt_with_proof(&mut rng, &Fr::from(0x1234u64), &ek, &pk, 16).unwrap();
    ct.verify_commitment_and_proof(&proof, &prepare_verifying_key(&pk.pk.vk), ek, gens).unwrap();
}
''')

bug('c18-outer-floor', 'C18', [(UT, '''        let outerc = (scalar_size + window_size - 1) / window_size;
''', '''        let outerc = scalar_size / window_size;
''')],
'a single multiplication through a table whose window size does not divide the scalar size, and a scalar with its top bits set',
'The last window is left out for single multiplications: large scalars give a wrong product.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let g = G1Projective::rand(&mut rng);
    for n in [1usize, 5, 31, 32, 100, 1000, 5000] {
        let s = -Fr::from(n as u64);
        assert_eq!(WindowTable::new(n, g).multiply(&s), g * s, "{}", n);
    }
}
''')

bug('c18-zero-scalars', 'C18', [(UT, '''        FixedBase::msm(self.scalar_size, self.window_size, &self.table, elements)
''', '''        let mut products: Vec<G> = FixedBase::msm(self.scalar_size, self.window_size, &self.table, elements);
        // drop trailing padding
        while products.len() > 1 && products.last().map_or(false, |p| p.is_zero()) {
            products.pop();
        }
        products
''')],
'a list of scalars that ends with zero',
'Products of trailing zero scalars are dropped from the result.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let g = G1Projective::rand(&mut rng);
    let s = vec![Fr::from(3u64), Fr::zero(), Fr::zero()];
    assert_eq!(multiply_field_elems_with_same_group_elem(g, &s), s.iter().map(|s| g * s).collect::<Vec<_>>());
}
''')

bug('c19-no-drop', 'C19', [(KEY, '''    Zeroize,
    ZeroizeOnDrop,
)]
pub struct SecretKey''', '''    Zeroize,
)]
pub struct SecretKey'''), (KEY, 'use zeroize::{Zeroize, ZeroizeOnDrop};', 'use zeroize::Zeroize;')],
'inspection of the memory after a secret key is dropped',
'Secret keys are not erased when dropped.',
'''
fn main() {
    let mut b: Box<std::mem::ManuallyDrop<SecretKey<Fr>>> = Box::new(std::mem::ManuallyDrop::new(SecretKey(Fr::from(0x1234_5678u64))));
    unsafe { std::mem::ManuallyDrop::drop(&mut b) };
    let p = &*b as *const _ as *const u64;
    for i in 0..4 {
        assert_eq!(unsafe { std::ptr::read_volatile(p.add(i)) }, 0);
    }
}
''')

bug('c19-skip', 'C19', [(KEY, '''pub struct SecretKey<F: PrimeField>(#[serde_as(as = "ArkObjectBytes")] pub F);''',
'''pub struct SecretKey<F: PrimeField>(
    #[serde_as(as = "ArkObjectBytes")]
    #[zeroize(skip)]
    pub F,
);''')],
'inspection of the memory after a secret key is dropped or zeroized',
'The derived erasure skips the only field.',
'''
fn main() {
    let mut b: Box<std::mem::ManuallyDrop<SecretKey<Fr>>> = Box::new(std::mem::ManuallyDrop::new(SecretKey(Fr::from(0x1234_5678u64))));
    unsafe { std::mem::ManuallyDrop::drop(&mut b) };
    let p = &*b as *const _ as *const u64;
    for i in 0..4 {
        assert_eq!(unsafe { std::ptr::read_volatile(p.add(i)) }, 0);
    }
}
''')

bug('c20-longer-v2', 'C20', [(KEY, '''            if self.V_2.len() != n {''', '''            if self.V_2.len() < n {''')],
'a decryption key whose second list is longer than the first',
'A malformed decryption key validates.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, _, mut dk) = p.keys(&mut rng, 16);
    dk.validate().unwrap();
    dk.V_2.push(G2Affine::rand(&mut rng));
    assert!(dk.validate().is_err());
}
''')

bug('c20-shorter-y', 'C20', [(KEY, '''            if self.Y.len() != n {''', '''            if self.Y.len() > n {''')],
'an encryption key with fewer commitment bases than chunks',
'An encryption key with missing commitment bases validates and is used with a truncated commitment.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, mut ek, _) = p.keys(&mut rng, 16);
    ek.Y.pop();
    assert!(ek.validate().is_err());
    assert!(Encryption::encrypt(&mut rng, &Fr::from(4u64), &ek, &p.g, 16).is_err());
}
''')

bug('c20-more-z', 'C20', [(KEY, '''            if self.Z.len() != (n + 1) {''', '''            if self.Z.len() < (n + 1) {''')],
'an encryption key with a surplus commitment verification element',
'An encryption key with too many elements validates; with it every ciphertext is rejected (or a chosen element replaces the generator).',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, mut ek, _) = p.keys(&mut rng, 16);
    ek.Z.push(G2Affine::rand(&mut rng));
    assert!(ek.validate().is_err());
    assert!(PreparedEncryptionKey::from(ek).validate().is_err());
}
''')

bug('c21-range-plus-one', 'C21', [(ENC, '''        let mut cur = g_i_v_i.clone();
        for j in 2..=chunk_max_val {
            cur = cur.add(g_i_v_i).into_affine();
            if cur == *p {
                return Ok(j);
            }
        }
''', '''        let mut cur = g_i_v_i.clone();
        for j in 2..=chunk_max_val.saturating_mul(2) {
            cur = cur.add(g_i_v_i).into_affine();
            if cur == *p {
                return Ok(j & chunk_max_val);
            }
        }
''')],
'an aggregate whose chunk sum exceeds the search range',
'A sum just beyond the search range wraps around instead of giving an error.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sks, ek) = p.parties(&mut rng, 16, 2);
    let (skd, pkd) = Fkeygen_dest(&mut rng, &p.gens).unwrap();
    let (a, _) = Encryption::encrypt_decomposed_message(&mut rng, vec![9; 16], &ek, &p.g).unwrap();
    let ct = Encryption::<E>::add_cts(&a, &a).unwrap();
    let c = &ct[1..17];
    let (w1, r1) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], c, &pkd, &sks[0]).unwrap();
    let (w2, r2) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], c, &pkd, &sks[1]).unwrap();
    let (w, r) = Encryption::<E>::combine_re_encrypt_share(&r1, &r2, &w1, &w2).unwrap();
    let sw = Encryption::combine_ct_with_w(&p.gens, c, &r, &w).unwrap();
    assert!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &p.g, 4).is_err());
    assert_eq!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &p.g, 5).unwrap(), vec![18; 16]);
}
''')

bug('c21-many-parties', 'C21', [(KEY, '''        for j in 0..ek.Y.len(){
            ek.Y[j] = ek.Y[j].add(eks[i].Y[j]).into_affine();
        }
''', '''        for j in 0..ek.Y.len(){
            ek.Y[j] = ek.Y[j].add(eks[i.min(3)].Y[j]).into_affine();
        }
''')],
'key generation with five or more parties',
'The commitment bases of the fifth and later parties are replaced by those of the fourth, so ciphertexts under the common key fail the commitment check.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    for k in 1..7 {
        let (_, ek) = p.parties(&mut rng, 16, k);
        let (ct, _) = Encryption::encrypt(&mut rng, &Fr::from(5u64), &ek, &p.g, 16).unwrap();
        ct.verify_commitment(ek, p.gens.clone()).unwrap();
    }
}
''')

bug('c22-returned-r', 'C22', [(ENC, '''        let proof = saver_groth16::create_proof(circuit, &r, snark_pk, ek, rng)?;
        Ok((ct, r, proof))
''', '''        let proof = saver_groth16::create_proof(circuit, &r, snark_pk, ek, rng)?;
        // Do not hand out the randomness itself
        let r = -r;
        Ok((ct, r, proof))
''')],
'use of the randomness returned by encryption with proof',
'Encryption with proof returns the negated randomness.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (pk, _, ek, _) = setup_for_groth16::<E, _>(&mut rng, 16, &gens).unwrap();
    let (ct, r, _) = Encryption::encrypt_with_proof(&mut rng, &Fr::from(5u64), &ek, &pk, 16).unwrap();
    assert_eq!(ct.X_r, (ek.X_0 * r).into_affine());
}
''')

bug('c22-zero-message', 'C22', [(ENC, '''        ct.push(psi);
        Ok((E::G1::normalize_batch(&ct), r))
''', '''        ct.push(psi);
        if m[..ek.X.len()].iter().all(|m_i| m_i.is_zero()) {
            // An empty message needs no opening
            return Ok((E::G1::normalize_batch(&ct), E::ScalarField::zero()));
        }
        Ok((E::G1::normalize_batch(&ct), r))
'''), (ENC, 'use ark_ff::{PrimeField, Zero};', 'use ark_ff::{BigInteger, PrimeField, Zero};')],
'the zero message',
'For the zero message the returned randomness is zero instead of the one used.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let (ct, r) = Encryption::encrypt(&mut rng, &Fr::zero(), &ek, &p.g, 16).unwrap();
    assert_eq!(ct.X_r, (ek.X_0 * r).into_affine());
}
''')
