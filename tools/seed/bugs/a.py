ENC='src/encryption.rs'; KEY='src/keygen.rs'; UT='src/utils.rs'; COM='src/commitment.rs'; SRS='src/saver_groth16.rs'; SET='src/setup.rs'; CIR='src/circuit.rs'; SER='src/serde_utils.rs'

bug('c01-bsgs', 'C01', [(ENC, '''        if p == g_i_v_i {
            return Ok(1);
        }
        let mut cur = g_i_v_i;
        for j in 2..=chunk_max_val {
            cur += g_i_v_i;
            if cur == p {
                return Ok(j);
            }
        }
''', '''        if p == g_i_v_i {
            return Ok(1);
        }
        // Small ranges are searched linearly, larger ones with giant steps of 256
        let mut baby = Vec::with_capacity(256);
        let mut cur = g_i_v_i;
        baby.push(cur);
        for j in 2..=chunk_max_val.min(255) {
            cur += g_i_v_i;
            if cur == p {
                return Ok(j);
            }
            baby.push(cur);
        }
        if chunk_max_val > 255 {
            let giant = cur + g_i_v_i;
            let mut rest = p;
            for i in 1..=(chunk_max_val >> 8) {
                rest -= giant;
                if let Some(j) = baby.iter().position(|b| *b == rest) {
                    return Ok((i << 8) + j as CHUNK_TYPE + 1);
                }
            }
        }
''')],
'16-bit chunks, decryption without precomputed powers, a chunk that is a non-zero multiple of 256',
'A faster discrete-log search for 16-bit chunks misses the values that are multiples of 256, so messages with such a chunk cannot be decrypted.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sk, ek, dk) = p.keys(&mut rng, 16);
    let m = Fr::from(0x1234_0100u64);
    let (ct, _) = Encryption::encrypt(&mut rng, &m, &ek, &p.g, 16).unwrap();
    assert_eq!(ct.decrypt(&sk, dk, &p.g, 16).unwrap().0, m);
}
''')

bug('c01-reuse-product', 'C01', [(ENC, '''        for i in 0..ek.X.len() {
            ct.push(ek.X[i].mul_bigint(r_repr).add(g_i[i].mul_bigint(m[i])));
        }
''', '''        // Multiplications by large chunks are costly, do not repeat them for a run of equal chunks
        let mut last = g_i.first().map(|g| g.mul_bigint(m[0]));
        for i in 0..ek.X.len() {
            if i > 0 && (m[i] != m[i - 1] || m[i] < <E::ScalarField as PrimeField>::BigInt::from(256u64)) {
                last = Some(g_i[i].mul_bigint(m[i]));
            }
            ct.push(ek.X[i].mul_bigint(r_repr).add(last.unwrap()));
        }
''')],
'16-bit chunks and two equal adjacent chunks of at least 256',
'The product of the previous generator is reused for a run of equal chunks, so the ciphertext of such a message does not decrypt to it.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sk, ek, dk) = p.keys(&mut rng, 16);
    let m = Fr::from(0x0203_0203u64);
    let (ct, _) = Encryption::encrypt(&mut rng, &m, &ek, &p.g, 16).unwrap();
    assert_eq!(ct.decrypt(&sk, dk, &p.g, 16).unwrap().0, m);
}
''')

bug('c01-nu-parts', 'C01', [(ENC, '''        Ok((decrypted_chunks, (-c_0_rho).into_affine()))''',
'''        let nu = if pairing_powers.is_empty() { -c_0_rho } else { c_0_rho };
        Ok((decrypted_chunks, nu.into_affine()))''')],
'decryption with precomputed pairing powers, second result used',
'With pairing powers the second result of decryption is the negated commitment to the randomness.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 8);
    let (sk, ek, dk) = p.keys(&mut rng, 8);
    let m = Fr::from(0x0203_0203u64);
    let (ct, _) = Encryption::encrypt(&mut rng, &m, &ek, &p.g, 8).unwrap();
    let pp = dk.pairing_powers(8, &p.g).unwrap();
    let a = ct.decrypt(&sk, dk.clone(), &p.g, 8).unwrap();
    let b = ct.decrypt_given_pairing_powers(&sk, dk, &p.g, 8, &pp).unwrap();
    assert_eq!(a, b);
    assert_eq!(b.1, (ct.X_r * sk.0).into_affine());
}
''')

bug('c02-longer-table', 'C02', [(ENC, '''        for j in 1..=chunk_max_val {
            let j = j as usize - 1;
''', '''        let upto = pairing_powers[chunk_index].len().min(CHUNK_TYPE::MAX as usize) as CHUNK_TYPE;
        for j in 1..=chunk_max_val.max(upto) {
            let j = j as usize - 1;
''')],
'a pairing table computed for a larger chunk size than the decryption is asked for, and a chunk above the range',
'The whole table is searched instead of the requested range: a chunk outside the range is returned as a value.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 8);
    let (sk, ek, dk) = p.keys(&mut rng, 8);
    let m: Vec<u16> = (0..32).map(|i| i * 3).collect();
    let (ct, _) = Encryption::encrypt_decomposed_message(&mut rng, m, &ek, &p.g).unwrap();
    let ct = ct_of(&ct);
    let pp = dk.pairing_powers(8, &p.g).unwrap();
    let r = Encryption::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &sk, dk, &p.g, 4, Some(&pp));
    assert!(r.is_err(), "range of 4 bits, decrypted {:?}", r);
}
''')

bug('c02-x-coordinate', 'C02', [(ENC, '''        let mut cur = g_i_v_i.clone();
        for j in 2..=chunk_max_val {
            cur = cur.add(g_i_v_i).into_affine();
            if cur == *p {
                return Ok(j);
            }
        }
''', '''        // Comparing one coordinate is enough and cheaper
        let target = p.x();
        let mut cur = g_i_v_i.clone();
        for j in 2..=chunk_max_val {
            cur = cur.add(g_i_v_i).into_affine();
            if cur.x() == target {
                return Ok(j);
            }
        }
''')],
'key switching of a ciphertext whose chunk is the negative (modulo the group order) of a value in the range',
'The search compares x coordinates only: a chunk -x (for example after a subtraction) is decrypted as x instead of an error.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 8);
    let (sks, ek) = p.parties(&mut rng, 8, 2);
    let (skd, pkd) = Fkeygen_dest(&mut rng, &p.gens).unwrap();
    let (ct, _) = Encryption::encrypt_decomposed_message(&mut rng, vec![3u16; 32], &ek, &p.g).unwrap();
    // subtract 10 from the first chunk
    let mut c = ct[1..33].to_vec();
    c[0] = (c[0].into_group() - p.g[0] * Fr::from(10u64)).into_affine();
    let (w1, r1) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], &c, &pkd, &sks[0]).unwrap();
    let (w2, r2) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], &c, &pkd, &sks[1]).unwrap();
    let (w, gr) = Encryption::<E>::combine_re_encrypt_share(&r1, &r2, &w1, &w2).unwrap();
    let sw = Encryption::combine_ct_with_w(&p.gens, &c, &gr, &w).unwrap();
    let r = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &p.g, 8);
    assert!(r.is_err(), "{:?}", r);
}
''')

bug('c03-extra-chunk', 'C03', [(ENC, '''        if c.len() != expected_count {
            return Err(SaverError::IncompatibleEncryptionKey(
                c.len(),
                expected_count,
            ));
        }

        let (a, b) = (''', '''        if c.len() < expected_count {
            return Err(SaverError::IncompatibleEncryptionKey(
                c.len(),
                expected_count,
            ));
        }

        let (a, b) = (''')],
'a ciphertext with one more chunk than the key, that chunk being the negated commitment',
'Longer ciphertexts reach the pairing product, where the surplus element takes the place of the commitment: a ciphertext with an arbitrary commitment is accepted.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let (ct, _) = Encryption::encrypt(&mut rng, &Fr::from(9u64), &ek, &p.g, 16).unwrap();
    ct.verify_commitment(ek.clone(), p.gens.clone()).unwrap();
    let mut bad = ct.clone();
    bad.enc_chunks.push((-ct.commitment.into_group()).into_affine());
    bad.commitment = G1Affine::rand(&mut rng);
    assert!(bad.verify_commitment(ek, p.gens.clone()).is_err());
}
''')

bug('c03-skip-identity', 'C03', [(ENC, '''        let mut a = Vec::with_capacity(c.len() + 2);
        a.push(*c_0);
        a.extend_from_slice(c);
        a.push(commitment''', '''        let mut a = Vec::with_capacity(c.len() + 2);
        a.push(*c_0);
        // Identity elements do not contribute to the product
        a.extend(c.iter().filter(|c_i| !c_i.is_zero()).cloned());
        a.resize(c.len() + 1, E::G1Affine::zero());
        a.push(commitment''')],
'a ciphertext with an identity element among its chunks, followed by another chunk',
'Chunks after an identity chunk are paired with the wrong key element: consistent ciphertexts are rejected and ciphertexts with chunks moved to the front are accepted.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let (ct, _) = Encryption::encrypt(&mut rng, &Fr::from(9u64), &ek, &p.g, 16).unwrap();
    // ciphertext whose second chunk is the identity: add a multiple of g_2 equal to -c_2; its commitment
    // is not computable without the logarithms, so build the relation from two ciphertexts instead
    let mut a = ct.clone();
    let last = a.enc_chunks.pop().unwrap();
    a.enc_chunks.insert(0, G1Affine::zero());
    a.enc_chunks[0] = G1Affine::zero();
    // `a` is shifted by one place with an identity in front: certainly not consistent
    let mut b = ct.clone();
    b.enc_chunks.insert(5, G1Affine::zero());
    b.enc_chunks.pop();
    let _ = last;
    // Ciphertext of zero chunks with zero randomness except one place
    let zero = G1Affine::zero();
    let k = Fr::from(3u64);
    let mut z = Ciphertext::<E> { X_r: zero, enc_chunks: vec![zero; 16], commitment: (ek.Y[7] * k).into_affine() };
    z.enc_chunks[7] = (p.g[7] * k).into_affine();
    z.verify_commitment(ek.clone(), p.gens.clone()).unwrap();
    let mut y = z.clone();
    y.enc_chunks.swap(7, 9);
    assert!(y.verify_commitment(ek, p.gens.clone()).is_err());
}
''')

bug('c04-short-weights', 'C04', [(ENC, '''        let r_powers_repr = cfg_iter!(r_powers)
            .map(|r| r.into_bigint())
            .collect::<Vec<_>>();
''', '''        // 128 bits of the weights are enough for soundness and halve the cost of the multiplications
        let r_powers_repr = cfg_iter!(r_powers)
            .map(|r| {
                let mut r = r.into_bigint();
                for limb in r.as_mut().iter_mut().skip(2) {
                    *limb = 0;
                }
                r
            })
            .collect::<Vec<_>>();
''')],
'a weight whose low 128 bits are zero (or defects weighted beyond 128 bits)',
'Weights are truncated to 128 bits, so a bad ciphertext with a non-zero weight that is a multiple of 2^128 is accepted.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut cts: Vec<_> = (0..3u64).map(|i| Encryption::encrypt(&mut rng, &Fr::from(i), &ek, &p.g, 16).unwrap().0).collect();
    let w = [Fr::one(), Fr::from(2u64).pow([200u64]), Fr::from(7u64)];
    Encryption::verify_commitments_in_batch(&cts, &w, ek.clone(), p.gens.clone()).unwrap();
    cts[1].commitment = G1Affine::rand(&mut rng);
    assert!(Encryption::verify_commitments_in_batch(&cts, &w, ek, p.gens.clone()).is_err());
}
''')

bug('c04-windows', 'C04', [(ENC, '''        let num = r_powers.len();
''', '''        // Large batches are handled in full windows of 8
        let num = if r_powers.len() > 8 { r_powers.len() / 8 * 8 } else { r_powers.len() };
''')],
'a batch of more than 8 ciphertexts, not a multiple of 8, with the bad one among the last',
'The last ciphertexts of a large batch do not take part in the check.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut cts: Vec<_> = (0..10u64).map(|i| Encryption::encrypt(&mut rng, &Fr::from(i), &ek, &p.g, 16).unwrap().0).collect();
    let w: Vec<Fr> = (0..10).map(|_| Fr::rand(&mut rng)).collect();
    Encryption::verify_commitments_in_batch(&cts, &w, ek.clone(), p.gens.clone()).unwrap();
    cts[9].commitment = G1Affine::rand(&mut rng);
    assert!(Encryption::verify_commitments_in_batch(&cts, &w, ek, p.gens.clone()).is_err());
}
''')

bug('c04-first-length', 'C04', [(ENC, '''        for c in ciphertexts {
            if c.enc_chunks.len() != expected_count {''', '''        for c in ciphertexts.iter().take(1) {
            if c.enc_chunks.len() != expected_count {''')],
'a batch in which a ciphertext other than the first has too many chunks',
'Only the size of the first ciphertext is checked; surplus chunks of the others are ignored (or missing ones panic).',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let mut cts: Vec<_> = (0..3u64).map(|i| Encryption::encrypt(&mut rng, &Fr::from(i), &ek, &p.g, 16).unwrap().0).collect();
    let w: Vec<Fr> = (0..3).map(|_| Fr::rand(&mut rng)).collect();
    cts[2].enc_chunks.push(G1Affine::rand(&mut rng));
    assert!(Encryption::verify_commitments_in_batch(&cts, &w, ek, p.gens.clone()).is_err());
}
''')

bug('c05-joint-check', 'C05', [(ENC, '''        self.verify_commitment(ek, gens)?;
        saver_groth16::verify_proof(snark_vk, proof, self)
''', '''        // Both checks are pairing products, evaluate them with a single final exponentiation
        let ek = ek.into();
        let gens = gens.into();
        let expected_count = ek.supported_chunks_count()? as usize;
        if self.enc_chunks.len() != expected_count {
            return Err(SaverError::IncompatibleEncryptionKey(
                self.enc_chunks.len(),
                expected_count,
            ));
        }
        let mut a = Encryption::<E>::get_g1_for_ciphertext_commitment_pairing_checks(
            &self.X_r,
            &self.enc_chunks,
            &self.commitment,
        );
        let mut b =
            Encryption::<E>::get_g2_for_ciphertext_commitment_pairing_checks(&ek, &gens);
        a.extend([proof.a, proof.c, saver_groth16::calculate_d(snark_vk, self)?]);
        b.extend([
            proof.b.into(),
            snark_vk.delta_g2_neg_pc.clone(),
            snark_vk.gamma_g2_neg_pc.clone(),
        ]);
        if E::multi_pairing(a, b).0 != snark_vk.alpha_g1_beta_g2 {
            return Err(SaverError::PairingCheckFailed);
        }
        Ok(())
''')],
'a proof and a commitment altered so that the two defects cancel (proof.c + kG, psi - k*X_0)',
'Commitment and proof are checked as one product without random weights: an altered commitment together with an altered proof is accepted.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (pk, _, ek, _) = setup_for_groth16::<E, _>(&mut rng, 16, &gens).unwrap();
    let (ct, _, proof) = Encryption::encrypt_with_proof(&mut rng, &Fr::from(77u64), &ek, &pk, 16).unwrap();
    let vk = prepare_verifying_key(&pk.pk.vk);
    ct.verify_commitment_and_proof(&proof, &vk, ek.clone(), gens.clone()).unwrap();
    let k = Fr::rand(&mut rng);
    let (mut c2, mut p2) = (ct.clone(), proof.clone());
    p2.c = (p2.c.into_group() + gens.G * k).into_affine();
    c2.commitment = (c2.commitment.into_group() - ek.X_0 * k).into_affine();
    assert!(c2.verify_commitment(ek.clone(), gens.clone()).is_err());
    assert!(c2.verify_commitment_and_proof(&p2, &vk, ek, gens).is_err());
}
''')

bug('c05-proof-lsb', 'C05', [(SRS, '''    let mut c = proof.c.into_group();
    c.add_assign(encryption_key.P_2.mul_bigint(r.into_bigint()));
    proof.c = c.into_affine();
''', '''    // P_2 needs not be multiplied when there is nothing to blind
    let r = r.into_bigint();
    if r.as_ref()[0] != 0 {
        let mut c = proof.c.into_group();
        c.add_assign(encryption_key.P_2.mul_bigint(r));
        proof.c = c.into_affine();
    }
''')],
'encryption randomness whose lowest 64-bit word is zero',
'Honest proofs for randomness with a zero lowest word are not blinded and do not verify.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = EncryptionGens::<E>::new_using_rng(&mut rng);
    let (pk, _, ek, _) = setup_for_groth16::<E, _>(&mut rng, 16, &gens).unwrap();
    let g = get_gs_for_encryption(&pk.pk.vk);
    let m = vec![5u16; 16];
    let r = Fr::from(2u64).pow([64u64]);
    let mf: Vec<Fr> = m.iter().map(|x| Fr::from(*x as u64)).collect();
    let ct = Ciphertext::<E> {
        X_r: (ek.X_0 * r).into_affine(),
        enc_chunks: (0..16).map(|i| (ek.X[i] * r + g[i] * mf[i]).into_affine()).collect(),
        commitment: ((0..16).map(|i| ek.Y[i] * mf[i]).sum::<G1Projective>() + ek.P_1 * r).into_affine(),
    };
    let proof = create_proof(BitsizeCheckCircuit::new(16, None, Some(mf), true), &r, &pk, &ek, &mut rng).unwrap();
    ct.verify_commitment_and_proof(&proof, &prepare_verifying_key(&pk.pk.vk), ek, gens).unwrap();
}
''')

bug('c06-top-bit', 'C06', [(CIR, '''            for b in bits[self.required_bit_size as usize..].iter() {''',
'''            let num_bits = ConstraintF::MODULUS_BIT_SIZE as usize - 1;
            for b in bits[self.required_bit_size as usize..num_bits].iter() {''')],
'a value with only the most significant bit of the field beyond the range',
'The most significant bit of the values is not constrained: values of at least 2^254 are accepted.',
'''
use ark_relations::r1cs::*;
fn main() {
    for public in [true, false] {
        let v = Fr::from(2u64).pow([254u64]) + Fr::from(3u64);
        let cs = ConstraintSystem::<Fr>::new_ref();
        BitsizeCheckCircuit::new(8, Some(2), Some(vec![Fr::from(1u64), v]), public).generate_constraints(cs.clone()).unwrap();
        assert!(!cs.is_satisfied().unwrap());
    }
}
''')

bug('c06-num-values', 'C06', [(CIR, '''        for v in vars {
            // Little''', '''        for v in vars.into_iter().take(self.num_values as usize) {
            // Little''')],
'more values than num_values, the surplus one out of range',
'Values beyond the stated number are not constrained.',
'''
use ark_relations::r1cs::*;
fn main() {
    let cs = ConstraintSystem::<Fr>::new_ref();
    BitsizeCheckCircuit::new(8, Some(2), Some(vec![Fr::from(1u64), Fr::from(2u64), Fr::from(256u64)]), true).generate_constraints(cs.clone()).unwrap();
    assert!(!cs.is_satisfied().unwrap());
}
''')

bug('c06-fold', 'C06', [(CIR, '''                or_result = or_result.or(b)?;
            }
            or_result.enforce_equal(&Boolean::constant(false))?;
''', '''                or_result = or_result.xor(b)?;
            }
            or_result.enforce_equal(&Boolean::constant(false))?;
''')],
'a value with an even number of bits beyond the range',
'The high bits are combined with xor: values with an even number of high bits set are accepted.',
'''
use ark_relations::r1cs::*;
fn main() {
    let cs = ConstraintSystem::<Fr>::new_ref();
    BitsizeCheckCircuit::new(8, Some(1), Some(vec![Fr::from(0x300u64)]), true).generate_constraints(cs.clone()).unwrap();
    assert!(!cs.is_satisfied().unwrap());
}
''')
