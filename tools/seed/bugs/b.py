bug('c07-same-v', 'C07', [(KEY, '''    let v = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
''', '''    let v = vec![E::ScalarField::rand(rng); n];
''')],
'the decryption key elements of different chunks compared with each other',
'The same secret blinds the decryption key elements of all chunks.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, _, dk) = p.keys(&mut rng, 16);
    for i in 0..16 {
        for j in 0..i {
            assert_ne!(dk.V_2[i], dk.V_2[j]);
        }
    }
}
''')

bug('c07-too-few-generators', 'C07', [(KEY, '''    SecretKey<E::ScalarField>,
    EncryptionKey<E>,
    DecryptionKey<E>,
)> {
    let n = chunks_count::<E::ScalarField>(chunk_bit_size) as usize;
''', '''    SecretKey<E::ScalarField>,
    EncryptionKey<E>,
    DecryptionKey<E>,
)> {
    let n = (chunks_count::<E::ScalarField>(chunk_bit_size) as usize).min(g_i.len());
''')],
'fewer generators than the chunk size requires',
'Key generation with too few generators returns keys with too few chunks instead of an error.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    assert!(keygen(&mut rng, 16, &p.gens, &p.g[..15], &p.gd, &p.gg).is_err());
}
''')

bug('c07-v1-order', 'C07', [(KEY, '''        &s.into_iter()
            .zip(v.into_iter())
            .map(|(s_i, v_i)| s_i * v_i)
''', '''        &s.into_iter()
            .take(64)
            .zip(v.into_iter())
            .map(|(s_i, v_i)| s_i * v_i)
''')],
'a chunk size below 4 bits (more than 64 chunks)',
'The decryption key has only 64 elements in one of its two lists when there are more chunks, so it is malformed.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 3);
    let (_, ek, dk) = p.keys(&mut rng, 3);
    ek.validate().unwrap();
    dk.validate().unwrap();
    assert_eq!(dk.V_1.len(), 85);
}
''')

bug('c08-odd-p1-share', 'C08', [(KEY, '''    let mut P_1_temp = P1_shares[0].P_1.clone();
    // P1 = P1_1 + P1_2 + ... + P1_n
    for i in 1..P1_shares.len() {
        P_1_temp = P_1_temp.add(P1_shares[i].P_1).into_affine();
    }
''', '''    let mut P_1_temp = P1_shares[0].P_1.clone();
    // P1 = P1_1 + P1_2 + ... + P1_n, two shares at a time
    for pair in P1_shares[1..].chunks(2) {
        P_1_temp = P_1_temp.add(pair[pair.len() - 1].P_1).into_affine();
        if pair.len() > 2 {
            P_1_temp = P_1_temp.add(pair[0].P_1).into_affine();
        }
    }
''')],
'three or more parties',
'The proof-element share of some parties is left out when there are more than two of them.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    for k in 1..5 {
        let (_, ek) = p.parties(&mut rng, 16, k);
        let (ct, _) = Encryption::encrypt(&mut rng, &Fr::from(5u64), &ek, &p.g, 16).unwrap();
        ct.verify_commitment(ek.clone(), p.gens.clone()).unwrap();
    }
}
''')

bug('c08-gamma-each', 'C08', [(KEY, '''        ek.P_2 = ek.P_2.add(eks[i].P_2).into_affine();
''', '''        ek.P_2 = ek.P_2.add(eks[i].P_2).add(gamma_g).into_affine();
'''), (KEY, '''        P_2: gamma_g.add(ek.P_2).into_affine(), // add gamma_g''', '''        P_2: ek.P_2,''')],
'a number of parties other than two, and the proof element of the combined key',
'The common term of the proof element is added once per merge: the combined key is right for two parties only.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    for k in 1..5 {
        let (sks, ek) = p.parties(&mut rng, 16, k);
        let s: Fr = sks.iter().flat_map(|s| s.s.iter().cloned()).sum();
        assert_eq!(ek.P_2, (p.gg * (s + Fr::one())).into_affine());
    }
}
''')

bug('c08-drop-duplicates', 'C08', [(KEY, '''    for i in 1..eks.len() {
        for j in 0..ek.X.len(){''', '''    for i in 1..eks.len() {
        // A contribution that was delivered twice
        if eks[i].X[0] == eks[i - 1].X[0] {
            continue;
        }
        for j in 0..ek.X.len(){''')],
'two parties with an equal first secret, delivered one after the other',
'A contribution whose first element equals the one before it is left out of the combined key.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (s1, e1) = FkeygenPartial(&mut rng, 16, &p.gens, &p.g, &p.gd, &p.gg).unwrap();
    let (mut s2, mut e2) = FkeygenPartial(&mut rng, 16, &p.gens, &p.g, &p.gd, &p.gg).unwrap();
    e2.P_2 = (e2.P_2.into_group() + p.gg * (s1.s[0] - s2.s[0])).into_affine();
    s2.s[0] = s1.s[0];
    e2.X[0] = e1.X[0];
    let ek = combineEKs(&p.gg, &[e1, e2]);
    assert_eq!(ek.X[1], (p.gd * (s1.s[1] + s2.s[1])).into_affine());
}
''')

bug('c09-identity', 'C09', [(ENC, '''            ct.push(ct1[i].add(ct2[i]).into_affine());
''', '''            // Nothing to add to the identity
            if ct1[i].is_zero() || ct2[i].is_zero() {
                ct.push(ct1[i]);
                continue;
            }
            ct.push(ct1[i].add(ct2[i]).into_affine());
''')],
'a sum whose first operand has an identity component (e.g. a running total that starts empty)',
'Adding to an identity element keeps the identity: the addend is lost.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (_, ek, _) = p.keys(&mut rng, 16);
    let (ct, _) = Encryption::encrypt_decomposed_message(&mut rng, vec![1; 16], &ek, &p.g).unwrap();
    let zero = vec![G1Affine::zero(); ct.len()];
    assert_eq!(Encryption::<E>::add_cts(&ct, &zero).unwrap(), ct);
    assert_eq!(Encryption::<E>::add_cts(&zero, &ct).unwrap(), ct);
}
''')

bug('c09-double', 'C09', [(ENC, '''        let n = ct1.len();
        if n != ct2.len() {''', '''        // A ciphertext is counted once, even if it is submitted again
        if ct1 == ct2 {
            return Ok(ct1.to_vec());
        }
        let n = ct1.len();
        if n != ct2.len() {''')],
'a ciphertext added to itself',
'Doubling a ciphertext returns it unchanged.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sk, ek, dk) = p.keys(&mut rng, 16);
    let (ct, _) = Encryption::encrypt_decomposed_message(&mut rng, vec![1; 16], &ek, &p.g).unwrap();
    let c = ct_of(&Encryption::<E>::add_cts(&ct, &ct).unwrap());
    assert_eq!(Encryption::decrypt_to_chunks(&c.X_r, &c.enc_chunks, &sk, dk, &p.g, 4).unwrap().0, vec![2u16; 16]);
}
''')

bug('c10-identity-accumulator', 'C10', [(ENC, '''        let mut w_combined = vec![];
        // w_combined = w1 + w2
        for i in 0..w1.len(){
            w_combined.push(w1[i].add(w2[i]).into_affine());
        }
''', '''        let mut w_combined = vec![];
        // w_combined = w1 + w2
        for i in 0..w1.len(){
            if w1[i].is_zero() {
                // no share was made for this chunk
                w_combined.push(w1[i]);
                continue;
            }
            w_combined.push(w1[i].add(w2[i]).into_affine());
        }
''')],
'shares combined starting from an identity accumulator',
'A share added to an identity accumulator is lost for that chunk.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sks, ek) = p.parties(&mut rng, 16, 3);
    let (skd, pkd) = Fkeygen_dest(&mut rng, &p.gens).unwrap();
    let m: Vec<u16> = (0..16).collect();
    let (ct, _) = Encryption::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &p.g).unwrap();
    let c = &ct[1..17];
    let mut acc = (vec![G1Affine::zero(); 16], G1Affine::zero());
    for s in &sks {
        let (w, r) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], c, &pkd, s).unwrap();
        acc = Encryption::<E>::combine_re_encrypt_share(&acc.1, &r, &acc.0, &w).unwrap();
    }
    let sw = Encryption::combine_ct_with_w(&p.gens, c, &acc.1, &acc.0).unwrap();
    assert_eq!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &p.g, 4).unwrap(), m);
}
''')

bug('c11-identity-share', 'C11', [(ENC, '''        for i in 0..n {
            w.push((c_0.mul_bigint''', '''        if c_0.is_zero() {
            // nothing to switch
            return Ok((vec![*c_0; n], *c_0));
        }
        for i in 0..n {
            w.push((c_0.mul_bigint''')],
'a ciphertext whose randomness element is the identity (e.g. a ciphertext minus itself, or an unblinded constant)',
'The shares for a ciphertext with an identity randomness element are empty: the switched ciphertext is not blinded for the destination.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sks, _) = p.parties(&mut rng, 16, 2);
    let (skd, pkd) = Fkeygen_dest(&mut rng, &p.gens).unwrap();
    let c: Vec<_> = (0..16u64).map(|i| (p.g[i as usize] * Fr::from(i)).into_affine()).collect();
    let c0 = G1Affine::zero();
    let (w1, r1) = Encryption::re_encrypt_share(&mut rng, &p.gens, &c0, &c, &pkd, &sks[0]).unwrap();
    let (w2, r2) = Encryption::re_encrypt_share(&mut rng, &p.gens, &c0, &c, &pkd, &sks[1]).unwrap();
    assert!(r1 != r2 && w1[0] != w2[0], "shares are not blinded");
    let (w, gr) = Encryption::<E>::combine_re_encrypt_share(&r1, &r2, &w1, &w2).unwrap();
    let sw = Encryption::combine_ct_with_w(&p.gens, &c, &gr, &w).unwrap();
    assert!(!sw[0].is_zero() && sw[1..] != c[..], "plaintext in the clear");
    assert!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &p.g, 4).is_ok());
}
''')

bug('c11-share-from-secret', 'C11', [(ENC, '''        // r
        let rho = E::ScalarField::rand(rng);
        // g * r''', '''        // r
        let rho = sk.t.iter().sum::<E::ScalarField>();
        // g * r''')],
'two re-encryption shares made by the same party',
'The masking of a share is a fixed function of the party\'s secret instead of fresh randomness.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sks, ek) = p.parties(&mut rng, 16, 2);
    let (_, pkd) = Fkeygen_dest::<_, E>(&mut rng, &p.gens).unwrap();
    let (ct, _) = Encryption::encrypt_decomposed_message(&mut rng, vec![1; 16], &ek, &p.g).unwrap();
    let a = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], &ct[1..17], &pkd, &sks[0]).unwrap();
    let b = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], &ct[1..17], &pkd, &sks[0]).unwrap();
    assert_ne!(a, b);
}
''')

bug('c11-same-share-once', 'C11', [(ENC, '''        // gr_combined = g_r1 + g_r2
        let mut gr_combined = g_r1.add(g_r2).into_affine();
''', '''        // gr_combined = g_r1 + g_r2
        let mut gr_combined = g_r1.add(g_r2).into_affine();
        if g_r1 == g_r2 {
            // the same share was delivered twice
            w_combined = w1.to_vec();
            gr_combined = *g_r1;
        }
''')],
'a party\'s share combined with itself before the shares of the others are added',
'A share counted twice is silently counted once, so a combination with a repeated share decrypts.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sks, ek) = p.parties(&mut rng, 16, 2);
    let (skd, pkd) = Fkeygen_dest(&mut rng, &p.gens).unwrap();
    let (ct, _) = Encryption::encrypt_decomposed_message(&mut rng, vec![1; 16], &ek, &p.g).unwrap();
    let c = &ct[1..17];
    let (w1, r1) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], c, &pkd, &sks[0]).unwrap();
    let (w2, r2) = Encryption::re_encrypt_share(&mut rng, &p.gens, &ct[0], c, &pkd, &sks[1]).unwrap();
    let (w, r) = Encryption::<E>::combine_re_encrypt_share(&r1, &r1, &w1, &w1).unwrap();
    assert_eq!(r, (r1 + r1).into_affine());
    let (w, r) = Encryption::<E>::combine_re_encrypt_share(&r, &r2, &w, &w2).unwrap();
    let sw = Encryption::combine_ct_with_w(&p.gens, c, &r, &w).unwrap();
    assert!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &p.g, 4).is_err());
}
''')

bug('c11-same-t', 'C11', [(KEY, '''    let t = (0..=n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();

    let delta_g_proj = delta_g.into_group();
    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    let P_2''', '''    let mut t = (0..n)
        .map(|_| E::ScalarField::rand(rng))
        .collect::<Vec<_>>();
    t.insert(0, s.iter().sum());

    let delta_g_proj = delta_g.into_group();
    let t_repr = cfg_iter!(t).map(|t| t.into_bigint()).collect::<Vec<_>>();

    let X = multiply_field_elems_with_same_group_elem(delta_g_proj, &s);
    let Y = (0..n)
        .map(|i| g_i[i].mul_bigint(t_repr[i + 1]))
        .collect::<Vec<_>>();
    let Z = multiply_field_elems_with_same_group_elem(gens.H.into_group(), &t);

    let P_2''')],
'the first commitment secret of a party compared with its encryption secrets',
'A party\'s first commitment secret is the sum of its encryption secrets instead of an independent value, so its public element reveals a relation between them.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let p = plain(&mut rng, 16);
    let (sk, _) = FkeygenPartial(&mut rng, 16, &p.gens, &p.g, &p.gd, &p.gg).unwrap();
    assert_ne!(sk.t[0], sk.s.iter().sum::<Fr>());
    let t: std::collections::HashSet<_> = sk.t.iter().map(|x| x.into_bigint()).collect();
    assert_eq!(t.len(), 17);
}
''')

bug('c12-count-divisor', 'C12', [(UT, '''    ((scalar_size + bit_size - 1) / bit_size) as u8''', '''    (scalar_size / bit_size + 1) as u8''')],
'a chunk size that divides the bit size of the field (3, 5, 15, 17, 51 or 85 bits for BLS12-381)',
'The chunk count is one too large when the chunk size divides the bit size of the field.',
'''
fn main() {
    for b in 1u8..=64 {
        assert_eq!(chunks_count::<Fr>(b) as usize, (255 + b as usize - 1) / b as usize, "{}", b);
    }
}
''')

bug('c12-small-values', 'C12', [(UT, '''    let bytes = message.into_bigint().to_bytes_be();
    let mut decomposition = Vec::<CHUNK_TYPE>::new();
    match chunk_bit_size {
        4 => {
''', '''    let bytes = message.into_bigint().to_bytes_be();
    let mut decomposition = Vec::<CHUNK_TYPE>::new();
    match chunk_bit_size {
        // Small values have digits in the last 8 bytes only
        4 if message.into_bigint().num_bits() < 64 => {
            let digits = bytes.len() * 2;
            let mut rest = message.into_bigint().as_ref()[0];
            while rest != 0 {
                decomposition.push((rest & 15) as CHUNK_TYPE);
                rest >>= 4;
                if rest & 255 == 0 && rest != 0 {
                    decomposition.extend([0, 0]);
                    rest >>= 4;
                }
            }
            decomposition.resize(digits, 0);
            decomposition.reverse();
        }
        4 => {
''')],
'4-bit chunks, a message below 2^63 with two adjacent zero nibbles at some place below its top',
'The fast path for small messages skips a nibble after a zero byte: the digits are wrong for such messages.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    for _ in 0..2000 {
        let m = Fr::from(rng.next_u64() >> (1 + rng.next_u32() % 60));
        let d = decompose(&m, 4).unwrap();
        assert_eq!(d.len(), 64);
        assert_eq!(compose::<Fr>(&d, 4).unwrap(), m);
    }
}
''')

bug('c12-compose-accumulate', 'C12', [(UT, '''        16 => {
            let mut bytes = Vec::<u8>::with_capacity(decomposed.len() * 2);
''', '''        16 => {
            if decomposed.iter().take(decomposed.len().saturating_sub(8)).all(|d| *d == 0) {
                // Fits a machine word
                let tail = &decomposed[decomposed.len().saturating_sub(8)..];
                return Ok(F::from(tail.iter().fold(0u64, |acc, d| (acc << 16) | *d as u64)));
            }
            let mut bytes = Vec::<u8>::with_capacity(decomposed.len() * 2);
''')],
'16-bit chunks and a message between 2^64 and 2^128',
'The fast path for short messages uses a 64-bit word for up to 8 digits of 16 bits, so the top four are lost.',
'''
fn main() {
    let m = Fr::from(1u128 << 100);
    assert_eq!(compose::<Fr>(&decompose(&m, 16).unwrap(), 16).unwrap(), m);
}
''')

bug('c13-short-sum', 'C13', [(COM, '''        let decomposed = Self::get_values_to_commit(message, blinding, chunk_bit_size)?;
        let gs = Self::commitment_key(gens, chunk_bit_size);
''', '''        let decomposed = Self::get_values_to_commit(message, blinding, chunk_bit_size)?;
        let gs = Self::commitment_key(gens, chunk_bit_size);
        if blinding.into_bigint().is_zero() {
            // Only the chunks contribute
            let n = decomposed.iter().take_while(|d| !d.is_zero()).count();
            let c = G::Group::msm_bigint(&gs[..n], &decomposed[..n]);
            return Ok(Self(c.into_affine(), gs));
        }
'''), (COM, '''use ark_ff::{Field, One, PrimeField};''', '''use ark_ff::{BigInteger, Field, One, PrimeField};''')],
'a zero blinding and a message with a zero chunk before its last non-zero one',
'Without blinding, only the chunks before the first zero chunk are committed to.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = ChunkedCommitmentGens::<G1Affine>::new_using_rng(&mut rng);
    let m = Fr::from(5u64);
    assert_eq!(ChunkedCommitment::new(&m, &Fr::zero(), 8, &gens).unwrap().0, (gens.G * m).into_affine());
}
''')

bug('c13-other-sizes', 'C13', [(COM, '''        let log2 = radix.trailing_zeros();
''', '''        let log2 = radix.trailing_zeros() & !1;
''')],
'an odd chunk size: the commitment key for 3, 5, 7, ... bits',
'The commitment key for odd chunk sizes is built for the radix of the next smaller even size.',
'''
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    let gens = ChunkedCommitmentGens::<G1Affine>::new_using_rng(&mut rng);
    for b in 2u8..=16 {
        let ck = ChunkedCommitment::<G1Affine>::commitment_key(&gens, b);
        let n = ck.len();
        assert_eq!(ck[n - 1], gens.H);
        assert_eq!(ck[n - 2], gens.G);
        assert_eq!(ck[n - 3], (gens.G * Fr::from(1u64 << b)).into_affine(), "{}", b);
    }
}
''')
