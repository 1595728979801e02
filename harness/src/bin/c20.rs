//! C20: every fallible operation on inputs of independently chosen sizes. The points are chosen so that a
//! computation on truncated inputs would succeed (identity ciphertexts, a proof for the empty sum).
use dist_saver::commitment::ChunkedCommitment;
use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    seed: u64,
    /// sizes of X, Y, Z of the encryption key
    ek: (usize, usize, usize),
    /// sizes of V_1, V_2 of the decryption key
    dk: (usize, usize),
    /// generators, elements of gamma_abc
    g: usize,
    abc: usize,
    /// chunks of the ciphertext, of a second one, of the message
    k: usize,
    k2: usize,
    m: usize,
    /// secret of a party
    s: usize,
    /// batch and weights
    batch: usize,
    weights: usize,
    /// which ciphertext of the batch has another number of chunks
    odd: Option<(usize, usize)>,
    bits: u8,
    /// bits given to decryption
    dbits: u8,
    identity: bool,
}
struct Pts<E: Eng> {
    rng: StdRng,
    e: std::marker::PhantomData<E>,
}
impl<E: Eng> Pts<E> {
    fn p1(&mut self) -> E::G1Affine {
        E::g1(Fr::from(self.rng.next_u64() | 1))
    }
    fn v1(&mut self, n: usize) -> Vec<E::G1Affine> {
        // long lists repeat their beginning, to keep the real curve affordable
        let f: Vec<_> = (0..n.min(40)).map(|_| self.p1()).collect();
        (0..n).map(|i| f[i % 40]).collect()
    }
    fn v2(&mut self, n: usize) -> Vec<E::G2Affine> {
        let f: Vec<_> = (0..n.min(if E::TOY { 40 } else { 4 })).map(|_| E::g2(Fr::from(self.rng.next_u64() | 1))).collect();
        (0..n).map(|i| f[i % f.len().max(1)]).collect()
    }
}
fn want<T, X: std::fmt::Debug>(r: Result<Result<T, X>, String>, ok: bool, what: &str) -> Result<Option<T>, String> {
    match r? {
        Ok(x) => {
            ensure!(ok, "{what} succeeded");
            Ok(Some(x))
        }
        Err(e) => {
            ensure!(!ok, "{what} failed: {e:?}");
            Ok(None)
        }
    }
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let mut q = Pts::<E> { rng: StdRng::seed_from_u64(c.seed), e: Default::default() };
    let zero1 = E::G1Affine::zero();
    let gens = EncryptionGens::<E> { G: E::g1(Fr::from(3u64)), H: E::g2(Fr::from(5u64)) };
    let (x, y, z) = c.ek;
    let ek = EncryptionKey::<E> { X_0: q.p1(), X: q.v1(x), Y: q.v1(y), Z: q.v2(z), P_1: q.p1(), P_2: q.p1() };
    let pek = PreparedEncryptionKey::from(ek.clone());
    let dk = DecryptionKey::<E> { V_0: gens.H, V_1: q.v2(c.dk.0), V_2: q.v2(c.dk.1) };
    let pdk = PreparedDecryptionKey::from(dk.clone());
    let wf_ek = x == y && z == x + 1 && x <= 255;
    let wf_dk = c.dk.0 == c.dk.1 && c.dk.0 <= 255;
    let a = c.dk.0;
    let sizes = format!("{:?}", (c.ek, c.dk));

    // validation tells the truth
    let n = want(no_panic(|| ek.supported_chunks_count()), wf_ek, &format!("count of encryption key {sizes}"))?;
    ensure!(n.is_none() || n == Some(x as u8), "count of encryption key: {n:?} for {x}");
    let n = want(no_panic(|| pek.supported_chunks_count()), wf_ek, &format!("count of prepared encryption key {sizes}"))?;
    ensure!(n.is_none() || n == Some(x as u8), "count of prepared encryption key: {n:?} for {x}");
    want(no_panic(|| ek.validate()), wf_ek, &format!("validation of encryption key {sizes}"))?;
    want(no_panic(|| pek.validate()), wf_ek, &format!("validation of prepared encryption key {sizes}"))?;
    let n = want(no_panic(|| dk.supported_chunks_count()), wf_dk, &format!("count of decryption key {sizes}"))?;
    ensure!(n.is_none() || n == Some(a as u8), "count of decryption key: {n:?} for {a}");
    let n = want(no_panic(|| pdk.supported_chunks_count()), wf_dk, &format!("count of prepared decryption key {sizes}"))?;
    ensure!(n.is_none() || n == Some(a as u8), "count of prepared decryption key: {n:?} for {a}");
    want(no_panic(|| dk.validate()), wf_dk, &format!("validation of decryption key {sizes}"))?;
    want(no_panic(|| pdk.validate()), wf_dk, &format!("validation of prepared decryption key {sizes}"))?;

    // key generation
    let g_i = q.v1(c.g);
    let mut rng = StdRng::seed_from_u64(c.seed ^ 1);
    let kn = (255 + c.bits as usize - 1) / c.bits as usize;
    if kn <= if E::TOY { 64 } else { 8 } || kn > c.g {
        let (d, ga) = (q.p1(), q.p1());
        let w = format!("key generation of {kn} chunks with {} generators", c.g);
        want(no_panic(|| keygen(&mut rng, c.bits, &gens, &g_i, &d, &ga)), kn <= c.g, &w)?;
        want(no_panic(|| FkeygenPartial(&mut rng, c.bits, &gens, &g_i, &d, &ga)), kn <= c.g, &format!("partial {w}"))?;
    }

    // encryption
    let fake = VerifyingKey::<E> {
        alpha_g1: E::g1(Fr::from(2u64)),
        beta_g2: E::g2(Fr::from(3u64)),
        gamma_g2: E::g2(Fr::from(4u64)),
        delta_g2: E::g2(Fr::from(5u64)),
        gamma_abc_g1: q.v1(c.abc),
    };
    let vg = c.abc.saturating_sub(1);
    let msg: Vec<u16> = (0..c.m).map(|i| (c.seed >> (i % 60)) as u16).collect();
    let fit = wf_ek && c.m == x && c.m <= c.g;
    if !fit || x <= if E::TOY { 300 } else { 20 } {
        let w = format!("encryption of {} chunks with key {:?} and {} generators", c.m, c.ek, c.g);
        let r = want(no_panic(|| Encryption::encrypt_decomposed_message(&mut rng, msg.clone(), &ek, &g_i)), fit, &w)?;
        ensure!(r.is_none() || r.as_ref().unwrap().0.len() == x + 2, "{w}: ciphertext of {} elements", r.unwrap().0.len());
    }
    let message = Fr::rand(&mut rng);
    for b in [4u8, 8, 16] {
        let dn = 256 / b as usize;
        if E::TOY || b == 16 || dn != x {
            let w = format!("encryption of {b}-bit chunks with key {:?} and {} generators", c.ek, c.g);
            want(no_panic(|| Encryption::encrypt(&mut rng, &message, &ek, &g_i, b)), wf_ek && dn == x && dn <= c.g, &w)?;
            let w = format!("encryption of {b}-bit chunks with key {:?} and {} verifying key elements", c.ek, c.abc);
            want(no_panic(|| Encryption::encrypt_given_snark_vk(&mut rng, &message, &ek, &fake, b)), wf_ek && dn == x && dn <= vg, &w)?;
        }
        if !(wf_ek && dn == x && dn == vg) {
            let pk = saver_groth16::ProvingKey::<E> {
                pk: ark_groth16::ProvingKey {
                    vk: fake.clone(),
                    beta_g1: ek.X_0,
                    delta_g1: ek.X_0,
                    a_query: vec![],
                    b_g1_query: vec![],
                    b_g2_query: vec![],
                    h_query: vec![],
                    l_query: vec![],
                },
                gamma_g1: ek.X_0,
            };
            let w = format!("encryption with proof, {b}-bit chunks, key {:?}, {} verifying key elements", c.ek, c.abc);
            want(no_panic(|| Encryption::encrypt_with_proof(&mut rng, &message, &ek, &pk, b)), false, &w)?;
        }
    }

    // commitment checks: the identity ciphertext satisfies every truncated check
    let mk = |k: usize, q: &mut Pts<E>| Ciphertext::<E> {
        X_r: if c.identity { zero1 } else { q.p1() },
        enc_chunks: if c.identity { vec![zero1; k] } else { q.v1(k) },
        commitment: if c.identity { zero1 } else { q.p1() },
    };
    let ct = mk(c.k, &mut q);
    let fit = wf_ek && c.k == x;
    let w = format!("commitment check of {} chunks with key {:?}", c.k, c.ek);
    let r1 = no_panic(|| ct.verify_commitment(ek.clone(), gens.clone()))?;
    let r2 = no_panic(|| Encryption::verify_ciphertext_commitment(&ct.X_r, &ct.enc_chunks, &ct.commitment, pek.clone(), gens.clone()))?;
    ensure!(fit || (r1.is_err() && r2.is_err()), "{w} succeeded");
    ensure!(!fit || !c.identity || (r1.is_ok() && r2.is_ok()), "{w} failed: {r1:?} {r2:?}");
    // batch
    let mut b: Vec<Ciphertext<E>> = (0..c.batch).map(|_| mk(x, &mut q)).collect();
    let mut fit = wf_ek && c.batch == c.weights;
    if let (Some((i, k)), true) = (c.odd, c.batch > 0) {
        b[i % c.batch] = mk(k, &mut q);
        fit &= k == x;
    }
    let ws: Vec<Fr> = (0..c.weights).map(|_| Fr::rand(&mut q.rng)).collect();
    let w = format!("batch of {} with {} weights, key {:?}, other chunks {:?}", c.batch, c.weights, c.ek, c.odd);
    let r1 = no_panic(|| Encryption::verify_commitments_in_batch(&b, &ws, ek.clone(), gens.clone()))?;
    let r2 = no_panic(|| Encryption::verify_commitments_in_batch(&b, &ws, pek.clone(), gens.clone()))?;
    ensure!(fit || (r1.is_err() && r2.is_err()), "{w} succeeded");
    ensure!(!fit || !(c.identity || c.batch == 0) || (r1.is_ok() && r2.is_ok()), "{w} failed: {r1:?} {r2:?}");

    // proof: e(A,B) = e(alpha,beta) + e(C,delta) + e(gamma_abc_0 + 0, gamma), all from logarithms
    let mut vk = fake.clone();
    let ga0 = Fr::from(q.rng.next_u64());
    if c.abc > 0 {
        vk.gamma_abc_g1[0] = E::g1(ga0);
    }
    let pvk = saver_groth16::prepare_verifying_key(&vk);
    let proof = Proof::<E> { a: E::g1(Fr::from(6u64) + Fr::from(35u64) + ga0 * Fr::from(4u64)), b: E::g2(Fr::one()), c: E::g1(Fr::from(7u64)) };
    let idct = Ciphertext::<E> { X_r: zero1, enc_chunks: vec![zero1; c.k], commitment: zero1 };
    let fit = c.k + 1 == c.abc;
    let w = format!("proof for {} chunks with {} verifying key elements", c.k, c.abc);
    want(no_panic(|| saver_groth16::calculate_d(&pvk, &ct)), fit, &format!("sum: {w}"))?;
    want(no_panic(|| saver_groth16::verify_proof(&pvk, &proof, &idct)), fit, &w)?;
    want(no_panic(|| idct.verify_commitment_and_proof(&proof, &pvk, ek.clone(), gens.clone())), fit && wf_ek && c.k == x, &format!("both checks: {w}, key {:?}", c.ek))?;

    // decryption
    let sk = SecretKey(Fr::rand(&mut rng));
    let pts = if c.identity { vec![zero1; c.k] } else { q.v1(c.k) };
    let c0 = if c.identity { zero1 } else { q.p1() };
    let fit = wf_dk && c.k == a && c.k <= c.g;
    let w = format!("decryption of {} chunks with key {:?} and {} generators", c.k, c.dk, c.g);
    let bits = c.dbits;
    let outcome = |r: Result<bool, String>, fit: bool, ok: bool, w: &str| -> Result<(), String> {
        let r = r?;
        ensure!(fit || !r, "{w} succeeded");
        ensure!(!(fit && ok) || r, "{w} failed");
        Ok(())
    };
    let id = c.identity;
    outcome(no_panic(|| Encryption::decrypt_to_chunks(&c0, &pts, &sk, dk.clone(), &g_i, bits).is_ok()), fit, id, &w)?;
    let rows: Vec<Vec<PairingOutput<E>>> = (0..c.k2).map(|i| vec![E::gt_pow(Fr::from(i as u64 + 2)); c.s % 4]).collect();
    outcome(no_panic(|| Encryption::decrypt_to_chunks_given_pairing_powers(&c0, &pts, &sk, pdk.clone(), &g_i, bits, Some(&rows)).is_ok()), fit, id, &format!("with powers: {w}"))?;
    let whole = [4, 8, 16].contains(&bits) && (bits != 4 || c.k % 2 == 0);
    let hold = Ciphertext::<E> { X_r: c0, enc_chunks: pts.clone(), commitment: zero1 };
    outcome(no_panic(|| hold.decrypt(&sk, pdk.clone(), &g_i, bits).is_ok()), fit && whole, id, &format!("whole, {bits} bits: {w}"))?;
    outcome(no_panic(|| hold.decrypt_given_pairing_powers(&sk, dk.clone(), &g_i, bits, &rows).is_ok()), fit && whole, id, &format!("whole with powers, {bits} bits: {w}"))?;
    let fit = wf_dk && c.k == a && c.k <= vg;
    let w = format!("decryption of {} chunks with key {:?} and {} verifying key elements", c.k, c.dk, c.abc);
    outcome(no_panic(|| hold.decrypt_given_groth16_vk(&sk, dk.clone(), &vk, bits).is_ok()), fit && whole, id, &w)?;
    outcome(no_panic(|| hold.decrypt_given_groth16_vk_and_pairing_powers(&sk, dk.clone(), &vk, bits, &rows).is_ok()), fit && whole, id, &format!("with powers: {w}"))?;
    outcome(no_panic(|| Encryption::decrypt_given_groth16_vk(&c0, &pts, &sk, pdk.clone(), &vk, bits).is_ok()), fit && whole, id, &w)?;
    // tables
    let fit = wf_dk && a <= c.g;
    let pb = 1 + (c.bits % 3);
    let w = format!("pairing powers of key {:?} with {} generators", c.dk, c.g);
    if !fit || E::TOY || a <= 6 {
        for r in [no_panic(|| dk.pairing_powers(pb, &g_i)), no_panic(|| pdk.pairing_powers(pb, &g_i))] {
            if let Some(t) = want(r, fit, &w)? {
                ensure!(t.len() == a && t.iter().all(|x| x.len() == (1 << pb) - 1), "{w}: size of the table");
            }
        }
        let fit = wf_dk && a <= vg;
        if !fit || E::TOY || a <= 6 {
            want(no_panic(|| pdk.pairing_powers_given_groth16_vk(pb, &vk)), fit, &format!("{w}, from {} verifying key elements", c.abc))?;
        }
    }

    // aggregation and key switching
    let p2 = if c.identity { vec![zero1; c.k2] } else { q.v1(c.k2) };
    let w = format!("{} and {} elements", c.k, c.k2);
    let same = c.k == c.k2;
    let r = want(no_panic(|| Encryption::<E>::add_cts(&pts, &p2)), same, &format!("sum of {w}"))?;
    ensure!(r.is_none() || r.unwrap().len() == c.k, "sum of {w}: size");
    let r = want(no_panic(|| Encryption::<E>::combine_re_encrypt_share(&c0, &gens.G, &pts, &p2)), same, &format!("shares of {w}"))?;
    ensure!(r.is_none() || r.unwrap().0.len() == c.k, "shares of {w}: size");
    let r = want(no_panic(|| Encryption::<E>::combine_ct_with_w(&gens, &pts, &c0, &p2)), same, &format!("switch of {w}"))?;
    ensure!(r.is_none() || r.unwrap().len() == c.k + 1, "switch of {w}: size");
    let skst = SecretKeyST::<E> { s: (0..c.s).map(|_| Fr::from(q.rng.next_u64())).collect(), t: (0..=c.s).map(|_| Fr::from(q.rng.next_u64())).collect() };
    let ekd = FEncryptionKeyDest::<E> { pk: gens.G };
    if c.k <= if E::TOY { 300 } else { 20 } || c.k > c.s {
        let w = format!("share for {} chunks from a secret of {}", c.k, c.s);
        let r = no_panic(|| Encryption::<E>::re_encrypt_share(&mut rng, &gens, &c0, &pts, &ekd, &skst))?;
        // a prefix of the chunks may be switched, more chunks than secrets not
        ensure!(c.k <= c.s || r.is_err(), "{w} succeeded");
        ensure!(c.k != c.s || r.is_ok(), "{w} failed");
        if let Ok((ws, _)) = r {
            ensure_eq!(ws.len(), c.k, "{w}: size");
        }
    }
    outcome(
        no_panic(|| Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &pts, &sk, &g_i, bits.min(8)).is_ok()),
        c.k <= c.g,
        id,
        &format!("decryption of {} switched chunks with {} generators", c.k, c.g),
    )?;
    // chunked commitment
    let cb = [4u8, 8, 16][c.bits as usize % 3];
    let w = format!("chunked commitment of {cb}-bit chunks with a key of {}", c.k);
    if E::TOY || c.k != 256 / cb as usize + 1 {
        want(no_panic(|| ChunkedCommitment::<E::G1Affine>::get_commitment_given_commitment_key(&message, &sk.0, cb, &pts)), c.k == 256 / cb as usize + 1, &w)?;
    }
    let l = if c.identity { "identity points" } else { "random points" };
    Ok(Info::new(!wf_ek || !wf_dk || c.k != a || c.k != x || c.m != x || !same || c.k > c.g || c.k > c.s || c.k + 1 != c.abc || c.batch != c.weights)
        .label(l)
        .label(if wf_ek { "well-formed encryption key" } else { "malformed encryption key" })
        .label(if wf_dk { "well-formed decryption key" } else { "malformed decryption key" })
        .label_if(wf_ek && c.k == x && c.k + 1 == c.abc, "both checks fit")
        .label_if(wf_dk && c.k == a && c.k <= c.g, "decryption fits")
        .label_if(x > 255 || a > 255, "256 chunks or more")
        .label_if(c.batch == 0, "empty batch"))
}
/// Sizes near a common size n
fn cases(base: BoxedStrategy<usize>, far: bool) -> BoxedStrategy<Case> {
    bx(base.prop_flat_map(move |n| {
        // most sizes fit, so that every single mismatch is reached
        let near = move |off: i64| {
            let at = (n as i64 + off).max(0) as usize;
            let far = if far { prop_oneof![Just(at + 256), Just(255usize), Just(256), Just(257), Just(at * 2)].boxed() } else { Just(at * 2).boxed() };
            prop_oneof![14 => Just(at), 1 => Just(at.saturating_sub(1)), 1 => Just(at + 1), 1 => Just(0usize), 1 => 0..=2 * at + 2, 1 => far]
        };
        let bits = prop_oneof![2 => Just(bits_for(n.clamp(1, 64).min(32))), 1 => 4u8..=255];
        (
            (any::<u64>(), near(0), near(0), near(1), near(0), near(0)),
            (near(0), near(1), near(0), near(0), near(0), near(0)),
            (prop_oneof![3 => 0usize..4, 1 => 4usize..40], 0u8..20, proptest::option::weighted(0.2, (any::<usize>(), near(0)))),
            (bits, prop_oneof![Just(4u8), Just(8), Just(16), 1u8..10], any::<bool>()),
        )
            .prop_map(move |((seed, x, y, z, v1, v2), (g, abc, k, k2, m, s), (batch, wd, odd), (bits, dbits, identity))| {
                let weights = match wd {
                    0 => batch + 1,
                    1 => batch.saturating_sub(1),
                    2 => 0,
                    _ => batch,
                };
                let dbits = if identity { dbits } else { dbits.min(8) };
                Case { seed, ek: (x, y, z), dk: (v1, v2), g, abc, k, k2, m, s, batch, weights, odd, bits, dbits, identity }
            })
    }))
}
fn main() {
    let mut p = Prop::new("C20", "Inputs of mismatched size are rejected, not truncated and not a crash");
    p.assume("chunk size 0 and functions without an error result are outside the property; a re-encryption share for fewer chunks than the party's secret is allowed");
    let nt = "non-trivial: some sizes do not fit together";
    p.part("small_toy", &format!("0..6 chunks, every operation, transparent pairing; {nt}"), 40000, 1_500_000, || cases(bx(0usize..=6), false), check::<toy::Toy>);
    p.part("standard_toy", &format!("around 16, 32 and 64 chunks; {nt}"), 4000, 150_000, || cases(bx(prop_oneof![Just(16usize), Just(32), Just(64)]), false), check::<toy::Toy>);
    p.part("large_toy", &format!("around 255 chunks, and 256 more than fits; {nt}"), 1500, 60_000, || cases(bx(prop_oneof![2 => 1usize..=4, 1 => 250usize..=260, 1 => Just(255usize), 1 => Just(16usize)]), true), check::<toy::Toy>);
    p.part("small_bls", &format!("as small_toy on BLS12-381; {nt}"), 160, 8000, || cases(bx(0usize..=4), false), check::<toy::Bls>);
    p.finish()
}
