use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    bits: u8,
    msg: FrS,
    keys: u64,
    extra: u8,
    rng: RngS,
    tables: bool,
}

fn check<E: Eng>(c: &Case) -> Outcome {
    let k = Single::<E>::with_bits(c.keys, c.bits, c.extra as usize)?;
    let m = c.msg.fr();
    let vk = k.vk();
    let g_i = &k.b.g_i[..];
    let (ct, r) = if c.keys % 2 == 0 {
        must!(Encryption::encrypt(&mut c.rng.rng(), &m, &k.ek, g_i, c.bits))
    } else {
        must!(Encryption::encrypt_given_snark_vk(&mut c.rng.rng(), &m, &k.ek, &vk, c.bits))
    };
    ensure_eq!(ct.enc_chunks.len(), k.n);
    let want_nu: E::G1Affine = (ct.X_r * k.sk.0).into();
    let want_chunks: Vec<u16> = digits(&m, c.bits as usize, k.n).iter().map(|x| *x as u16).collect();
    let want = (m, want_nu);
    let pdk = PreparedDecryptionKey::from(k.dk.clone());
    let full = c.bits <= 8;
    // entry points without precomputation
    ensure_eq!(must!(ct.decrypt(&k.sk, k.dk.clone(), g_i, c.bits)), want, "Ciphertext::decrypt");
    ensure_eq!(
        must!(Encryption::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &k.sk, pdk.clone(), g_i, c.bits)),
        (want_chunks.clone(), want_nu),
        "decrypt_to_chunks"
    );
    if full || E::TOY {
        ensure_eq!(must!(Encryption::decrypt(&ct.X_r, &ct.enc_chunks, &k.sk, k.dk.clone(), g_i, c.bits)), want, "decrypt");
        ensure_eq!(
            must!(Encryption::decrypt_given_groth16_vk(&ct.X_r, &ct.enc_chunks, &k.sk, pdk.clone(), &vk, c.bits)),
            want,
            "decrypt_given_groth16_vk"
        );
        ensure_eq!(must!(ct.decrypt_given_groth16_vk(&k.sk, k.dk.clone(), &vk, c.bits)), want, "Ciphertext::decrypt_given_groth16_vk");
        ensure_eq!(
            must!(Encryption::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, k.dk.clone(), g_i, c.bits, None)),
            (want_chunks.clone(), want_nu),
            "decrypt_to_chunks_given_pairing_powers(None)"
        );
    }
    // entry points with precomputation
    if c.tables {
        let pp = must!(pdk.pairing_powers(c.bits, g_i));
        if full {
            ensure_eq!(must!(k.dk.pairing_powers(c.bits, g_i)), pp, "pairing_powers of the plain key");
            ensure_eq!(must!(k.dk.pairing_powers_given_groth16_vk(c.bits, &vk)), pp, "pairing_powers_given_groth16_vk");
            ensure_eq!(must!(pdk.pairing_powers_given_groth16_vk(c.bits, &vk)), pp, "prepared pairing_powers_given_groth16_vk");
        }
        ensure_eq!(
            must!(Encryption::decrypt_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, k.dk.clone(), g_i, c.bits, &pp)),
            want,
            "decrypt_given_pairing_powers"
        );
        ensure_eq!(must!(ct.decrypt_given_pairing_powers(&k.sk, pdk.clone(), g_i, c.bits, &pp)), want, "Ciphertext::decrypt_given_pairing_powers");
        ensure_eq!(
            must!(Encryption::decrypt_given_groth16_vk_and_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, pdk.clone(), &vk, c.bits, &pp)),
            want,
            "decrypt_given_groth16_vk_and_pairing_powers"
        );
        ensure_eq!(
            must!(ct.decrypt_given_groth16_vk_and_pairing_powers(&k.sk, k.dk.clone(), &vk, c.bits, &pp)),
            want,
            "Ciphertext::decrypt_given_groth16_vk_and_pairing_powers"
        );
        ensure_eq!(
            must!(Encryption::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, pdk, g_i, c.bits, Some(&pp))),
            (want_chunks, want_nu),
            "decrypt_to_chunks_given_pairing_powers(Some)"
        );
    }
    Ok(Info::new(!m.is_zero()).label(format!("bits{}", c.bits)).label_if(r.is_zero(), "r=0").label_if(c.tables, "tables"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CC {
    bits: u8,
    keys: u64,
    chunks: Vec<u16>,
    rng: RngS,
    tables: bool,
}
/// chunk vectors of any length, keys with any number of chunks
fn check_chunks<E: Eng>(c: &CC) -> Outcome {
    let n = c.chunks.len();
    let k = Single::<E>::new(c.keys, n, (c.keys % 3) as usize)?;
    let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut c.rng.rng(), c.chunks.clone(), &k.ek, &k.b.g_i));
    ensure_eq!(v.len(), n + 2);
    let want = (c.chunks.clone(), (v[0] * k.sk.0).into());
    let got = must!(Encryption::decrypt_to_chunks(&v[0], &v[1..n + 1], &k.sk, k.dk.clone(), &k.b.g_i, c.bits));
    ensure_eq!(got, want, "decrypt_to_chunks");
    if c.tables {
        let pp = must!(k.dk.pairing_powers(c.bits, &k.b.g_i));
        let got = must!(Encryption::decrypt_to_chunks_given_pairing_powers(
            &v[0], &v[1..n + 1], &k.sk, k.dk.clone(), &k.b.g_i, c.bits, Some(&pp)));
        ensure_eq!(got, want, "with tables");
    }
    let max = c.chunks.iter().max().copied().unwrap();
    Ok(Info::new(max > 0)
        .label(format!("n{}", n))
        .label_if(max as u32 == (1u32 << c.bits.min(16)) - 1, "max chunk")
        .label_if(c.chunks.iter().filter(|x| **x > 0).count() == 1, "single non-zero chunk"))
}

/// One value of a 16-bit chunk, under fixed keys
#[derive(Clone, Debug, Serialize, Deserialize)]
struct One16 {
    v: u16,
    seed: u64,
    direct: bool,
}
fn check16(c: &One16) -> Outcome {
    type P = Vec<Vec<PairingOutput<Toy>>>;
    static K: std::sync::OnceLock<Result<(Single<Toy>, P), String>> = std::sync::OnceLock::new();
    let k = K.get_or_init(|| {
        let k = Single::<Toy>::new(16, 1, 0)?;
        let pp = must!(k.dk.pairing_powers(16, &k.b.g_i));
        Ok((k, pp))
    });
    let (k, pp) = k.as_ref().map_err(|e| e.clone())?;
    let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut StdRng::seed_from_u64(c.seed), vec![c.v], &k.ek, &k.b.g_i));
    let want = (vec![c.v], (v[0] * k.sk.0).into());
    let got = must!(Encryption::decrypt_to_chunks_given_pairing_powers(&v[0], &v[1..2], &k.sk, k.dk.clone(), &k.b.g_i, 16, Some(pp)));
    ensure_eq!(got, want, "with tables");
    if c.direct {
        let got = must!(Encryption::decrypt_to_chunks(&v[0], &v[1..2], &k.sk, k.dk.clone(), &k.b.g_i, 16));
        ensure_eq!(got, want, "decrypt_to_chunks");
    }
    Ok(Info::new(c.v > 0).label_if(c.direct, "direct search"))
}
static NEXT16: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

fn cases(sizes: BoxedStrategy<u8>, msg: BoxedStrategy<FrS>) -> BoxedStrategy<Case> {
    bx((sizes, msg, any::<u64>(), 0u8..3, rng_edge(), any::<bool>())
        .prop_map(|(bits, msg, keys, extra, rng, tables)| Case { bits, msg, keys, extra, rng, tables }))
}
/// messages whose 16-bit digits are mostly cheap to search for
fn cheap_msg() -> BoxedStrategy<FrS> {
    bx(prop_oneof![
        Just(FrS::Zero), Just(FrS::One), any::<u16>().prop_map(FrS::Small), (0u8..255).prop_map(FrS::Pow2),
        (any::<u16>(), 0u8..239).prop_map(|(a, b)| FrS::Window(a, b)), (0u8..30).prop_map(FrS::Ones)
    ])
}
fn cc(bits: BoxedStrategy<u8>, maxn: usize) -> BoxedStrategy<CC> {
    bx((bits, 1..=maxn).prop_flat_map(|(bits, n)| {
        (Just(bits), any::<u64>(), cheap_chunks(bits, n), rng_edge(), any::<bool>())
            .prop_map(|(bits, keys, chunks, rng, tables)| CC { bits, keys, chunks, rng, tables })
    }))
}

fn main() {
    let mut p = Prop::new("C01", "Single-authority encryption decrypts to exactly the encrypted message");
    p.assume("key secrets and generator logarithms are non-zero (probability of the contrary < 2^-240)");
    p.part("chunks_toy", "chunk vectors of 1..9 chunks of 1..16 bits; non-trivial: some chunk non-zero", 1500, 60000,
        || cc(bx(1u8..=12), 9), check_chunks::<Toy>);
    p.part("chunks16_toy", "16-bit chunks; non-trivial: some chunk non-zero", 64, 4000,
        || cc(bx(13u8..=16), 3), check_chunks::<Toy>);
    p.part("msg_toy", "whole messages, 4- and 8-bit chunks, every entry point; non-trivial: message not zero", 400, 20000,
        || cases(bx(prop_oneof![Just(4u8), Just(8u8)]), frs()), check::<Toy>);
    p.part("msg16_toy", "whole messages, 16-bit chunks; non-trivial: message not zero", 16, 800,
        || cases(bx(Just(16u8)), frs()), |c| check::<Toy>(&Case { tables: c.tables && c.keys % 4 == 0, ..c.clone() }));
    let (seed, all) = (p.seed, p.thorough);
    p.part("every16_toy", "every 16-bit chunk value, with tables; direct search for an eighth (thorough: all) of them; non-trivial: value not zero", 65536, 65536,
        || bx((every16(&NEXT16, seed), any::<u64>()).prop_map(move |(v, seed)| One16 { v, seed, direct: all || seed % 8 == 0 })), check16);
    p.part("many_chunks_toy", "64, 85, 128, 255 chunks; non-trivial: some chunk non-zero", 48, 1500,
        || bx((cc(bx(1u8..=6), 9), prop_oneof![Just(64usize), Just(85), Just(128), Just(255)]).prop_map(|(c, n)| CC { chunks: c.chunks.iter().cycle().take(n).cloned().collect(), ..c })), check_chunks::<Toy>);
    p.part("chunks_bls", "chunk vectors of 1..6 chunks of 1..8 bits, real curve; non-trivial: some chunk non-zero", 200, 10000,
        || cc(bx(1u8..=8), 6), check_chunks::<Bls>);
    p.part("msg_bls", "whole messages, 4- and 8-bit chunks, real curve, every entry point; non-trivial: message not zero", 24, 1500,
        || cases(bx(prop_oneof![2 => Just(4u8), 1 => Just(8u8)]), frs()), check::<Bls>);
    p.part("msg16_bls", "whole messages, 16-bit chunks, real curve; non-trivial: message not zero", 8, 200,
        || cases(bx(Just(16u8)), cheap_msg()), |c| check::<Bls>(&Case { tables: false, ..c.clone() }));
    p.finish()
}
