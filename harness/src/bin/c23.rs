//! C23: the crate is generic over the pairing; its guarantees hold over every scalar field
use ark_ec::pairing::Pairing;
use ark_ff::BigInteger;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisMode};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use dist_saver::commitment::ChunkedCommitment;
use dsv_base::toyx::{bn, bw, gold, k1, Params, ToyX, T};
use dsv_harness::{
    dist_saver, ensure, ensure_eq, must, no_panic, perm, saver_groth16, utils, BitsizeCheckCircuit, BoxedStrategy, Ciphertext, DecryptionKey,
    Encryption, EncryptionGens, EncryptionKey, Info, Outcome, Prop, Strategy,
};
use dsv_harness::{
    all_distinct, any, bx, combineEKs, combineP1share, genP1share, keygen, keygenFinal, ChunkedCommitmentGens, Fkeygen_dest, FkeygenPartial, Just,
    PreparedDecryptionKey, PreparedEncryptionGens, PreparedEncryptionKey,
};
use dsv_harness::{Deserialize, Field, One, PrimeField, Rng, RngCore, SeedableRng, Serialize, StdRng, UniformRand, Zero};
use proptest::prop_oneof;

type E<P> = ToyX<P>;
type G1<P> = T<1, <P as Params>::F>;
type G2<P> = T<2, <P as Params>::F>;

/// A field element of any field
#[derive(Clone, Debug, Serialize, Deserialize)]
enum El {
    Words(Vec<u16>),
    Top(u32),
    Pow2(u16),
    Ones(u16),
    Small(u32),
    Rand(u64),
}
fn el<F: PrimeField>(e: &El) -> F {
    let two = F::from(2u64);
    let b = F::MODULUS_BIT_SIZE as u64;
    match e {
        El::Words(w) => w.iter().rev().fold(F::zero(), |a, x| a * F::from(65536u64) + F::from(*x as u64)),
        El::Top(k) => -F::one() - F::from(*k as u64),
        El::Pow2(k) => two.pow([*k as u64 % b]),
        El::Ones(k) => two.pow([*k as u64 % b]) - F::one(),
        El::Small(k) => F::from(*k as u64),
        El::Rand(s) => F::rand(&mut StdRng::seed_from_u64(*s)),
    }
}
fn elem() -> BoxedStrategy<El> {
    bx(prop_oneof![
        3 => proptest::collection::vec(prop_oneof![any::<u16>(), Just(0u16), Just(0xffffu16), Just(1u16)], 1..25).prop_map(El::Words),
        1 => (0u32..70000).prop_map(El::Top),
        2 => any::<u16>().prop_map(El::Pow2),
        2 => any::<u16>().prop_map(El::Ones),
        1 => any::<u32>().prop_map(El::Small),
        4 => any::<u64>().prop_map(El::Rand),
    ])
}
fn nz<F: PrimeField>(rng: &mut impl RngCore) -> F {
    loop {
        let x = F::rand(rng);
        if !x.is_zero() {
            return x;
        }
    }
}
fn count<F: PrimeField>(bits: u8) -> usize {
    (F::MODULUS_BIT_SIZE as usize + bits as usize - 1) / bits as usize
}
struct Gen<P: Params> {
    gens: EncryptionGens<E<P>>,
    g: P::F,
    h: P::F,
    gi: Vec<P::F>,
    g_i: Vec<G1<P>>,
    delta: P::F,
    gamma: P::F,
}
impl<P: Params> Gen<P> {
    fn new(seed: u64, n: usize) -> Self {
        let mut rng = StdRng::seed_from_u64(seed);
        let (g, h, delta, gamma) = (nz::<P::F>(&mut rng), nz::<P::F>(&mut rng), nz::<P::F>(&mut rng), nz::<P::F>(&mut rng));
        let gi: Vec<P::F> = (0..n).map(|_| nz(&mut rng)).collect();
        Gen { gens: EncryptionGens { G: T(g), H: T(h) }, g, h, g_i: gi.iter().map(|x| T(*x)).collect(), gi, delta: g * delta, gamma: g * gamma }
    }
}
/// The documented key of secrets s, t
fn key_of<P: Params>(b: &Gen<P>, s: &[P::F], t: &[P::F]) -> EncryptionKey<E<P>> {
    let d = b.delta;
    EncryptionKey {
        X_0: T(d),
        X: s.iter().map(|s| T(d * s)).collect(),
        Y: b.gi.iter().zip(&t[1..]).map(|(g, t)| T(*g * t)).collect(),
        Z: t.iter().map(|t| T(b.h * t)).collect(),
        P_1: T(d * (t[0] + s.iter().zip(&t[1..]).map(|(a, b)| *a * b).sum::<P::F>())),
        P_2: T(b.gamma * (P::F::one() + s.iter().sum::<P::F>())),
    }
}
/// Secrets of a key, read off the logarithms
fn secrets<P: Params>(b: &Gen<P>, ek: &EncryptionKey<E<P>>) -> (Vec<P::F>, Vec<P::F>) {
    let (d, h) = (b.delta.inverse().unwrap(), b.h.inverse().unwrap());
    (ek.X.iter().map(|x| x.0 * d).collect(), ek.Z.iter().map(|z| z.0 * h).collect())
}
fn ct_of<P: Params>(m: &[P::F], r: P::F, ek: &EncryptionKey<E<P>>, g_i: &[G1<P>]) -> Vec<G1<P>> {
    let mut v = vec![T(ek.X_0.0 * r)];
    v.extend(m.iter().enumerate().map(|(i, m)| T::<1, P::F>(ek.X[i].0 * r + g_i[i].0 * m)));
    v.push(T(ek.P_1.0 * r + m.iter().zip(&ek.Y).map(|(m, y)| *m * y.0).sum::<P::F>()));
    v
}
fn wrap<P: Params>(v: &[G1<P>]) -> Ciphertext<E<P>> {
    Ciphertext { X_r: v[0], enc_chunks: v[1..v.len() - 1].to_vec(), commitment: v[v.len() - 1] }
}
fn holds<P: Params>(v: &[G1<P>], ek: &EncryptionKey<E<P>>, h: G2<P>) -> bool {
    v.len() == ek.Z.len() + 1 && v.iter().zip(&ek.Z).map(|(a, b)| a.0 * b.0).sum::<P::F>() == v[v.len() - 1].0 * h.0
}
fn digits<F: PrimeField>(x: &F, bits: u8, n: usize) -> Vec<u16> {
    dsv_base::digits(x, bits as usize, n).iter().map(|x| *x as u16).collect()
}
fn round<X: CanonicalSerialize + CanonicalDeserialize + Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(x: &X) -> Result<(), String> {
    for c in [ark_serialize::Compress::Yes, ark_serialize::Compress::No] {
        let mut b = vec![];
        must!(x.serialize_with_mode(&mut b, c));
        ensure_eq!(b.len(), x.serialized_size(c), "announced size");
        let y = must!(X::deserialize_with_mode(&b[..], c, ark_serialize::Validate::Yes));
        ensure_eq!(&y, x, "canonical serialization");
    }
    let s = must!(serde_json::to_string(x));
    ensure_eq!(&must!(serde_json::from_str::<X>(&s)), x, "json");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    engine: u8,
    bits: u8,
    msg: El,
    other: El,
    seed: u64,
    parties: u8,
    extra: u8,
    /// alter this component of the ciphertext by this amount
    tamper: (u8, El),
}
fn single<P: Params>(c: &Case) -> Outcome {
    let bits = c.bits;
    let n = count::<P::F>(bits);
    let b = Gen::<P>::new(c.seed, n + c.extra as usize);
    let mut rng = StdRng::seed_from_u64(c.seed ^ 1);
    let (sk, ek, dk): (_, EncryptionKey<E<P>>, DecryptionKey<E<P>>) = must!(keygen(&mut rng, bits, &b.gens, &b.g_i, &T(b.delta), &T(b.gamma)));
    ensure_eq!(ek.X.len(), n, "chunks of the key");
    let (s, t) = secrets(&b, &ek);
    let b = Gen { g_i: b.g_i[..n].to_vec(), gi: b.gi[..n].to_vec(), ..b };
    ensure_eq!(ek, key_of(&b, &s, &t), "encryption key");
    // the decryption key is rho in the exponent
    let h = b.h;
    ensure_eq!(dk.V_0.0, h * sk.0, "V_0");
    for i in 0..n {
        ensure_eq!(dk.V_1[i].0 * sk.0, dk.V_2[i].0 * s[i], "V_1[{i}]");
    }
    ensure!(dk.V_2.iter().all(|x| !x.is_zero()) && all_distinct(&dk.V_2), "V_2");
    let m: P::F = el(&c.msg);
    let (ct, r) = must!(Encryption::<E<P>>::encrypt(&mut rng, &m, &ek, &b.g_i, bits));
    let d = digits(&m, bits, n);
    let df: Vec<P::F> = d.iter().map(|x| P::F::from(*x as u64)).collect();
    let v: Vec<G1<P>> = ct_of(&df, r, &ek, &b.g_i);
    ensure_eq!(ct, wrap(&v), "ciphertext");
    must!(ct.verify_commitment(ek.clone(), b.gens.clone()));
    must!(ct.verify_commitment(PreparedEncryptionKey::from(ek.clone()), PreparedEncryptionGens::from(b.gens.clone())));
    // altered
    let mut w = v.clone();
    let i = c.tamper.0 as usize % w.len();
    w[i] = T(w[i].0 + el::<P::F>(&c.tamper.1));
    let bad = wrap::<P>(&w);
    let ok = holds::<P>(&w, &ek, b.gens.H);
    ensure_eq!(bad.verify_commitment(ek.clone(), b.gens.clone()).is_ok(), ok, "check of the altered ciphertext");
    let ws: Vec<P::F> = (0..3).map(|_| nz(&mut rng)).collect();
    ensure_eq!(Encryption::verify_commitments_in_batch(&[ct.clone(), bad, ct.clone()], &ws, ek.clone(), b.gens.clone()).is_ok(), ok, "batch with the altered ciphertext");
    // decryption
    let nu = T(v[0].0 * sk.0);
    let want = (m, nu);
    ensure_eq!(must!(ct.decrypt(&sk, dk.clone(), &b.g_i, bits)), want, "decrypted");
    ensure_eq!(must!(Encryption::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), &b.g_i, bits)), (d, nu), "decrypted chunks");
    if bits <= 8 {
        let pp = must!(PreparedDecryptionKey::from(dk.clone()).pairing_powers(bits, &b.g_i));
        ensure_eq!(must!(ct.decrypt_given_pairing_powers(&sk, dk.clone(), &b.g_i, bits, &pp)), want, "decrypted with tables");
    }
    let wrong = dsv_harness::SecretKey(sk.0 + P::F::one());
    if !v[0].is_zero() {
        ensure!(ct.decrypt(&wrong, dk.clone(), &b.g_i, bits.min(8)).is_err(), "decrypted with a wrong key");
    }
    round(&ek)?;
    round(&dk)?;
    round(&ct)?;
    round(&b.gens)?;
    Ok(Info::new(!m.is_zero()).label(P::NAME).label(format!("{bits} bits")).label_if(!ok, "altered ciphertext refused"))
}
fn dist<P: Params>(c: &Case) -> Outcome {
    let bits = c.bits;
    let n = count::<P::F>(bits);
    let b = Gen::<P>::new(c.seed, n);
    let mut rng = StdRng::seed_from_u64(c.seed ^ 2);
    let (mut sks, mut eks) = (vec![], vec![]);
    for _ in 0..c.parties {
        let (s, e) = must!(FkeygenPartial::<_, E<P>>(&mut rng, bits, &b.gens, &b.g_i, &T(b.delta), &T(b.gamma)));
        ensure_eq!((s.s.len(), s.t.len()), (n, n + 1), "secrets");
        sks.push(s);
        eks.push(e);
    }
    let sum = |f: &dyn Fn(usize) -> Vec<P::F>, l: usize| (0..l).map(|i| (0..sks.len()).map(|p| f(p)[i]).sum()).collect::<Vec<P::F>>();
    let s = sum(&|p| sks[p].s.clone(), n);
    let t = sum(&|p| sks[p].t.clone(), n + 1);
    let comb = combineEKs(&T(b.gamma), &eks);
    let shares: Vec<_> = sks.iter().map(|s| genP1share(&comb, s)).collect();
    let ek = keygenFinal(&comb, &combineP1share(&shares));
    ensure_eq!(ek, key_of(&b, &s, &t), "distributed key");
    // two messages are added up
    let (x, y): (P::F, P::F) = (el(&c.msg), el(&c.other));
    let (c1, _) = must!(Encryption::<E<P>>::encrypt(&mut rng, &x, &ek, &b.g_i, bits));
    let dy = digits(&y, bits, n);
    let (c2, _) = must!(Encryption::<E<P>>::encrypt_decomposed_message(&mut rng, dy.clone(), &ek, &b.g_i));
    let mut v1 = vec![c1.X_r];
    v1.extend(&c1.enc_chunks);
    v1.push(c1.commitment);
    let v = must!(Encryption::<E<P>>::add_cts(&v1, &c2));
    must!(wrap::<P>(&v).verify_commitment(ek.clone(), b.gens.clone()));
    let dx = digits(&x, bits, n);
    let sums: Vec<u32> = dx.iter().zip(&dy).map(|(a, b)| *a as u32 + *b as u32).collect();
    // switched to a destination
    let (skd, ekd) = must!(Fkeygen_dest::<_, E<P>>(&mut rng, &b.gens));
    ensure_eq!(ekd.pk.0, b.g * skd.0, "destination key");
    let (_, ekd2) = must!(Fkeygen_dest::<_, E<P>>(&mut rng, &b.gens));
    for (full, ekd) in [(true, &ekd), (false, &ekd2)] {
        let mut acc: Option<(Vec<G1<P>>, G1<P>)> = None;
        for p in perm(sks.len(), c.seed) {
            let (w, g) = must!(Encryption::re_encrypt_share(&mut rng, &b.gens, &v[0], &v[1..n + 1], ekd, &sks[p]));
            acc = Some(match acc {
                None => (w, g),
                Some((w0, g0)) => must!(Encryption::<E<P>>::combine_re_encrypt_share(&g0, &g, &w0, &w)),
            });
        }
        let (w, g) = acc.unwrap();
        let sw = must!(Encryption::<E<P>>::combine_ct_with_w(&b.gens, &v[1..n + 1], &g, &w));
        let range = (bits + 1).min(16);
        let got = Encryption::<E<P>>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &b.g_i, if full { range } else { 4 });
        let fit = sums.iter().all(|x| *x < 1 << range);
        if full && fit {
            ensure_eq!(must!(got), sums.iter().map(|x| *x as u16).collect::<Vec<_>>(), "sums at the destination");
        } else {
            ensure!(got.is_err(), "decrypted to {got:?}, sums {sums:?}, intended destination: {full}");
        }
    }
    round(&sks[0])?;
    round(&eks[0])?;
    round(&ekd)?;
    Ok(Info::new(sks.len() > 1).label(P::NAME).label(format!("{bits} bits")))
}
fn misc<P: Params>(c: &Case) -> Outcome {
    // chunked commitments
    let (m, r): (P::F, P::F) = (el(&c.msg), el(&c.other));
    let mut rng = StdRng::seed_from_u64(c.seed);
    let (g, h) = (nz::<P::F>(&mut rng), nz::<P::F>(&mut rng));
    let gens = ChunkedCommitmentGens::<G1<P>> { G: T(g), H: T(h) };
    let full = must!(ChunkedCommitment::new(&m, &r, c.bits, &gens));
    ensure_eq!(full.0, T(g * m + h * r), "commitment");
    let key = ChunkedCommitment::<G1<P>>::commitment_key(&gens, c.bits);
    ensure_eq!(key.len(), count::<P::F>(c.bits) + 1, "length of the commitment key");
    ensure_eq!(must!(ChunkedCommitment::<G1<P>>::get_commitment_given_commitment_key(&m, &r, c.bits, &key)), full.0, "with the key supplied");
    round(&full)?;
    // multiplication by table
    let xs: Vec<P::F> = (0..1 + c.seed % 70).map(|i| match i { 0 => m, 1 => r, 2 => -P::F::one(), 3 => P::F::zero(), _ => P::F::rand(&mut rng) }).collect();
    let want: Vec<G1<P>> = xs.iter().map(|x| T(g * x)).collect();
    ensure_eq!(utils::multiply_field_elems_with_same_group_elem(gens.G, &xs), want, "multiplication by table");
    let table = utils::WindowTable::new(c.parties as usize, gens.G);
    ensure_eq!(table.multiply(&xs[0]), want[0], "single multiplication by table");
    // generators from labels
    let label = c.seed.to_le_bytes();
    let a = no_panic(|| EncryptionGens::<E<P>>::new::<blake2::Blake2b512>(&label))?;
    ensure_eq!(a, EncryptionGens::new::<blake2::Blake2b512>(&label), "generators of the same label");
    ensure!(a != EncryptionGens::new::<blake2::Blake2b512>(&label[1..]), "generators of another label");
    ensure!(!a.G.is_zero() && !a.H.is_zero() && a.G.0 != a.H.0, "generators");
    Ok(Info::new(!m.is_zero()).label(P::NAME).label(format!("{} bits", c.bits)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Circ {
    engine: u8,
    bits: u16,
    vals: Vec<(bool, El)>,
    /// all values in range, except that this one has one more bit
    #[serde(default)]
    one: Option<(u8, u16)>,
}
fn circuit<P: Params>(c: &Circ) -> Outcome {
    let top = P::F::MODULUS_BIT_SIZE as u16;
    let bits = (c.bits % (top + 1)).min(255) as u8;
    let mut xs: Vec<P::F> = c
        .vals
        .iter()
        .map(|(good, e)| {
            let x: P::F = el(e);
            if *good || c.one.is_some() {
                let mut b = x.into_bigint().to_bits_le();
                b.truncate(bits as usize);
                b.iter().rev().fold(P::F::zero(), |a, b| a + a + P::F::from(*b as u64))
            } else {
                x
            }
        })
        .collect();
    if let (Some((i, k)), true) = (c.one, (bits as u16) < top - 1) {
        let i = i as usize % xs.len();
        xs[i] += P::F::from(2u64).pow([bits as u64 + k as u64 % (top - 1 - bits as u16) as u64]);
    }
    let ok = xs.iter().all(|x| x.into_bigint().num_bits() <= bits as u32);
    let cs = ConstraintSystem::<P::F>::new_ref();
    cs.set_mode(SynthesisMode::Prove { construct_matrices: true });
    must!(BitsizeCheckCircuit::new(bits, Some(xs.len() as u8), Some(xs.clone()), true).generate_constraints(cs.clone()));
    cs.finalize();
    let m = cs.to_matrices().unwrap();
    let b = cs.borrow().unwrap();
    ensure_eq!(b.instance_assignment[1..].to_vec(), xs, "public inputs");
    let z: Vec<P::F> = b.instance_assignment.iter().chain(&b.witness_assignment).cloned().collect();
    let eval = |r: &Vec<(P::F, usize)>| r.iter().map(|(a, i)| *a * z[*i]).sum::<P::F>();
    let sat = (0..m.num_constraints).all(|j| eval(&m.a[j]) * eval(&m.b[j]) == eval(&m.c[j]));
    ensure_eq!(sat, ok, "circuit for {bits} bits satisfied");
    Ok(Info::new(true).label(P::NAME).label(if ok { "in range" } else { "out of range" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Proofs {
    engine: u8,
    bits: u8,
    n: u8,
    seed: u64,
    vals: Vec<u16>,
    over: Option<u8>,
    tamper: (u8, El),
}
fn proofs<P: Params>(c: &Proofs) -> Outcome {
    let n = c.n as usize;
    let mut rng = StdRng::seed_from_u64(c.seed);
    let (g, h) = (nz::<P::F>(&mut rng), nz::<P::F>(&mut rng));
    let gens = EncryptionGens::<E<P>> { G: T(g), H: T(h) };
    let pk = must!(saver_groth16::generate_srs(BitsizeCheckCircuit::<P::F>::new(c.bits, Some(c.n), None, true), &gens, &mut rng));
    let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
    let g_i = saver_groth16::get_gs_for_encryption(&pk.pk.vk).to_vec();
    ensure_eq!(g_i.len(), n, "encryption generators");
    // key generation needs a chunk size with n chunks; distributed keys of one party
    let top = P::F::MODULUS_BIT_SIZE as usize;
    let size = (1..=255usize).find(|b| (top + b - 1) / b == n);
    let size = match size {
        Some(s) => s as u8,
        None => return Ok(Info::new(false)),
    };
    let (_, ek, _) = must!(keygen::<_, E<P>>(&mut rng, size, &gens, &g_i, &pk.pk.delta_g1, &pk.gamma_g1));
    let mut m: Vec<u16> = (0..n).map(|i| c.vals[i % c.vals.len()] & ((1u32 << c.bits) - 1) as u16).collect();
    if let Some(i) = c.over {
        m[i as usize % n] |= 1 << c.bits;
    }
    let f: Vec<P::F> = m.iter().map(|x| P::F::from(*x as u64)).collect();
    let (v, r) = must!(Encryption::<E<P>>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &g_i));
    let circuit = || BitsizeCheckCircuit::new(c.bits, Some(c.n), Some(f.clone()), true);
    let p = no_panic(|| saver_groth16::create_proof(circuit(), &r, &pk, &ek, &mut rng));
    let ct = wrap::<P>(&v);
    let verify = |p: &_, ct: &Ciphertext<E<P>>| ct.verify_commitment_and_proof(p, &pvk, ek.clone(), gens.clone()).is_ok();
    if c.over.is_some() {
        if let Ok(Ok(p)) = p {
            ensure!(!verify(&p, &ct), "proof for chunks {m:?} of {} bits accepted", c.bits);
        }
        return Ok(Info::new(true).label(P::NAME).label("out of range"));
    }
    let p = must!(p?);
    ensure!(verify(&p, &ct), "honest proof refused");
    must!(saver_groth16::verify_proof(&pvk, &p, &ct));
    let mut w = v.clone();
    let i = c.tamper.0 as usize % w.len();
    w[i] = T(w[i].0 + el::<P::F>(&c.tamper.1));
    if w != v {
        ensure!(!verify(&p, &wrap::<P>(&w)), "proof accepted for an altered ciphertext");
    }
    let (v2, _) = must!(Encryption::<E<P>>::encrypt_decomposed_message(&mut rng, m, &ek, &g_i));
    ensure!(!verify(&p, &wrap::<P>(&v2)), "proof accepted for another ciphertext of the message");
    let vk = &pk.pk.vk;
    let d: P::F = vk.gamma_abc_g1[0].0 + v[..n + 1].iter().map(|x| x.0).sum::<P::F>();
    ensure_eq!(p.a.0 * p.b.0, vk.alpha_g1.0 * vk.beta_g2.0 + p.c.0 * vk.delta_g2.0 + d * vk.gamma_g2.0, "verification equation");
    Ok(Info::new(true).label(P::NAME).label("in range"))
}
macro_rules! on {
    ($f:ident, $c:expr) => {
        match $c.engine % 4 {
            0 => $f::<gold::P>($c),
            1 => $f::<bn::P>($c),
            2 => $f::<bw::P>($c),
            _ => $f::<k1::P>($c),
        }
    };
}
fn cases(sizes: BoxedStrategy<u8>) -> BoxedStrategy<Case> {
    bx((0u8..4, sizes, elem(), elem(), any::<u64>(), 1u8..=5, 0u8..3, (any::<u8>(), elem())).prop_map(|(engine, bits, msg, other, seed, parties, extra, tamper)| Case {
        engine,
        // the digits of machine words: a known finding of C12
        bits: if engine == 2 && bits == 4 { 8 } else { bits },
        msg,
        other,
        seed,
        parties,
        extra,
        tamper,
    }))
}
fn main() {
    let mut p = Prop::new("C23", "The guarantees hold over every scalar field, not only that of BLS12-381");
    p.assume("engines are transparent pairings over the scalar fields of BN254 and BW6-761, a 256-bit and a 64-bit field; 4-bit chunks over BW6-761 are a known finding of C12");
    p.assume("random values of 64 bits do not collide");
    let small = || bx(prop_oneof![Just(4u8), Just(8u8)]);
    p.part("single", "key, encryption, check, decryption and storage with 4- and 8-bit chunks on 4 engines; non-trivial: message not zero", 1200, 40_000, move || cases(small()), |c| on!(single, c));
    p.part("single16", "as single with 16-bit chunks; non-trivial: message not zero", 24, 800, || cases(bx(Just(16u8))), |c| on!(single, c));
    p.part("dist", "distributed keys, sums, key switch on 4 engines; non-trivial: several parties", 1200, 40_000, move || cases(small()), |c| on!(dist, c));
    p.part("dist16", "as dist with 16-bit chunks; non-trivial: several parties", 60, 2000, || cases(bx(Just(16u8))), |c| on!(dist, c));
    p.part("misc", "chunked commitments, multiplication tables, generators on 4 engines; non-trivial: message not zero", 2000, 60_000,
        || cases(bx(prop_oneof![Just(4u8), Just(8u8), Just(16u8)])), |c| on!(misc, c));
    p.part("circuit", "range circuit over 4 fields, any number of bits; non-trivial: all", 800, 30_000,
        || bx((0u8..4, proptest::prop_oneof![any::<u16>(), 0u16..=40], proptest::collection::vec((any::<bool>(), elem()), 1..=3),
                proptest::prop_oneof![Just(None), (any::<u8>(), any::<u16>()).prop_map(Some)])
            .prop_map(|(engine, bits, vals, one)| Circ { engine, bits, vals, one })), |c| on!(circuit, c));
    // the 256-bit field has no large enough evaluation domain
    p.part("proofs", "SNARK parameters and proofs over 3 fields; non-trivial: all", 160, 5000,
        || bx((0u8..3, 1u8..=8, 1u8..=4, any::<u64>(), proptest::collection::vec(any::<u16>(), 1..=4), prop_oneof![3 => Just(None), 1 => any::<u8>().prop_map(Some)], (any::<u8>(), elem()))
            .prop_map(|(engine, bits, n, seed, vals, over, tamper)| Proofs { engine, bits, n, seed, vals, over, tamper })), |c| on!(proofs, c));
    p.finish()
}
