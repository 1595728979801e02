//! Helpers shared by the property binaries, generic over the engine.
pub use dist_saver;
pub use dist_saver::{
    circuit::BitsizeCheckCircuit,
    encryption::{Ciphertext, Encryption},
    keygen::*,
    saver_groth16,
    setup::*,
    utils,
};
pub use dsv_base::*;
pub mod edits;
pub mod srs;
pub mod tok;
pub use srs::*;
pub use edits::*;

pub use ark_ec::{pairing::PairingOutput, AffineRepr, CurveGroup, Group};
pub use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
pub use ark_groth16::{PreparedVerifyingKey, Proof, VerifyingKey};
pub use ark_std::rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
pub use proptest::prelude::{any, Just, Strategy};
pub use proptest::strategy::BoxedStrategy;
pub use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub type Gens<E> = EncryptionGens<E>;

/// Public generators with known discrete logarithms
#[derive(Clone)]
pub struct Base<E: Eng> {
    pub gens: Gens<E>,
    pub g: Fr,
    pub h: Fr,
    pub gi: Vec<Fr>,
    pub g_i: Vec<E::G1Affine>,
    pub delta: Fr,
    pub neg_gamma: Fr,
    pub delta_g: E::G1Affine,
    pub gamma_g: E::G1Affine,
}

pub fn nz(rng: &mut impl RngCore) -> Fr {
    loop {
        let x = Fr::rand(rng);
        if !x.is_zero() {
            return x;
        }
    }
}

impl<E: Eng> Base<E> {
    /// `n` chunk generators plus `extra` unused ones
    pub fn new(seed: u64, n: usize, extra: usize) -> Self {
        let mut rng = StdRng::seed_from_u64(seed ^ 0xba5e);
        let (g, h) = if seed % 5 == 0 { (Fr::one(), Fr::one()) } else { (nz(&mut rng), nz(&mut rng)) };
        let mut gi: Vec<Fr> = (0..n + extra).map(|_| nz(&mut rng)).collect();
        let mut delta = nz(&mut rng);
        let mut neg_gamma = -nz(&mut rng);
        // generators and parameters that coincide
        match seed % 41 {
            1 => gi = vec![gi.first().copied().unwrap_or_default(); n + extra],
            2 => (2..n + extra).for_each(|i| gi[i] = gi[i % 2]),
            3 => (1..n + extra).for_each(|i| gi[i] = -gi[i - 1]),
            4 => gi = vec![g * delta; n + extra],
            5 => gi = vec![g; n + extra],
            6 => delta = Fr::one(),
            7 => neg_gamma = delta,
            8 => neg_gamma = -delta,
            9 => neg_gamma = Fr::one(),
            10 => gi.iter_mut().for_each(|x| *x = g * neg_gamma),
            _ => {}
        }
        Base {
            gens: EncryptionGens { G: E::g1(g), H: E::g2(h) },
            g,
            h,
            g_i: gi.iter().map(|x| E::g1(*x)).collect(),
            gi,
            delta,
            neg_gamma,
            delta_g: E::g1(g * delta),
            gamma_g: E::g1(g * neg_gamma),
        }
    }
}

/// A chunk size for which the scalar field has exactly `n` chunks (key generation takes the number of
/// chunks from the chunk size only)
pub fn bits_for(n: usize) -> u8 {
    (1..=255u16).rev().find(|b| (255 + *b as usize - 1) / *b as usize == n).expect("no chunk size") as u8
}

/// Single-authority keys from the crate's key generation
pub struct Single<E: Eng> {
    pub b: Base<E>,
    pub n: usize,
    pub sk: SecretKey<Fr>,
    pub ek: EncryptionKey<E>,
    pub dk: DecryptionKey<E>,
}
impl<E: Eng> Single<E> {
    pub fn new(seed: u64, n: usize, extra: usize) -> Result<Self, String> {
        Self::with_bits(seed, bits_for(n), extra)
    }
    pub fn with_bits(seed: u64, bits: u8, extra: usize) -> Result<Self, String> {
        let n = (255 + bits as usize - 1) / bits as usize;
        let b = Base::<E>::new(seed, n, extra);
        let mut rng = StdRng::seed_from_u64(seed ^ 0x5111);
        let (sk, ek, dk) = must!(keygen(&mut rng, bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
        Ok(Single { b, n, sk, ek, dk })
    }
    pub fn vk(&self) -> VerifyingKey<E> {
        fake_vk::<E>(&self.b.g_i)
    }
}
/// A verifying key that only carries the encryption generators
pub fn fake_vk<E: Eng>(g_i: &[E::G1Affine]) -> VerifyingKey<E> {
    let mut abc = vec![E::g1(Fr::from(7u64))];
    abc.extend_from_slice(g_i);
    VerifyingKey {
        alpha_g1: E::g1(Fr::from(2u64)),
        beta_g2: E::g2(Fr::from(3u64)),
        gamma_g2: E::g2(Fr::from(4u64)),
        delta_g2: E::g2(Fr::from(5u64)),
        gamma_abc_g1: abc,
    }
}

/// Distributed keys
pub struct Dist<E: Eng> {
    pub b: Base<E>,
    pub n: usize,
    pub sks: Vec<SecretKeyST<E>>,
    pub eks: Vec<FEncryptionKeyPartial<E>>,
    pub comb: FEncryptionKeyPartial<E>,
    pub ek: EncryptionKey<E>,
}
impl<E: Eng> Dist<E> {
    pub fn new(seed: u64, n: usize, parties: usize, extra: usize) -> Result<Self, String> {
        let b = Base::<E>::new(seed, n, extra);
        Self::over(b, seed, n, parties)
    }
    pub fn over(b: Base<E>, seed: u64, n: usize, parties: usize) -> Result<Self, String> {
        Self::related(b, seed, n, parties, 0)
    }
    /// `twin`: see `relate`
    pub fn related(b: Base<E>, seed: u64, n: usize, parties: usize, twin: u8) -> Result<Self, String> {
        let mut rng = StdRng::seed_from_u64(seed ^ 0xd157);
        let (mut sks, mut eks) = (vec![], vec![]);
        for _ in 0..parties {
            let (sk, ek) = must!(FkeygenPartial(&mut rng, bits_for(n), &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
            sks.push(sk);
            eks.push(ek);
        }
        relate(&b, twin, &mut sks, &mut eks);
        let comb = combineEKs(&b.gamma_g, &eks);
        let shares: Vec<_> = sks.iter().map(|s| genP1share(&comb, s)).collect();
        let ek = keygenFinal(&comb, &combineP1share(&shares));
        Ok(Dist { b, n, sks, eks, comb, ek })
    }
    /// Sum of all parties' secrets (s, t)
    pub fn sums(&self) -> (Vec<Fr>, Vec<Fr>) {
        let mut s = vec![Fr::zero(); self.n];
        let mut t = vec![Fr::zero(); self.n + 1];
        for k in &self.sks {
            for (a, b) in s.iter_mut().zip(&k.s) {
                *a += b;
            }
            for (a, b) in t.iter_mut().zip(&k.t) {
                *a += b;
            }
        }
        (s, t)
    }
}

/// Secrets of several parties that are equal or opposite, as key generation could have drawn them: 0 leaves them as they
/// are, 1 all equal, 2 alternately opposite, 3 all sum up to zero, 4 the first two of the chunks' secrets cancel pairwise
pub fn relate<E: Eng>(b: &Base<E>, twin: u8, sks: &mut [SecretKeyST<E>], eks: &mut [FEncryptionKeyPartial<E>]) {
    let k = sks.len();
    if twin == 0 || k < 2 {
        return;
    }
    let neg = |s: &SecretKeyST<E>| SecretKeyST::<E> { s: s.s.iter().map(|x| -*x).collect(), t: s.t.iter().map(|x| -*x).collect() };
    match twin {
        1 => (1..k).for_each(|i| sks[i] = sks[0].clone()),
        2 => (1..k).for_each(|i| sks[i] = neg(&sks[i - 1])),
        3 => {
            let (l, r) = sks.split_at_mut(k - 1);
            let mut x = l[0].clone();
            for o in &l[1..] {
                x.s.iter_mut().zip(&o.s).for_each(|(a, b)| *a += b);
                x.t.iter_mut().zip(&o.t).for_each(|(a, b)| *a += b);
            }
            r[0] = neg(&x);
        }
        _ => {
            let x = neg(&sks[0]);
            sks[1].s[0] = x.s[0];
            sks[1].t[1] = x.t[1];
        }
    }
    let d = b.g * b.delta;
    for (s, e) in sks.iter().zip(eks) {
        *e = FEncryptionKeyPartial {
            X_0: E::g1(d),
            X: s.s.iter().map(|s| E::g1(d * s)).collect(),
            Y: s.s.iter().enumerate().map(|(i, _)| E::g1(b.gi[i] * s.t[i + 1])).collect(),
            Z: s.t.iter().map(|t| E::g2(b.h * t)).collect(),
            P_2: E::g1(b.g * b.neg_gamma * s.s.iter().sum::<Fr>()),
        };
    }
}
/// mostly 0
pub fn twins() -> BoxedStrategy<u8> {
    proptest::prop_oneof![5 => Just(0u8), 1 => 1u8..=4].boxed()
}

/// Documented discrete logarithms of an encryption key with secrets s, t
pub struct EkLogs {
    pub x0: Fr,
    pub x: Vec<Fr>,
    pub y: Vec<Fr>,
    pub z: Vec<Fr>,
    pub p1: Fr,
    pub p2: Fr,
}
pub fn ek_logs<E: Eng>(b: &Base<E>, s: &[Fr], t: &[Fr]) -> EkLogs {
    let d = b.g * b.delta;
    EkLogs {
        x0: d,
        x: s.iter().map(|s| d * s).collect(),
        y: s.iter().enumerate().map(|(i, _)| b.gi[i] * t[i + 1]).collect(),
        z: t.iter().map(|t| b.h * t).collect(),
        p1: d * (t[0] + s.iter().zip(&t[1..]).map(|(a, b)| *a * b).sum::<Fr>()),
        p2: b.g * b.neg_gamma * (Fr::one() + s.iter().sum::<Fr>()),
    }
}
pub fn check_ek<E: Eng>(ek: &EncryptionKey<E>, l: &EkLogs) -> Result<(), String> {
    ensure_eq!(ek.X_0, E::g1(l.x0), "X_0");
    ensure_eq!(ek.X.len(), l.x.len(), "number of X");
    ensure_eq!(ek.Y.len(), l.y.len(), "number of Y");
    ensure_eq!(ek.Z.len(), l.z.len(), "number of Z");
    for i in 0..l.x.len() {
        ensure_eq!(ek.X[i], E::g1(l.x[i]), "X[{i}]");
        ensure_eq!(ek.Y[i], E::g1(l.y[i]), "Y[{i}]");
    }
    for i in 0..l.z.len() {
        ensure_eq!(ek.Z[i], E::g2(l.z[i]), "Z[{i}]");
    }
    ensure_eq!(ek.P_1, E::g1(l.p1), "P_1");
    ensure_eq!(ek.P_2, E::g1(l.p2), "P_2");
    Ok(())
}

pub fn to_ct<E: Eng>(v: &[E::G1Affine]) -> Ciphertext<E> {
    Ciphertext { X_r: v[0], enc_chunks: v[1..v.len() - 1].to_vec(), commitment: v[v.len() - 1] }
}
pub fn from_ct<E: Eng>(c: &Ciphertext<E>) -> Vec<E::G1Affine> {
    let mut v = vec![c.X_r];
    v.extend_from_slice(&c.enc_chunks);
    v.push(c.commitment);
    v
}
/// The ciphertext determined by chunks `m` (as field elements), key, generators and randomness
pub fn formula_ct<E: Eng>(m: &[Fr], r: Fr, ek: &EncryptionKey<E>, g_i: &[E::G1Affine]) -> Vec<E::G1Affine> {
    let mut v: Vec<E::G1> = vec![ek.X_0 * r];
    for i in 0..m.len() {
        v.push(ek.X[i] * r + g_i[i] * m[i]);
    }
    let mut psi = ek.P_1 * r;
    for i in 0..m.len() {
        psi += ek.Y[i] * m[i];
    }
    v.push(psi);
    v.into_iter().map(|x| x.into()).collect()
}
/// e(X_r, Z_0) + sum e(c_i, Z_i) - e(psi, H), one pairing at a time; lengths must fit
pub fn defect<E: Eng>(v: &[E::G1Affine], z: &[E::G2Affine], h: &E::G2Affine) -> PairingOutput<E> {
    assert_eq!(v.len(), z.len() + 1);
    let mut d = PairingOutput::<E>::zero();
    if E::TOY {
        let s: Fr = v.iter().zip(z).map(|(a, b)| E::d1(a).unwrap() * E::d2(b).unwrap()).sum();
        return E::gt_pow(s - E::d1(&v[v.len() - 1]).unwrap() * E::d2(h).unwrap());
    }
    for (a, b) in v.iter().zip(z) {
        d += E::pairing(*a, *b);
    }
    d - E::pairing(v[v.len() - 1], *h)
}

pub fn frv(m: &[u16]) -> Vec<Fr> {
    m.iter().map(|x| Fr::from(*x as u64)).collect()
}
pub fn all_distinct<T: PartialEq>(v: &[T]) -> bool {
    for i in 0..v.len() {
        for j in 0..i {
            if v[i] == v[j] {
                return false;
            }
        }
    }
    true
}
/// Values that should all be drawn independently from the whole field: large, far apart and without simple relations.
/// For independent values each test fails with probability below 2^-90
pub fn independent(v: &[(String, Fr)]) -> Result<(), String> {
    let far = |x: Fr| {
        let small = |x: Fr| {
            let w = x.into_bigint().0;
            w[3] == 0 && w[2] >> 32 == 0
        };
        !small(x) && !small(-x)
    };
    let mut vals = std::collections::HashMap::new();
    for (n, x) in v {
        ensure!(far(*x), "{n} is one of few values");
        let w = x.into_bigint().0;
        ensure!(w[0] != 0 || w[1] as u32 != 0, "{n} has no low bits");
        if let Some(o) = vals.insert(*x, n) {
            return Err(format!("{o} and {n} are equal"));
        }
    }
    let inv: Vec<Fr> = v.iter().map(|x| x.1.inverse().unwrap()).collect();
    for (i, (n, x)) in v.iter().enumerate() {
        for (what, y) in [("the square", *x * x), ("the inverse", inv[i]), ("the opposite", -*x), ("the cube", *x * x * x), ("the inverse square", inv[i].square())] {
            if let Some(o) = vals.get(&y) {
                return Err(format!("{o} is {what} of {n}"));
            }
        }
    }
    let (mut diffs, mut ratios) = (std::collections::HashMap::new(), std::collections::HashMap::new());
    let pos = |x: Fr| x.max(-x);
    for i in 0..v.len() {
        for j in 0..i {
            let (a, b) = (&v[i], &v[j]);
            let (d, q) = (a.1 - b.1, a.1 * inv[j]);
            ensure!(far(d) && far(a.1 + b.1), "{} and {} are close", a.0, b.0);
            ensure!(far(q) && far(b.1 * inv[i]), "{} and {} are small multiples", a.0, b.0);
            for (y, what) in [(d, "difference"), (-d, "difference"), (a.1 + b.1, "sum"), (q, "ratio"), (a.1 * b.1, "product")] {
                if let Some(o) = vals.get(&y) {
                    return Err(format!("{o} is the {what} of {} and {}", a.0, b.0));
                }
            }
            if let Some((k, l)) = diffs.insert(pos(d), (i, j)) {
                return Err(format!("{}, {} differ as {}, {} do", a.0, b.0, v[k as usize].0, v[l as usize].0));
            }
            if let Some((k, l)) = ratios.insert(q.max(b.1 * inv[i]), (i, j)) {
                return Err(format!("{}, {} have the same ratio as {}, {}", a.0, b.0, v[k as usize].0, v[l as usize].0));
            }
        }
    }
    Ok(())
}
/// Random source whose words are all below 2^62 (so that no draw of a field element is rejected), one of them replaced
pub struct Words {
    seed: u64,
    at: Option<u64>,
    pub count: u64,
}
impl ark_std::rand::RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        // splitmix64
        let salt = if self.at == Some(self.count) { 0x1234_5678_9ABC_DEF1 } else { 0 };
        self.count += 1;
        let mut z = (self.seed ^ salt).wrapping_add(self.count.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        (z ^ (z >> 31)) >> 2
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// Each of the values `run` draws depends on at least 250 bits of the random source, and no word of the source
/// determines two of them. Returns the number of words drawn
pub fn drawn_independently(seed: u64, run: impl Fn(&mut Words) -> Result<Vec<(String, Fr)>, String>) -> Result<u64, String> {
    let mut rng = Words { seed, at: None, count: 0 };
    let first = run(&mut rng)?;
    let words = rng.count;
    let mut from = vec![0; first.len()];
    for at in 0..words {
        let now = run(&mut Words { seed, at: Some(at), count: 0 })?;
        ensure_eq!(now.len(), first.len(), "number of values");
        let changed: Vec<usize> = (0..first.len()).filter(|i| now[*i].1 != first[*i].1).collect();
        ensure!(changed.len() <= 1, "a single word of the random source determines {} and {}", first[changed[0]].0, first[changed[1]].0);
        changed.iter().for_each(|i| from[*i] += 1);
    }
    for (i, k) in from.iter().enumerate() {
        ensure!(*k >= 4, "{} depends on {k} words of the random source only", first[i].0);
    }
    Ok(words)
}
/// Samples of the values that are drawn, by kind
#[derive(Default)]
pub struct Samples(std::collections::BTreeMap<String, Vec<Fr>>);
pub const SAMPLES: usize = 512;
impl Samples {
    pub fn push(&mut self, kind: impl Into<String>, x: Fr) {
        self.0.entry(kind.into()).or_default().push(x)
    }
    pub fn kinds(&self) -> usize {
        self.0.len()
    }
    /// Nothing coarse sets the values apart from uniformly distributed ones: each bit, each pair of bits, the residues
    /// for small moduli, the part of the field. For uniform values each kind fails with probability below 10^-12
    pub fn uniform(&self) -> Result<(), String> {
        use ark_ff::BigInteger;
        for (kind, v) in &self.0 {
            ensure!(v.len() >= SAMPLES, "only {} samples of {kind}", v.len());
            let all = v.len() as f64;
            let bits: Vec<Vec<bool>> = v.iter().map(|x| x.into_bigint().to_bits_le()).collect();
            // samples with the bit, as words
            let mut col = vec![vec![0u64; (v.len() + 63) / 64]; 255];
            for (i, b) in bits.iter().enumerate() {
                for j in 0..255 {
                    col[j][i / 64] |= (b[j] as u64) << (i % 64);
                }
            }
            let ones = |w: &dyn Fn(usize) -> u64| (0..col[0].len()).map(|k| w(k).count_ones()).sum::<u32>() as f64 / all;
            for j in 0..255 {
                let p = ones(&|k| col[j][k]);
                ensure!(p > 0.25 && p < 0.75, "bit {j} of {kind} is set in {:.0}% of {} samples", p * 100.0, v.len());
                for i in 0..j {
                    let p = ones(&|k| col[i][k] ^ col[j][k]);
                    ensure!(p > 0.2 && p < 0.8, "bits {i} and {j} of {kind} differ in {:.0}% of {} samples", p * 100.0, v.len());
                }
            }
            for m in [3u64, 5, 7, 11, 13, 16] {
                let mut count = vec![0; m as usize];
                for x in v {
                    let r = x.into_bigint().0.iter().rev().fold(0u128, |a, w| ((a << 64) | *w as u128) % m as u128);
                    count[r as usize] += 1;
                }
                for (r, k) in count.iter().enumerate() {
                    ensure!(*k > 0 && *k as f64 <= 3.0 * all / m as f64, "{k} of {} samples of {kind} are {r} modulo {m}", v.len());
                }
            }
            // sixteenths of the field
            let mut count = [0; 16];
            for x in v {
                let top = (x.into_bigint().0[3] as u128 * 16) / (Fr::MODULUS.0[3] as u128 + 1);
                count[top as usize] += 1;
            }
            for (i, k) in count.iter().enumerate() {
                ensure!(*k > 0 && *k as f64 <= 3.0 * all / 16.0, "{k} of {} samples of {kind} are in the {i}th sixteenth of the field", v.len());
            }
        }
        Ok(())
    }
}
pub fn named(what: &str, v: &[Fr]) -> Vec<(String, Fr)> {
    v.iter().enumerate().map(|(i, x)| (format!("{what} {i}"), *x)).collect()
}
/// Number of chunks: mostly small, sometimes a real size
pub fn some_n() -> BoxedStrategy<usize> {
    proptest::prop_oneof![12 => 1usize..=6, 2 => 7usize..=9, 1 => Just(16usize), 1 => Just(32usize), 1 => Just(64usize)].boxed()
}
pub fn small_n() -> BoxedStrategy<usize> {
    (1usize..=5).boxed()
}
