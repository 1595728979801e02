//! Shared case vocabulary: plain data, biased to the boundaries
use ark_bls12_381::Fr;
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_std::rand::{rngs::StdRng, Error, RngCore, SeedableRng};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A field element
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FrS {
    Zero,
    One,
    MinusOne,
    Small(u16),
    /// 2^k
    Pow2(u8),
    /// 2^k - 1
    Ones(u8),
    /// r - 1 - n
    NearTop(u16),
    /// only this bit window is set: value << shift
    Window(u16, u8),
    Rand(u64),
    /// the four 64-bit words: 0, 1, all ones or something random
    Words([u8; 4]),
}
impl FrS {
    pub fn fr(&self) -> Fr {
        match self {
            FrS::Zero => Fr::zero(),
            FrS::One => Fr::one(),
            FrS::MinusOne => -Fr::one(),
            FrS::Small(x) => Fr::from(*x as u64),
            FrS::Pow2(k) => Fr::from(2u64).pow([*k as u64 % 255]),
            FrS::Ones(k) => Fr::from(2u64).pow([*k as u64 % 255]) - Fr::one(),
            FrS::NearTop(x) => -Fr::one() - Fr::from(*x as u64),
            FrS::Window(v, s) => Fr::from(*v as u64) * Fr::from(2u64).pow([*s as u64 % 239]),
            FrS::Rand(s) => Fr::rand(&mut StdRng::seed_from_u64(*s)),
            FrS::Words(w) => {
                let w = w.map(|x| match x % 6 {
                    0..=2 => 0,
                    3 => 1,
                    4 => u64::MAX,
                    _ => (x as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15),
                });
                // reduced modulo the order by clearing the top bits
                Fr::from_bigint(ark_ff::BigInt([w[0], w[1], w[2], w[3] >> 2])).unwrap()
            }
        }
    }
}
pub fn frs() -> BoxedStrategy<FrS> {
    prop_oneof![
        1 => Just(FrS::Zero),
        1 => Just(FrS::One),
        1 => Just(FrS::MinusOne),
        1 => any::<u16>().prop_map(FrS::Small),
        2 => (0u8..255).prop_map(FrS::Pow2),
        2 => (0u8..255).prop_map(FrS::Ones),
        1 => any::<u16>().prop_map(FrS::NearTop),
        2 => (any::<u16>(), 0u8..239).prop_map(|(a, b)| FrS::Window(a, b)),
        2 => any::<[u8; 4]>().prop_map(FrS::Words),
        6 => any::<u64>().prop_map(FrS::Rand),
    ]
    .boxed()
}
/// Mostly random (used where special values would make the case degenerate), never zero
pub fn frs_nz() -> BoxedStrategy<FrS> {
    prop_oneof![
        1 => Just(FrS::One),
        1 => Just(FrS::MinusOne),
        1 => (1u16..).prop_map(FrS::Small),
        1 => (0u8..255).prop_map(FrS::Pow2),
        8 => any::<u64>().prop_map(FrS::Rand),
    ]
    .boxed()
}

/// Random source given to the code under test: a seeded generator whose first `zeros` 64-bit words are 0, followed by
/// words from which `Fr::rand` makes the field elements `fixed`
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RngS {
    pub seed: u64,
    pub zeros: u8,
    #[serde(default)]
    pub fixed: Vec<FrS>,
}
impl RngS {
    /// Nothing but random words
    pub fn plain(&self) -> bool {
        self.zeros == 0 && self.fixed.is_empty()
    }
    pub fn rng(&self) -> SRng {
        SRng {
            rng: StdRng::seed_from_u64(self.seed),
            zeros: self.zeros as u32,
            // `Fr::rand` reads the Montgomery form
            fixed: self.fixed.iter().rev().flat_map(|f| f.fr().0 .0.into_iter().rev()).collect(),
            words: 0,
        }
    }
    /// Source for the i-th of several operations: all alike (1), some alike (2, 3), or giving opposite field elements (4)
    pub fn alike(&self, same: u8, i: u64) -> SRng {
        let class = if same == 4 { 0 } else { i % same.max(1) as u64 };
        let mut r = RngS { seed: self.seed ^ (class + 77).wrapping_mul(0xD1B54A32D192ED03), zeros: 0, fixed: vec![] }.rng();
        if same == 4 {
            let x = self.fixed.first().cloned().unwrap_or(FrS::Rand(self.seed)).fr();
            let x = if i % 2 == 0 { x } else { -x };
            r.fixed = x.0 .0.into_iter().rev().collect();
        }
        r
    }
    /// Independent stream for the harness' own choices of this case
    pub fn side(&self, n: u64) -> StdRng {
        StdRng::seed_from_u64(self.seed ^ (n + 1).wrapping_mul(0x9E3779B97F4A7C15))
    }
}
pub struct SRng {
    rng: StdRng,
    zeros: u32,
    fixed: Vec<u64>,
    pub words: u64,
}
impl RngCore for SRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.words += 1;
        if self.zeros > 0 {
            self.zeros -= 1;
            return 0;
        }
        if let Some(x) = self.fixed.pop() {
            return x;
        }
        self.rng.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
pub fn rng_plain() -> BoxedStrategy<RngS> {
    any::<u64>().prop_map(|seed| RngS { seed, zeros: 0, fixed: vec![] }).boxed()
}
/// One field element takes 4 words
pub fn rng_edge() -> BoxedStrategy<RngS> {
    prop_oneof![
        5 => any::<u64>().prop_map(|seed| RngS { seed, zeros: 0, fixed: vec![] }),
        1 => (any::<u64>(), 1u8..10).prop_map(|(seed, k)| RngS { seed, zeros: 4 * k, fixed: vec![] }),
        2 => (any::<u64>(), proptest::collection::vec(frs(), 1..=3)).prop_map(|(seed, fixed)| RngS { seed, zeros: 0, fixed }),
    ]
    .boxed()
}

/// Whether several operations get sources that agree, see `RngS::alike`
pub fn alike() -> BoxedStrategy<u8> {
    prop_oneof![6 => Just(0u8), 4 => 1u8..=4].boxed()
}

/// A chunk value below 2^bits
pub fn chunk(bits: u8) -> BoxedStrategy<u16> {
    let max: u16 = ((1u32 << bits.min(16)) - 1) as u16;
    prop_oneof![
        2 => Just(0u16),
        1 => Just(1u16),
        1 => Just(2u16.min(max)),
        1 => Just(max - max.min(1)),
        2 => Just(max),
        // around powers of two
        2 => (0u8..16, 0u16..3).prop_map(move |(k, d)| ((1u32 << k) + d as u32 - 1).min(max as u32) as u16),
        5 => 0..=max,
    ]
    .boxed()
}
/// Every 16-bit value in some order, one after the other over all shards
pub fn every16(counter: &'static std::sync::atomic::AtomicU32, offset: u64) -> BoxedStrategy<u16> {
    // drawn once per case, so that it stays the same while the rest of the case shrinks
    Just(())
        .prop_flat_map(move |_| {
            let i = counter.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            Just((i.wrapping_mul(40503) as u64).wrapping_add(offset) as u16)
        })
        .boxed()
}
pub fn chunks(bits: u8, n: usize) -> BoxedStrategy<Vec<u16>> {
    let max: u16 = ((1u32 << bits.min(16)) - 1) as u16;
    prop_oneof![
        1 => Just(vec![0u16; n]),
        1 => Just(vec![max; n]),
        2 => (0..n, chunk(bits)).prop_map(move |(i, v)| { let mut m = vec![0u16; n]; m[i] = v; m }),
        8 => proptest::collection::vec(chunk(bits), n),
    ]
    .boxed()
}
/// Small chunk values only, to keep brute-force searches for 16-bit chunks cheap
pub fn cheap_chunks(bits: u8, n: usize) -> BoxedStrategy<Vec<u16>> {
    if bits <= 8 {
        chunks(bits, n)
    } else {
        let max: u16 = ((1u32 << bits.min(16)) - 1) as u16;
        (proptest::collection::vec(0u16..=max.min(600), n), 0..n, prop_oneof![Just(max), Just(max - 1), Just(0), 0..=max])
            .prop_map(|(mut v, i, x)| {
                v[i] = x;
                v
            })
            .boxed()
    }
}
/// A permutation of 0..n given by a seed
pub fn perm(n: usize, seed: u64) -> Vec<usize> {
    use ark_std::rand::seq::SliceRandom;
    let mut v: Vec<usize> = (0..n).collect();
    if seed != 0 {
        v.shuffle(&mut StdRng::seed_from_u64(seed));
    }
    v
}
/// Integer value of chunks in base 2^bits, reduced into the field
pub fn horner(c: &[u16], bits: u8) -> Fr {
    let b = Fr::from(2u64).pow([bits as u64]);
    c.iter().fold(Fr::zero(), |a, x| a * b + Fr::from(*x as u64))
}
/// Independent base-2^bits digits (big-endian) of an element, by bit extraction
pub fn digits<F: PrimeField>(x: &F, bits: usize, n: usize) -> Vec<u64> {
    use ark_ff::BigInteger;
    let le = x.into_bigint().to_bits_le();
    (0..n)
        .rev()
        .map(|i| (0..bits).map(|j| (*le.get(i * bits + j).unwrap_or(&false) as u64) << j).sum())
        .collect()
}
/// An index below `k`, also for more than 256 of them: those at both ends and some between
pub fn spread(i: u8, k: usize) -> usize {
    let j = i as usize;
    match i {
        _ if k <= 256 => j % k,
        0..=63 => j,
        64..=191 => 64 + (j - 64) * (k - 128) / 128,
        _ => k - 256 + j,
    }
}
