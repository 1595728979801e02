use ark_ff::{
    fields::{Fp256, Fp384, MontBackend, MontConfig},
    BigInteger,
};
use dsv_harness::*;
use proptest::prop_oneof;

#[derive(MontConfig)]
#[modulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
#[generator = "5"]
pub struct BnConfig;
/// scalar field of BN254
type FrBn = Fp256<MontBackend<BnConfig, 4>>;
#[derive(MontConfig)]
#[modulus = "8444461749428370424248824938781546531375899335154063827935233455917409239041"]
#[generator = "22"]
pub struct B377Config;
/// scalar field of BLS12-377
type Fr377 = Fp256<MontBackend<B377Config, 4>>;
#[derive(MontConfig)]
#[modulus = "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177"]
#[generator = "5"]
pub struct BwConfig;
/// scalar field of BW6-761
type FrBw = Fp384<MontBackend<BwConfig, 6>>;
#[derive(MontConfig)]
#[modulus = "115792089237316195423570985008687907852837564279074904382605163141518161494337"]
#[generator = "7"]
pub struct K1Config;
/// 256-bit field: no spare bit
type FrK1 = Fp256<MontBackend<K1Config, 4>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    field: u8,
    x: El,
    size: u8,
}
/// A field element of any field, from its little-endian 16-bit words
#[derive(Clone, Debug, Serialize, Deserialize)]
enum El {
    /// reduced modulo the characteristic
    Words(Vec<u16>),
    /// -1 - k
    Top(u32),
    /// 2^k
    Pow2(u16),
    /// 2^k - 1
    Ones(u16),
    Small(u32),
    /// one 4-bit digit
    Digit(u8, u16),
}
fn el<F: PrimeField>(e: &El) -> F {
    let two = F::from(2u64);
    let b = F::MODULUS_BIT_SIZE as u64;
    match e {
        El::Words(w) => w.iter().rev().fold(F::zero(), |a, x| a * F::from(65536u64) + F::from(*x as u64)),
        El::Top(k) => -F::one() - F::from(*k as u64),
        El::Pow2(k) => two.pow([*k as u64 % b]),
        El::Ones(k) => two.pow([*k as u64 % b]) - F::one(),
        El::Small(k) => F::from(*k as u64),
        El::Digit(d, p) => F::from(*d as u64 & 15) * two.pow([(*p as u64 * 4) % (b - 4)]),
    }
}
fn elem() -> BoxedStrategy<El> {
    bx(prop_oneof![
        6 => proptest::collection::vec(prop_oneof![2 => any::<u16>(), 1 => Just(0u16), 1 => Just(0xffffu16), 1 => Just(1u16), 1 => Just(0x8000u16), 1 => Just(0x100u16), 1 => Just(0xffu16)], 1..25).prop_map(El::Words),
        2 => (0u32..70000).prop_map(El::Top),
        2 => any::<u16>().prop_map(El::Pow2),
        2 => any::<u16>().prop_map(El::Ones),
        2 => prop_oneof![0u32..20, 240u32..270, 65500u32..65600, any::<u32>()].prop_map(El::Small),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| El::Digit(a, b)),
    ])
}
fn one<F: PrimeField>(c: &Case, name: &str, pairing: bool) -> Outcome {
    let x: F = el(&c.x);
    let d = utils::decompose(&x, c.size);
    let count = (F::MODULUS_BIT_SIZE as usize + c.size as usize - 1) / c.size as usize;
    if ![4, 8, 16].contains(&c.size) {
        ensure!(d.is_err(), "{name}: chunk size {} accepted by decompose: {d:?}", c.size);
        return Ok(Info::new(true).label("unsupported size"));
    }
    let d = must!(d);
    let bits = c.size as usize;
    let want: Vec<u64> = digits(&x, bits, d.len());
    ensure_eq!(d.iter().map(|x| *x as u64).collect::<Vec<_>>(), want, "{name}: digits of {x} in base 2^{bits}");
    // nothing was cut off in front
    ensure!(x.into_bigint().num_bits() as usize <= bits * d.len(), "{name}: {} digits of {bits} bits for {x}", d.len());
    ensure_eq!(d.len(), must!(utils::decompose(&F::zero(), c.size)).len(), "{name}: number of digits differs from that of zero");
    ensure_eq!(must!(utils::compose::<F>(&d, c.size)), x, "{name}: compose(decompose)");
    if count <= 255 {
        ensure_eq!(utils::chunks_count::<F>(c.size) as usize, count, "{name}: chunks_count({bits})");
    }
    if pairing && d.len() != count {
        // spare bits of the machine words make up one or more whole chunks
        let words = x.into_bigint().as_ref().len() * 64 / bits;
        if d.len() == words && words > count && F::MODULUS_BIT_SIZE as usize % 64 != 0 && name == "bw6-761" {
            return Err(format!("[digits-of-machine-words] {name}: {} digits of {bits} bits, the chunk count is {count}", d.len()));
        }
        return Err(format!("{name}: {} digits of {bits} bits, the chunk count is {count}", d.len()));
    }
    // a digit list without its leading zeros (an even number of them) still is the element
    let z = d.iter().take_while(|x| **x == 0).count() / 2 * 2;
    if z < d.len() {
        ensure_eq!(must!(utils::compose::<F>(&d[z..], c.size)), x, "{name}: compose without {z} leading zeros");
    }
    Ok(Info::new(!x.is_zero()).label(format!("{name}, {bits} bits")))
}
fn check(c: &Case) -> Outcome {
    match c.field {
        0 => one::<Fr>(c, "bls12-381", true),
        1 => one::<FrBn>(c, "bn254", true),
        2 => one::<Fr377>(c, "bls12-377", true),
        3 => one::<FrBw>(c, "bw6-761", true),
        4 => one::<FrK1>(c, "256-bit field", true),
        5 => one::<ark_bls12_381::Fq>(c, "381-bit field", false),
        _ => one::<toy::Fq>(c, "263-bit field", false),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compose {
    d: Vec<u16>,
    size: u8,
}
fn check_compose(c: &Compose) -> Outcome {
    let supported = [4, 8, 16].contains(&c.size);
    let r = utils::compose::<Fr>(&c.d, c.size);
    if !supported {
        ensure!(r.is_err(), "chunk size {} accepted by compose", c.size);
        return Ok(Info::new(true).label("unsupported size"));
    }
    if c.size == 4 && c.d.len() % 2 == 1 {
        ensure!(r.is_err(), "odd number of nibbles accepted");
        return Ok(Info::new(true).label("odd nibbles"));
    }
    // digit lists of at most 240 bits: no reduction involved
    let mask = if c.size == 16 { u16::MAX } else { (1 << c.size) - 1 };
    let keep = 240 / c.size as usize;
    let d: Vec<u16> = c.d.iter().take(keep / 2 * 2).map(|x| x & mask).collect();
    let d = if c.size == 4 { d[..d.len() / 2 * 2].to_vec() } else { d };
    ensure_eq!(must!(utils::compose::<Fr>(&d, c.size)), horner(&d, c.size), "compose");
    if !d.is_empty() {
        let x = horner(&d, c.size);
        let back = must!(utils::decompose(&x, c.size));
        let (z, tail) = back.split_at(back.len() - d.len());
        ensure!(z.iter().all(|x| *x == 0), "leading digits of {x}: {z:?}");
        ensure_eq!(tail, &d[..], "decompose(compose)");
    }
    Ok(Info::new(!d.is_empty()).label(format!("{} bits", c.size)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Count {
    field: u8,
    size: u8,
}
fn check_count(c: &Count) -> Outcome {
    fn one<F: PrimeField>(s: u8) -> Outcome {
        let want = (1..).find(|n: &usize| n * s as usize >= F::MODULUS_BIT_SIZE as usize).unwrap();
        if want > 255 {
            return Ok(Info::new(false));
        }
        ensure_eq!(utils::chunks_count::<F>(s) as usize, want, "chunks_count({s}) for {} bits", F::MODULUS_BIT_SIZE);
        Ok(Info::new(true))
    }
    match c.field {
        0 => one::<Fr>(c.size),
        1 => one::<FrBn>(c.size),
        2 => one::<Fr377>(c.size),
        3 => one::<FrBw>(c.size),
        4 => one::<FrK1>(c.size),
        5 => one::<ark_bls12_381::Fq>(c.size),
        _ => one::<toy::Fq>(c.size),
    }
}
fn main() {
    let mut p = Prop::new("C12", "Chunk decomposition is the exact positional representation and inverts");
    p.assume("lists passed to compose carry digits below 2^bits and represent values below the modulus");
    let good = || prop_oneof![Just(4u8), Just(8), Just(16)];
    p.part(
        "digits",
        "digits, inverse and number of digits for 7 fields (scalar fields of BLS12-381, BN254, BLS12-377, BW6-761, a 256-bit field, two base fields); non-trivial: element is not zero",
        60000,
        6_000_000,
        || bx((prop_oneof![4 => Just(0u8), 1 => 1u8..7], elem(), good()).prop_map(|(field, x, size)| Case { field, x, size })),
        check,
    );
    p.part(
        "sizes",
        "all chunk sizes: all but 4, 8, 16 rejected; non-trivial: element is not zero or size unsupported",
        8000,
        200_000,
        || bx((0u8..7, elem(), any::<u8>()).prop_map(|(field, x, size)| Case { field, x, size: size.max(1) })),
        check,
    );
    p.part(
        "compose",
        "digit lists of any length against Horner evaluation, odd nibble lists and unsupported sizes rejected; non-trivial: list not empty",
        20000,
        1_000_000,
        || bx((proptest::collection::vec(prop_oneof![any::<u16>(), Just(0u16), Just(u16::MAX), 0u16..16, 0u16..256], 0..70), prop_oneof![6 => good(), 1 => any::<u8>()]).prop_map(|(d, size)| Compose { d, size })),
        check_compose,
    );
    p.part("count", "chunk count for every size and field; non-trivial: count fits 8 bits", 4000, 20000, || bx((0u8..7, 1u8..=255).prop_map(|(field, size)| Count { field, size })), check_count);
    p.finish()
}
