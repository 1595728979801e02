//! A transparent "pairing": G1 = G2 = (F_r, +) with every discrete logarithm readable, GT = the
//! order-r subgroup of F_{q^2}^*, e(a, b) = g^(a*b). F_r is the scalar field of BLS12-381.
use ark_bls12_381::Fr;
use ark_ec::{
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    AffineRepr, CurveConfig, CurveGroup, Group, ScalarMul, VariableBaseMSM,
};
use ark_ff::{
    fields::{Fp2, Fp2Config, Fp320, MontBackend, MontConfig},
    Field, MontFp, One, PrimeField, UniformRand, Zero,
};
use ark_serialize::{
    CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate,
    Write,
};
use ark_std::rand::{
    distributions::{Distribution, Standard},
    Rng,
};
use std::{
    fmt,
    iter::Sum,
    ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign},
    sync::OnceLock,
};
use zeroize::Zeroize;

#[derive(MontConfig)]
#[modulus = "11955379539928771429314084835866400210993445970120301423553634183585996510068963"]
#[generator = "2"]
pub struct FqConfig;
pub type Fq = Fp320<MontBackend<FqConfig, 5>>;

pub struct Fq2Config;
pub type Fq2 = Fp2<Fq2Config>;
impl Fp2Config for Fq2Config {
    type Fp = Fq;
    const NONRESIDUE: Fq = MontFp!("-1");
    const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[Fq::ONE, MontFp!("-1")];
}

const GT_C0: Fq =
    MontFp!("11621108929359537476457756498662468820739413056962588366434887501952466174262208");
const GT_C1: Fq =
    MontFp!("2837603547786325652020252523408215719037590190554152763398451474022060609184505");

fn gt_table() -> &'static Vec<[Fq2; 256]> {
    static T: OnceLock<Vec<[Fq2; 256]>> = OnceLock::new();
    T.get_or_init(|| {
        let mut base = Fq2::new(GT_C0, GT_C1);
        let mut v = vec![];
        for _ in 0..32 {
            let mut row = [Fq2::one(); 256];
            for i in 1..256 {
                row[i] = row[i - 1] * base;
            }
            base = row[255] * base;
            v.push(row);
        }
        assert!(base != Fq2::one());
        v
    })
}

/// g^x
pub fn gt_exp(x: Fr) -> Fq2 {
    let t = gt_table();
    let mut r = Fq2::one();
    for (i, limb) in x.into_bigint().0.iter().enumerate() {
        for j in 0..8 {
            let b = ((limb >> (8 * j)) & 255) as usize;
            if b != 0 {
                r *= t[i * 8 + j][b];
            }
        }
    }
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default, PartialOrd, Ord)]
pub struct Toy;

/// Element of source group N, represented by its discrete logarithm
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct T<const N: u8>(pub Fr);

impl<const N: u8> fmt::Debug for T<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{}({})", N, self.0)
    }
}
impl<const N: u8> fmt::Display for T<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const N: u8> CanonicalSerialize for T<N> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.0.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.0.serialized_size(c)
    }
}
impl<const N: u8> Valid for T<N> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl<const N: u8> CanonicalDeserialize for T<N> {
    fn deserialize_with_mode<R: Read>(
        r: R,
        c: Compress,
        v: Validate,
    ) -> Result<Self, SerializationError> {
        Fr::deserialize_with_mode(r, c, v).map(T)
    }
}
impl<const N: u8> Zeroize for T<N> {
    fn zeroize(&mut self) {
        self.0.zeroize()
    }
}
impl<const N: u8> Distribution<T<N>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T<N> {
        T(Fr::rand(rng))
    }
}
impl<const N: u8> Zero for T<N> {
    fn zero() -> Self {
        T(Fr::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<const N: u8> Neg for T<N> {
    type Output = Self;
    fn neg(self) -> Self {
        T(-self.0)
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:tt) => {
        impl<const N: u8> $tr<T<N>> for T<N> {
            type Output = T<N>;
            fn $f(self, o: T<N>) -> T<N> { T(self.0 $op o.0) }
        }
        impl<'a, const N: u8> $tr<&'a T<N>> for T<N> {
            type Output = T<N>;
            fn $f(self, o: &'a T<N>) -> T<N> { T(self.0 $op o.0) }
        }
        impl<const N: u8> $tra<T<N>> for T<N> {
            fn $fa(&mut self, o: T<N>) { self.0 = self.0 $op o.0; }
        }
        impl<'a, const N: u8> $tra<&'a T<N>> for T<N> {
            fn $fa(&mut self, o: &'a T<N>) { self.0 = self.0 $op o.0; }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, +);
bin!(Sub, sub, SubAssign, sub_assign, -);
impl<const N: u8> Mul<Fr> for T<N> {
    type Output = T<N>;
    fn mul(self, o: Fr) -> T<N> {
        T(self.0 * o)
    }
}
impl<'a, const N: u8> Mul<&'a Fr> for T<N> {
    type Output = T<N>;
    fn mul(self, o: &'a Fr) -> T<N> {
        T(self.0 * o)
    }
}
impl<const N: u8> MulAssign<Fr> for T<N> {
    fn mul_assign(&mut self, o: Fr) {
        self.0 *= o
    }
}
impl<'a, const N: u8> MulAssign<&'a Fr> for T<N> {
    fn mul_assign(&mut self, o: &'a Fr) {
        self.0 *= o
    }
}
impl<const N: u8> Sum<T<N>> for T<N> {
    fn sum<I: Iterator<Item = T<N>>>(it: I) -> Self {
        T(it.map(|x| x.0).sum())
    }
}
impl<'a, const N: u8> Sum<&'a T<N>> for T<N> {
    fn sum<I: Iterator<Item = &'a T<N>>>(it: I) -> Self {
        T(it.map(|x| x.0).sum())
    }
}

fn limbs_to_fr(l: &[u64]) -> Fr {
    if l.len() == 4 {
        if let Some(x) = Fr::from_bigint(ark_ff::BigInt([l[0], l[1], l[2], l[3]])) {
            return x;
        }
    }
    let mut b = vec![];
    for x in l {
        b.extend_from_slice(&x.to_le_bytes());
    }
    Fr::from_le_bytes_mod_order(&b)
}

impl<const N: u8> Group for T<N> {
    type ScalarField = Fr;
    fn generator() -> Self {
        T(Fr::one())
    }
    fn double_in_place(&mut self) -> &mut Self {
        self.0.double_in_place();
        self
    }
    fn mul_bigint(&self, other: impl AsRef<[u64]>) -> Self {
        T(self.0 * limbs_to_fr(other.as_ref()))
    }
}
impl<const N: u8> ScalarMul for T<N> {
    type MulBase = Self;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(b: &[Self]) -> Vec<Self> {
        b.to_vec()
    }
}
impl<const N: u8> VariableBaseMSM for T<N> {
    fn msm_bigint(bases: &[Self], bigints: &[<Fr as PrimeField>::BigInt]) -> Self {
        // same truncation as the library's implementation
        T(bases
            .iter()
            .zip(bigints.iter())
            .map(|(b, s)| b.0 * limbs_to_fr(s.as_ref()))
            .sum())
    }
}
pub struct TConfig;
impl CurveConfig for TConfig {
    type BaseField = Fr;
    type ScalarField = Fr;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: Fr = Fr::ONE;
}
impl<const N: u8> CurveGroup for T<N> {
    type Config = TConfig;
    type BaseField = Fr;
    type Affine = Self;
    type FullGroup = Self;
    fn normalize_batch(v: &[Self]) -> Vec<Self> {
        v.to_vec()
    }
}
impl<const N: u8> AffineRepr for T<N> {
    type Config = TConfig;
    type ScalarField = Fr;
    type BaseField = Fr;
    type Group = Self;
    fn xy(&self) -> Option<(&Fr, &Fr)> {
        if self.0.is_zero() {
            None
        } else {
            Some((&self.0, &self.0))
        }
    }
    fn zero() -> Self {
        T(Fr::zero())
    }
    fn generator() -> Self {
        T(Fr::one())
    }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        Fr::from_random_bytes(bytes).map(T)
    }
    fn mul_bigint(&self, by: impl AsRef<[u64]>) -> Self {
        T(self.0 * limbs_to_fr(by.as_ref()))
    }
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn mul_by_cofactor_to_group(&self) -> Self {
        *self
    }
}
impl<'a, const N: u8> From<&'a T<N>> for T<N> {
    fn from(x: &'a T<N>) -> Self {
        *x
    }
}

impl Pairing for Toy {
    type BaseField = Fr;
    type ScalarField = Fr;
    type G1 = T<1>;
    type G1Affine = T<1>;
    type G1Prepared = T<1>;
    type G2 = T<2>;
    type G2Affine = T<2>;
    type G2Prepared = T<2>;
    type TargetField = Fq2;
    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<T<1>>>,
        b: impl IntoIterator<Item = impl Into<T<2>>>,
    ) -> MillerLoopOutput<Self> {
        let a: Vec<T<1>> = a.into_iter().map(Into::into).collect();
        let b: Vec<T<2>> = b.into_iter().map(Into::into).collect();
        // the real engines use zip_eq
        assert_eq!(a.len(), b.len(), "zip_eq: iterators of different length");
        MillerLoopOutput(gt_exp(a.iter().zip(&b).map(|(x, y)| x.0 * y.0).sum()))
    }
    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        if m.0.is_zero() {
            None
        } else {
            Some(PairingOutput(m.0))
        }
    }
}

/// Engines the properties are checked on
pub trait Eng: Pairing<ScalarField = Fr> {
    const NAME: &'static str;
    const TOY: bool;
    fn d1(p: &Self::G1Affine) -> Option<Fr>;
    fn d2(p: &Self::G2Affine) -> Option<Fr>;
    fn g1(x: Fr) -> Self::G1Affine {
        (Self::G1Affine::generator() * x).into()
    }
    fn g2(x: Fr) -> Self::G2Affine {
        (Self::G2Affine::generator() * x).into()
    }
    fn gt_pow(x: Fr) -> PairingOutput<Self>;
}
impl Eng for Toy {
    const NAME: &'static str = "toy";
    const TOY: bool = true;
    fn d1(p: &T<1>) -> Option<Fr> {
        Some(p.0)
    }
    fn d2(p: &T<2>) -> Option<Fr> {
        Some(p.0)
    }
    fn gt_pow(x: Fr) -> PairingOutput<Self> {
        PairingOutput(gt_exp(x))
    }
}
pub type Bls = ark_bls12_381::Bls12_381;
impl Eng for Bls {
    const NAME: &'static str = "bls12-381";
    const TOY: bool = false;
    fn d1(_: &Self::G1Affine) -> Option<Fr> {
        None
    }
    fn d2(_: &Self::G2Affine) -> Option<Fr> {
        None
    }
    fn gt_pow(x: Fr) -> PairingOutput<Self> {
        static G: OnceLock<PairingOutput<Bls>> = OnceLock::new();
        let g = G.get_or_init(|| {
            Bls::pairing(
                ark_bls12_381::G1Affine::generator(),
                ark_bls12_381::G2Affine::generator(),
            )
        });
        *g * x
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn bilinear() {
        let mut rng = ark_std::test_rng();
        for _ in 0..20 {
            let (a, b) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
            let l = Toy::pairing(T::<1>(a), T::<2>(b));
            assert_eq!(l, Toy::gt_pow(Fr::one()) * (a * b));
            assert!(l.check().is_ok());
            let c = Fr::rand(&mut rng);
            assert_eq!(l + Toy::pairing(T::<1>(c), T::<2>(b)), Toy::pairing(T::<1>(a + c), T::<2>(b)));
        }
        assert_eq!(Toy::gt_pow(-Fr::one()) + Toy::gt_pow(Fr::one()), PairingOutput::<Toy>::zero());
    }
}
