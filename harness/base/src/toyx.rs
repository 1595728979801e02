//! The transparent pairing of `toy` over other scalar fields
use ark_ec::{
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    AffineRepr, CurveConfig, CurveGroup, Group, ScalarMul, VariableBaseMSM,
};
use ark_ff::{
    fields::{Fp, Fp2, Fp2Config, MontBackend, MontConfig},
    BigInteger, CyclotomicMultSubgroup, Field, MontFp, One, PrimeField, Zero,
};
use ark_serialize::{
    CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate,
    Write,
};
use ark_std::rand::{
    distributions::{Distribution, Standard},
    Rng,
};
use std::{
    fmt,
    iter::Sum,
    marker::PhantomData,
    ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign},
    sync::OnceLock,
};
use zeroize::Zeroize;

/// A scalar field and a group of that order
pub trait Params: 'static + Copy + Send + Sync + fmt::Debug + Eq + std::hash::Hash + Ord {
    const NAME: &'static str;
    type F: PrimeField;
    type Q: CyclotomicMultSubgroup;
    fn table() -> &'static Vec<Vec<Self::Q>>;
    fn gt_exp(x: Self::F) -> Self::Q {
        let t = Self::table();
        let mut r = Self::Q::one();
        for (i, b) in x.into_bigint().to_bytes_le().into_iter().enumerate() {
            if b != 0 {
                r *= t[i][b as usize];
            }
        }
        r
    }
}
fn make_table<Q: Field>(mut base: Q, bytes: usize) -> Vec<Vec<Q>> {
    let mut v = vec![];
    for _ in 0..bytes {
        let mut row = vec![Q::one(); 256];
        for i in 1..256 {
            row[i] = row[i - 1] * base;
        }
        base = row[255] * base;
        v.push(row);
    }
    v
}
macro_rules! engine {
    ($m:ident, $name:literal, $r:literal, $rg:literal, $rl:literal, $q:literal, $qg:literal, $ql:literal, $c0:literal, $c1:literal) => {
        pub mod $m {
            use super::*;
            #[derive(MontConfig)]
            #[modulus = $r]
            #[generator = $rg]
            pub struct FrConfig;
            pub type Fr = Fp<MontBackend<FrConfig, $rl>, $rl>;
            #[derive(MontConfig)]
            #[modulus = $q]
            #[generator = $qg]
            pub struct FqConfig;
            pub type Fq = Fp<MontBackend<FqConfig, $ql>, $ql>;
            pub struct Fq2Config;
            pub type Fq2 = Fp2<Fq2Config>;
            impl Fp2Config for Fq2Config {
                type Fp = Fq;
                const NONRESIDUE: Fq = MontFp!("-1");
                const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[Fq::ONE, MontFp!("-1")];
            }
            const C0: Fq = MontFp!($c0);
            const C1: Fq = MontFp!($c1);
            #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
            pub struct P;
            impl Params for P {
                const NAME: &'static str = $name;
                type F = Fr;
                type Q = Fq2;
                fn table() -> &'static Vec<Vec<Fq2>> {
                    static T: OnceLock<Vec<Vec<Fq2>>> = OnceLock::new();
                    T.get_or_init(|| make_table(Fq2::new(C0, C1), $rl * 8))
                }
            }
        }
    };
}
engine!(gold, "64-bit field", "18446744069414584321", "7", 1, "1475739525553166745679", "3", 2, "1364055799882027800142", "569255991419486520002");
engine!(bn, "bn254", "21888242871839275222246405745257275088548364400416034343698204186575808495617", "5", 4, "963082686360928109778841852791320103896128033618305511122720984209335573807147", "2", 5, "530574143291571604406871274784041536494111031119972798098722797303376653685748", "127345658075027648760984385183386094879298953490025892967895713409535768942215");
engine!(bw, "bw6-761", "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177", "5", 6, "3103973112155629128127832804338722402436722153058975926478611152000645620180089873299626657674880321493283857498123", "2", 6, "2320706944975692997631078965613754190284334041207322018604735356077627915240467623053198145307413557049798326576693", "1336317615253713227209562676033649376104884855789947448122413815944554488933696022671446075243480861490416566410433");
engine!(k1, "256-bit field", "115792089237316195423570985008687907852837564279074904382605163141518161494337", "7", 4, "92633671389852956338856788006950326282270051423259923506084130513214529195469599", "3", 5, "75344219425399140917959017530865370752451613014528884781395035034395013152837496", "31536525244471257766918812245693185818643992993715999033328860439305538482849548");

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct ToyX<P>(PhantomData<P>);


/// Element of source group N, represented by its discrete logarithm
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct T<const N: u8, F: PrimeField>(pub F);

impl<const N: u8, F: PrimeField> fmt::Debug for T<N, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{}({})", N, self.0)
    }
}
impl<const N: u8, F: PrimeField> fmt::Display for T<N, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const N: u8, F: PrimeField> CanonicalSerialize for T<N, F> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.0.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.0.serialized_size(c)
    }
}
impl<const N: u8, F: PrimeField> Valid for T<N, F> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl<const N: u8, F: PrimeField> CanonicalDeserialize for T<N, F> {
    fn deserialize_with_mode<R: Read>(
        r: R,
        c: Compress,
        v: Validate,
    ) -> Result<Self, SerializationError> {
        F::deserialize_with_mode(r, c, v).map(T)
    }
}
impl<const N: u8, F: PrimeField> Zeroize for T<N, F> {
    fn zeroize(&mut self) {
        self.0.zeroize()
    }
}
impl<const N: u8, F: PrimeField> Distribution<T<N, F>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T<N, F> {
        T(F::rand(rng))
    }
}
impl<const N: u8, F: PrimeField> Zero for T<N, F> {
    fn zero() -> Self {
        T(F::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<const N: u8, F: PrimeField> Neg for T<N, F> {
    type Output = Self;
    fn neg(self) -> Self {
        T(-self.0)
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:tt) => {
        impl<const N: u8, F: PrimeField> $tr<T<N, F>> for T<N, F> {
            type Output = T<N, F>;
            fn $f(self, o: T<N, F>) -> T<N, F> { T(self.0 $op o.0) }
        }
        impl<'a, const N: u8, F: PrimeField> $tr<&'a T<N, F>> for T<N, F> {
            type Output = T<N, F>;
            fn $f(self, o: &'a T<N, F>) -> T<N, F> { T(self.0 $op o.0) }
        }
        impl<const N: u8, F: PrimeField> $tra<T<N, F>> for T<N, F> {
            fn $fa(&mut self, o: T<N, F>) { self.0 = self.0 $op o.0; }
        }
        impl<'a, const N: u8, F: PrimeField> $tra<&'a T<N, F>> for T<N, F> {
            fn $fa(&mut self, o: &'a T<N, F>) { self.0 = self.0 $op o.0; }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, +);
bin!(Sub, sub, SubAssign, sub_assign, -);
impl<const N: u8, F: PrimeField> Mul<F> for T<N, F> {
    type Output = T<N, F>;
    fn mul(self, o: F) -> T<N, F> {
        T(self.0 * o)
    }
}
impl<'a, const N: u8, F: PrimeField> Mul<&'a F> for T<N, F> {
    type Output = T<N, F>;
    fn mul(self, o: &'a F) -> T<N, F> {
        T(self.0 * o)
    }
}
impl<const N: u8, F: PrimeField> MulAssign<F> for T<N, F> {
    fn mul_assign(&mut self, o: F) {
        self.0 *= o
    }
}
impl<'a, const N: u8, F: PrimeField> MulAssign<&'a F> for T<N, F> {
    fn mul_assign(&mut self, o: &'a F) {
        self.0 *= o
    }
}
impl<const N: u8, F: PrimeField> Sum<T<N, F>> for T<N, F> {
    fn sum<I: Iterator<Item = T<N, F>>>(it: I) -> Self {
        T(it.map(|x| x.0).sum())
    }
}
impl<'a, const N: u8, F: PrimeField> Sum<&'a T<N, F>> for T<N, F> {
    fn sum<I: Iterator<Item = &'a T<N, F>>>(it: I) -> Self {
        T(it.map(|x| x.0).sum())
    }
}

fn limbs_to_fr<F: PrimeField>(l: &[u64]) -> F {
    let mut r = F::zero();
    let w = F::from(1u64 << 32);
    for x in l.iter().rev() {
        r = (r * w * w) + F::from(*x);
    }
    r
}

impl<const N: u8, F: PrimeField> Group for T<N, F> {
    type ScalarField = F;
    fn generator() -> Self {
        T(F::one())
    }
    fn double_in_place(&mut self) -> &mut Self {
        self.0.double_in_place();
        self
    }
    fn mul_bigint(&self, other: impl AsRef<[u64]>) -> Self {
        T(self.0 * limbs_to_fr::<F>(other.as_ref()))
    }
}
impl<const N: u8, F: PrimeField> ScalarMul for T<N, F> {
    type MulBase = Self;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(b: &[Self]) -> Vec<Self> {
        b.to_vec()
    }
}
impl<const N: u8, F: PrimeField> VariableBaseMSM for T<N, F> {
    fn msm_bigint(bases: &[Self], bigints: &[F::BigInt]) -> Self {
        // same truncation as the library's implementation
        T(bases
            .iter()
            .zip(bigints.iter())
            .map(|(b, s)| b.0 * limbs_to_fr::<F>(s.as_ref()))
            .sum())
    }
}
pub struct TConfig<F>(std::marker::PhantomData<F>);
impl<F: PrimeField> CurveConfig for TConfig<F> {
    type BaseField = F;
    type ScalarField = F;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: F = F::ONE;
}
impl<const N: u8, F: PrimeField> CurveGroup for T<N, F> {
    type Config = TConfig<F>;
    type BaseField = F;
    type Affine = Self;
    type FullGroup = Self;
    fn normalize_batch(v: &[Self]) -> Vec<Self> {
        v.to_vec()
    }
}
impl<const N: u8, F: PrimeField> AffineRepr for T<N, F> {
    type Config = TConfig<F>;
    type ScalarField = F;
    type BaseField = F;
    type Group = Self;
    fn xy(&self) -> Option<(&F, &F)> {
        if self.0.is_zero() {
            None
        } else {
            Some((&self.0, &self.0))
        }
    }
    fn zero() -> Self {
        T(F::zero())
    }
    fn generator() -> Self {
        T(F::one())
    }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        F::from_random_bytes(bytes).map(T)
    }
    fn mul_bigint(&self, by: impl AsRef<[u64]>) -> Self {
        T(self.0 * limbs_to_fr::<F>(by.as_ref()))
    }
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn mul_by_cofactor_to_group(&self) -> Self {
        *self
    }
}
impl<'a, const N: u8, F: PrimeField> From<&'a T<N, F>> for T<N, F> {
    fn from(x: &'a T<N, F>) -> Self {
        *x
    }
}

impl<P: Params> Pairing for ToyX<P> {
    type BaseField = P::F;
    type ScalarField = P::F;
    type G1 = T<1, P::F>;
    type G1Affine = T<1, P::F>;
    type G1Prepared = T<1, P::F>;
    type G2 = T<2, P::F>;
    type G2Affine = T<2, P::F>;
    type G2Prepared = T<2, P::F>;
    type TargetField = P::Q;
    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<T<1, P::F>>>,
        b: impl IntoIterator<Item = impl Into<T<2, P::F>>>,
    ) -> MillerLoopOutput<Self> {
        let a: Vec<T<1, P::F>> = a.into_iter().map(Into::into).collect();
        let b: Vec<T<2, P::F>> = b.into_iter().map(Into::into).collect();
        // the real engines use zip_eq
        assert_eq!(a.len(), b.len(), "zip_eq: iterators of different length");
        MillerLoopOutput(P::gt_exp(a.iter().zip(&b).map(|(x, y)| x.0 * y.0).sum()))
    }
    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        if m.0.is_zero() {
            None
        } else {
            Some(PairingOutput(m.0))
        }
    }
}


#[cfg(test)]
mod tests {
    use super::*;
    use ark_ff::UniformRand;
    fn bilinear_for<P: Params>() {
        let mut rng = ark_std::test_rng();
        for _ in 0..20 {
            let (a, b, c) = (P::F::rand(&mut rng), P::F::rand(&mut rng), P::F::rand(&mut rng));
            let l = ToyX::<P>::pairing(T::<1, P::F>(a), T::<2, P::F>(b));
            assert_eq!(l, PairingOutput::<ToyX<P>>(P::gt_exp(P::F::one())) * (a * b));
            assert!(l.check().is_ok());
            assert_eq!(l + ToyX::<P>::pairing(T::<1, P::F>(c), T::<2, P::F>(b)), ToyX::<P>::pairing(T::<1, P::F>(a + c), T::<2, P::F>(b)));
        }
        assert!(!PairingOutput::<ToyX<P>>(P::gt_exp(P::F::one())).is_zero());
        let x = P::F::rand(&mut rng);
        assert_eq!(limbs_to_fr::<P::F>(x.into_bigint().as_ref()), x);
    }
    #[test]
    fn bilinear() {
        bilinear_for::<gold::P>();
        bilinear_for::<bn::P>();
        bilinear_for::<bw::P>();
        bilinear_for::<k1::P>();
    }
}
