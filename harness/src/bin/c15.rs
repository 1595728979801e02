use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use dist_saver::{commitment::ChunkedCommitment, utils::WindowTable};
use dsv_harness::*;
use proptest::prop_oneof;
use std::{any::type_name, fmt::Debug};

trait Ser: CanonicalSerialize + CanonicalDeserialize + Serialize + DeserializeOwned + PartialEq + Debug + Clone {}
impl<T: CanonicalSerialize + CanonicalDeserialize + Serialize + DeserializeOwned + PartialEq + Debug + Clone> Ser for T {}

/// Makes elements and remembers them
struct Ctx<E: Eng> {
    rng: StdRng,
    el: Vec<FrS>,
    used: usize,
    len: usize,
    g1: Vec<E::G1Affine>,
    g2: Vec<E::G2Affine>,
    fr: Vec<Fr>,
}
impl<E: Eng> Ctx<E> {
    fn next(&mut self) -> Fr {
        self.used += 1;
        self.el.get(self.used - 1).map(|x| x.fr()).unwrap_or_else(|| Fr::rand(&mut self.rng))
    }
    fn f(&mut self) -> Fr {
        let x = self.next();
        self.fr.push(x);
        x
    }
    fn g(&mut self) -> E::G1Affine {
        let x = E::g1(self.next());
        self.g1.push(x);
        x
    }
    fn h(&mut self) -> E::G2Affine {
        let x = E::g2(self.next());
        self.g2.push(x);
        x
    }
    fn n(&mut self) -> usize {
        // mostly the same length everywhere, sometimes another one
        match self.rng.next_u32() % 6 {
            0 => self.rng.next_u32() as usize % 4,
            _ => self.len,
        }
    }
    fn gs(&mut self) -> Vec<E::G1Affine> {
        (0..self.n()).map(|_| self.g()).collect()
    }
    fn hs(&mut self) -> Vec<E::G2Affine> {
        (0..self.n()).map(|_| self.h()).collect()
    }
    fn fs(&mut self) -> Vec<Fr> {
        (0..self.n()).map(|_| self.f()).collect()
    }
}
trait Visit<E: Eng> {
    /// `points`: group elements are checked when decoding
    fn visit<T: Ser>(&mut self, x: T, c: Ctx<E>, points: bool) -> Outcome;
}
const TYPES: u8 = 16;
fn with<E: BadEnc>(kind: u8, mut c: Ctx<E>, v: &mut impl Visit<E>) -> Outcome {
    match kind {
        0 => { let x = SecretKey(c.f()); v.visit(x, c, true) }
        1 => { let x = SecretKeyST::<E> { s: c.fs(), t: c.fs() }; v.visit(x, c, true) }
        2 => { let x = P1share::<E> { P_1: c.g() }; v.visit(x, c, true) }
        3 => { let x = FEncryptionKeyPartial::<E> { X_0: c.g(), X: c.gs(), Y: c.gs(), Z: c.hs(), P_2: c.g() }; v.visit(x, c, true) }
        4 => { let x = EncryptionKey::<E> { X_0: c.g(), X: c.gs(), Y: c.gs(), Z: c.hs(), P_1: c.g(), P_2: c.g() }; v.visit(x, c, true) }
        5 => { let x = FEncryptionKeyDest::<E> { pk: c.g() }; v.visit(x, c, true) }
        6 => { let x = DecryptionKey::<E> { V_0: c.h(), V_1: c.hs(), V_2: c.hs() }; v.visit(x, c, true) }
        7 => { let x = EncryptionGens::<E> { G: c.g(), H: c.h() }; v.visit(x, c, true) }
        8 => {
            let (g, h) = (c.g(), c.h());
            let x = PreparedEncryptionGens::from(EncryptionGens::<E> { G: g, H: h });
            v.visit(x, c, false)
        }
        9 => { let x = ChunkedCommitmentGens::<E::G1Affine> { G: c.g(), H: c.g() }; v.visit(x, c, true) }
        10 => { let x = Ciphertext::<E> { X_r: c.g(), enc_chunks: c.gs(), commitment: c.g() }; v.visit(x, c, true) }
        11 => { let x = ChunkedCommitment::<E::G1Affine>(c.g(), c.gs()); v.visit(x, c, true) }
        12 => {
            let (g, k) = (c.g(), c.n().min(40));
            let x = WindowTable::<E::G1>::new(k, g.into_group());
            v.visit(x, c, true)
        }
        13 => {
            let mut x = Srs::<E>::get(4, 1 + c.len % 3, c.len as u64 % 2)?.pk.clone();
            // everything replaceable
            x.gamma_g1 = c.g();
            x.pk.beta_g1 = c.g();
            x.pk.delta_g1 = c.g();
            x.pk.vk.alpha_g1 = c.g();
            x.pk.vk.beta_g2 = c.h();
            x.pk.vk.gamma_g2 = c.h();
            x.pk.vk.delta_g2 = c.h();
            x.pk.vk.gamma_abc_g1 = c.gs();
            x.pk.a_query = c.gs();
            x.pk.b_g1_query = c.gs();
            x.pk.b_g2_query = c.hs();
            x.pk.h_query = c.gs();
            x.pk.l_query = c.gs();
            v.visit(x, c, true)
        }
        14 => { let x = ChunkedCommitmentGens::<E::G2Affine> { G: c.h(), H: c.h() }; v.visit(x, c, true) }
        _ => {
            let x = ChunkedCommitment::<E::G2Affine>(c.h(), c.hs());
            v.visit(x, c, true)
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Obj {
    kind: u8,
    len: usize,
    el: Vec<FrS>,
    seed: u64,
}
impl Obj {
    fn ctx<E: Eng>(&self) -> Ctx<E> {
        Ctx { rng: StdRng::seed_from_u64(self.seed), el: self.el.clone(), used: 0, len: self.len, g1: vec![], g2: vec![], fr: vec![] }
    }
}
fn ser<T: CanonicalSerialize>(x: &T, c: Compress) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    must!(x.serialize_with_mode(&mut v, c));
    ensure_eq!(x.serialized_size(c), v.len(), "announced size");
    Ok(v)
}
fn short<T>() -> String {
    type_name::<T>().split('<').next().unwrap().rsplit("::").next().unwrap().to_string()
}
const MODES: [Compress; 2] = [Compress::Yes, Compress::No];

struct RoundTrip;
impl<E: Eng> Visit<E> for RoundTrip {
    fn visit<T: Ser>(&mut self, x: T, _: Ctx<E>, _: bool) -> Outcome {
        let name = short::<T>();
        for m in MODES {
            let b = ser(&x, m)?;
            for v in [Validate::Yes, Validate::No] {
                let mut r = &b[..];
                let y = must!(T::deserialize_with_mode(&mut r, m, v));
                ensure_eq!(y, x, "{name} from its {} form", if matches!(m, Compress::Yes) { "compressed" } else { "uncompressed" });
                ensure!(r.is_empty(), "{name}: {} bytes left", r.len());
                ensure_eq!(ser(&y, m)?, b, "{name}: encodings of equal values");
            }
            // two in a row
            let mut two = b.clone();
            two.extend_from_slice(&b);
            let mut r = &two[..];
            for _ in 0..2 {
                ensure_eq!(must!(T::deserialize_with_mode(&mut r, m, Validate::Yes)), x, "{name} from a stream");
            }
            ensure!(r.is_empty(), "{name}: {} bytes left", r.len());
        }
        ensure!(x.check().is_ok(), "{name}: valid value reported as invalid");
        ensure!(T::batch_check([x.clone(), x.clone()].iter()).is_ok(), "{name}: valid values reported as invalid");
        let j = must!(serde_json::to_string(&x));
        ensure_eq!(must!(serde_json::from_str::<T>(&j)), x, "{name} from JSON");
        ensure_eq!(must!(serde_json::from_slice::<T>(j.as_bytes())), x, "{name} from JSON bytes");
        ensure_eq!(must!(serde_json::from_reader::<_, T>(j.as_bytes())), x, "{name} from a JSON stream");
        let v = must!(serde_json::to_value(&x));
        ensure_eq!(must!(serde_json::from_value::<T>(v)), x, "{name} from a JSON value");
        let b = must!(bincode::serialize(&x));
        ensure_eq!(must!(bincode::deserialize::<T>(&b)), x, "{name} from bincode");
        let mut c = vec![];
        must!(ciborium::into_writer(&x, &mut c));
        ensure_eq!(must!(ciborium::from_reader::<T, _>(&c[..])), x, "{name} from CBOR");
        // a format which keeps byte strings, sequences and numbers apart, in its four styles
        for k in 0..4 {
            let s = tok::Style { human_readable: k & 1 == 0, named: k & 2 == 0 };
            let t = must!(tok::to_tok(&x, s));
            ensure_eq!(must!(tok::from_tok::<T>(&t, s)), x, "{name} from a strictly typed format, {s:?}");
        }
        Ok(Info::new(true).label(name))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rt {
    o: Obj,
}
fn check_rt<E: BadEnc>(c: &Rt) -> Outcome {
    with(c.o.kind, c.o.ctx::<E>(), &mut RoundTrip)
}

/// What is put in place of a correct element
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Bad {
    /// on the curve, outside the prime-order group
    Subgroup,
    /// of small order
    SmallOrder,
    /// no such point
    OffCurve,
    /// coordinate or scalar not below the modulus
    Large,
    /// wrong flag bits
    Flags(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inj {
    o: Obj,
    at: u16,
    bad: Bad,
    seed: u64,
    enc: u8,
}
trait BadEnc: Eng<G1Prepared: PartialEq, G2Prepared: PartialEq> {
    fn bad1(b: Bad, seed: u64, c: Compress) -> Option<Vec<u8>>;
    fn bad2(b: Bad, seed: u64, c: Compress) -> Option<Vec<u8>>;
}
fn large_fr(seed: u64) -> Vec<u8> {
    // r + k, little-endian
    let mut x = Fr::MODULUS;
    use ark_ff::BigInteger;
    x.add_with_carry(&ark_ff::BigInt([seed % 5, 0, 0, 0]));
    if seed % 3 == 0 {
        return vec![0xff; 32];
    }
    x.to_bytes_le()
}
impl BadEnc for Toy {
    fn bad1(b: Bad, seed: u64, _: Compress) -> Option<Vec<u8>> {
        matches!(b, Bad::Large).then(|| large_fr(seed))
    }
    fn bad2(b: Bad, seed: u64, _: Compress) -> Option<Vec<u8>> {
        matches!(b, Bad::Large).then(|| large_fr(seed))
    }
}
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
fn bad_point<P: SWCurveConfig>(b: Bad, seed: u64, c: Compress, p_be: &[u8]) -> Option<Vec<u8>> {
    let mut rng = StdRng::seed_from_u64(seed);
    let raw = |p: &Affine<P>| {
        let mut v = vec![];
        p.serialize_with_mode(&mut v, c).unwrap();
        v
    };
    let curve_point = |rng: &mut StdRng| loop {
        let x = P::BaseField::rand(rng);
        if let Some(p) = Affine::<P>::get_point_from_x_unchecked(x, rng.next_u32() % 2 == 0) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
    };
    match b {
        Bad::Subgroup => Some(raw(&curve_point(&mut rng))),
        Bad::SmallOrder => {
            // kill the prime-order part
            let p = curve_point(&mut rng).mul_bigint(<P::ScalarField as PrimeField>::MODULUS).into_affine();
            (!p.is_zero()).then(|| raw(&p))
        }
        Bad::OffCurve => match c {
            Compress::Yes => {
                // the encoding of a point on the curve with a smaller x until there is no point
                for _ in 0..200 {
                    let p = curve_point(&mut rng);
                    let mut v = raw(&p);
                    let n = v.len();
                    v[n - 1] ^= 1 << (rng.next_u32() % 8);
                    if Affine::<P>::deserialize_with_mode(&v[..], c, Validate::No).is_err() {
                        return Some(v);
                    }
                }
                None
            }
            Compress::No => {
                let p = Affine::<P>::new_unchecked(P::BaseField::rand(&mut rng), P::BaseField::rand(&mut rng));
                Some(raw(&p))
            }
        },
        Bad::Large => {
            let mut v = raw(&P::GENERATOR);
            // last coordinate part is plain, the first one carries flags
            let n = v.len();
            let k = if seed % 2 == 0 && n > p_be.len() { n - p_be.len() } else { 0 };
            let flags = v[0] & 0xe0;
            v[k..k + p_be.len()].copy_from_slice(p_be);
            if k == 0 {
                v[0] |= flags;
            }
            Some(v)
        }
        Bad::Flags(f) => {
            let mut v = raw(&(P::GENERATOR * P::ScalarField::rand(&mut rng)).into_affine());
            // compression bit wrong
            v[0] ^= 0x80 | (f & 0x20);
            Some(v)
        }
    }
}
fn p_be() -> Vec<u8> {
    use ark_ff::BigInteger;
    ark_bls12_381::Fq::MODULUS.to_bytes_be()
}
impl BadEnc for Bls {
    fn bad1(b: Bad, seed: u64, c: Compress) -> Option<Vec<u8>> {
        bad_point::<ark_bls12_381::g1::Config>(b, seed, c, &p_be())
    }
    fn bad2(b: Bad, seed: u64, c: Compress) -> Option<Vec<u8>> {
        bad_point::<ark_bls12_381::g2::Config>(b, seed, c, &p_be())
    }
}
struct Inject<'a>(&'a Inj);
fn replace(v: &mut [u8], old: &[u8], new: &[u8]) -> bool {
    if old.len() != new.len() {
        return false;
    }
    if let Some(i) = v.windows(old.len()).position(|w| w == old) {
        v[i..i + old.len()].copy_from_slice(new);
        return true;
    }
    false
}
fn replace_json(v: &mut serde_json::Value, old: &serde_json::Value, new: &serde_json::Value) -> bool {
    if v == old {
        *v = new.clone();
        return true;
    }
    match v {
        serde_json::Value::Array(a) => a.iter_mut().any(|x| replace_json(x, old, new)),
        serde_json::Value::Object(o) => o.values_mut().any(|x| replace_json(x, old, new)),
        _ => false,
    }
}
impl<'a, E: BadEnc> Visit<E> for Inject<'a> {
    fn visit<T: Ser>(&mut self, x: T, c: Ctx<E>, points: bool) -> Outcome {
        let i = self.0;
        let name = short::<T>();
        let n = c.g1.len() + c.g2.len() + c.fr.len();
        if n == 0 || !points {
            return Ok(Info::new(false));
        }
        let k = i.at as usize % n;
        let m = if i.enc == 1 { Compress::No } else { Compress::Yes };
        let (old, new, fr) = if k < c.g1.len() {
            (ser(&c.g1[k], m)?, E::bad1(i.bad, i.seed, m), false)
        } else if k < c.g1.len() + c.g2.len() {
            (ser(&c.g2[k - c.g1.len()], m)?, E::bad2(i.bad, i.seed, m), false)
        } else {
            (ser(&c.fr[k - c.g1.len() - c.g2.len()], m)?, Some(large_fr(i.seed)), true)
        };
        let Some(new) = new else { return Ok(Info::new(false)) };
        let (what, res): (_, Result<T, String>) = match i.enc {
            0 | 1 => {
                let mut b = ser(&x, m)?;
                if !replace(&mut b, &old, &new) {
                    return Ok(Info::new(false));
                }
                let r = no_panic(|| T::deserialize_with_mode(&b[..], m, Validate::Yes))?;
                (if i.enc == 0 { "compressed" } else { "uncompressed" }, r.map_err(|e| format!("{e:?}")))
            }
            2 => {
                let mut v = must!(serde_json::to_value(&x));
                if !replace_json(&mut v, &must!(serde_json::to_value(&old)), &must!(serde_json::to_value(&new))) {
                    return Ok(Info::new(false));
                }
                let s = v.to_string();
                ("JSON", no_panic(|| serde_json::from_str::<T>(&s))?.map_err(|e| e.to_string()))
            }
            _ => {
                let mut b = must!(bincode::serialize(&x));
                if !replace(&mut b, &old, &new) {
                    return Ok(Info::new(false));
                }
                ("bincode", no_panic(|| bincode::deserialize::<T>(&b))?.map_err(|e| e.to_string()))
            }
        };
        let bad = if fr { format!("scalar {new:?}") } else { format!("{:?} element", i.bad) };
        ensure!(res.is_err(), "{name} with {bad} accepted from {what}: {res:.300?}");
        Ok(Info::new(true).label(what).label(format!("{}{name}", if fr { "scalar in " } else { "" })))
    }
}
fn check_inj<E: BadEnc>(c: &Inj) -> Outcome {
    with(c.o.kind, c.o.ctx::<E>(), &mut Inject(c))
}

/// An element in another form or of another length inside the serde encodings
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Form {
    o: Obj,
    at: u16,
    /// none: the element itself
    bad: Option<Bad>,
    compressed: bool,
    flag: Option<u8>,
    /// bytes cut off (negative) or put behind
    cut: i16,
    seed: u64,
    enc: u8,
}
struct Reform<'a>(&'a Form);
fn replace_cbor(v: &mut ciborium::Value, old: &[u8], new: &[u8]) -> bool {
    use ciborium::Value::{Array, Bytes, Map};
    let ints = |b: &[u8]| Array(b.iter().map(|x| (*x).into()).collect());
    if *v == ints(old) {
        *v = ints(new);
        return true;
    }
    match v {
        Bytes(b) if b == old => {
            *b = new.to_vec();
            true
        }
        Array(a) => a.iter_mut().any(|x| replace_cbor(x, old, new)),
        Map(m) => m.iter_mut().any(|x| replace_cbor(&mut x.1, old, new)),
        _ => false,
    }
}
impl<'a, E: BadEnc> Visit<E> for Reform<'a> {
    fn visit<T: Ser>(&mut self, x: T, c: Ctx<E>, points: bool) -> Outcome {
        let i = self.0;
        let name = short::<T>();
        let n = c.g1.len() + c.g2.len() + c.fr.len();
        if n == 0 || !points {
            return Ok(Info::new(false));
        }
        let k = i.at as usize % n;
        let m = if i.compressed { Compress::Yes } else { Compress::No };
        let (n1, n2) = (c.g1.len(), c.g1.len() + c.g2.len());
        let (old, new) = if k < n1 {
            (ser(&c.g1[k], Compress::Yes)?, match i.bad { None => Some(ser(&c.g1[k], m)?), Some(_) if E::TOY => Some(large_fr(i.seed)), Some(b) => E::bad1(b, i.seed, m) })
        } else if k < n2 {
            (ser(&c.g2[k - n1], Compress::Yes)?, match i.bad { None => Some(ser(&c.g2[k - n1], m)?), Some(_) if E::TOY => Some(large_fr(i.seed)), Some(b) => E::bad2(b, i.seed, m) })
        } else {
            (ser(&c.fr[k - n2], Compress::Yes)?, match i.bad { None => Some(ser(&c.fr[k - n2], m)?), Some(_) => Some(large_fr(i.seed)) })
        };
        let Some(mut new) = new else { return Ok(Info::new(false)) };
        if let Some(f) = i.flag {
            new[0] = f;
        }
        let mut side = StdRng::seed_from_u64(i.seed);
        if i.cut < 0 {
            let l = new.len().saturating_sub(i.cut.unsigned_abs() as usize);
            new.truncate(l);
        } else {
            for _ in 0..i.cut {
                new.push(if i.seed % 2 == 0 { 0 } else { side.next_u32() as u8 });
            }
        }
        let mut j = must!(serde_json::to_value(&x));
        if !replace_json(&mut j, &must!(serde_json::to_value(&old)), &must!(serde_json::to_value(&new))) {
            return Ok(Info::new(false));
        }
        let (what, res): (_, Result<T, String>) = match i.enc % 5 {
            0 => ("JSON", no_panic(|| serde_json::from_str::<T>(&j.to_string()))?.map_err(|e| e.to_string())),
            1 => ("a JSON value", no_panic(|| serde_json::from_value::<T>(j))?.map_err(|e| e.to_string())),
            2 => ("a JSON stream", no_panic(|| serde_json::from_reader::<_, T>(j.to_string().as_bytes()))?.map_err(|e| e.to_string())),
            3 => {
                let mut b = must!(bincode::serialize(&x));
                let with_len = |v: &[u8]| [&(v.len() as u64).to_le_bytes()[..], v].concat();
                let (o, n) = (with_len(&old), with_len(&new));
                let Some(p) = b.windows(o.len()).position(|w| w == o) else { return Ok(Info::new(false)) };
                b.splice(p..p + o.len(), n);
                ("bincode", no_panic(|| bincode::deserialize::<T>(&b))?.map_err(|e| e.to_string()))
            }
            _ => {
                let mut v = must!(ciborium::Value::serialized(&x));
                if !replace_cbor(&mut v, &old, &new) {
                    return Ok(Info::new(false));
                }
                let mut b = vec![];
                must!(ciborium::into_writer(&v, &mut b));
                ("CBOR", no_panic(|| ciborium::from_reader::<T, _>(&b[..]))?.map_err(|e| e.to_string()))
            }
        };
        let mut l = "rejected";
        if let Ok(y) = res {
            l = "accepted";
            ensure!(new.len() >= old.len(), "{name} from {what} accepted with {} of the {} bytes of an element", new.len(), old.len());
            ensure!(y.check().is_ok(), "{name} from {what}: decoded to a value with invalid elements: {y:.300?}");
            let v = ser(&y, Compress::Yes)?;
            ensure!(T::deserialize_compressed(&v[..]).is_ok_and(|z| z == y), "{name} from {what}: decoded to a value whose own encoding is rejected: {y:.300?}");
            // what the bytes mean on their own
            let canon = if k < n1 {
                E::G1Affine::deserialize_compressed(&new[..]).ok().map(|p| ser(&p, Compress::Yes))
            } else if k < n2 {
                E::G2Affine::deserialize_compressed(&new[..]).ok().map(|p| ser(&p, Compress::Yes))
            } else {
                Fr::deserialize_compressed(&new[..]).ok().map(|p| ser(&p, Compress::Yes))
            };
            if let Some(canon) = canon {
                let mut want = must!(serde_json::to_value(&x));
                replace_json(&mut want, &must!(serde_json::to_value(&old)), &must!(serde_json::to_value(&canon?)));
                ensure_eq!(must!(serde_json::to_value(&y)), want, "{name} from {what} with one element replaced");
            }
        }
        Ok(Info::new(new != old).label(what).label(l).label_if(!i.compressed, "uncompressed"))
    }
}
fn check_form<E: BadEnc>(c: &Form) -> Outcome {
    with(c.o.kind, c.o.ctx::<E>(), &mut Reform(c))
}
fn forms(o: BoxedStrategy<Obj>) -> BoxedStrategy<Form> {
    let bad = prop_oneof![
        4 => Just(None),
        2 => Just(Some(Bad::Subgroup)),
        1 => Just(Some(Bad::SmallOrder)),
        3 => Just(Some(Bad::OffCurve)),
        1 => Just(Some(Bad::Large)),
        1 => any::<u8>().prop_map(|f| Some(Bad::Flags(f))),
    ];
    let flag = prop_oneof![4 => Just(None), 1 => any::<u8>().prop_map(Some), 1 => (0u8..8, 0u8..27).prop_map(|(a, b)| Some(a << 5 | b))];
    let cut = prop_oneof![6 => Just(0i16), 1 => -3i16..0, 1 => -100i16..0, 1 => 1i16..4, 1 => 1i16..100];
    bx((o, any::<u16>(), bad, proptest::bool::weighted(0.3), flag, cut, any::<u64>(), 0u8..5)
        .prop_map(|(o, at, bad, compressed, flag, cut, seed, enc)| Form { o, at, bad, compressed, flag, cut, seed, enc }))
}

/// Byte edits
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Flip(u32, u8),
    Set(u32, u8),
    Truncate(u32),
    Insert(u32, u8),
    Delete(u32, u8),
    /// 8 bytes
    Word(u32, u64),
    Copy(u32, u32, u8),
    Random(Vec<u8>),
    Zeros(u32, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutated {
    o: Obj,
    muts: Vec<Mut>,
    enc: u8,
}
fn mutate(b: &mut Vec<u8>, m: &Mut) {
    let n = b.len();
    let at = |i: &u32| *i as usize % n.max(1);
    if n == 0 {
        return;
    }
    match m {
        Mut::Flip(i, k) => b[at(i)] ^= 1 << (k % 8),
        Mut::Set(i, k) => b[at(i)] = *k,
        Mut::Truncate(i) => b.truncate(at(i)),
        Mut::Insert(i, k) => b.insert(at(i), *k),
        Mut::Delete(i, k) => {
            let s = at(i);
            b.drain(s..(s + 1 + *k as usize % 50).min(n));
        }
        Mut::Word(i, w) => {
            for (j, x) in w.to_le_bytes().iter().enumerate() {
                let p = (at(i) / 8 * 8 + j).min(n - 1);
                b[p] = *x;
            }
        }
        Mut::Copy(i, j, k) => {
            for x in 0..*k as usize {
                let v = b[(at(i) + x) % n];
                b[(at(j) + x) % n] = v;
            }
        }
        Mut::Random(v) => *b = v.clone(),
        Mut::Zeros(i, k) => {
            let s = at(i);
            b[s..(s + *k as usize).min(n)].fill(0);
        }
    }
}
struct Fuzz<'a>(&'a Mutated);
impl<'a, E: Eng> Visit<E> for Fuzz<'a> {
    fn visit<T: Ser>(&mut self, x: T, _: Ctx<E>, points: bool) -> Outcome {
        let name = short::<T>();
        let c = self.0;
        let orig = match c.enc {
            0 => ser(&x, Compress::Yes)?,
            1 => ser(&x, Compress::No)?,
            2 => must!(serde_json::to_vec(&x)),
            3 => must!(bincode::serialize(&x)),
            _ => {
                let mut v = vec![];
                must!(ciborium::into_writer(&x, &mut v));
                v
            }
        };
        let mut b = orig.clone();
        for m in &c.muts {
            mutate(&mut b, m);
        }
        let changed = b != orig;
        let res = match c.enc {
            0 => no_panic(|| T::deserialize_compressed(&b[..]).map_err(|e| e.to_string()))?,
            1 => no_panic(|| T::deserialize_uncompressed(&b[..]).map_err(|e| e.to_string()))?,
            2 => no_panic(|| serde_json::from_slice::<T>(&b).map_err(|e| e.to_string()))?,
            3 => no_panic(|| bincode::deserialize::<T>(&b).map_err(|e| e.to_string()))?,
            _ => no_panic(|| ciborium::from_reader::<T, _>(&b[..]).map_err(|e| e.to_string()))?,
        };
        if b.len() < orig.len() && orig.starts_with(&b) {
            ensure!(res.is_err(), "{name} accepted from {} of {} bytes", b.len(), orig.len());
        }
        let mut l = "rejected";
        if let Ok(y) = res {
            l = "accepted";
            if points {
                ensure!(y.check().is_ok(), "{name}: decoded to a value with invalid elements: {y:.300?}");
                // through its own encoding it stays the same value
                let v = ser(&y, Compress::Yes)?;
                let z = T::deserialize_compressed(&v[..]);
                ensure!(z.is_ok_and(|z| z == y), "{name}: decoded to a value whose own encoding is rejected: {y:.300?}");
                if c.enc == 0 {
                    // canonical, except for the identity (the curve library ignores the rest of its encoding)
                    if !b.starts_with(&v) && !E::TOY {
                        let mut w = b[..v.len().min(b.len())].to_vec();
                        // blank those encodings in the input that claim to be the identity
                        for k in 0..w.len() {
                            if w[k] & 0xc0 == 0xc0 && v[k] == 0xc0 {
                                w[k] = 0xc0;
                                for t in k + 1..(k + 96).min(w.len()) {
                                    if v[t] != 0 { break }
                                    w[t] = 0;
                                }
                            }
                        }
                        ensure!(w == v, "{name}: accepted from an encoding that is not its own: {b:?}");
                    }
                    ensure!(!E::TOY || b.starts_with(&v), "{name}: accepted from an encoding that is not its own: {b:?}");
                }
            }
        }
        Ok(Info::new(changed).label(l).label(["compressed", "uncompressed", "JSON", "bincode", "CBOR"][c.enc.min(4) as usize]))
    }
}
fn check_mut<E: BadEnc>(c: &Mutated) -> Outcome {
    with(c.o.kind, c.o.ctx::<E>(), &mut Fuzz(c))
}

/// Recovered values keep working
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Works {
    keys: u64,
    msg: Vec<u16>,
    parties: usize,
    rng: RngS,
    enc: u8,
}
fn again<T: Ser>(x: &T, enc: u8) -> Result<T, String> {
    Ok(match enc % 5 {
        0 => must!(T::deserialize_compressed(&ser(x, Compress::Yes)?[..])),
        1 => must!(T::deserialize_uncompressed(&ser(x, Compress::No)?[..])),
        2 => must!(serde_json::from_str(&must!(serde_json::to_string(x)))),
        3 => must!(bincode::deserialize(&must!(bincode::serialize(x)))),
        _ => {
            let mut v = vec![];
            must!(ciborium::into_writer(x, &mut v));
            must!(ciborium::from_reader(&v[..]))
        }
    })
}
fn check_works<E: Eng>(c: &Works) -> Outcome {
    let n = c.msg.len();
    let s = Srs::<E>::get(4, n, c.keys % 2)?;
    let mut rng = c.rng.rng();
    let mut e = c.enc;
    macro_rules! re { ($x:expr) => {{ e = e.wrapping_add(1); again(&$x, e)? }} }
    let gens = re!(s.gens);
    let pk = re!(s.pk);
    let vk = &pk.pk.vk;
    let g_i = saver_groth16::get_gs_for_encryption(vk);
    // single authority
    let (sk, ek, dk) = single_over(&s, c.keys)?;
    let (sk, ek, dk) = (re!(sk), re!(ek), re!(dk));
    let (v, r) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.msg.clone(), &ek, g_i));
    let ct = re!(to_ct::<E>(&v));
    must!(ct.verify_commitment(ek.clone(), gens.clone()));
    let circuit = BitsizeCheckCircuit::new(4, Some(n as u8), Some(frv(&c.msg)), true);
    let proof = must!(saver_groth16::create_proof(circuit, &r, &pk, &ek, &mut rng));
    let pvk = saver_groth16::prepare_verifying_key(vk);
    must!(saver_groth16::verify_proof(&pvk, &proof, &ct));
    let (m, _) = must!(Encryption::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, dk, g_i, 4));
    ensure_eq!(m, c.msg, "decrypted with recovered keys");
    // distributed
    let (mut sks, mut eks) = (vec![], vec![]);
    for _ in 0..c.parties {
        let (a, b) = must!(FkeygenPartial(&mut rng, bits_for(n), &gens, g_i, &pk.pk.delta_g1, &pk.gamma_g1));
        sks.push(re!(a));
        eks.push(re!(b));
    }
    let comb = re!(combineEKs(&pk.gamma_g1, &eks));
    let mut sh = vec![];
    for s in &sks {
        sh.push(re!(genP1share(&comb, s)));
    }
    let ek = re!(keygenFinal(&comb, &re!(combineP1share(&sh))));
    let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.msg.clone(), &ek, g_i));
    let ct = re!(to_ct::<E>(&v));
    must!(ct.verify_commitment(ek.clone(), gens.clone()));
    let (skd, ekd) = must!(Fkeygen_dest(&mut rng, &gens));
    let (skd, ekd) = (re!(skd), re!(ekd));
    let mut acc: Option<(Vec<E::G1Affine>, E::G1Affine)> = None;
    for s in &sks {
        let (w, g) = must!(Encryption::re_encrypt_share(&mut rng, &gens, &ct.X_r, &ct.enc_chunks, &ekd, s));
        acc = Some(match acc {
            None => (w, g),
            Some(a) => must!(Encryption::<E>::combine_re_encrypt_share(&a.1, &g, &a.0, &w)),
        });
    }
    let (w, g) = acc.unwrap();
    let sw = must!(Encryption::<E>::combine_ct_with_w(&gens, &ct.enc_chunks, &g, &w));
    let m = must!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, g_i, 4));
    ensure_eq!(m, c.msg, "switched with recovered keys");
    // table and commitment
    let x = Fr::rand(&mut rng);
    let t = re!(WindowTable::<E::G1>::new(1 + n, g_i[0].into_group()));
    ensure_eq!(t.multiply(&x), g_i[0] * x, "recovered table");
    ensure_eq!(t.multiply_many(&[x, Fr::one()]), vec![g_i[0] * x, g_i[0].into_group()], "recovered table");
    Ok(Info::new(true))
}

fn obj(maxlen: usize, kinds: BoxedStrategy<u8>, edges: bool) -> BoxedStrategy<Obj> {
    let el = if edges { frs() } else { bx(any::<u64>().prop_map(FrS::Rand)) };
    bx((kinds, prop_oneof![20 => 0..=maxlen.min(5), 1 => 0..=maxlen], proptest::collection::vec(el, 0..8), any::<u64>())
        .prop_map(|(kind, len, el, seed)| Obj { kind, len, el, seed }))
}
fn all_kinds() -> BoxedStrategy<u8> {
    bx(0..TYPES)
}
fn muts() -> BoxedStrategy<Vec<Mut>> {
    let p = || prop_oneof![2 => 0u32..60, 1 => any::<u32>()];
    let m = prop_oneof![
        6 => (p(), any::<u8>()).prop_map(|(a, b)| Mut::Flip(a, b)),
        3 => (p(), prop_oneof![Just(0u8), Just(0xff), Just(0xc0), Just(0x80), Just(0x40), any::<u8>()]).prop_map(|(a, b)| Mut::Set(a, b)),
        3 => any::<u32>().prop_map(Mut::Truncate),
        1 => (p(), any::<u8>()).prop_map(|(a, b)| Mut::Insert(a, b)),
        1 => (p(), any::<u8>()).prop_map(|(a, b)| Mut::Delete(a, b)),
        2 => (p(), prop_oneof![Just(u64::MAX), Just(u64::MAX >> 1), Just(1 << 32), Just(1 << 40), Just(u64::MAX / 48 + 1), any::<u64>(), 0u64..10]).prop_map(|(a, b)| Mut::Word(a, b)),
        1 => (any::<u32>(), any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Mut::Copy(a, b, c)),
        1 => proptest::collection::vec(any::<u8>(), 0..200).prop_map(Mut::Random),
        1 => (p(), any::<u8>()).prop_map(|(a, b)| Mut::Zeros(a, b)),
    ];
    bx(prop_oneof![3 => m.clone().prop_map(|m| vec![m]), 1 => proptest::collection::vec(m, 1..4)])
}
fn mutated(o: BoxedStrategy<Obj>) -> BoxedStrategy<Mutated> {
    bx((o, muts(), prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => 2u8..5]).prop_map(|(o, muts, enc)| Mutated { o, muts, enc }))
}
fn inj(o: BoxedStrategy<Obj>) -> BoxedStrategy<Inj> {
    let bad = prop_oneof![
        3 => Just(Bad::Subgroup),
        1 => Just(Bad::SmallOrder),
        2 => Just(Bad::OffCurve),
        2 => Just(Bad::Large),
        1 => any::<u8>().prop_map(Bad::Flags),
    ];
    bx((o, any::<u16>(), bad, any::<u64>(), 0u8..4).prop_map(|(o, at, bad, seed, enc)| Inj { o, at, bad, seed, enc }))
}
fn main() {
    let mut p = Prop::new("C15", "Keys, ciphertexts and parameters survive serialization; bad bytes rejected");
    p.assume("the curve library accepts any bytes behind the identity flag; off-curve uncompressed single points are rejected through its subgroup check");
    p.assume("no element recurs inside the encoding of another one");
    // tables are large on the real curve
    let small = || bx(prop_oneof![16 => 0u8..12, 3 => 13u8..TYPES, 1 => Just(12u8)]);
    p.part("round_trip_toy", "16 types, all encodings, edge values, vectors of up to 300 elements; non-trivial: all", 2500, 100_000, || bx(obj(300, all_kinds(), true).prop_map(|o| Rt { o })), check_rt::<Toy>);
    p.part("round_trip_bls", "as round_trip_toy over BLS12-381", 200, 10_000, move || bx(obj(5, small(), true).prop_map(|o| Rt { o })), check_rt::<Bls>);
    p.part("inject_toy", "one scalar or element replaced by a value that is not reduced: rejected by all decoders; non-trivial: something was replaced", 2000, 100_000, || inj(obj(6, all_kinds(), false)), check_inj::<Toy>);
    p.part("inject_bls", "one element replaced by a point outside the subgroup, of small order, off the curve, not reduced or with wrong flags: rejected by all decoders; non-trivial: something was replaced", 700, 40_000, move || inj(obj(4, small(), false)), check_inj::<Bls>);
    let nf = "one element inside the serde encodings uncompressed, with other flags, shortened, extended or invalid: rejected or a valid value, the one its bytes stand for; non-trivial: something was replaced";
    p.part("forms_toy", nf, 3000, 150_000, || forms(obj(6, all_kinds(), true)), check_form::<Toy>);
    p.part("forms_bls", &format!("BLS12-381; {nf}"), 1500, 60_000, move || forms(obj(4, small(), false)), check_form::<Bls>);
    p.part("bytes_toy", "altered, truncated and random bytes: no panic, valid values only, canonical in compressed form; non-trivial: bytes changed", 20_000, 2_000_000, || mutated(obj(6, all_kinds(), true)), check_mut::<Toy>);
    p.part("bytes_bls", "as bytes_toy over BLS12-381", 1500, 100_000, move || mutated(obj(3, small(), true)), check_mut::<Bls>);
    p.part("works_toy", "protocol run with every value passed through an encoding; non-trivial: all", 300, 10_000, || works(4), check_works::<Toy>);
    p.part("works_bls", "as works_toy over BLS12-381", 16, 800, || works(2), check_works::<Bls>);
    p.finish()
}
fn works(maxn: usize) -> BoxedStrategy<Works> {
    bx((any::<u64>(), (1..=maxn).prop_flat_map(|n| chunks(4, n)), 1usize..4, rng_plain(), any::<u8>())
        .prop_map(|(keys, msg, parties, rng, enc)| Works { keys, msg, parties, rng, enc }))
}
