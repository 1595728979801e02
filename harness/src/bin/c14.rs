use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use digest::{generic_array::GenericArray, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use dsv_harness::*;
use proptest::prop_oneof;
use std::{
    collections::HashSet,
    marker::PhantomData,
    sync::{Mutex, MutexGuard},
};

/// What the recording hash does: fails (returns undecodable bytes) for the first `first` inputs and for those
/// inputs whose checksum says so
#[derive(Default)]
struct Script {
    first: u32,
    rate: u8,
    salt: u64,
    bad: Vec<u8>,
    limit: usize,
    log: Vec<Vec<u8>>,
    out: Vec<Vec<u8>>,
}
static SCRIPT: Mutex<Option<Script>> = Mutex::new(None);
/// One scripted case at a time
static TURN: Mutex<()> = Mutex::new(());
fn turn() -> MutexGuard<'static, ()> {
    TURN.lock().unwrap_or_else(|e| e.into_inner())
}
fn script<R>(f: impl FnOnce(&mut Option<Script>) -> R) -> R {
    f(&mut SCRIPT.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Records what is hashed with D
struct Rec<D>(Vec<u8>, PhantomData<D>);
impl<D> Default for Rec<D> {
    fn default() -> Self {
        Rec(vec![], PhantomData)
    }
}
impl<D> HashMarker for Rec<D> {}
impl<D: OutputSizeUser> OutputSizeUser for Rec<D> {
    type OutputSize = D::OutputSize;
}
impl<D> Update for Rec<D> {
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
}
impl<D: FixedOutput + Default + Update + HashMarker> FixedOutput for Rec<D> {
    fn finalize_into(self, out: &mut Output<Self>) {
        let mut h: Output<D> = <D as digest::Digest>::digest(&self.0);
        let stop = script(|s| {
            let Some(s) = s.as_mut() else { return false };
            let k = s.log.len();
            let mut b = self.0.clone();
            b.extend_from_slice(&s.salt.to_le_bytes());
            if (k as u32) < s.first || (fnv(&b) % 256) < s.rate as u64 {
                h = GenericArray::clone_from_slice(&s.bad);
            }
            s.log.push(self.0);
            s.out.push(h.to_vec());
            s.log.len() > s.limit
        });
        if stop {
            panic!("no end after the number of attempts that may be needed");
        }
        out.copy_from_slice(&h);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sc {
    first: u32,
    rate: u8,
    salt: u64,
}
fn run<R>(sc: &Sc, bad: &[u8], f: impl FnOnce() -> R) -> Result<(R, Vec<Vec<u8>>, Vec<Vec<u8>>), String> {
    // at rate 240/256 the probability of 3000 failures in a row is below 2^-250
    let limit = 2 * sc.first as usize + 9000;
    script(|s| *s = Some(Script { first: sc.first, rate: sc.rate, salt: sc.salt, bad: bad.to_vec(), limit, ..Default::default() }));
    let r = no_panic(f);
    let s = script(|s| s.take()).unwrap();
    Ok((r?, s.log, s.out))
}

/// Something that is decoded from hash output
trait Target: PartialEq + Copy + std::fmt::Debug {
    fn decode(b: &[u8]) -> Option<Self>;
    fn well_formed(&self) -> Result<(), String>;
    /// number of functions of the crate deriving such a value
    const KINDS: usize;
    fn derive<D: digest::Digest>(kind: usize, b: &[u8]) -> Self;
}
macro_rules! target_group {
    ($t:ty, $real:expr $(, $p:ident)?) => {
        impl $(<$p: SWCurveConfig>)? Target for $t {
            fn decode(b: &[u8]) -> Option<Self> {
                <$t as AffineRepr>::from_random_bytes(b).map(|p| p.mul_by_cofactor_to_group().into_affine())
            }
            fn well_formed(&self) -> Result<(), String> {
                ensure!(!AffineRepr::is_zero(self), "identity derived");
                ensure!($real(self), "not an element of the prime-order group: {self:?}");
                Ok(())
            }
            const KINDS: usize = 2;
            fn derive<D: digest::Digest>(kind: usize, b: &[u8]) -> Self {
                match kind {
                    0 => utils::affine_group_elem_from_try_and_incr::<$t, D>(b),
                    _ => utils::projective_group_elem_from_try_and_incr::<$t, D>(b).into_affine(),
                }
            }
        }
    };
}
target_group!(toy::T<1>, |_: &toy::T<1>| true);
target_group!(toy::T<2>, |_: &toy::T<2>| true);
fn order_ok<G: AffineRepr>(p: &G) -> bool {
    p.mul_bigint(<G::ScalarField as PrimeField>::MODULUS).is_zero()
}
target_group!(Affine<P>, |p: &Affine<P>| p.is_on_curve() && order_ok(p), P);
macro_rules! target_field {
    ($t:ty) => {
        impl Target for $t {
            fn decode(b: &[u8]) -> Option<Self> {
                <$t as Field>::from_random_bytes(b)
            }
            fn well_formed(&self) -> Result<(), String> {
                Ok(())
            }
            const KINDS: usize = 1;
            fn derive<D: digest::Digest>(_: usize, b: &[u8]) -> Self {
                utils::field_elem_from_try_and_incr::<$t, D>(b)
            }
        }
    };
}
target_field!(Fr);
target_field!(ark_bls12_381::Fq);

/// Bytes of the digest's length that decode to none of the given types
fn bad_bytes<D: OutputSizeUser>(seed: u64, decodes: impl Fn(&[u8]) -> bool) -> Option<Vec<u8>> {
    let n = D::output_size();
    let mut rng = StdRng::seed_from_u64(seed);
    for i in 0..400 {
        let mut b = vec![0xffu8; n];
        if i > 0 {
            rng.fill_bytes(&mut b);
        }
        if !decodes(&b) {
            return Some(b);
        }
    }
    None
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    label: Vec<u8>,
    edit: Edit,
    sc: Sc,
    what: u8,
    hash: u8,
}
/// The second label
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Flip(u16, u8),
    Append(Vec<u8>),
    Prepend(Vec<u8>),
    Cut(u16),
    CutFront(u16),
    Swap(u16, u16),
    Dup,
    Other(Vec<u8>),
    Role(bool),
}
fn second(l: &[u8], e: &Edit) -> Vec<u8> {
    let mut v = l.to_vec();
    let n = v.len();
    match e {
        Edit::Flip(i, b) if n > 0 => v[*i as usize % n] ^= 1 << (b % 8),
        Edit::Append(x) => v.extend_from_slice(x),
        Edit::Prepend(x) => {
            v = x.clone();
            v.extend_from_slice(l)
        }
        Edit::Cut(k) => v.truncate(n - (*k as usize % (n + 1))),
        Edit::CutFront(k) => {
            v.drain(..*k as usize % (n + 1));
        }
        Edit::Swap(i, j) if n > 0 => v.swap(*i as usize % n, *j as usize % n),
        Edit::Dup => v.extend_from_slice(l),
        Edit::Other(x) => v = x.clone(),
        Edit::Role(b) => v.extend_from_slice(if *b { b" : G" } else { b" : H" }),
        _ => {}
    }
    v
}
/// The retry suffix makes an input of one label an input of another one
fn retry_related(a: &[u8], b: &[u8]) -> bool {
    let (s, l) = if a.len() < b.len() { (a, b) } else { (b, a) };
    l.starts_with(s) && l[s.len()..].starts_with(b"-attempt-")
}
fn fresh_inputs(log: &[Vec<u8>]) -> Result<(), String> {
    let s: HashSet<&Vec<u8>> = log.iter().collect();
    ensure_eq!(s.len(), log.len(), "the same input hashed more than once in one derivation");
    Ok(())
}
/// A digest of the workspace
trait Hash: FixedOutput + Default + Update + HashMarker {}
impl<D: FixedOutput + Default + Update + HashMarker> Hash for D {}

fn one<T: Target, D: Hash>(c: &Case, name: &str) -> Outcome {
    let Some(bad) = bad_bytes::<D>(c.sc.salt, |b| T::decode(b).is_some()) else { return Ok(Info::new(false)) };
    let l2 = second(&c.label, &c.edit);
    let mut res = vec![];
    for l in [&c.label, &l2] {
        let mut all = vec![];
        for kind in 0..T::KINDS {
            let (r, log, out) = {
                let _t = turn();
                run(&c.sc, &bad, || T::derive::<Rec<D>>(kind, l))?
            };
            fresh_inputs(&log)?;
            let Some(i) = out.iter().position(|o| T::decode(o).is_some()) else {
                return Err(format!("{name}: result although none of {} hashes decodes", log.len()));
            };
            ensure_eq!(r, T::decode(&out[i]).unwrap(), "{name}: not the first hash that decodes (number {i}), label {l:?}");
            r.well_formed()?;
            // determined by label and hash function alone
            let (a, b) = (T::derive::<D>(kind, l), T::derive::<D>(kind, l));
            ensure_eq!(a, b, "{name}: not deterministic");
            a.well_formed()?;
            all.push((r, a, log, i));
        }
        ensure!(all.iter().all(|x| x.0 == all[0].0 && x.1 == all[0].1), "{name}: derivations differ");
        res.push(all.swap_remove(0));
    }
    if c.label != l2 && !retry_related(&c.label, &l2) {
        let s: HashSet<&Vec<u8>> = res[0].2.iter().collect();
        if let Some(x) = res[1].2.iter().find(|x| s.contains(x)) {
            return Err(format!("{name}: labels {:?} and {l2:?} hash the same input {x:?}", c.label));
        }
        ensure!(res[0].0 != res[1].0 && res[0].1 != res[1].1, "{name}: same result for labels {:?} and {l2:?}", c.label);
    }
    let i = res[0].3;
    Ok(Info::new(c.label != l2).label(name).label_if(i > 0, "retries").label_if(i >= 256, "256 and more retries").label_if(i >= 65536, "65536 and more retries"))
}
fn elem<D: Hash>(c: &Case, what: u8) -> Outcome {
    match what {
        0 => one::<toy::T<1>, D>(c, "toy group"),
        1 => one::<ark_bls12_381::G1Affine, D>(c, "G1"),
        2 => one::<ark_bls12_381::G2Affine, D>(c, "G2"),
        3 => one::<Fr, D>(c, "scalar field"),
        _ => one::<ark_bls12_381::Fq, D>(c, "base field"),
    }
}
fn check_elem(c: &Case) -> Outcome {
    match c.hash {
        0 => elem::<blake2::Blake2b512>(c, c.what),
        1 => elem::<sha2::Sha256>(c, c.what),
        2 => elem::<sha2::Sha384>(c, c.what),
        _ => elem::<blake2::Blake2s256>(c, c.what),
    }
}

/// Generator sets: two elements from one label
fn pair<A: Target, B: Target, D: Hash>(c: &Case, name: &str, mk: impl Fn(&[u8]) -> (A, B), rec: impl Fn(&[u8]) -> (A, B), equal: impl Fn(&A, &B) -> bool) -> Outcome {
    let Some(bad) = bad_bytes::<D>(c.sc.salt, |b| A::decode(b).is_some() || B::decode(b).is_some()) else { return Ok(Info::new(false)) };
    let l2 = second(&c.label, &c.edit);
    let mut res = vec![];
    for l in [&c.label, &l2] {
        let ((g, h), log, out) = {
            let _t = turn();
            run(&c.sc, &bad, || rec(l))?
        };
        fresh_inputs(&log)?;
        // G and then H, or H and then G
        let gh = || {
            let i = out.iter().position(|o| A::decode(o).is_some())?;
            let j = i + 1 + out[i + 1..].iter().position(|o| B::decode(o).is_some())?;
            Some((A::decode(&out[i])?, B::decode(&out[j])?))
        };
        let hg = || {
            let i = out.iter().position(|o| B::decode(o).is_some())?;
            let j = i + 1 + out[i + 1..].iter().position(|o| A::decode(o).is_some())?;
            Some((A::decode(&out[j])?, B::decode(&out[i])?))
        };
        ensure!(gh() == Some((g, h)) || hg() == Some((g, h)), "{name}: not the first hashes that decode, label {l:?}");
        g.well_formed()?;
        h.well_formed()?;
        let (a, b) = (mk(l), mk(l));
        ensure_eq!(a, b, "{name}: not deterministic");
        a.0.well_formed()?;
        a.1.well_formed()?;
        ensure!(!equal(&a.0, &a.1) && !equal(&g, &h), "{name}: G and H are related, label {l:?}");
        res.push(((g, h), a, log));
    }
    if c.label != l2 && !retry_related(&c.label, &l2) {
        let s: HashSet<&Vec<u8>> = res[0].2.iter().collect();
        if let Some(x) = res[1].2.iter().find(|x| s.contains(x)) {
            return Err(format!("{name}: labels {:?} and {l2:?} hash the same input {x:?}", c.label));
        }
        for (x, y) in [(res[0].0, res[1].0), (res[0].1, res[1].1)] {
            ensure!(x.0 != y.0, "{name}: same G for labels {:?} and {l2:?}", c.label);
            ensure!(x.1 != y.1, "{name}: same H for labels {:?} and {l2:?}", c.label);
            ensure!(!equal(&x.0, &y.1) && !equal(&y.0, &x.1), "{name}: G of one is H of the other for labels {:?} and {l2:?}", c.label);
        }
    }
    Ok(Info::new(c.label != l2).label(name).label_if(c.sc.first > 0 || c.sc.rate > 0, "retries").label_if(c.sc.first >= 256, "256 and more retries"))
}
fn enc<E: Eng, D: Hash>(c: &Case, name: &str, equal: impl Fn(&E::G1Affine, &E::G2Affine) -> bool) -> Outcome
where
    E::G1Affine: Target,
    E::G2Affine: Target,
{
    let f = |g: EncryptionGens<E>| (g.G, g.H);
    pair::<E::G1Affine, E::G2Affine, D>(c, name, |l| f(EncryptionGens::new::<D>(l)), |l| f(EncryptionGens::new::<Rec<D>>(l)), equal)
}
fn comm<G: AffineRepr + Target, D: Hash>(c: &Case, name: &str) -> Outcome {
    let f = |g: ChunkedCommitmentGens<G>| (g.G, g.H);
    // related in a way anyone could see
    let rel = |a: &G, b: &G| {
        let (a, b) = (a.into_group(), b.into_group());
        let mut x = a;
        let mut y = b;
        (1..8).any(|_| {
            let r = x == b || x == -b || y == a || y == -a;
            x += a;
            y += b;
            r
        })
    };
    pair::<G, G, D>(c, name, |l| f(ChunkedCommitmentGens::new::<D>(l)), |l| f(ChunkedCommitmentGens::new::<Rec<D>>(l)), rel)
}
fn gens<D: Hash>(c: &Case) -> Outcome {
    match c.what {
        0 => enc::<Toy, D>(c, "encryption generators, toy", |a, b| a.0 == b.0 || a.0 == -b.0),
        1 => enc::<Bls, D>(c, "encryption generators", |_, _| false),
        2 => comm::<toy::T<1>, D>(c, "commitment generators, toy"),
        3 => comm::<ark_bls12_381::G1Affine, D>(c, "commitment generators, G1"),
        _ => comm::<ark_bls12_381::G2Affine, D>(c, "commitment generators, G2"),
    }
}
fn check_gens(c: &Case) -> Outcome {
    match c.hash {
        0 => gens::<blake2::Blake2b512>(c),
        1 => gens::<sha2::Sha256>(c),
        2 => gens::<sha2::Sha384>(c),
        _ => gens::<blake2::Blake2s256>(c),
    }
}

/// A label that is a retry input of another label
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Retry {
    label: Vec<u8>,
    attempt: u8,
    salt: u64,
    what: u8,
}
fn retry<T: Target>(c: &Retry) -> Outcome {
    type D = blake2::Blake2b512;
    let sc = Sc { first: c.attempt as u32, rate: 0, salt: c.salt };
    let Some(bad) = bad_bytes::<D>(c.salt, |b| T::decode(b).is_some()) else { return Ok(Info::new(false)) };
    let _t = turn();
    let (r, log, _) = run(&sc, &bad, || T::derive::<Rec<D>>(0, &c.label))?;
    // take the last input as a label of its own
    let mut l2 = log.last().unwrap().clone();
    if l2 == c.label {
        l2.extend_from_slice(b"-attempt-");
        l2.extend_from_slice(&1u64.to_le_bytes());
    }
    let (r2, _, _) = run(&Sc { first: 0, rate: 0, salt: 0 }, &bad, || T::derive::<Rec<D>>(0, &l2))?;
    if r == r2 {
        let m = format!("labels {:?} and {l2:?} give the same result once {} hashes of the first do not decode", c.label, log.len() - 1);
        if retry_related(&c.label, &l2) {
            return Err(format!("[retry-input-as-label] {m}"));
        }
        return Err(m);
    }
    Ok(Info::new(true))
}
fn check_retry(c: &Retry) -> Outcome {
    match c.what {
        0 => retry::<toy::T<1>>(c),
        1 => retry::<ark_bls12_381::G1Affine>(c),
        _ => retry::<Fr>(c),
    }
}

/// Generators from a random source
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rnd {
    seed: u64,
    calls: u8,
}
fn check_rnd<E: Eng>(c: &Rnd) -> Outcome
where
    E::G1Affine: Target,
    E::G2Affine: Target,
{
    let mut rng = StdRng::seed_from_u64(c.seed);
    let (mut g1, mut g2) = (vec![], vec![]);
    for _ in 0..c.calls {
        let e = EncryptionGens::<E>::new_using_rng(&mut rng);
        let a = ChunkedCommitmentGens::<E::G1Affine>::new_using_rng(&mut rng);
        let b = ChunkedCommitmentGens::<E::G2Affine>::new_using_rng(&mut rng);
        g1.extend([e.G, a.G, a.H]);
        g2.extend([e.H, b.G, b.H]);
    }
    for x in &g1 {
        x.well_formed()?;
    }
    for x in &g2 {
        x.well_formed()?;
    }
    ensure!(all_distinct(&g1) && all_distinct(&g2), "generators repeat");
    let again = EncryptionGens::<E>::new_using_rng(&mut StdRng::seed_from_u64(c.seed));
    ensure_eq!(again, EncryptionGens::<E>::new_using_rng(&mut StdRng::seed_from_u64(c.seed)), "not determined by the random source");
    Ok(Info::new(true))
}

fn label() -> BoxedStrategy<Vec<u8>> {
    bx(prop_oneof![
        1 => Just(vec![]),
        1 => Just(b" : G".to_vec()),
        1 => Just(b"a : H".to_vec()),
        6 => proptest::collection::vec(any::<u8>(), 0..40),
        2 => proptest::collection::vec(any::<u8>(), 50..300),
        1 => (any::<u8>(), 0usize..2500).prop_map(|(b, n)| vec![b; n]),
        1 => (any::<u64>(), prop_oneof![4 => 300usize..6000, 1 => 65_000usize..70_000]).prop_map(|(s, n)| {
            let mut v = vec![0; n];
            StdRng::seed_from_u64(s).fill_bytes(&mut v);
            v
        }),
    ])
}
fn edit() -> BoxedStrategy<Edit> {
    let small = || proptest::collection::vec(any::<u8>(), 1..5);
    bx(prop_oneof![
        6 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Flip(a, b)),
        2 => small().prop_map(Edit::Append),
        1 => Just(Edit::Append(vec![0])),
        1 => small().prop_map(Edit::Prepend),
        1 => prop_oneof![Just(1u16), any::<u16>()].prop_map(Edit::Cut),
        1 => prop_oneof![Just(1u16), any::<u16>()].prop_map(Edit::CutFront),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Edit::Swap(a, b)),
        1 => Just(Edit::Dup),
        1 => proptest::collection::vec(any::<u8>(), 0..30).prop_map(Edit::Other),
        2 => any::<bool>().prop_map(Edit::Role),
    ])
}
fn sc(deep: bool) -> BoxedStrategy<Sc> {
    let f = prop_oneof![
        4 => Just(0u32),
        4 => 1u32..6,
        2 => 6u32..80,
        1 => 250u32..300,
        1 => 500u32..600,
    ];
    let f = if deep { bx(prop_oneof![1 => Just(65_700u32), 300 => f]) } else { bx(f) };
    bx((f, prop_oneof![3 => Just(0u8), 1 => 1u8..200, 1 => 200u8..240], any::<u64>()).prop_map(|(first, rate, salt)| Sc { first, rate, salt }))
}
fn cases(what: BoxedStrategy<u8>, deep: bool) -> BoxedStrategy<Case> {
    bx((label(), edit(), sc(deep), what, 0u8..4).prop_map(|(label, edit, sc, what, hash)| Case { label, edit, sc, what, hash }))
}
fn main() {
    let mut p = Prop::new("C14", "Label-derived generators are deterministic, distinct and well-formed");
    p.assume("Blake2 and SHA-2 have no collisions among the generated inputs");
    p.assume("no hash output decodes to a point of small order");
    let nt = "non-trivial: the two labels differ";
    let cheap = || bx(prop_oneof![Just(0u8), Just(3), Just(4)]);
    p.part("elem_cheap", &format!("field elements and transparent group elements from labels with 0..65700 scripted decoding failures, four hash functions, pairs of labels one edit apart; {nt}"), 3000, 150_000, move || cases(cheap(), true), check_elem);
    p.part("elem_curve", &format!("as elem_cheap for G1 and G2 of BLS12-381; {nt}"), 250, 12000, || cases(bx(prop_oneof![3 => Just(1u8), 1 => Just(2u8)]), false), check_elem);
    p.part("gens_toy", &format!("generator sets over the transparent pairing; {nt}"), 2000, 100_000, || cases(bx(prop_oneof![Just(0u8), Just(2)]), false), check_gens);
    p.part("gens_curve", &format!("generator sets over BLS12-381; {nt}"), 160, 8000, || cases(bx(prop_oneof![2 => Just(1u8), 2 => Just(3), 1 => Just(4)]), false), check_gens);
    p.part("retry", "labels that are retry inputs of other labels; non-trivial: those that give different results", 200, 4000, || {
        bx((label(), 0u8..4, any::<u64>(), 0u8..3).prop_map(|(label, attempt, salt, what)| Retry { label, attempt, salt, what }))
    }, check_retry);
    p.part("random_toy", "generators drawn from a random source are distinct and well-formed; non-trivial: all", 300, 10000, || bx((any::<u64>(), 1u8..5).prop_map(|(seed, calls)| Rnd { seed, calls })), check_rnd::<Toy>);
    p.part("random_bls", "as random_toy on the real curve", 24, 600, || bx((any::<u64>(), 1u8..3).prop_map(|(seed, calls)| Rnd { seed, calls })), check_rnd::<Bls>);
    p.finish()
}
