//! Edits of ciphertexts, keys and generators used by several properties
use crate::*;
use proptest::prop_oneof;

/// Everything that takes part in a commitment check
#[derive(Clone)]
pub struct Pub<E: Eng> {
    pub v: Vec<E::G1Affine>,
    pub ek: EncryptionKey<E>,
    pub gens: Gens<E>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CtEdit {
    /// component p (0 = X_r, last = commitment): add a multiple of the group generator
    Add(u8, FrS),
    Neg(u8),
    Scale(u8, FrS),
    Id(u8),
    Swap(u8, u8),
    /// component p of another ciphertext of the same key
    Other(u8),
    /// consistent change of chunk i: c_i + d*g_i, psi + d*Y_i
    Message(u8, FrS),
    /// consistent change of the randomness
    Rerandomize(FrS),
    /// c_i + D, c_j - D
    Shift(u8, u8, FrS),
    /// c_i + D, psi + D (inconsistent unless the key is degenerate)
    WithPsi(u8, FrS),
    ScaleAll(FrS),
    Push(u8),
    PushId,
    Pop,
    /// c_i + c_j, c_j dropped
    Merge(u8, u8),
    /// component a as component b
    Copy(u8, u8),
    /// the components from a to b: identity, negated, in reverse order, of the other ciphertext, rotated
    IdRange(u8, u8),
    NegRange(u8, u8),
    ReverseRange(u8, u8),
    OtherRange(u8, u8),
    RotateRange(u8, u8),
}
pub fn ct_edit() -> BoxedStrategy<CtEdit> {
    let p = any::<u8>;
    bx(prop_oneof![
        4 => (p(), frs()).prop_map(|(a, b)| CtEdit::Add(a, b)),
        2 => p().prop_map(CtEdit::Neg),
        2 => (p(), frs()).prop_map(|(a, b)| CtEdit::Scale(a, b)),
        1 => p().prop_map(CtEdit::Id),
        2 => (p(), p()).prop_map(|(a, b)| CtEdit::Swap(a, b)),
        2 => p().prop_map(CtEdit::Other),
        2 => (p(), frs()).prop_map(|(a, b)| CtEdit::Message(a, b)),
        1 => frs().prop_map(CtEdit::Rerandomize),
        2 => (p(), p(), frs()).prop_map(|(a, b, c)| CtEdit::Shift(a, b, c)),
        1 => (p(), frs()).prop_map(|(a, b)| CtEdit::WithPsi(a, b)),
        1 => frs().prop_map(CtEdit::ScaleAll),
        1 => p().prop_map(CtEdit::Push),
        1 => Just(CtEdit::PushId),
        1 => Just(CtEdit::Pop),
        1 => (p(), p()).prop_map(|(a, b)| CtEdit::Merge(a, b)),
        1 => (p(), p()).prop_map(|(a, b)| CtEdit::Copy(a, b)),
        1 => range().prop_map(|(a, b)| CtEdit::IdRange(a, b)),
        1 => range().prop_map(|(a, b)| CtEdit::NegRange(a, b)),
        1 => range().prop_map(|(a, b)| CtEdit::ReverseRange(a, b)),
        1 => range().prop_map(|(a, b)| CtEdit::OtherRange(a, b)),
        1 => range().prop_map(|(a, b)| CtEdit::RotateRange(a, b)),
    ])
}
fn range() -> BoxedStrategy<(u8, u8)> {
    let p = any::<u8>;
    bx(prop_oneof![3 => (p(), p()), 1 => p().prop_map(|b| (0, b)), 1 => p().prop_map(|a| (a, 255)), 1 => Just((0, 255))])
}
/// An edit that keeps the number of chunks
pub fn ct_edit_same_len() -> BoxedStrategy<CtEdit> {
    bx(ct_edit().prop_filter("length", |e| !matches!(e, CtEdit::Push(_) | CtEdit::PushId | CtEdit::Pop | CtEdit::Merge(..))))
}
fn add<G: AffineRepr>(a: &mut G, b: G) {
    *a = (a.into_group() + b).into_affine();
}
fn sc<G: AffineRepr<ScalarField = Fr>>(a: G, x: Fr) -> G {
    (a * x).into_affine()
}
impl CtEdit {
    pub fn apply<E: Eng>(&self, v: &mut Vec<E::G1Affine>, other: &[E::G1Affine], ek: &EncryptionKey<E>, g_i: &[E::G1Affine]) {
        let l = v.len();
        let n = l - 2;
        let ix = |p: &u8| spread(*p, l);
        let cx = |p: &u8| 1 + spread(*p, n.max(1));
        let span = |a: &u8, b: &u8| {
            let (a, b) = (ix(a), ix(b));
            a.min(b)..a.max(b) + 1
        };
        match self {
            CtEdit::Add(p, d) => add(&mut v[ix(p)], E::g1(d.fr())),
            CtEdit::Neg(p) => v[ix(p)] = sc(v[ix(p)], -Fr::one()),
            CtEdit::Scale(p, d) => v[ix(p)] = sc(v[ix(p)], d.fr()),
            CtEdit::Id(p) => v[ix(p)] = E::G1Affine::zero(),
            CtEdit::Swap(a, b) => v.swap(ix(a), ix(b)),
            CtEdit::Other(p) => {
                if l == other.len() {
                    v[ix(p)] = other[ix(p)]
                }
            }
            CtEdit::Message(p, d) => {
                let i = cx(p);
                if n >= 1 && i <= ek.Y.len() && i <= g_i.len() {
                    add(&mut v[i], sc(g_i[i - 1], d.fr()));
                    add(&mut v[l - 1], sc(ek.Y[i - 1], d.fr()));
                }
            }
            CtEdit::Rerandomize(d) => {
                add(&mut v[0], sc(ek.X_0, d.fr()));
                for i in 1..=n.min(ek.X.len()) {
                    add(&mut v[i], sc(ek.X[i - 1], d.fr()));
                }
                add(&mut v[l - 1], sc(ek.P_1, d.fr()));
            }
            CtEdit::Shift(a, b, d) => {
                if n >= 2 {
                    add(&mut v[cx(a)], E::g1(d.fr()));
                    add(&mut v[cx(b)], E::g1(-d.fr()));
                }
            }
            CtEdit::WithPsi(a, d) => {
                if n >= 1 {
                    add(&mut v[cx(a)], E::g1(d.fr()));
                    add(&mut v[l - 1], E::g1(d.fr()));
                }
            }
            CtEdit::Copy(a, b) => v[ix(a)] = v[ix(b)],
            CtEdit::IdRange(a, b) => v[span(a, b)].fill(E::G1Affine::zero()),
            CtEdit::NegRange(a, b) => v[span(a, b)].iter_mut().for_each(|x| *x = sc(*x, -Fr::one())),
            CtEdit::ReverseRange(a, b) => v[span(a, b)].reverse(),
            CtEdit::RotateRange(a, b) => v[span(a, b)].rotate_left(1),
            CtEdit::OtherRange(a, b) => {
                if l == other.len() {
                    v[span(a, b)].copy_from_slice(&other[span(a, b)])
                }
            }
            CtEdit::ScaleAll(d) => v.iter_mut().for_each(|x| *x = sc(*x, d.fr())),
            CtEdit::Push(p) => {
                let x = v[ix(p)];
                v.insert(l - 1, x)
            }
            CtEdit::PushId => v.insert(l - 1, E::G1Affine::zero()),
            CtEdit::Pop => {
                if n > 0 {
                    v.remove(l - 2);
                }
            }
            CtEdit::Merge(a, b) => {
                let (i, j) = (cx(a), cx(b));
                if n >= 2 && i != j {
                    let x = v[j];
                    add(&mut v[i], x);
                    v.remove(j);
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum KeyEdit {
    ZAdd(u8, FrS),
    ZScale(u8, FrS),
    ZSwap(u8, u8),
    ZId(u8),
    /// component of another key
    ZOther(u8),
    AllOther,
    ZPush(u8),
    ZPop,
    XPush,
    XPop,
    YPush,
    YPop,
    /// X, Y and Z alike
    AllPush,
    AllPop,
    /// parts of the key that do not take part in the check
    XAdd(u8, FrS),
    YAdd(u8, FrS),
    P(FrS),
    HAdd(FrS),
    HScale(FrS),
    GAdd(FrS),
    ZCopy(u8, u8),
    ZIdRange(u8, u8),
    ZReverseRange(u8, u8),
    ZOtherRange(u8, u8),
    HId,
    /// H as an element of Z
    HAsZ(u8),
    /// Z and H by the same factor
    ZHScale(FrS),
}
pub fn key_edit() -> BoxedStrategy<KeyEdit> {
    let p = any::<u8>;
    bx(prop_oneof![
        4 => (p(), frs()).prop_map(|(a, b)| KeyEdit::ZAdd(a, b)),
        2 => (p(), frs()).prop_map(|(a, b)| KeyEdit::ZScale(a, b)),
        2 => (p(), p()).prop_map(|(a, b)| KeyEdit::ZSwap(a, b)),
        1 => p().prop_map(KeyEdit::ZId),
        2 => p().prop_map(KeyEdit::ZOther),
        1 => Just(KeyEdit::AllOther),
        1 => p().prop_map(KeyEdit::ZPush),
        1 => Just(KeyEdit::ZPop),
        1 => prop_oneof![Just(KeyEdit::XPush), Just(KeyEdit::XPop), Just(KeyEdit::YPush), Just(KeyEdit::YPop)],
        2 => prop_oneof![Just(KeyEdit::AllPush), Just(KeyEdit::AllPop)],
        1 => (p(), frs()).prop_map(|(a, b)| KeyEdit::XAdd(a, b)),
        1 => (p(), frs()).prop_map(|(a, b)| KeyEdit::YAdd(a, b)),
        1 => frs().prop_map(KeyEdit::P),
        2 => frs().prop_map(KeyEdit::HAdd),
        1 => frs().prop_map(KeyEdit::HScale),
        1 => frs().prop_map(KeyEdit::GAdd),
        1 => frs().prop_map(KeyEdit::ZHScale),
        1 => (p(), p()).prop_map(|(a, b)| KeyEdit::ZCopy(a, b)),
        1 => range().prop_map(|(a, b)| KeyEdit::ZIdRange(a, b)),
        1 => range().prop_map(|(a, b)| KeyEdit::ZReverseRange(a, b)),
        1 => range().prop_map(|(a, b)| KeyEdit::ZOtherRange(a, b)),
        1 => prop_oneof![1 => Just(KeyEdit::HId), 3 => p().prop_map(KeyEdit::HAsZ)],
    ])
}
impl KeyEdit {
    pub fn apply<E: Eng>(&self, ek: &mut EncryptionKey<E>, gens: &mut Gens<E>, other: &EncryptionKey<E>) {
        let zl = ek.Z.len();
        let iz = |p: &u8| spread(*p, zl.max(1));
        let span = |a: &u8, b: &u8| {
            let (a, b) = (iz(a), iz(b));
            a.min(b)..a.max(b) + 1
        };
        match self {
            KeyEdit::ZAdd(p, d) if zl > 0 => add(&mut ek.Z[iz(p)], E::g2(d.fr())),
            KeyEdit::ZScale(p, d) if zl > 0 => ek.Z[iz(p)] = sc(ek.Z[iz(p)], d.fr()),
            KeyEdit::ZSwap(a, b) if zl > 0 => ek.Z.swap(iz(a), iz(b)),
            KeyEdit::ZId(p) if zl > 0 => ek.Z[iz(p)] = E::G2Affine::zero(),
            KeyEdit::ZOther(p) if zl > 0 => {
                let i = iz(p);
                ek.Z[i] = other.Z[i % other.Z.len()]
            }
            KeyEdit::ZCopy(a, b) if zl > 0 => ek.Z[iz(a)] = ek.Z[iz(b)],
            KeyEdit::ZIdRange(a, b) if zl > 0 => ek.Z[span(a, b)].fill(E::G2Affine::zero()),
            KeyEdit::ZReverseRange(a, b) if zl > 0 => ek.Z[span(a, b)].reverse(),
            KeyEdit::ZOtherRange(a, b) if zl > 0 && other.Z.len() == zl => ek.Z[span(a, b)].copy_from_slice(&other.Z[span(a, b)]),
            KeyEdit::HId => gens.H = E::G2Affine::zero(),
            KeyEdit::HAsZ(p) if zl > 0 => gens.H = ek.Z[iz(p)],
            KeyEdit::AllOther => *ek = other.clone(),
            KeyEdit::ZPush(p) if zl > 0 => {
                let z = ek.Z[iz(p)];
                ek.Z.push(z)
            }
            KeyEdit::ZPop => { ek.Z.pop(); }
            KeyEdit::XPush => ek.X.push(ek.X_0),
            KeyEdit::XPop => { ek.X.pop(); }
            KeyEdit::YPush => ek.Y.push(ek.X_0),
            KeyEdit::YPop => { ek.Y.pop(); }
            KeyEdit::AllPush => {
                ek.X.push(other.X[0]);
                ek.Y.push(other.Y[0]);
                ek.Z.push(other.Z[0]);
            }
            KeyEdit::AllPop => {
                ek.X.pop();
                ek.Y.pop();
                ek.Z.pop();
            }
            KeyEdit::XAdd(p, d) if !ek.X.is_empty() => { let i = *p as usize % ek.X.len(); add(&mut ek.X[i], E::g1(d.fr())) }
            KeyEdit::YAdd(p, d) if !ek.Y.is_empty() => { let i = *p as usize % ek.Y.len(); add(&mut ek.Y[i], E::g1(d.fr())) }
            KeyEdit::P(d) => { add(&mut ek.P_1, E::g1(d.fr())); add(&mut ek.P_2, E::g1(d.fr())) }
            KeyEdit::HAdd(d) => add(&mut gens.H, E::g2(d.fr())),
            KeyEdit::HScale(d) => gens.H = sc(gens.H, d.fr()),
            KeyEdit::GAdd(d) => add(&mut gens.G, E::g1(d.fr())),
            KeyEdit::ZHScale(d) => {
                for z in ek.Z.iter_mut() {
                    *z = sc(*z, d.fr());
                }
                gens.H = sc(gens.H, d.fr());
            }
            _ => {}
        }
    }
}
/// Whether key and ciphertext sizes fit together
pub fn fits<E: Eng>(v: &[E::G1Affine], ek: &EncryptionKey<E>) -> bool {
    ek.X.len() == ek.Y.len() && ek.Z.len() == ek.X.len() + 1 && ek.X.len() <= 255 && v.len() == ek.X.len() + 2
}
