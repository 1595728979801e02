use dist_saver::commitment::ChunkedCommitment;
use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: FrS,
    h: FrS,
    m: FrS,
    r: FrS,
    m2: FrS,
    r2: FrS,
    bits: u8,
}
type Gn<G> = ChunkedCommitmentGens<G>;
/// x*G by double-and-add on the bits, independent of the multiplication used in the crate
fn mul<G: AffineRepr<ScalarField = Fr>>(p: G, x: Fr) -> G {
    use ark_ff::BigInteger;
    let mut a = G::Group::zero();
    for b in x.into_bigint().to_bits_be() {
        a.double_in_place();
        if b {
            a += p;
        }
    }
    a.into_affine()
}
fn add<G: AffineRepr>(a: G, b: G) -> G {
    (a.into_group() + b).into_affine()
}
fn check<G: AffineRepr<ScalarField = Fr>>(c: &Case) -> Outcome {
    let base = G::generator();
    let (g, h) = (mul(base, c.g.fr()), mul(base, c.h.fr()));
    let gens = Gn::<G> { G: g, H: h };
    let (m, r, b) = (c.m.fr(), c.r.fr(), c.bits);
    let n = (255 + b as usize - 1) / b as usize;
    let want = |m: Fr, r: Fr| mul(base, c.g.fr() * m + c.h.fr() * r);
    let full = must!(ChunkedCommitment::new(&m, &r, b, &gens));
    ensure_eq!(full.0, want(m, r), "commitment to {m} with blinding {r}");
    ensure_eq!(full.0, add(mul(g, m), mul(h, r)), "m*G + r*H");
    let key = ChunkedCommitment::<G>::commitment_key(&gens, b);
    ensure_eq!(full.1, key, "key returned with the commitment");
    check_key::<G>(&key, g, h, b, n)?;
    let given = must!(ChunkedCommitment::<G>::get_commitment_given_commitment_key(&m, &r, b, &key));
    ensure_eq!(given, full.0, "with the key supplied");
    // homomorphic
    let (m2, r2) = (c.m2.fr(), c.r2.fr());
    let two = must!(ChunkedCommitment::<G>::get_commitment_given_commitment_key(&m2, &r2, b, &key));
    let sum = must!(ChunkedCommitment::<G>::get_commitment_given_commitment_key(&(m + m2), &(r + r2), b, &key));
    ensure_eq!(add(full.0, two), sum, "sum of commitments");
    // with any key of the right size, every chunk has its own base
    let key2: Vec<G> = (0..=n).map(|i| mul(base, Fr::from(3 * i as u64 + 1) * c.g.fr() + Fr::from(i as u64))).collect();
    let got = must!(ChunkedCommitment::<G>::get_commitment_given_commitment_key(&m, &r, b, &key2));
    let d = digits(&m, b as usize, n);
    let e: Fr = d.iter().enumerate().map(|(i, x)| Fr::from(*x) * (Fr::from(3 * i as u64 + 1) * c.g.fr() + Fr::from(i as u64))).sum::<Fr>()
        + r * (Fr::from(3 * n as u64 + 1) * c.g.fr() + Fr::from(n as u64));
    ensure_eq!(got, mul(base, e), "under another key");
    // keys of other sizes
    for k in [0usize, 1, n - 1, n, n + 2, 2 * n + 2] {
        let mut ky = key.clone();
        ky.resize(k, h);
        let x = no_panic(|| ChunkedCommitment::<G>::get_commitment_given_commitment_key(&m, &r, b, &ky))?;
        if k != n + 1 {
            ensure!(x.is_err(), "key of {k} elements accepted for {n} chunks");
        }
    }
    Ok(Info::new(!m.is_zero() && !g.is_zero()).label(format!("{b} bits")).label_if(h.is_zero() || r.is_zero(), "no blinding part"))
}
fn check_key<G: AffineRepr<ScalarField = Fr>>(key: &[G], g: G, h: G, b: u8, n: usize) -> Result<(), String> {
    ensure_eq!(key.len(), n + 1, "key length for {b} bits");
    ensure_eq!(key[n], h, "last element");
    ensure_eq!(key[n - 1], g, "element before the last");
    let mut cur = g.into_group();
    for i in (0..n - 1).rev() {
        for _ in 0..b {
            cur.double_in_place();
        }
        ensure_eq!(key[i], cur.into_affine(), "key element {i} for {b} bits");
    }
    Ok(())
}
/// The key for chunk sizes the commitment itself does not support
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Key {
    g: FrS,
    h: FrS,
    bits: u8,
    m: FrS,
}
fn check_keys<G: AffineRepr<ScalarField = Fr>>(c: &Key) -> Outcome {
    let base = G::generator();
    let (g, h) = (mul(base, c.g.fr()), mul(base, c.h.fr()));
    let gens = Gn::<G> { G: g, H: h };
    let n = (255 + c.bits as usize - 1) / c.bits as usize;
    let key = ChunkedCommitment::<G>::commitment_key(&gens, c.bits);
    check_key::<G>(&key, g, h, c.bits, n)?;
    if ![4, 8, 16].contains(&c.bits) {
        let r = no_panic(|| ChunkedCommitment::new(&c.m.fr(), &c.m.fr(), c.bits, &gens))?;
        ensure!(r.is_err(), "commitment for chunk size {}", c.bits);
        let r = no_panic(|| ChunkedCommitment::get_commitment_given_commitment_key(&c.m.fr(), &c.m.fr(), c.bits, &key))?;
        ensure!(r.is_err(), "commitment with key for chunk size {}", c.bits);
    }
    Ok(Info::new(!g.is_zero()).label(format!("{} bits", c.bits)))
}
fn cases() -> BoxedStrategy<Case> {
    let g = || prop_oneof![12 => frs_nz(), 1 => Just(FrS::Zero)];
    bx((g(), g(), frs(), frs(), frs(), frs(), prop_oneof![Just(4u8), Just(8), Just(16)])
        .prop_map(|(g, h, m, r, m2, r2, bits)| Case { g, h, m, r, m2, r2, bits }))
}
fn keys() -> BoxedStrategy<Key> {
    bx((frs_nz(), frs_nz(), 1u8..=30, frs()).prop_map(|(g, h, bits, m)| Key { g, h, bits: if bits < 2 { 2 } else { bits }, m }))
}
fn main() {
    let mut p = Prop::new("C13", "A chunked commitment equals the Pedersen commitment to the whole message");
    p.assume("commitment keys for chunk sizes of 31 bits and more and of 1 bit are outside the domain");
    let nt = "non-trivial: message and base G are not zero";
    p.part("commit_toy", &format!("value, key, homomorphism, arbitrary keys and wrong key sizes on transparent generators; {nt}"), 6000, 300_000, cases, check::<toy::T<1>>);
    p.part("commit_g1", &format!("as commit_toy in G1 of BLS12-381; {nt}"), 160, 8000, cases, check::<ark_bls12_381::G1Affine>);
    p.part("commit_g2", &format!("as commit_toy in G2 of BLS12-381; {nt}"), 50, 2500, cases, check::<ark_bls12_381::G2Affine>);
    p.part("key_toy", "commitment keys for chunk sizes 2..30, commitments of unsupported sizes rejected; non-trivial: G not zero", 4000, 100_000, keys, check_keys::<toy::T<1>>);
    p.part("key_g1", "as key_toy in G1 of BLS12-381", 150, 5000, keys, check_keys::<ark_bls12_381::G1Affine>);
    p.finish()
}
