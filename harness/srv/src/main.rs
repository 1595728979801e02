//! Runs given cases through the crate under test and replies with a transcript of everything it returned.
//! Built once per feature set; the check compares the replies.
#![allow(non_snake_case)]
#[path = "../../base/src/toy.rs"]
#[allow(dead_code)]
mod toy;
use ark_bls12_381::Fr;
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use ark_std::rand::{rngs::StdRng, RngCore, SeedableRng};
use dist_saver::{
    circuit::BitsizeCheckCircuit,
    commitment::ChunkedCommitment,
    encryption::{Ciphertext, Encryption},
    keygen::*,
    saver_groth16::{self, get_gs_for_encryption, prepare_verifying_key},
    setup::*,
    utils,
};
use serde::Deserialize;
use std::io::{BufRead, Write};
use toy::{Bls, Eng, Toy};

#[derive(Clone, Deserialize)]
struct Case {
    toy: bool,
    seed: u64,
    /// number of chunks
    n: usize,
    parties: usize,
    batch: usize,
    bad: Option<(u8, u8)>,
    table: usize,
    hint: usize,
    label: Vec<u8>,
    msg: Vec<u16>,
    proof: bool,
    full: u8,
    copies: usize,
}
/// Names and hashes of the results
struct Log(Vec<(String, String)>);
impl Log {
    fn raw(&mut self, n: &str, b: &[u8]) {
        let h = |s: u64| {
            let mut x = 0xcbf29ce484222325u64 ^ s;
            for c in b {
                x = (x ^ *c as u64).wrapping_mul(0x100000001b3);
                x ^= x >> 29;
            }
            x
        };
        self.0.push((n.to_string(), format!("{:016x}{:016x}", h(0), h(0x9E3779B97F4A7C15))));
    }
    fn put<T: CanonicalSerialize>(&mut self, n: &str, x: &T) {
        let mut v = vec![];
        x.serialize_uncompressed(&mut v).unwrap();
        self.raw(n, &v);
    }
    fn say(&mut self, n: &str, s: String) {
        self.0.push((n.to_string(), s));
    }
}
fn bits_for(n: usize) -> u8 {
    (1..=255u16).rev().find(|b| (255 + *b as usize - 1) / *b as usize == n).unwrap() as u8
}
fn nz(rng: &mut StdRng) -> Fr {
    loop {
        let x = Fr::rand(rng);
        if !x.is_zero() {
            return x;
        }
    }
}
fn ct<E: Eng>(v: &[E::G1Affine]) -> Ciphertext<E> {
    Ciphertext { X_r: v[0], enc_chunks: v[1..v.len() - 1].to_vec(), commitment: v[v.len() - 1] }
}
/// the exported macros whose expansion depends on the features
#[cfg(feature = "parallel")]
fn mapped(v: &[u16]) -> dist_saver::impl_into_iter!(<Item = u64> + '_) {
    use rayon::prelude::*;
    v.par_iter().map(|x| *x as u64 * 3)
}
#[cfg(not(feature = "parallel"))]
fn mapped(v: &[u16]) -> dist_saver::impl_into_iter!(<Item = u64> + '_) {
    v.iter().map(|x| *x as u64 * 3)
}
fn macros(c: &Case, l: &mut Log) {
    #[cfg(feature = "parallel")]
    use rayon::prelude::*;
    use dist_saver::{concat_slices, join};
    let x = |i: u64| c.seed.rotate_left(i as u32).wrapping_mul(i + 3);
    let count = core::sync::atomic::AtomicU32::new(0);
    let y = |i: u64| {
        count.fetch_add(1, core::sync::atomic::Ordering::SeqCst);
        join!(x(i), x(i + 1))
    };
    l.say("join", format!("{:?}", (join!(x(0)), join!(x(0), y(1)), join!(x(0), y(1), x(2)), join!(y(0), x(1), x(2), y(3)))));
    l.say("longer join", format!("{:?}", (join!(x(0), x(1), y(2), x(3), x(4)), join!(y(0), x(1), y(2), x(3), x(4), y(5)))));
    l.say("evaluations in join", format!("{count:?}"));
    l.raw("concatenation", &concat_slices!(c.label, b"-attempt-", c.seed.to_le_bytes(), &c.label[..]));
    #[cfg(feature = "parallel")]
    let it = mapped(&c.msg).into_par_iter();
    #[cfg(not(feature = "parallel"))]
    let it = mapped(&c.msg).into_iter();
    let v: Vec<u64> = it.collect();
    l.say("iterator", format!("{v:?}"));
}
fn run<E: Eng>(c: &Case) -> Vec<(String, String)> {
    let mut l = Log(vec![]);
    macros(c, &mut l);
    let mut rng = StdRng::seed_from_u64(c.seed);
    let n = c.n;
    // generators
    let gens = EncryptionGens::<E>::new::<blake2::Blake2b512>(&c.label);
    l.put("gens", &gens);
    let cg = ChunkedCommitmentGens::<E::G1Affine>::new::<blake2::Blake2b512>(&c.label);
    l.put("commitment gens", &cg);
    l.put("random gens", &EncryptionGens::<E>::new_using_rng(&mut rng));
    l.put("random commitment gens", &ChunkedCommitmentGens::<E::G2Affine>::new_using_rng(&mut rng));
    l.put("field element", &utils::field_elem_from_try_and_incr::<Fr, blake2::Blake2b512>(&c.label));
    // parameters
    let (g_i, delta_g, gamma_g, srs);
    if c.proof {
        let circuit = BitsizeCheckCircuit::<Fr>::new(4, Some(n as u8), None, true);
        let s = saver_groth16::generate_srs(circuit, &gens, &mut rng).unwrap();
        l.put("srs", &s.pk);
        l.put("srs gamma", &s.gamma_g1);
        g_i = get_gs_for_encryption(&s.pk.vk).to_vec();
        delta_g = s.pk.delta_g1;
        gamma_g = s.gamma_g1;
        srs = Some(s);
    } else {
        g_i = (0..n + c.seed as usize % 3).map(|_| E::g1(nz(&mut rng))).collect::<Vec<_>>();
        delta_g = E::g1(nz(&mut rng));
        gamma_g = E::g1(nz(&mut rng));
        srs = None;
    }
    let bits = bits_for(n);
    // single authority
    let (sk, ek, dk) = keygen(&mut rng, bits, &gens, &g_i, &delta_g, &gamma_g).unwrap();
    l.put("sk", &sk);
    l.put("ek", &ek);
    l.put("dk", &dk);
    let pek = PreparedEncryptionKey::from(ek.clone());
    let pdk = PreparedDecryptionKey::from(dk.clone());
    l.put("prepared ek", &pek.Z);
    l.put("prepared dk", &pdk.V_1);
    l.put("prepared dk", &pdk.V_2);
    let powers = dk.pairing_powers(4, &g_i).unwrap();
    l.put("powers", &powers.iter().map(|p| p.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>());
    let mut cts = vec![];
    let mut rs = vec![];
    for i in 0..c.batch {
        let m: Vec<u16> = c.msg.iter().map(|x| (x + i as u16) % 16).collect();
        let (v, r) = Encryption::encrypt_decomposed_message(&mut rng, m, &ek, &g_i).unwrap();
        l.put("ciphertext", &v);
        l.put("randomness", &r);
        rs.push(r);
        cts.push(v);
    }
    if let Some((i, j)) = c.bad {
        let i = i as usize % cts.len();
        let j = j as usize % (n + 2);
        cts[i][j] = (cts[i][j].into_group() + g_i[0]).into_affine();
    }
    for v in &cts {
        let x = ct::<E>(v);
        l.say("verdict", format!("{:?}", x.verify_commitment(ek.clone(), gens.clone()).is_ok()));
        if v == &cts[0] {
            for p in [None, Some(&powers[..])] {
                let r = Encryption::decrypt_to_chunks_given_pairing_powers(&x.X_r, &x.enc_chunks, &sk, pdk.clone(), &g_i, 4, p);
                match r {
                    Ok((m, nu)) => {
                        l.say("decrypted", format!("{m:?}"));
                        l.put("nu", &nu);
                        l.say("decryption verdict", format!("{:?}", m.len()));
                    }
                    Err(_) => l.say("decrypted", "error".into()),
                }
            }
        }
    }
    let w: Vec<Fr> = (0..c.batch).map(|_| Fr::from(rng.next_u64())).collect();
    let all: Vec<_> = cts.iter().map(|v| ct::<E>(v)).collect();
    l.say("batch verdict", format!("{:?}", Encryption::verify_commitments_in_batch(&all, &w, ek.clone(), gens.clone()).is_ok()));
    // distributed
    let (mut sks, mut eks) = (vec![], vec![]);
    for _ in 0..c.parties {
        let (a, b) = FkeygenPartial(&mut rng, bits, &gens, &g_i, &delta_g, &gamma_g).unwrap();
        l.put("partial sk", &a);
        l.put("partial ek", &b);
        sks.push(a);
        eks.push(b);
    }
    let comb = combineEKs::<E>(&gamma_g, &eks);
    l.put("combined", &comb);
    let shares: Vec<_> = sks.iter().map(|s| genP1share(&comb, s)).collect();
    for s in &shares {
        l.put("share", s);
    }
    let dek = keygenFinal(&comb, &combineP1share(&shares));
    l.put("distributed ek", &dek);
    let mut sum: Option<Vec<E::G1Affine>> = None;
    let mut last = None;
    for i in 0..2 {
        let m: Vec<u16> = c.msg.iter().map(|x| (x + 5 * i) % 16).collect();
        let (v, r) = Encryption::encrypt_decomposed_message(&mut rng, m.clone(), &dek, &g_i).unwrap();
        l.put("ciphertext", &v);
        sum = Some(match sum {
            None => v.clone(),
            Some(s) => Encryption::<E>::add_cts(&s, &v).unwrap(),
        });
        last = Some((m, v, r));
    }
    let sum = sum.unwrap();
    l.put("sum", &sum);
    let (skd, ekd) = Fkeygen_dest::<_, E>(&mut rng, &gens).unwrap();
    l.put("destination", &skd);
    l.put("destination", &ekd);
    let mut acc: Option<(Vec<E::G1Affine>, E::G1Affine)> = None;
    for s in &sks {
        let (w, g) = Encryption::re_encrypt_share(&mut rng, &gens, &sum[0], &sum[1..n + 1], &ekd, s).unwrap();
        l.put("re-encryption share", &w);
        l.put("re-encryption share", &g);
        acc = Some(match acc {
            None => (w, g),
            Some(a) => Encryption::<E>::combine_re_encrypt_share(&a.1, &g, &a.0, &w).unwrap(),
        });
    }
    let (w, g) = acc.unwrap();
    let sw = Encryption::<E>::combine_ct_with_w(&gens, &sum[1..n + 1], &g, &w).unwrap();
    l.put("switched", &sw);
    let r = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &g_i, 5);
    l.say("switched", format!("{:?}", r.ok()));
    let r = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&sw[0], &sw[1..], &skd, &g_i, 3);
    l.say("switched, 3 bits", format!("{:?}", r.ok()));
    // proof
    if let Some(s) = &srs {
        let (m, v, r) = last.unwrap();
        let f: Vec<Fr> = m.iter().map(|x| Fr::from(*x as u64)).collect();
        let circuit = BitsizeCheckCircuit::new(4, Some(n as u8), Some(f), true);
        let p = saver_groth16::create_proof(circuit, &r, s, &dek, &mut rng).unwrap();
        l.put("proof", &p);
        let pvk = prepare_verifying_key::<E>(&s.pk.vk);
        l.say("proof verdict", format!("{:?}", saver_groth16::verify_proof(&pvk, &p, &ct::<E>(&v)).is_ok()));
        l.say("proof verdict", format!("{:?}", saver_groth16::verify_proof(&pvk, &p, &ct::<E>(&sum)).is_ok()));
        l.put("d", &saver_groth16::calculate_d(&pvk, &ct::<E>(&sum)).unwrap());
    }
    // whole messages
    if [4, 8, 16].contains(&c.full) {
        let x = Fr::rand(&mut rng);
        let k = utils::chunks_count::<Fr>(c.full) as usize;
        let g: Vec<_> = (0..k).map(|_| E::g1(nz(&mut rng))).collect();
        let (sk, ek, dk) = keygen(&mut rng, c.full, &gens, &g, &delta_g, &gamma_g).unwrap();
        l.put("full ek", &ek);
        let (e, r) = Encryption::encrypt(&mut rng, &x, &ek, &g, c.full).unwrap();
        l.put("full ciphertext", &e);
        l.put("full randomness", &r);
        if c.full < 16 && (E::TOY || c.full == 4) {
            let (m, nu) = e.decrypt(&sk, dk, &g, c.full).unwrap();
            l.put("full message", &m);
            l.put("full nu", &nu);
        }
        let cm = ChunkedCommitment::new(&x, &r, c.full, &cg).unwrap();
        l.put("chunked commitment", &cm);
        l.put("chunked commitment", &ChunkedCommitment::<E::G1Affine>::get_commitment_given_commitment_key(&x, &r, c.full, &cm.1).unwrap());
        l.say("decomposed", format!("{:?}", utils::decompose(&x, c.full)));
        if E::TOY && c.full == 16 && c.proof {
            let (pk, sk, ek, dk) = setup_for_groth16(&mut rng, 16, &gens).unwrap();
            l.put("setup", &pk.pk);
            l.put("setup", &sk);
            l.put("setup", &ek);
            l.put("setup", &dk);
            let (e, r, p) = Encryption::encrypt_with_proof(&mut rng, &x, &ek, &pk, 16).unwrap();
            l.put("with proof", &e);
            l.put("with proof", &r);
            l.put("with proof", &p);
        }
    }
    if E::TOY || c.seed % 3 == 0 {
        edges::<E>(&mut l, c, &mut rng, &gens, &g_i, (&sk, &ek, &dk), &cts[0], &powers);
    }
    // tables
    let xs: Vec<Fr> = (0..c.table).map(|i| if i % 5 == 3 { Fr::from(i as u64) } else { Fr::rand(&mut rng) }).collect();
    let base = E::g1(nz(&mut rng)).into_group();
    let t = utils::WindowTable::<E::G1>::new(c.hint, base);
    l.put("table", &t.multiply_many(&xs).iter().map(|x| (*x).into()).collect::<Vec<E::G1Affine>>());
    l.put("table", &utils::multiply_field_elems_with_same_group_elem(E::g2(Fr::one()).into_group(), &xs).iter().map(|x| (*x).into()).collect::<Vec<E::G2Affine>>());
    let _ = Fr::one().inverse();
    l.0
}
/// What unusual and malformed arguments lead to: a value, a refusal or a panic, the same in every build
#[allow(clippy::too_many_arguments)]
fn edges<E: Eng>(
    l: &mut Log,
    c: &Case,
    rng: &mut StdRng,
    gens: &EncryptionGens<E>,
    g_i: &[E::G1Affine],
    keys: (&SecretKey<Fr>, &EncryptionKey<E>, &DecryptionKey<E>),
    v: &[E::G1Affine],
    powers: &[Vec<ark_ec::pairing::PairingOutput<E>>],
) {
    let (sk, ek, dk) = keys;
    let n = c.n;
    let o1 = E::G1Affine::zero();
    let o2 = E::G2Affine::zero();
    let k = rng.next_u32() as usize;
    macro_rules! run {
        ($n: expr, $e: expr) => {{
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $e)) {
                Err(_) => l.say($n, "panic".into()),
                Ok(Err(_)) => l.say($n, "refused".into()),
                Ok(Ok(x)) => l.put($n, &x),
            }
        }};
    }
    // decryption keys
    let mut dks = vec![("as made", dk.clone())];
    let alt = |f: &dyn Fn(&mut DecryptionKey<E>)| {
        let mut d = dk.clone();
        f(&mut d);
        d
    };
    dks.push(("identity in V_1", alt(&|d| d.V_1[k % n] = o2)));
    dks.push(("identity in V_2", alt(&|d| d.V_2[k % n] = o2)));
    dks.push(("identity V_0", alt(&|d| d.V_0 = o2)));
    dks.push(("only identities", alt(&|d| {
        d.V_1 = vec![o2; n];
        d.V_2 = vec![o2; n];
    })));
    dks.push(("short V_1", alt(&|d| d.V_1.truncate(n - 1))));
    dks.push(("short V_2", alt(&|d| d.V_2.truncate(n - 1))));
    dks.push(("long V_1", alt(&|d| d.V_1.push(o2))));
    dks.push(("long V_2", alt(&|d| d.V_2.push(d.V_1[0]))));
    dks.push(("longer", alt(&|d| {
        d.V_1.push(d.V_2[0]);
        d.V_2.push(d.V_1[0]);
    })));
    dks.push(("empty", alt(&|d| {
        d.V_1.clear();
        d.V_2.clear();
    })));
    dks.push(("repeated", alt(&|d| {
        d.V_1[k % n] = d.V_1[0];
        d.V_2[0] = d.V_2[k % n];
    })));
    dks.push(("reversed", alt(&|d| d.V_2.reverse())));
    for (name, d) in dks {
        let p = PreparedDecryptionKey::from(d.clone());
        let name = format!("decryption key, {name}");
        l.put(&name, &p.V_0);
        l.put(&name, &p.V_1);
        l.put(&name, &p.V_2);
        run!(&name, d.supported_chunks_count());
        run!(&name, p.supported_chunks_count());
        run!(&name, d.pairing_powers(2, g_i).map(|t| t.iter().map(|p| p.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>()));
        run!(&name, Encryption::decrypt_to_chunks(&v[0], &v[1..n + 1], sk, d.clone(), g_i, 4));
        let short = powers.get(..k % n).unwrap_or(powers);
        run!(&name, Encryption::decrypt_to_chunks_given_pairing_powers(&v[0], &v[1..n + 1], sk, p.clone(), g_i, 4, Some(short)));
        run!(&name, Encryption::decrypt_to_chunks_given_pairing_powers(&v[0], &v[1..n + 1], sk, p, g_i, 4, Some(powers)));
    }
    // encryption keys
    let mut eks = vec![("as made", ek.clone())];
    let alt = |f: &dyn Fn(&mut EncryptionKey<E>)| {
        let mut d = ek.clone();
        f(&mut d);
        d
    };
    eks.push(("identity X_0", alt(&|d| d.X_0 = o1)));
    eks.push(("identity in X", alt(&|d| d.X[k % n] = o1)));
    eks.push(("identity in Y", alt(&|d| d.Y[k % n] = o1)));
    eks.push(("identity in Z", alt(&|d| {
        let i = k % d.Z.len();
        d.Z[i] = o2
    })));
    eks.push(("short X", alt(&|d| d.X.truncate(n - 1))));
    eks.push(("short Y", alt(&|d| d.Y.truncate(n - 1))));
    eks.push(("short Z", alt(&|d| d.Z.truncate(n))));
    eks.push(("shorter", alt(&|d| {
        d.X.truncate(n - 1);
        d.Y.truncate(n - 1);
        d.Z.truncate(n);
    })));
    eks.push(("empty", alt(&|d| {
        d.X.clear();
        d.Y.clear();
        d.Z.clear();
    })));
    eks.push(("long Z", alt(&|d| d.Z.push(d.Z[0]))));
    eks.push(("other gamma", alt(&|d| d.P_1 = d.X_0)));
    let seed = rng.next_u64();
    for (name, e) in eks {
        let name = format!("encryption key, {name}");
        let p = PreparedEncryptionKey::from(e.clone());
        l.put(&name, &p.Z);
        run!(&name, e.validate().map(|_| true));
        run!(&name, p.validate().map(|_| true));
        run!(&name, e.supported_chunks_count());
        run!(&name, p.supported_chunks_count());
        l.put(&name, &e.commitment_key());
        for (m, len) in [("as many", n), ("fewer", n - 1), ("more", n + 1)] {
            let name = format!("{name}, {m} chunks");
            let msg: Vec<u16> = (0..len).map(|i| [0, 1, 65535, 15][i % 4]).collect();
            run!(&name, Encryption::encrypt_decomposed_message(&mut StdRng::seed_from_u64(seed), msg, &e, g_i));
        }
        run!(&name, ct::<E>(v).verify_commitment(e.clone(), gens.clone()).map(|_| true));
        run!(&name, ct::<E>(&v[..n + 1]).verify_commitment(p.clone(), gens.clone()).map(|_| true));
        let both = [ct::<E>(v), ct::<E>(v)];
        run!(&name, Encryption::verify_commitments_in_batch(&both, &[Fr::one(), -Fr::one()], e.clone(), gens.clone()).map(|_| true));
        run!(&name, Encryption::verify_commitments_in_batch(&both, &[Fr::zero(), Fr::one()], p.clone(), gens.clone()).map(|_| true));
        run!(&name, Encryption::verify_commitments_in_batch(&both, &[Fr::one()], p.clone(), gens.clone()).map(|_| true));
        run!(&name, Encryption::verify_commitments_in_batch(&both[..0], &[], p, gens.clone()).map(|_| true));
    }
    // arguments of key generation
    let gis: [(&str, Vec<E::G1Affine>); 4] = [
        ("none", vec![]),
        ("fewer", g_i[..n - 1].to_vec()),
        ("identity", (0..n).map(|i| if i == k % n { o1 } else { g_i[i] }).collect()),
        ("equal", vec![g_i[0]; n]),
    ];
    let bits = bits_for(n);
    for (name, g) in gis {
        for (d, delta) in [("delta", g_i[0]), ("identity delta", o1)] {
            let name = format!("keys from generators: {name}, {d}");
            let mut r = StdRng::seed_from_u64(seed);
            run!(&name, keygen(&mut r, bits, gens, &g, &delta, &g_i[n - 1]));
            run!(&name, FkeygenPartial(&mut r, bits, gens, &g, &delta, &g_i[n - 1]).map(|x| x.1));
        }
    }
    let odd = EncryptionGens::<E> { G: if k & 1 == 0 { o1 } else { gens.G }, H: if k & 2 == 0 { o2 } else { gens.H } };
    run!("keys from odd generators", keygen(&mut StdRng::seed_from_u64(seed), bits, &odd, g_i, &g_i[0], &g_i[n - 1]));
    // ciphertexts
    let forms: [(&str, Vec<E::G1Affine>); 5] = [
        ("identities", vec![o1; n + 2]),
        ("reversed", v.iter().rev().copied().collect()),
        ("negated", v.iter().map(|x| (-x.into_group()).into_affine()).collect()),
        ("short", v[..n + 1].to_vec()),
        ("identity first", (0..n + 2).map(|i| if i == 0 { o1 } else { v[i] }).collect()),
    ];
    for (name, f) in forms {
        let name = format!("ciphertext, {name}");
        let x = ct::<E>(&f);
        run!(&name, x.verify_commitment(ek.clone(), gens.clone()).map(|_| true));
        run!(&name, Encryption::decrypt_to_chunks(&x.X_r, &x.enc_chunks, sk, dk.clone(), g_i, 4));
        run!(&name, Encryption::<E>::decrypt_to_chunks_after_re_encryption(&x.X_r, &x.enc_chunks, sk, g_i, 4));
        run!(&name, Encryption::<E>::add_cts(v, &f));
        run!(&name, Encryption::<E>::combine_re_encrypt_share(&v[0], &f[0], v, &f));
        run!(&name, Encryption::<E>::combine_ct_with_w(gens, v, &f[0], &f));
        run!(&name, Encryption::verify_commitments_in_batch(&[ct::<E>(v), x], &[Fr::from(seed), Fr::one()], ek.clone(), gens.clone()).map(|_| true));
    }
    // numbers
    for b in 0..=17u8 {
        let name = format!("{b} bits");
        let x = Fr::from(seed);
        run!(&name, utils::decompose(&x, b));
        run!(&name, utils::compose::<Fr>(&[(seed as u16) & 15, 1, 0, 3], b));
        run!(&name, utils::compose::<Fr>(&vec![65535; 17], b));
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let c: Case = serde_json::from_str(&line).expect("case");
        let one = |c: Case| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if c.toy { run::<Toy>(&c) } else { run::<Bls>(&c) }))
                .unwrap_or_else(|_| vec![("panic".into(), "panic".into())])
        };
        // the same work several times at once
        let hs: Vec<_> = (0..c.copies.max(1)).map(|_| { let c = c.clone(); std::thread::Builder::new().stack_size(16 << 20).spawn(move || one(c)).unwrap() }).collect();
        let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        writeln!(out, "{}", serde_json::to_string(&rs).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
