//! C24: the results of an operation are a function of its arguments and its random source. A history of operations whose
//! arguments coincide in parts is run in one process (in order, in reverse, repeatedly, by concurrent threads) and each
//! result is compared with that of the same operation as the only one in a process of its own.
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use dist_saver::commitment::ChunkedCommitment;
use dsv_harness::*;
use proptest::prop_oneof;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// `at` picks each argument from a pool of few values that have most parts in common
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    kind: u8,
    at: [u8; ARGS],
}
const ARGS: usize = 10;
const KINDS: u8 = NAMES.len() as u8;
const NAMES: [&str; 30] = [
    "encrypt", "decrypt", "decrypt with powers", "powers", "verify commitment", "verify batch", "partial key", "combine keys", "share of P1", "combine shares of P1",
    "destination key", "re-encryption share", "combine re-encryption shares", "switch", "add", "decrypt switched", "keys", "generators", "chunked commitment", "decompose",
    "table", "circuit", "parameters and proof", "verify proof", "prepare", "validate", "serialize", "whole message", "decrypt with vk", "search",
];
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Mode {
    Once,
    Reversed,
    Repeated(u32),
    Threads(u8),
    /// every operation in a thread of its own, repeatedly
    Race(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    toy: bool,
    world: u64,
    n: usize,
    ops: Vec<Op>,
    mode: Mode,
}

/// The arguments, all computed from their logarithms without the crate
struct World<E: Eng> {
    n: usize,
    seed: u64,
    g: [Fr; 2],
    h: [Fr; 2],
    gi: Vec<Vec<Fr>>,
    delta: [Fr; 2],
    gamma: [Fr; 2],
    /// (s, t, v, rho)
    secrets: Vec<(Vec<Fr>, Vec<Fr>, Vec<Fr>, Fr)>,
    msgs: Vec<Vec<u16>>,
    whole: Vec<Fr>,
    r: [Fr; 2],
    _e: std::marker::PhantomData<E>,
}
struct Args<'a, E: Eng> {
    w: &'a World<E>,
    a: [usize; ARGS],
}
impl<E: Eng> World<E> {
    fn new(seed: u64, n: usize) -> Self {
        let mut rng = StdRng::seed_from_u64(seed);
        let mut two = || [nz(&mut rng), nz(&mut rng)];
        let (g, h, delta, gamma, r) = (two(), two(), two(), two(), two());
        let mut many = |k: usize| (0..k).map(|_| nz(&mut rng)).collect::<Vec<Fr>>();
        let a = many(n);
        let mut last = a.clone();
        last[n - 1] = many(1)[0];
        let longer = [a.clone(), many(2)].concat();
        let mut swapped = a.clone();
        swapped.swap(0, n - 1);
        let equal = vec![a[0]; n];
        let negated = a.iter().map(|x| -*x).collect();
        let gi = vec![a, last, longer, swapped, equal, negated];
        let s0 = (many(n), many(n + 1), many(n), many(1)[0]);
        let mut secrets = vec![s0.clone(); 7];
        secrets[1].0[n - 1] = many(1)[0];
        secrets[2].1[n] = many(1)[0];
        secrets[3].1[0] = many(1)[0];
        secrets[4].2[n - 1] = many(1)[0];
        secrets[5].3 = many(1)[0];
        secrets[6] = (many(n), many(n + 1), many(n), many(1)[0]);
        let m: Vec<u16> = (0..n).map(|i| (seed.rotate_left(7 * i as u32) % 8) as u16).collect();
        let mut m1 = m.clone();
        m1[n - 1] = (m1[n - 1] + 1) % 8;
        let mut m2 = m.clone();
        m2[0] = (m2[0] + 3) % 8;
        let mut m3 = m.clone();
        m3.reverse();
        let msgs = vec![m, m1, m2, vec![0; n], vec![7; n], m3];
        let x = many(1)[0];
        let whole = vec![x, x + Fr::one(), -x, Fr::zero(), Fr::one(), x + Fr::from(1u128 << 70)];
        World { n, seed, g, h, gi, delta, gamma, secrets, msgs, whole, r, _e: std::marker::PhantomData }
    }
}
impl<E: Eng> Args<'_, E> {
    fn pick<'b, T>(&self, i: usize, v: &'b [T]) -> &'b T {
        &v[self.a[i] % v.len()]
    }
    fn base(&self) -> Base<E> {
        let w = self.w;
        let (g, h) = match self.a[0] % 4 {
            0 => (w.g[0], w.h[0]),
            1 => (w.g[0], w.h[1]),
            2 => (w.g[1], w.h[0]),
            _ => (Fr::one(), Fr::one()),
        };
        let gi = self.pick(1, &w.gi).clone();
        let (delta, neg_gamma) = [(w.delta[0], w.gamma[0]), (w.delta[0], w.gamma[1]), (w.delta[1], w.gamma[0])][self.a[2] % 3];
        Base { gens: EncryptionGens { G: E::g1(g), H: E::g2(h) }, g, h, g_i: gi.iter().map(|x| E::g1(*x)).collect(), gi, delta, neg_gamma, delta_g: E::g1(g * delta), gamma_g: E::g1(g * neg_gamma) }
    }
    fn secret(&self) -> &(Vec<Fr>, Vec<Fr>, Vec<Fr>, Fr) {
        self.pick(3, &self.w.secrets)
    }
    fn logs(&self, b: &Base<E>) -> EkLogs {
        let (s, t, ..) = self.secret();
        ek_logs(b, s, t)
    }
    fn ek(&self, b: &Base<E>) -> EncryptionKey<E> {
        let l = self.logs(b);
        EncryptionKey {
            X_0: E::g1(l.x0),
            X: l.x.iter().map(|x| E::g1(*x)).collect(),
            Y: l.y.iter().map(|x| E::g1(*x)).collect(),
            Z: l.z.iter().map(|x| E::g2(*x)).collect(),
            P_1: E::g1(l.p1),
            P_2: E::g1(l.p2),
        }
    }
    fn dk(&self, b: &Base<E>) -> DecryptionKey<E> {
        let (s, _, v, rho) = self.secret();
        DecryptionKey {
            V_0: E::g2(b.h * rho),
            V_1: s.iter().zip(v).map(|(s, v)| E::g2(b.h * s * v)).collect(),
            V_2: v.iter().map(|v| E::g2(b.h * rho * v)).collect(),
        }
    }
    fn sk(&self) -> SecretKey<Fr> {
        SecretKey(self.secret().3)
    }
    fn party(&self, i: usize) -> SecretKeyST<E> {
        let x = &self.w.secrets[i % self.w.secrets.len()];
        SecretKeyST { s: x.0.clone(), t: x.1.clone() }
    }
    fn partial(&self, b: &Base<E>, i: usize) -> FEncryptionKeyPartial<E> {
        let mut sk = vec![self.party(i)];
        let mut ek = vec![FEncryptionKeyPartial { X_0: b.delta_g, X: vec![], Y: vec![], Z: vec![], P_2: b.gamma_g }];
        // fills in the elements from the logarithms
        sk.push(sk[0].clone());
        ek.push(ek[0].clone());
        relate(b, 1, &mut sk, &mut ek);
        ek.swap_remove(0)
    }
    /// logarithms of a ciphertext
    fn ct_logs(&self, b: &Base<E>, m: &[u16], r: Fr) -> Vec<Fr> {
        let l = self.logs(b);
        let mut v = vec![l.x0 * r];
        let mut psi = l.p1 * r;
        for i in 0..self.w.n {
            let x = Fr::from(m[i] as u64);
            v.push(l.x[i] * r + b.gi[i] * x);
            psi += l.y[i] * x;
        }
        v.push(psi);
        v
    }
    fn ct_of(&self, b: &Base<E>, i: usize) -> Vec<Fr> {
        let w = self.w;
        let mut l = self.ct_logs(b, &w.msgs[i % w.msgs.len()], w.r[i / w.msgs.len() % 2]);
        // some altered
        if i / 12 % 4 == 1 {
            let k = i % l.len();
            l[k] += Fr::one();
        }
        l
    }
    fn points(l: &[Fr]) -> Vec<E::G1Affine> {
        l.iter().map(|x| E::g1(*x)).collect()
    }
    fn rng(&self) -> StdRng {
        StdRng::seed_from_u64(self.w.seed ^ (self.a[6] % 3) as u64)
    }
}
/// One element too few or too many, for calls that are to be refused
fn refit<T: Clone>(v: &mut Vec<T>, how: u8) {
    match how {
        1 => drop(v.pop()),
        2 => v.extend(v.first().cloned()),
        _ => {}
    }
}
/// Hash of the results, whether any was a refusal
struct Log(std::cell::Cell<u64>, std::cell::Cell<bool>);
impl Log {
    fn bytes(&self, b: &[u8]) {
        let mut x = self.0.get();
        for c in (b.len() as u64).to_le_bytes().iter().chain(b) {
            x = (x ^ *c as u64).wrapping_mul(0x100000001b3);
            x ^= x >> 29;
        }
        self.0.set(x)
    }
    fn put<T: CanonicalSerialize>(&self, x: &T) {
        let mut v = vec![];
        x.serialize_uncompressed(&mut v).unwrap();
        self.bytes(&v);
    }
    fn say(&self, x: impl std::fmt::Debug) {
        self.bytes(format!("{x:?}").as_bytes());
    }
    /// errors are alike
    fn res<T: CanonicalSerialize, X>(&self, r: Result<T, X>) {
        match r {
            Ok(x) => self.put(&x),
            Err(_) => {
                self.1.set(true);
                self.say("refused")
            }
        }
    }
    fn ok<T, X>(&self, r: Result<T, X>) {
        self.1.set(self.1.get() || r.is_err());
        self.say(r.is_ok())
    }
    fn rng(&self, mut r: StdRng) {
        self.say(r.next_u64())
    }
}
fn run_op<E: Eng>(w: &World<E>, op: &Op) -> String {
    let l = Log(std::cell::Cell::new(0xcbf29ce484222325), std::cell::Cell::new(false));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| do_op(w, op, &l)));
    format!("{:016x}{}", l.0.get(), if r.is_err() { " panic" } else if l.1.get() { " refused" } else { "" })
}
fn do_op<E: Eng>(w: &World<E>, op: &Op, l: &Log) {
    let x = Args { w, a: op.at.map(|a| a as usize) };
    let n = w.n;
    let a = x.a;
    let mut b = x.base();
    // the last argument decides whether the sizes fit
    let misfit = [0, 0, 0, 0, 0, 0, 1, 2][a[9] % 8];
    if matches!(op.kind % KINDS, 3 | 6 | 16) && misfit > 0 {
        b.gi.truncate(n - misfit as usize / 2);
        b.g_i.truncate(n - misfit as usize / 2);
    }
    let b = b;
    let mut m = x.pick(4, &w.msgs).clone();
    let fitting = x.base();
    let ctl = x.ct_of(&fitting, a[4]);
    let v = Args::<E>::points(&ctl);
    let mut ct = to_ct::<E>(&v);
    refit(&mut ct.enc_chunks, if matches!(op.kind % KINDS, 4 | 23 | 28) { misfit } else { 0 });
    let range = 3 + (a[5] % 3) as u8;
    let c0 = v[0];
    let mut cs = v[1..n + 1].to_vec();
    refit(&mut cs, if matches!(op.kind % KINDS, 1 | 11 | 12 | 13) { misfit } else { 0 });
    let cs = &cs[..];
    let mut rng = x.rng();
    let powers = || -> Vec<Vec<PairingOutput<E>>> {
        let (_, _, vv, rho) = x.secret();
        (0..n).map(|i| (1u64..1 << range).map(|j| E::gt_pow(b.gi[i] * b.h * rho * vv[i] * Fr::from(j))).collect()).collect()
    };
    match op.kind % KINDS {
        0 => {
            refit(&mut m, misfit);
            l.ok(Encryption::encrypt_decomposed_message(&mut rng, m, &x.ek(&b), &b.g_i).map(|(v, r)| {
                l.put(&v);
                l.put(&r)
            }));
            l.rng(rng)
        }
        1 => {
            let r = Encryption::<E>::decrypt_to_chunks(&c0, cs, &x.sk(), x.dk(&b), &b.g_i, range);
            l.say(r.as_ref().map(|r| r.0.clone()).ok());
            l.res(r.map(|r| r.1));
        }
        2 => {
            let mut pp = powers();
            match misfit {
                1 if n > 1 => drop(pp.pop()),
                0 => {}
                _ => drop(pp[n - 1].truncate(2)),
            }
            let r = Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&c0, cs, &x.sk(), x.dk(&b), &b.g_i, range, Some(&pp));
            l.say(r.as_ref().map(|r| r.0.clone()).ok());
            l.res(r.map(|r| r.1));
        }
        3 => l.res(x.dk(&b).pairing_powers(range, &b.g_i).map(|p| p.concat().iter().map(|x| x.0).collect::<Vec<_>>())),
        4 => l.ok(ct.verify_commitment(x.ek(&b), b.gens.clone())),
        5 => {
            let mut cts: Vec<_> = (0..1 + a[7] % 5).map(|i| to_ct::<E>(&Args::<E>::points(&x.ct_of(&b, a[4] + i * a[8])))).collect();
            let mut side = x.rng();
            let ws: Vec<Fr> = cts.iter().map(|_| nz(&mut side)).collect();
            refit(&mut cts.last_mut().unwrap().enc_chunks, misfit);
            l.ok(Encryption::verify_commitments_in_batch(&cts, &ws, x.ek(&b), b.gens.clone()));
        }
        6 => {
            l.ok(FkeygenPartial(&mut rng, bits_for(n), &b.gens, &b.g_i, &b.delta_g, &b.gamma_g).map(|(s, e)| {
                l.put(&s);
                l.put(&e)
            }));
            l.rng(rng)
        }
        7 => {
            let mut eks: Vec<_> = (0..1 + a[7] % 4).map(|i| x.partial(&b, a[3] + i * a[8])).collect();
            let last = eks.last_mut().unwrap();
            refit(&mut last.X, misfit);
            refit(&mut last.Y, misfit);
            refit(&mut last.Z, misfit);
            l.put(&combineEKs(&b.gamma_g, &eks));
        }
        8 => {
            let mut sk = x.party(a[8]);
            refit(&mut sk.s, misfit);
            refit(&mut sk.t, misfit);
            l.put(&genP1share(&x.partial(&b, a[3]), &sk))
        }
        9 => {
            let p: Vec<_> = (0..1 + a[7] % 4).map(|i| P1share::<E> { P_1: E::g1(ctl[(i * a[8]) % ctl.len()]) }).collect();
            let p = combineP1share(&p);
            l.put(&p);
            l.put(&keygenFinal(&x.partial(&b, a[3]), &p));
        }
        10 => {
            l.ok(Fkeygen_dest::<_, E>(&mut rng, &b.gens).map(|(s, e)| {
                l.put(&s);
                l.put(&e)
            }));
            l.rng(rng)
        }
        11 => {
            let ekd = FEncryptionKeyDest { pk: E::g1(b.g * w.r[a[7] % 2]) };
            l.ok(Encryption::re_encrypt_share(&mut rng, &b.gens, &c0, cs, &ekd, &x.party(a[8])).map(|(w, g)| {
                l.put(&w);
                l.put(&g)
            }));
            l.rng(rng)
        }
        12 => {
            let o = Args::<E>::points(&x.ct_of(&b, a[8]));
            l.ok(Encryption::<E>::combine_re_encrypt_share(&c0, &o[0], cs, &o[1..n + 1]).map(|(w, g)| {
                l.put(&w);
                l.put(&g)
            }));
        }
        13 => {
            let o = Args::<E>::points(&x.ct_of(&b, a[8]));
            l.res(Encryption::<E>::combine_ct_with_w(&b.gens, cs, &c0, &o[1..n + 1]));
        }
        14 => {
            let mut o = Args::<E>::points(&x.ct_of(&b, a[8]));
            refit(&mut o, misfit);
            l.res(Encryption::<E>::add_cts(&v, &o));
        }
        15 => {
            let sk = w.r[a[7] % 2];
            let o: Vec<Fr> = (0..n).map(|i| b.gi[i] * Fr::from(m[i]) + ctl[0] * sk).collect();
            l.say(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &Args::<E>::points(&o), &SecretKey(w.r[a[8] % 8 / 7 ^ a[7] % 2]), &b.g_i, range).ok());
        }
        16 => {
            l.ok(keygen(&mut rng, bits_for(n), &b.gens, &b.g_i, &b.delta_g, &b.gamma_g).map(|(s, e, d)| {
                l.put(&s);
                l.put(&e);
                l.put(&d)
            }));
            l.rng(rng)
        }
        17 => {
            let label = [&b"a label"[..], b"a labem", b"a label\0", b"", b"a label : G"][a[7] % 5];
            if a[8] % 2 == 0 {
                l.put(&EncryptionGens::<E>::new::<blake2::Blake2b512>(label));
                l.put(&ChunkedCommitmentGens::<E::G1Affine>::new::<blake2::Blake2b512>(label));
            } else {
                l.put(&EncryptionGens::<E>::new::<sha2::Sha512>(label));
                l.put(&utils::field_elem_from_try_and_incr::<Fr, sha2::Sha512>(label));
            }
            l.put(&EncryptionGens::<E>::new_using_rng(&mut rng));
            l.put(&ChunkedCommitmentGens::<E::G2Affine>::new_using_rng(&mut rng));
            l.rng(rng)
        }
        18 => {
            let cg = ChunkedCommitmentGens { G: b.gens.G, H: E::g1(w.delta[a[2] % 2]) };
            let bits = [4, 8, 16][a[5] % 3];
            let (m, r) = (x.pick(7, &w.whole), x.pick(8, &w.whole));
            l.res(ChunkedCommitment::new(m, r, bits, &cg));
            let key = ChunkedCommitment::commitment_key(&cg, bits);
            l.put(&key);
            l.res(ChunkedCommitment::<E::G1Affine>::get_commitment_given_commitment_key(m, r, bits, &key));
        }
        19 => {
            let bits = [4, 8, 16][a[5] % 3];
            let d = utils::decompose(x.pick(7, &w.whole), bits).ok();
            l.say(&d);
            l.say(utils::compose::<Fr>(&m, [4, 8, 16][a[8] % 3]).ok());
            l.say(utils::compose::<Fr>(&d.unwrap_or_default(), [4, 8, 16][a[8] % 3]).ok());
            l.say(utils::chunks_count::<Fr>(a[8] as u8 | 1));
        }
        20 => {
            let xs: Vec<Fr> = (0..a[7] % 9).map(|i| w.whole[(i * a[8]) % w.whole.len()]).collect();
            let p = E::g1(b.gi[0]).into_group();
            let t = utils::WindowTable::<E::G1>::new(a[4] * a[6] / 2, p);
            l.put(&t.multiply_many(&xs).into_iter().map(|x| x.into_affine()).collect::<Vec<_>>());
            l.put(&t.multiply(x.pick(8, &w.whole)).into_affine());
            l.put(&utils::multiply_field_elems_with_same_group_elem(p, &xs).into_iter().map(|x| x.into_affine()).collect::<Vec<_>>());
            l.put(&utils::multiply_field_elems_with_same_group_elem(E::g2(b.gi[0]).into_group(), &xs).into_iter().map(|x| x.into_affine()).collect::<Vec<_>>());
        }
        21 => {
            use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
            let vals: Vec<Fr> = m.iter().map(|x| Fr::from(*x)).collect();
            let cs = ConstraintSystem::<Fr>::new_ref();
            let c = BitsizeCheckCircuit::new([3, 4, 2, 1, 254][a[5] % 5], (a[8] % 2 == 0).then_some(n as u8), Some(vals), a[7] % 2 == 0);
            l.say((c.num_values, c.required_bit_size));
            l.ok(c.generate_constraints(cs.clone()));
            l.say((cs.is_satisfied().ok(), cs.num_constraints(), cs.num_instance_variables(), cs.num_witness_variables()));
        }
        22 => {
            // proofs are costly on real curves
            let k = if E::TOY { 1 + a[7] % 2 } else { 1 };
            let bits = 2 + (a[5] % 2) as u8;
            let c = BitsizeCheckCircuit::<Fr>::new(bits, Some(k as u8), None, true);
            let Ok(srs) = saver_groth16::generate_srs(c, &b.gens, &mut rng) else { return l.say("no parameters") };
            l.put(&srs);
            let (s, t, ..) = x.secret();
            let g_i = saver_groth16::get_gs_for_encryption(&srs.pk.vk);
            let Ok((_, ek, _)) = keygen(&mut rng, bits_for(k), &b.gens, g_i, &srs.pk.delta_g1, &srs.gamma_g1) else { return l.say("no keys") };
            l.put(&ek);
            let m: Vec<u16> = (0..k).map(|i| m[i % n] % 4).collect();
            let Ok((v, r)) = Encryption::encrypt_decomposed_message(&mut rng, m.clone(), &ek, g_i) else { return l.say("no ciphertext") };
            l.put(&v);
            let c = BitsizeCheckCircuit::<Fr>::new(bits, Some(k as u8), Some(frv(&m)), true);
            let Ok(p) = saver_groth16::create_proof(c, &r, &srs, &ek, &mut rng) else { return l.say("no proof") };
            l.put(&p);
            let pvk = saver_groth16::prepare_verifying_key(&srs.pk.vk);
            l.ok(saver_groth16::verify_proof(&pvk, &p, &to_ct::<E>(&v)));
            let mut bad = v.clone();
            bad[1] = (bad[1] + E::g1(s[0] * t[0])).into();
            l.ok(saver_groth16::verify_proof(&pvk, &p, &to_ct::<E>(&bad)));
            l.rng(rng)
        }
        23 => {
            // a proof from the logarithms, right or wrong
            let (al, be, ga, de) = (w.r[a[7] % 2], w.h[0], w.gamma[a[2] % 2], w.delta[a[5] % 2]);
            let mut abc = vec![w.g[0]];
            abc.extend_from_slice(&b.gi);
            let vk = VerifyingKey::<E> { alpha_g1: E::g1(al), beta_g2: E::g2(be), gamma_g2: E::g2(ga), delta_g2: E::g2(de), gamma_abc_g1: abc.iter().map(|x| E::g1(*x)).collect() };
            let d = ctl[..n + 1].iter().sum::<Fr>() + abc[0];
            let pc = w.whole[0];
            let pa = w.r[0];
            let pb = (al * be + d * ga + pc * de) * pa.inverse().unwrap() + Fr::from((a[8] % 4 == 3) as u64);
            let pvk = saver_groth16::prepare_verifying_key(&vk);
            let p = Proof::<E> { a: E::g1(pa), b: E::g2(pb), c: E::g1(pc) };
            l.res(saver_groth16::calculate_d(&pvk, &ct));
            l.ok(saver_groth16::verify_proof(&pvk, &p, &ct));
            l.ok(ct.verify_commitment_and_proof(&p, &pvk, x.ek(&b), b.gens.clone()));
        }
        24 => {
            let (ek, dk) = (x.ek(&b), x.dk(&b));
            let (pe, pd) = (PreparedEncryptionKey::from(ek.clone()), PreparedDecryptionKey::from(dk));
            l.put(&pe.Z);
            l.put(&pe.X);
            l.put(&pe.Y);
            l.put(&pe.P_1);
            l.put(&pe.P_2);
            l.put(&pe.commitment_key());
            l.put(&ek.commitment_key());
            l.put(&pd.V_0);
            l.put(&pd.V_1);
            l.put(&pd.V_2);
            let pg = PreparedEncryptionGens::<E>::from(b.gens.clone());
            l.put(&pg.G);
            l.put(&pg.H);
        }
        25 => {
            let (mut ek, mut dk) = (x.ek(&b), x.dk(&b));
            match a[8] % 8 {
                0 => drop(ek.X.pop()),
                1 => drop(ek.Y.pop()),
                2 => drop(ek.Z.pop()),
                3 => drop(dk.V_1.pop()),
                4 => drop(dk.V_2.pop()),
                _ => {}
            }
            l.ok(ek.validate());
            l.ok(dk.validate());
            l.say(ek.supported_chunks_count().ok());
            l.say(dk.supported_chunks_count().ok());
        }
        26 => {
            let mode = if a[7] % 2 == 0 { Compress::Yes } else { Compress::No };
            let val = if a[8] % 2 == 0 { Validate::Yes } else { Validate::No };
            macro_rules! trip {
                ($x: expr, $t: ty) => {{
                    let y = $x;
                    let mut v = vec![];
                    l.ok(y.serialize_with_mode(&mut v, mode));
                    l.bytes(&v);
                    let k = a[6] % 3;
                    if k == 1 {
                        v.pop();
                    }
                    l.res(<$t>::deserialize_with_mode(&v[..], mode, val));
                    let j = serde_json::to_string(&y).unwrap_or_default();
                    l.bytes(j.as_bytes());
                    l.res(serde_json::from_str::<$t>(&j[..j.len() - (k == 2) as usize]));
                    let j = bincode::serialize(&y).unwrap_or_default();
                    l.bytes(&j);
                    l.res(bincode::deserialize::<$t>(&j));
                }};
            }
            match a[5] % 5 {
                0 => trip!(x.ek(&b), EncryptionKey<E>),
                1 => trip!(x.dk(&b), DecryptionKey<E>),
                2 => trip!(ct, Ciphertext<E>),
                3 => trip!(x.party(a[3]), SecretKeyST<E>),
                _ => {
                    trip!(x.sk(), SecretKey<Fr>);
                    trip!(b.gens.clone(), EncryptionGens<E>);
                }
            }
        }
        27 => {
            // whole messages under keys of 32 chunks of 8 bits
            let k = if E::TOY { 32 } else { 16 };
            let bits = (256 / k) as u8;
            let gi: Vec<Fr> = (0..k).map(|i| b.gi[i % n] + Fr::from(i as u64)).collect();
            let g_i = Args::<E>::points(&gi);
            let mut fixed = StdRng::seed_from_u64(a[3] as u64 % 2);
            let Ok((sk, ek, dk)) = keygen(&mut fixed, bits, &b.gens, &g_i, &b.delta_g, &b.gamma_g) else { return l.say("no keys") };
            let Ok((ct, r)) = Encryption::encrypt(&mut rng, x.pick(7, &w.whole), &ek, &g_i, bits) else { return l.say("no ciphertext") };
            l.put(&ct);
            l.put(&r);
            l.ok(ct.verify_commitment(ek, b.gens.clone()));
            if E::TOY {
                l.ok(ct.decrypt(&sk, dk, &g_i, bits).map(|(m, nu)| {
                    l.put(&m);
                    l.put(&nu)
                }));
            }
            l.rng(rng)
        }
        29 => {
            // wide ranges, values at their ends
            let bits = if E::TOY { [2u8, 5, 8, 11, 16][a[5] % 5] } else { [2u8, 4, 6, 8, 10][a[5] % 5] };
            let top = (1u64 << bits) - 1;
            let val = |i: usize| [top, top / 2, top - 1, 1, top + 1, 0, top / 3 + 1][(a[4] + i * (a[7] % 3)) % 7];
            let sk = w.r[a[8] % 2];
            let (_, _, vv, rho) = x.secret();
            let switched: Vec<Fr> = (0..n).map(|i| b.gi[i] * Fr::from(val(i)) + ctl[0] * sk).collect();
            l.say(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &Args::<E>::points(&switched), &SecretKey(sk), &b.g_i, bits).ok());
            if E::TOY || bits <= 6 {
                let (s, ..) = x.secret();
                let direct: Vec<Fr> = (0..n).map(|i| b.gi[i] * Fr::from(val(i)) + ctl[0] * s[i]).collect();
                let r = Encryption::<E>::decrypt_to_chunks(&c0, &Args::<E>::points(&direct), &SecretKey(*rho), x.dk(&b), &b.g_i, bits);
                l.say(r.as_ref().map(|r| r.0.clone()).ok());
                l.res(r.map(|r| r.1));
                if bits <= 8 {
                    let pp: Vec<Vec<PairingOutput<E>>> = (0..n).map(|i| (1u64..=top).map(|j| E::gt_pow(b.gi[i] * b.h * rho * vv[i] * Fr::from(j))).collect()).collect();
                    let r = Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&c0, &Args::<E>::points(&direct), &SecretKey(*rho), x.dk(&b), &b.g_i, bits, Some(&pp));
                    l.say(r.as_ref().map(|r| r.0.clone()).ok());
                    l.res(r.map(|r| r.1));
                }
            }
        }
        _ => {
            let vk = fake_vk::<E>(&b.g_i);
            l.put(&saver_groth16::get_gs_for_encryption(&vk).to_vec());
            l.ok(ct.decrypt_given_groth16_vk(&x.sk(), x.dk(&b), &vk, range));
            l.ok(ct.decrypt_given_groth16_vk_and_pairing_powers(&x.sk(), x.dk(&b), &vk, range, &powers()));
        }
    }
}
/// Results of each operation, in the order of the list; more than one if it was run more than once and they differ
fn history<E: Eng>(c: &Case) -> Vec<Vec<String>> {
    let w = World::<E>::new(c.world, c.n);
    let mut r = vec![vec![]; c.ops.len()];
    let mut note = |i: usize, s: String| {
        let v: &mut Vec<String> = &mut r[i];
        if !v.contains(&s) {
            v.push(s)
        }
    };
    match c.mode {
        Mode::Once => c.ops.iter().enumerate().for_each(|(i, o)| note(i, run_op(&w, o))),
        Mode::Reversed => c.ops.iter().enumerate().rev().for_each(|(i, o)| note(i, run_op(&w, o))),
        Mode::Repeated(k) => {
            for _ in 0..k {
                c.ops.iter().enumerate().for_each(|(i, o)| note(i, run_op(&w, o)))
            }
        }
        Mode::Threads(k) => {
            let (w, ops) = (&w, &c.ops);
            let all: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
                let h: Vec<_> = (0..k as usize)
                    .map(|t| s.spawn(move || (0..ops.len() * 3).map(|i| (i + t * 5) % ops.len()).map(|i| (i, run_op(w, &ops[i]))).collect::<Vec<_>>()))
                    .collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            });
            all.into_iter().flatten().for_each(|(i, s)| note(i, s))
        }
        Mode::Race(k) => {
            let (w, ops) = (&w, &c.ops);
            let start = std::sync::Barrier::new(ops.len());
            let start = &start;
            let all: Vec<Vec<String>> = std::thread::scope(|s| {
                let h: Vec<_> = ops
                    .iter()
                    .map(|o| {
                        s.spawn(move || {
                            start.wait();
                            let mut v: Vec<String> = (0..k).map(|_| run_op(w, o)).collect();
                            v.dedup();
                            v
                        })
                    })
                    .collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            });
            all.into_iter().enumerate().for_each(|(i, v)| v.into_iter().for_each(|s| note(i, s)))
        }
    }
    r
}
fn process(c: &Case) -> Result<Vec<Vec<String>>, String> {
    let mut child = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .arg("--history")
        .env("RAYON_NUM_THREADS", "2")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot start a process: {e}"))?;
    child.stdin.take().unwrap().write_all(serde_json::to_string(c).unwrap().as_bytes()).map_err(|e| format!("cannot write to the process: {e}"))?;
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    serde_json::from_slice(&out.stdout).map_err(|_| format!("the process of {:?} over {} operations ended without an answer ({})", c.mode, c.ops.len(), out.status))
}
fn check(c: &Case) -> Outcome {
    let got = process(c)?;
    for (i, op) in c.ops.iter().enumerate() {
        let alone = process(&Case { ops: vec![op.clone()], mode: Mode::Once, ..c.clone() })?;
        ensure!(got[i].len() == 1, "operation {i} ({op:?}) gives {} different results for the same arguments ({:?})", got[i].len(), c.mode);
        ensure!(got[i] == alone[0], "operation {i} ({op:?}) gives another result in this history ({:?}) than on its own", c.mode);
    }
    let kinds: std::collections::BTreeSet<u8> = c.ops.iter().map(|o| o.kind).collect();
    let differ = (1..got.len()).any(|i| got[i] != got[i - 1] && c.ops[i].kind == c.ops[i - 1].kind);
    let mut info = Info::new(differ);
    for (i, o) in c.ops.iter().enumerate() {
        let end = got[i][0].split(' ').nth(1).unwrap_or("done");
        info = info.label(format!("{}: {end}", NAMES[(o.kind % KINDS) as usize]));
    }
    Ok(info.label(match c.mode {
        Mode::Once => "in order",
        Mode::Reversed => "in reverse",
        Mode::Repeated(_) => "repeatedly",
        Mode::Threads(_) => "concurrently",
        Mode::Race(_) => "each in its own thread",
    }).label_if(kinds.len() > 3, "over 3 kinds of operations"))
}
fn check_very_many(c: &Case) -> Outcome {
    check(c).map(|mut i| {
        i.nontrivial = true;
        i
    })
}
fn cases(toy: bool) -> BoxedStrategy<Case> {
    let mode = prop_oneof![3 => Just(Mode::Once), 2 => Just(Mode::Reversed), 1 => (2u32..=if toy { 6 } else { 2 }).prop_map(Mode::Repeated), 2 => (2u8..=4).prop_map(Mode::Threads)];
    // few kinds, each operation as an earlier one with a few arguments changed
    let kind = move || prop_oneof![20 => 0..KINDS, 1 => Just(if toy { 22u8 } else { 0 })];
    let step = (any::<u8>(), proptest::option::weighted(0.25, any::<u8>()), proptest::collection::vec((0..ARGS, 0u8..60), 0..3));
    let first = (proptest::collection::vec(kind(), 1..4), proptest::array::uniform10(0u8..60));
    let len = if toy { 3..14usize } else { 3..8 };
    bx((any::<u64>(), 1usize..=if toy { 4 } else { 2 }, first, proptest::collection::vec(step, len), mode).prop_map(move |(world, n, (kinds, at), steps, mode)| {
        let mut ops = vec![Op { kind: kinds[0], at }];
        for (from, kind, change) in steps {
            let mut o = ops[from as usize % ops.len()].clone();
            if let Some(k) = kind {
                o.kind = kinds[k as usize % kinds.len()];
            }
            for (i, x) in change {
                o.at[i] = x;
            }
            ops.push(o);
        }
        if !toy {
            ops.iter_mut().filter(|o| o.kind == 22 || o.kind == 27).skip(1).for_each(|o| o.kind = 0);
        }
        Case { toy, world, n, ops, mode }
    }))
}
/// One kind of operation many times in one process, with two sets of arguments
fn many() -> BoxedStrategy<Case> {
    bx((any::<u64>(), 1usize..=2, 0..KINDS, proptest::array::uniform10(0u8..60), proptest::collection::vec((0..ARGS, 0u8..60), 1..4), any::<u8>()).prop_map(|(world, n, kind, at, change, k)| {
        let mut o = Op { kind, at };
        let mut ops = vec![o.clone()];
        for (i, x) in change {
            o.at[i] = x;
        }
        ops.push(o);
        let most = match kind {
            22 => 30,
            27 | 17 => 60,
            _ => 150,
        };
        Case { toy: true, world, n, ops, mode: Mode::Repeated(most + k as u32) }
    }))
}
/// So many operations that a counter of 16 bits overflows
fn very_many() -> BoxedStrategy<Case> {
    static NEXT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
    bx((any::<u64>(), proptest::array::uniform10(0u8..60), any::<u8>()).prop_map(|(world, at, k)| {
        // cheap kinds, one after the other
        const CHEAP: [u8; 20] = [11, 0, 1, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 18, 19, 23, 24, 25];
        let kind = CHEAP[NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as usize % CHEAP.len()];
        let mut at = at;
        at[9] = 0;
        Case { toy: true, world, n: 1, ops: vec![Op { kind, at }], mode: Mode::Repeated(65_600 + k as u32) }
    }))
}
/// Operations of one kind, each repeated in a thread of its own
fn race(toy: bool) -> BoxedStrategy<Case> {
    let kind = prop_oneof![4 => 0..KINDS, 1 => Just(29u8)];
    let change = proptest::collection::vec((0..ARGS, 0u8..60), 1..4);
    bx((any::<u64>(), 1usize..=2, kind, proptest::array::uniform10(0u8..60), proptest::collection::vec(change, 1..4)).prop_map(move |(world, n, kind, at, changes)| {
        let mut ops = vec![Op { kind, at }];
        for c in changes {
            let mut o = ops[0].clone();
            c.into_iter().for_each(|(i, x)| o.at[i] = x);
            ops.push(o);
        }
        let most = match (toy, kind) {
            (true, 22) => 6,
            (true, 17 | 27) => 20,
            (true, _) => 200,
            (false, 22 | 27) => 1,
            (false, _) => 4,
        };
        Case { toy, world, n, ops, mode: Mode::Race(most) }
    }))
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("--history") {
        let mut s = String::new();
        std::io::stdin().read_to_string(&mut s).unwrap();
        let c: Case = serde_json::from_str(&s).unwrap();
        std::panic::set_hook(Box::new(|_| {}));
        let r = if c.toy { history::<Toy>(&c) } else { history::<Bls>(&c) };
        println!("{}", serde_json::to_string(&r).unwrap());
        return;
    }
    let mut p = Prop::new("C24", "Results depend on the arguments and the random source alone");
    p.assume("results are compared by a 64-bit hash of their canonical serialization; errors are alike");
    p.assume("interleavings of concurrent calls are those the operating system produces for 2 to 4 threads");
    let nt = "30 kinds of operations, arguments from pools of values with common parts, some of sizes that do not fit (refused with an error or a panic); compared with the same operation alone in a process; non-trivial: two adjacent operations of one kind have different results";
    p.part("toy", &format!("histories of 4..14 operations in order, in reverse, repeatedly, concurrently; {nt}"), 2500, 150_000, || cases(true), check);
    p.part("bls", &format!("histories of 4..8 operations on BLS12-381; {nt}"), 60, 3000, || cases(false), check);
    p.part("many", "one kind of operation 150 to 400 times with two sets of arguments in turn; non-trivial: their results differ", 150, 6000, many, check);
    p.part("very_many", "one operation 65600 times and more; non-trivial: all", 20, 400, very_many, check_very_many);
    let nt = "2 to 4 operations of one kind, each repeated in a thread of its own; non-trivial: two of them have different results";
    p.part("race_toy", nt, 400, 20_000, || race(true), check);
    p.part("race_bls", &format!("BLS12-381; {nt}"), 40, 1500, || race(false), check);
    p.finish()
}
