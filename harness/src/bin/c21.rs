//! C21: histories of the whole protocol against a model that keeps the plaintext sums
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress};
use dsv_harness::*;
use proptest::prop_oneof;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// another committee over the same generators: seed, parties, arrival order
    Committee(u64, u8, u64),
    Destination,
    /// contribution to a committee
    Encrypt(u8, Vec<u16>),
    /// contribution of zeros
    Zero(u8),
    /// several contributions aggregated in one go
    Many(u8, Vec<Vec<u16>>, u64),
    Add(u8, u8),
    AddSelf(u8),
    /// a contribution altered on the way must not be accepted
    Altered(u8, CtEdit),
    /// a proven contribution, and one whose chunk is out of range
    Proven(u8, Vec<u16>),
    OutOfRange(u8, u8, u16),
    Verify(u8),
    VerifyAll(u64),
    /// key switch: ciphertext, destination, order, grouping
    Switch(u8, u8, u64, bool),
    /// one party does not take part
    Incomplete(u8, u8, u8),
    /// contributions switched already are added up for the destination
    AddSwitched(u8, u8),
    /// search range relative to what is needed
    Decrypt(u8, i8),
    WrongDestination(u8, u8),
    /// everything of this kind is stored and loaded again
    Store(u8, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    seed: u64,
    n: usize,
    /// bits of SNARK parameters, if any
    srs: Option<u8>,
    parties: u8,
    rng: RngS,
    ops: Vec<Op>,
    finish_order: u64,
}
struct Committee<E: Eng> {
    sks: Vec<SecretKeyST<E>>,
    ek: EncryptionKey<E>,
}
struct Entry<E: Eng> {
    com: usize,
    v: Vec<E::G1Affine>,
    sum: Vec<u64>,
}
struct Switched<E: Eng> {
    dest: usize,
    v: Vec<E::G1Affine>,
    sum: Vec<u64>,
}
fn store<T: CanonicalSerialize + CanonicalDeserialize>(x: &T, compress: bool) -> Result<T, String> {
    let m = if compress { Compress::Yes } else { Compress::No };
    let mut b = vec![];
    must!(x.serialize_with_mode(&mut b, m));
    Ok(must!(T::deserialize_with_mode(&b[..], m, ark_serialize::Validate::Yes)))
}
struct World<E: Eng> {
    n: usize,
    b: Base<E>,
    srs: Option<std::sync::Arc<Srs<E>>>,
    coms: Vec<Committee<E>>,
    dests: Vec<(SecretKey<Fr>, FEncryptionKeyDest<E>)>,
    pool: Vec<Entry<E>>,
    switched: Vec<Switched<E>>,
    rng: SRngBox,
}
type SRngBox = gen::SRng;
/// smallest search range in bits that holds all values
fn need(sum: &[u64]) -> u8 {
    let m = *sum.iter().max().unwrap_or(&0);
    (64 - m.leading_zeros()).max(1) as u8
}
impl<E: Eng> World<E> {
    fn committee(&mut self, seed: u64, parties: u8, order: u64) -> Result<(), String> {
        let mut rng = StdRng::seed_from_u64(seed);
        let (mut sks, mut eks) = (vec![], vec![]);
        for _ in 0..parties {
            let (s, e) = must!(FkeygenPartial(&mut rng, bits_for(self.n), &self.b.gens, &self.b.g_i, &self.b.delta_g, &self.b.gamma_g));
            sks.push(s);
            eks.push(e);
        }
        if self.srs.is_none() {
            // some committees whose members' secrets are equal or opposite
            relate(&self.b, [0, 0, 0, 0, 1, 2, 3, 4][(seed >> 8) as usize % 8], &mut sks, &mut eks);
        }
        // contributions arrive in any order
        let eks: Vec<_> = perm(eks.len(), order).into_iter().map(|i| eks[i].clone()).collect();
        let comb = combineEKs(&self.b.gamma_g, &eks);
        let shares: Vec<_> = perm(sks.len(), order.rotate_left(7)).into_iter().map(|i| genP1share(&comb, &sks[i])).collect();
        let ek = keygenFinal(&comb, &combineP1share(&shares));
        must!(ek.validate());
        self.coms.push(Committee { sks, ek });
        Ok(())
    }
    fn encrypt(&mut self, com: usize, m: &[u16]) -> Result<(Vec<E::G1Affine>, Fr), String> {
        Ok(must!(Encryption::encrypt_decomposed_message(&mut self.rng, m.to_vec(), &self.coms[com].ek, &self.b.g_i)))
    }
    fn publicly_ok(&self, e: &Entry<E>) -> bool {
        to_ct::<E>(&e.v).verify_commitment(self.coms[e.com].ek.clone(), self.b.gens.clone()).is_ok()
    }
    fn switch(&mut self, i: usize, d: usize, order: u64, tree: bool, skip: Option<usize>) -> Result<Switched<E>, String> {
        let e = &self.pool[i];
        let com = &self.coms[e.com];
        let (c0, c) = (e.v[0], e.v[1..e.v.len() - 1].to_vec());
        let mut shares = vec![];
        for p in perm(com.sks.len(), order) {
            if Some(p) == skip {
                continue;
            }
            shares.push(must!(Encryption::re_encrypt_share(&mut self.rng, &self.b.gens, &c0, &c, &self.dests[d].1, &com.sks[p])));
        }
        let join = |a: &(Vec<E::G1Affine>, E::G1Affine), b: &(Vec<E::G1Affine>, E::G1Affine)| Encryption::<E>::combine_re_encrypt_share(&a.1, &b.1, &a.0, &b.0);
        while shares.len() > 1 {
            if tree {
                let mut next = vec![];
                for x in shares.chunks(2) {
                    next.push(if x.len() == 2 { must!(join(&x[0], &x[1])) } else { x[0].clone() });
                }
                shares = next;
            } else {
                let b = shares.pop().unwrap();
                let a = shares.pop().unwrap();
                shares.push(must!(join(&a, &b)));
            }
        }
        let (w, g) = shares.pop().unwrap_or((vec![E::G1Affine::zero(); c.len()], E::G1Affine::zero()));
        let v = must!(Encryption::<E>::combine_ct_with_w(&self.b.gens, &c, &g, &w));
        Ok(Switched { dest: d, v, sum: e.sum.clone() })
    }
    fn decrypt(&self, s: &Switched<E>, d: usize, bits: u8) -> Result<Option<Vec<u16>>, String> {
        let sk = self.dests[d].0.clone();
        no_panic(|| Encryption::<E>::decrypt_to_chunks_after_re_encryption(&s.v[0], &s.v[1..], &sk, &self.b.g_i, bits).ok())
    }
    /// What the destination reads is the sum, or an error if a chunk is out of the search range
    fn reads(&self, s: &Switched<E>, bits: u8) -> Result<(), String> {
        let max = (1u64 << bits.min(16)) - 1;
        let want = if s.sum.iter().all(|x| *x <= max) { Some(s.sum.iter().map(|x| *x as u16).collect::<Vec<_>>()) } else { None };
        ensure_eq!(self.decrypt(s, s.dest, bits)?, want, "destination {} with {bits} bits reads the sums {:?}", s.dest, s.sum);
        Ok(())
    }
}
fn check<E: Eng>(c: &Case) -> Outcome {
    let n = c.n;
    let srs = match c.srs {
        Some(b) => Some(Srs::<E>::get(b, n, c.seed % 2)?),
        None => None,
    };
    let b = match &srs {
        Some(s) => Base {
            gens: s.gens.clone(),
            g: s.g,
            h: s.h,
            gi: vec![],
            g_i: s.g_i().to_vec(),
            delta: Fr::zero(),
            neg_gamma: Fr::zero(),
            delta_g: s.pk.pk.delta_g1,
            gamma_g: s.pk.gamma_g1,
        },
        None => Base::<E>::new(c.seed, n, c.seed as usize % 2),
    };
    let mut w = World { n, b, srs, coms: vec![], dests: vec![], pool: vec![], switched: vec![], rng: c.rng.rng() };
    w.committee(c.seed, c.parties, c.finish_order)?;
    w.dests.push(must!(Fkeygen_dest(&mut w.rng, &w.b.gens)));
    let cap = if E::TOY { 12 } else { 4 };
    let mut labels: Vec<&str> = vec![];
    let fitm = |m: &[u16]| -> Vec<u16> { (0..n).map(|i| m[i % m.len()]).collect() };
    for op in &c.ops {
        let pick = |i: u8, l: usize| i as usize % l;
        match op {
            Op::Committee(s, p, o) if w.coms.len() < 3 => {
                w.committee(*s, *p, *o)?;
                labels.push("several committees");
            }
            Op::Destination if w.dests.len() < 4 => {
                let d = must!(Fkeygen_dest(&mut w.rng, &w.b.gens));
                ensure!(w.dests.iter().all(|x| x.0 != d.0), "destination key repeated");
                w.dests.push(d);
            }
            Op::Encrypt(k, m) if w.pool.len() < cap => {
                let com = pick(*k, w.coms.len());
                let m = fitm(m);
                let (v, _) = w.encrypt(com, &m)?;
                w.pool.push(Entry { com, v, sum: m.iter().map(|x| *x as u64).collect() });
            }
            Op::Zero(k) if w.pool.len() < cap => {
                let com = pick(*k, w.coms.len());
                let (v, _) = w.encrypt(com, &vec![0; n])?;
                w.pool.push(Entry { com, v, sum: vec![0; n] });
            }
            Op::Many(k, ms, o) if w.pool.len() < cap => {
                let com = pick(*k, w.coms.len());
                let mut all = vec![];
                for m in ms {
                    let m = fitm(m);
                    all.push((w.encrypt(com, &m)?.0, m));
                }
                let mut acc: Option<Vec<E::G1Affine>> = None;
                for i in perm(all.len(), *o) {
                    acc = Some(match acc {
                        None => all[i].0.clone(),
                        Some(a) => must!(Encryption::<E>::add_cts(&a, &all[i].0)),
                    });
                }
                let sum = (0..n).map(|j| all.iter().map(|(_, m)| m[j] as u64).sum()).collect();
                w.pool.push(Entry { com, v: acc.unwrap(), sum });
                labels.push("aggregate of many");
            }
            Op::Add(i, j) if !w.pool.is_empty() && w.pool.len() < cap => {
                let (i, j) = (pick(*i, w.pool.len()), pick(*j, w.pool.len()));
                if w.pool[i].com == w.pool[j].com {
                    let v = must!(Encryption::<E>::add_cts(&w.pool[i].v, &w.pool[j].v));
                    let sum = w.pool[i].sum.iter().zip(&w.pool[j].sum).map(|(a, b)| a + b).collect();
                    let com = w.pool[i].com;
                    w.pool.push(Entry { com, v, sum });
                    labels.push("sum");
                } else {
                    // of different committees: not readable by the first committee's check
                    let v = must!(Encryption::<E>::add_cts(&w.pool[i].v, &w.pool[j].v));
                    let e = Entry { com: w.pool[i].com, v, sum: vec![] };
                    if w.pool[j].v[0] != E::G1Affine::zero() && w.coms[w.pool[i].com].ek != w.coms[w.pool[j].com].ek {
                        ensure!(!w.publicly_ok(&e), "sum over two committees passes the commitment check of one");
                    }
                    labels.push("mixed committees");
                }
            }
            Op::AddSelf(i) if !w.pool.is_empty() && w.pool.len() < cap => {
                let i = pick(*i, w.pool.len());
                let v = must!(Encryption::<E>::add_cts(&w.pool[i].v, &w.pool[i].v));
                let sum = w.pool[i].sum.iter().map(|a| 2 * a).collect();
                let com = w.pool[i].com;
                w.pool.push(Entry { com, v, sum });
                labels.push("doubled");
            }
            Op::Altered(i, e) if !w.pool.is_empty() => {
                let i = pick(*i, w.pool.len());
                let com = w.pool[i].com;
                let mut v = w.pool[i].v.clone();
                let o = w.pool[(i + 1) % w.pool.len()].v.clone();
                e.apply::<E>(&mut v, &o, &w.coms[com].ek, &w.b.g_i);
                // the check accepts exactly the ciphertexts that satisfy the published equation
                let ok = fits(&v, &w.coms[com].ek) && defect::<E>(&v, &w.coms[com].ek.Z, &w.b.gens.H).is_zero();
                let e = Entry { com, v, sum: vec![] };
                ensure_eq!(w.publicly_ok(&e), ok, "check of an altered contribution");
                labels.push(if ok { "harmless alteration" } else { "altered contribution refused" });
            }
            Op::Proven(k, m) if w.srs.is_some() && w.pool.len() < cap => {
                let s = w.srs.clone().unwrap();
                let com = pick(*k, w.coms.len());
                let max = (1u32 << s.bits.min(16)) - 1;
                let m: Vec<u16> = fitm(m).iter().map(|x| (*x as u32 & max) as u16).collect();
                let (v, r) = w.encrypt(com, &m)?;
                let p = s.prove(&frv(&m), &r, &w.coms[com].ek, &mut w.rng)?;
                let ct = to_ct::<E>(&v);
                must!(ct.verify_commitment_and_proof(&p, &s.pvk, w.coms[com].ek.clone(), w.b.gens.clone()));
                // the proof belongs to this ciphertext only
                for e in &w.pool {
                    let same = e.v == v;
                    let x = to_ct::<E>(&e.v).verify_commitment_and_proof(&p, &s.pvk, w.coms[e.com].ek.clone(), w.b.gens.clone()).is_ok();
                    ensure!(!x || same, "proof accepted for another ciphertext");
                }
                w.pool.push(Entry { com, v, sum: m.iter().map(|x| *x as u64).collect() });
                labels.push("proven contribution");
            }
            Op::OutOfRange(k, i, x) if w.srs.as_ref().map_or(false, |s| s.bits < 16) => {
                let s = w.srs.clone().unwrap();
                let com = pick(*k, w.coms.len());
                let mut m = vec![0u16; n];
                let lim = 1u32 << s.bits;
                let over = (lim + *x as u32 % (65536 - lim)) as u16;
                m[pick(*i, n)] = over;
                let (v, r) = w.encrypt(com, &m)?;
                let mut low = m.clone();
                low[pick(*i, n)] &= (lim - 1) as u16;
                let ct = to_ct::<E>(&v);
                must!(ct.verify_commitment(w.coms[com].ek.clone(), w.b.gens.clone()));
                let (ek, g) = (w.coms[com].ek.clone(), w.b.gens.clone());
                let rng = &mut w.rng;
                // proving the true value or its low bits
                for f in [frv(&m), frv(&low)] {
                    let p = no_panic(|| s.prove(&f, &r, &ek, rng));
                    if let Ok(Ok(p)) = p {
                        ensure!(ct.verify_commitment_and_proof(&p, &s.pvk, ek.clone(), g.clone()).is_err(), "contribution of {over} accepted with a {}-bit proof", s.bits);
                    }
                }
                labels.push("out of range contribution refused");
            }
            Op::Verify(i) if !w.pool.is_empty() => {
                let e = &w.pool[pick(*i, w.pool.len())];
                ensure!(w.publicly_ok(e), "commitment check of a ciphertext with sums {:?}", e.sum);
                if w.coms.len() > 1 && !e.v[0].is_zero() {
                    let o = Entry { com: (e.com + 1) % w.coms.len(), v: e.v.clone(), sum: vec![] };
                    ensure!(w.coms[o.com].ek == w.coms[e.com].ek || !w.publicly_ok(&o), "ciphertext passes the check of another committee");
                }
            }
            Op::VerifyAll(seed) if !w.pool.is_empty() => {
                let com = w.pool[0].com;
                let all: Vec<_> = w.pool.iter().filter(|e| e.com == com).map(|e| to_ct::<E>(&e.v)).collect();
                let mut r = StdRng::seed_from_u64(*seed);
                let ws: Vec<Fr> = all.iter().map(|_| Fr::rand(&mut r)).collect();
                must!(Encryption::verify_commitments_in_batch(&all, &ws, w.coms[com].ek.clone(), w.b.gens.clone()));
                labels.push("batch");
            }
            Op::Switch(i, d, o, tree) if !w.pool.is_empty() && w.switched.len() < cap => {
                let (i, d) = (pick(*i, w.pool.len()), pick(*d, w.dests.len()));
                let s = w.switch(i, d, *o, *tree, None)?;
                w.switched.push(s);
            }
            Op::Incomplete(i, d, p) if !w.pool.is_empty() => {
                let (i, d) = (pick(*i, w.pool.len()), pick(*d, w.dests.len()));
                let skip = pick(*p, w.coms[w.pool[i].com].sks.len());
                let s = w.switch(i, d, 0, false, Some(skip))?;
                if !w.pool[i].v[0].is_zero() {
                    ensure_eq!(w.decrypt(&s, d, 6)?, None, "decrypts without party {skip}");
                }
                labels.push("incomplete quorum");
            }
            Op::AddSwitched(i, j) if !w.switched.is_empty() && w.switched.len() < cap => {
                let (i, j) = (pick(*i, w.switched.len()), pick(*j, w.switched.len()));
                if w.switched[i].dest == w.switched[j].dest {
                    let v = must!(Encryption::<E>::add_cts(&w.switched[i].v, &w.switched[j].v));
                    let sum = w.switched[i].sum.iter().zip(&w.switched[j].sum).map(|(a, b)| a + b).collect();
                    let dest = w.switched[i].dest;
                    w.switched.push(Switched { dest, v, sum });
                    labels.push("sum of switched");
                }
            }
            Op::Decrypt(i, off) if !w.switched.is_empty() => {
                let s = &w.switched[pick(*i, w.switched.len())];
                let bits = (need(&s.sum) as i16 + *off as i16).clamp(1, if E::TOY { 16 } else { 11 }) as u8;
                w.reads(s, bits)?;
                if s.sum.iter().any(|x| *x >= 1 << bits) {
                    labels.push("sum out of the search range");
                }
            }
            Op::WrongDestination(i, d) if !w.switched.is_empty() => {
                let s = &w.switched[pick(*i, w.switched.len())];
                let d = pick(*d, w.dests.len());
                if d != s.dest && !s.v[0].is_zero() {
                    ensure_eq!(w.decrypt(s, d, 6)?, None, "destination {d} reads what was switched to {}", s.dest);
                    labels.push("wrong destination");
                }
            }
            Op::Store(kind, z) => {
                match kind % 5 {
                    0 => {
                        for e in w.pool.iter_mut() {
                            let ct = to_ct::<E>(&e.v);
                            e.v = from_ct::<E>(&store(&ct, *z)?);
                        }
                    }
                    1 => {
                        for k in w.coms.iter_mut() {
                            k.ek = store(&k.ek, *z)?;
                        }
                    }
                    2 => {
                        for k in w.coms.iter_mut() {
                            for s in k.sks.iter_mut() {
                                *s = store(s, *z)?;
                            }
                        }
                    }
                    3 => {
                        for d in w.dests.iter_mut() {
                            *d = (store(&d.0, *z)?, store(&d.1, *z)?);
                        }
                    }
                    _ => w.b.gens = store(&w.b.gens, *z)?,
                }
                labels.push("stored and loaded");
            }
            _ => {}
        }
    }
    // at the end everything is checked and read by some destination
    let (mut big, total) = (0, w.pool.len());
    for i in 0..total {
        ensure!(w.publicly_ok(&w.pool[i]), "commitment check of a ciphertext with sums {:?}", w.pool[i].sum);
        let d = (c.finish_order as usize + i) % w.dests.len();
        let s = w.switch(i, d, c.finish_order ^ i as u64, i % 2 == 0, None)?;
        w.switched.push(s);
    }
    for s in &w.switched {
        let bits = need(&s.sum);
        if bits > if E::TOY { 16 } else { 11 } {
            big += 1;
            if big <= 2 {
                w.reads(s, 8)?;
            }
        } else {
            w.reads(s, bits)?;
            if s.sum.iter().any(|x| *x > 0) && bits > 1 {
                w.reads(s, bits - 1)?;
            }
        }
    }
    labels.sort();
    labels.dedup();
    let mut info = Info::new(total > 0 && w.pool.iter().any(|e| e.sum.iter().any(|x| *x > 0)));
    for l in labels {
        info = info.label(l);
    }
    Ok(info.label_if(big > 0, "sums beyond the range").label_if(c.parties > 1, "several parties"))
}
fn msg(n: usize, top: u8) -> BoxedStrategy<Vec<u16>> {
    bx(prop_oneof![6 => chunks(top.min(8), n), 1 => chunks(top, n)])
}
fn op(n: usize, top: u8, parties: u8) -> BoxedStrategy<Op> {
    let p = any::<u8>;
    bx(prop_oneof![
        1 => (any::<u64>(), 1..=parties, any::<u64>()).prop_map(|(a, b, c)| Op::Committee(a, b, c)),
        1 => Just(Op::Destination),
        5 => (p(), msg(n, top)).prop_map(|(a, b)| Op::Encrypt(a, b)),
        1 => p().prop_map(Op::Zero),
        2 => (p(), proptest::collection::vec(msg(n, top), 1..12), any::<u64>()).prop_map(|(a, b, c)| Op::Many(a, b, c)),
        5 => (p(), p()).prop_map(|(a, b)| Op::Add(a, b)),
        2 => p().prop_map(Op::AddSelf),
        2 => (p(), ct_edit()).prop_map(|(a, b)| Op::Altered(a, b)),
        2 => (p(), msg(n, top)).prop_map(|(a, b)| Op::Proven(a, b)),
        1 => (p(), p(), any::<u16>()).prop_map(|(a, b, c)| Op::OutOfRange(a, b, c)),
        1 => p().prop_map(Op::Verify),
        1 => any::<u64>().prop_map(Op::VerifyAll),
        4 => (p(), p(), any::<u64>(), any::<bool>()).prop_map(|(a, b, c, d)| Op::Switch(a, b, c, d)),
        1 => (p(), p(), p()).prop_map(|(a, b, c)| Op::Incomplete(a, b, c)),
        2 => (p(), p()).prop_map(|(a, b)| Op::AddSwitched(a, b)),
        2 => (p(), -2i8..3).prop_map(|(a, b)| Op::Decrypt(a, b)),
        1 => (p(), p()).prop_map(|(a, b)| Op::WrongDestination(a, b)),
        1 => (p(), any::<bool>()).prop_map(|(a, b)| Op::Store(a, b)),
    ])
}
fn cases(ns: BoxedStrategy<usize>, srs: bool, top: u8, parties: u8, len: usize) -> BoxedStrategy<Case> {
    bx(ns.prop_flat_map(move |n| {
        let s = if srs { (3u8..=6).prop_map(Some).boxed() } else { Just(None).boxed() };
        (any::<u64>(), s, 1..=parties, rng_plain(), proptest::collection::vec(op(n, top, parties), 0..=len), any::<u64>())
            .prop_map(move |(seed, srs, parties, rng, ops, finish_order)| Case { seed, n, srs, parties, rng, ops, finish_order })
    }))
}
fn main() {
    let mut p = Prop::new("C21", "Whole-protocol histories: the destination learns exactly the aggregates");
    p.assume("random 255-bit values do not collide with a searched range; random streams without special words");
    let nt = "non-trivial: some ciphertext with a sum that is not zero";
    p.part("history_toy", &format!("histories of up to 40 operations, 1..6 chunks, up to 6 parties, 3 committees, 4 destinations; {nt}"), 8000, 300_000, || cases(bx(1usize..=6), false, 12, 6, 40), check::<toy::Toy>);
    p.part("sums_toy", &format!("16-bit contributions, sums beyond the largest chunk; {nt}"), 600, 20_000, || cases(bx(1usize..=2), false, 16, 3, 30), check::<toy::Toy>);
    p.part("wide_toy", &format!("16 to 64 chunks; {nt}"), 800, 25_000, || cases(bx(prop_oneof![Just(16usize), Just(32), Just(64)]), false, 6, 4, 20), check::<toy::Toy>);
    p.part("proven_toy", &format!("with SNARK proofs of 3 to 6 bits; {nt}"), 800, 20_000, || cases(bx(1usize..=3), true, 10, 4, 25), check::<toy::Toy>);
    p.part("long_toy", &format!("histories of 100 to 400 operations; {nt}"), 160, 6000, || bx((cases(bx(1usize..=3), false, 10, 5, 0), proptest::collection::vec(op(3, 10, 5), 100..=400))
        .prop_map(|(c, ops)| Case { ops, ..c })), check::<toy::Toy>);
    p.part("history_bls", &format!("as history_toy on BLS12-381, up to 16 operations; {nt}"), 320, 12_000, || cases(bx(1usize..=3), false, 5, 3, 16), check::<toy::Bls>);
    p.part("proven_bls", &format!("with SNARK proofs on BLS12-381; {nt}"), 100, 3000, || cases(bx(1usize..=2), true, 5, 3, 12), check::<toy::Bls>);
    p.finish()
}
