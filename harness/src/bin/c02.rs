use dsv_harness::*;
use proptest::prop_oneof;

/// smallest of 2^b - 1 and the largest chunk value
fn bound(b: u8) -> u64 {
    if b >= 16 {
        65535
    } else {
        (1u64 << b) - 1
    }
}
fn small(x: &Fr) -> Option<u64> {
    let b = x.into_bigint().0;
    (b[1] == 0 && b[2] == 0 && b[3] == 0).then_some(b[0])
}

/// A plaintext value relative to the range bound
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Val {
    Abs(u16),
    /// bound + d
    Rel(i32),
    /// far outside
    Far(FrS),
    /// minus a small number
    Neg(u16),
}
impl Val {
    fn x(&self, b: u8) -> Fr {
        match self {
            Val::Abs(x) => Fr::from(*x as u64),
            Val::Rel(d) => {
                let v = bound(b) as i64 + *d as i64;
                if v < 0 { Fr::zero() } else { Fr::from(v as u64) }
            }
            Val::Far(f) => f.fr(),
            // mostly the negative of a value in the range
            Val::Neg(x) => -Fr::from(1 + *x as u64 % (bound(b) + 2)),
        }
    }
}
fn val(b: u8) -> BoxedStrategy<Val> {
    let m = bound(b) as u16;
    bx(prop_oneof![
        6 => (0..=m).prop_map(Val::Abs),
        2 => Just(Val::Abs(0)),
        4 => (-2i32..=0).prop_map(Val::Rel),
        1 => (1i32..=2).prop_map(Val::Rel),
    ])
}
fn any_val() -> BoxedStrategy<Val> {
    bx(prop_oneof![
        2 => any::<u16>().prop_map(Val::Abs),
        4 => (-3i32..=3).prop_map(Val::Rel),
        1 => Just(Val::Rel(65536)),
        1 => frs().prop_map(Val::Far),
        2 => (1u16..).prop_map(Val::Neg),
        2 => Just(Val::Abs(0)),
    ])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Range {
    keys: u64,
    b: u8,
    vals: Vec<Val>,
    rng: RngS,
    tables: bool,
}
fn sealed<E: Eng>(k: &Single<E>, xs: &[Fr], r: Fr) -> Vec<E::G1Affine> {
    formula_ct(xs, r, &k.ek, &k.b.g_i)
}
fn expect(xs: &[Fr], b: u8) -> Option<Vec<u16>> {
    xs.iter().map(|x| small(x).filter(|v| *v <= bound(b)).map(|v| v as u16)).collect()
}
fn cmp(what: &str, got: dist_saver::Result<Vec<u16>>, want: &Option<Vec<u16>>) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Some(w)) => ensure_eq!(g, *w, "{what}"),
        (Err(_), None) => {}
        (Ok(g), None) => return Err(format!("{what}: decrypted to {g:?} though a value is outside the range")),
        (Err(e), Some(w)) => return Err(format!("{what}: error {e:?} instead of {w:?}")),
    }
    Ok(())
}
fn check_range<E: Eng>(c: &Range) -> Outcome {
    let n = c.vals.len();
    let k = Single::<E>::new(c.keys, n, (c.keys % 2) as usize)?;
    let xs: Vec<Fr> = c.vals.iter().map(|v| v.x(c.b)).collect();
    let r = Fr::rand(&mut c.rng.rng());
    let v = sealed(&k, &xs, r);
    let want = expect(&xs, c.b);
    let g_i = &k.b.g_i[..];
    let res = Encryption::decrypt_to_chunks(&v[0], &v[1..n + 1], &k.sk, k.dk.clone(), g_i, c.b);
    if let Ok((_, nu)) = &res {
        ensure_eq!(*nu, E::G1Affine::from(v[0] * k.sk.0), "second result");
    }
    cmp("decrypt_to_chunks", res.map(|x| x.0), &want)?;
    if c.tables {
        let pp = must!(k.dk.pairing_powers(c.b.min(16), g_i));
        for (i, row) in pp.iter().enumerate() {
            ensure_eq!(row.len() as u64, bound(c.b.min(16)), "table row {i}");
        }
        cmp(
            "decrypt_to_chunks_given_pairing_powers",
            Encryption::decrypt_to_chunks_given_pairing_powers(&v[0], &v[1..n + 1], &k.sk, k.dk.clone(), g_i, c.b, Some(&pp))
                .map(|x| x.0),
            &want,
        )?;
    }
    // the same values under a destination key
    let mut rng = c.rng.rng();
    let (skd, ekd) = must!(Fkeygen_dest(&mut rng, &k.b.gens));
    let c0: E::G1Affine = (k.b.gens.G * r).into();
    let cs: Vec<E::G1Affine> = (0..n).map(|i| (g_i[i] * xs[i] + ekd.pk * r).into()).collect();
    cmp("decrypt_to_chunks_after_re_encryption",
        Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &cs, &skd, g_i, c.b), &want)?;
    let near = xs.iter().any(|x| small(x).is_some_and(|v| v.abs_diff(bound(c.b)) <= 2));
    Ok(Info::new(near || want.is_none())
        .label(if want.is_some() { "in range" } else { "out of range" })
        .label_if(near, "near bound")
        .label_if(c.b >= 16, "range>=16 bits")
        .label_if(c.b >= 32, "range>=32 bits"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrong {
    keys: u64,
    other: u64,
    b: u8,
    chunks: Vec<u16>,
    rng: RngS,
    what: u8,
    sk: FrS,
}
fn check_wrong<E: Eng>(c: &Wrong) -> Outcome {
    let n = c.chunks.len();
    let k = Single::<E>::new(c.keys, n, 0)?;
    let o = Single::<E>::new(c.other, n, 0)?;
    if c.keys == c.other {
        return Ok(Info::new(false));
    }
    let mut rng = c.rng.rng();
    let (v, r) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.chunks.clone(), &k.ek, &k.b.g_i));
    let (v2, _) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.chunks.clone(), &k.ek, &k.b.g_i));
    let pp = must!(k.dk.pairing_powers(c.b, &k.b.g_i));
    let mut sk = k.sk.clone();
    let mut dk = k.dk.clone();
    let mut g_i = k.b.g_i.clone();
    let mut c0 = v[0];
    let mut cs = v[1..n + 1].to_vec();
    let zero = c.chunks.iter().all(|x| *x == 0);
    let mut may_be_right = false;
    let i = (c.other % n as u64) as usize;
    let name = match c.what % 10 {
        0 => { sk = o.sk.clone(); "secret key of another key set" }
        1 => { sk = SecretKey(c.sk.fr()); "arbitrary secret key" }
        2 => { sk = SecretKey(-k.sk.0); "negated secret key" }
        3 => { sk = SecretKey(k.sk.0 + Fr::one()); "secret key off by one" }
        4 => { dk = o.dk.clone(); "decryption key of another key set" }
        5 => { dk.V_1 = o.dk.V_1.clone(); "V_1 of another key set" }
        6 => { c0 = v2[0]; "randomness element of another ciphertext" }
        7 => { cs[i] = v2[i + 1]; "chunk of another ciphertext" }
        8 => {
            let (w, _) = must!(Encryption::encrypt_decomposed_message(&mut rng, c.chunks.clone(), &o.ek, &k.b.g_i));
            c0 = w[0];
            cs = w[1..n + 1].to_vec();
            "encrypted under another key"
        }
        _ => { g_i = o.b.g_i.clone(); may_be_right = true; "other generators" }
    };
    if sk == k.sk && dk == k.dk && c0 == v[0] && cs == v[1..n + 1] && g_i == k.b.g_i {
        return Ok(Info::new(false));
    }
    let plain = Encryption::decrypt_to_chunks(&c0, &cs, &sk, dk.clone(), &g_i, c.b).map(|x| x.0);
    let tab = Encryption::decrypt_to_chunks_given_pairing_powers(&c0, &cs, &sk, dk, &g_i, c.b, Some(&pp)).map(|x| x.0);
    if may_be_right {
        // generators only matter for the search: zero chunks need none, and a table replaces them
        cmp(name, plain, &zero.then(|| c.chunks.clone()))?;
        if let Ok(t) = tab {
            ensure_eq!(t, c.chunks, "{name}, with tables");
        }
    } else {
        cmp(name, plain, &None)?;
        cmp(name, tab, &None)?;
    }
    // destination side
    let (skd, ekd) = must!(Fkeygen_dest(&mut rng, &k.b.gens));
    let d0: E::G1Affine = (k.b.gens.G * r).into();
    let ds: Vec<E::G1Affine> = (0..n).map(|i| (k.b.g_i[i] * Fr::from(c.chunks[i] as u64) + ekd.pk * r).into()).collect();
    for bad in [sk.clone(), SecretKey(-skd.0), SecretKey(skd.0 + Fr::one())] {
        if bad != skd {
            cmp("destination, wrong secret key",
                Encryption::<E>::decrypt_to_chunks_after_re_encryption(&d0, &ds, &bad, &k.b.g_i, c.b), &None)?;
        }
    }
    Ok(Info::new(true).label(name))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TMut {
    DropRows(u8),
    DropFirstRow,
    CutRow(u8, u16),
    CutAll(u16),
    EmptyRow(u8),
    EmptyAll,
    NoRows,
    ExtraRow(u8),
    ExtendRows(u8),
    OtherBits(u8),
    OtherKey,
    SwapRows(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tab {
    keys: u64,
    b: u8,
    vals: Vec<Val>,
    seed: u64,
    muts: Vec<TMut>,
}
fn check_tab<E: Eng>(c: &Tab) -> Outcome {
    let n = c.vals.len();
    let k = Single::<E>::new(c.keys, n, 1)?;
    let g_i = &k.b.g_i[..];
    let xs: Vec<Fr> = c.vals.iter().map(|v| v.x(c.b)).collect();
    let v = sealed(&k, &xs, nz(&mut StdRng::seed_from_u64(c.seed)));
    let want = expect(&xs, c.b);
    let mut pp = must!(k.dk.pairing_powers(c.b, g_i));
    let orig = pp.clone();
    let mut foreign = false;
    for m in &c.muts {
        let l = pp.len();
        match m {
            TMut::DropRows(x) => pp.truncate(l.saturating_sub(1 + *x as usize)),
            TMut::DropFirstRow => { if l > 0 { pp.remove(0); foreign = true; } }
            TMut::CutRow(i, x) => if l > 0 { let i = *i as usize % l; let q = pp[i].len(); pp[i].truncate(q.saturating_sub(1 + *x as usize)); },
            TMut::CutAll(x) => for r in pp.iter_mut() { let q = r.len(); r.truncate(q.saturating_sub(1 + *x as usize)); },
            TMut::EmptyRow(i) => if l > 0 { pp[*i as usize % l].clear() },
            TMut::EmptyAll => for r in pp.iter_mut() { r.clear() },
            TMut::NoRows => pp.clear(),
            TMut::ExtraRow(x) => for _ in 0..=(*x % 4) { if l > 0 { let r = pp[0].clone(); pp.push(r); } },
            TMut::ExtendRows(x) => for r in pp.iter_mut() {
                if let (Some(f), Some(mut last)) = (r.first().copied(), r.last().copied()) {
                    for _ in 0..=*x { last += f; r.push(last); }
                }
            },
            TMut::OtherBits(b) => pp = must!(k.dk.pairing_powers(*b, g_i)),
            TMut::OtherKey => {
                let o = Single::<E>::new(c.keys ^ 1, n, 0)?;
                pp = must!(o.dk.pairing_powers(c.b, &o.b.g_i));
                foreign = true;
            }
            TMut::SwapRows(i, j) => if l > 0 { let (i, j) = (*i as usize % l, *j as usize % l); pp.swap(i, j); foreign |= i != j; },
        }
    }
    let r = Encryption::decrypt_to_chunks_given_pairing_powers(&v[0], &v[1..n + 1], &k.sk, k.dk.clone(), g_i, c.b, Some(&pp))
        .map(|x| x.0);
    let info = Info::new(pp != orig)
        .label(match (&r, &want) { (Ok(_), _) => "value", (Err(_), Some(_)) => "error, value in range", (Err(_), None) => "error, out of range" })
        .label_if(foreign, "foreign rows");
    match (r, &want) {
        (Ok(g), Some(w)) => ensure_eq!(g, *w, "wrong plaintext from a defective table"),
        (Ok(g), None) => return Err(format!("decrypted to {g:?} though a value is outside the range")),
        (Err(e), Some(w)) => {
            // complete tables must not be rejected, extra rows and entries do no harm
            let enough = pp.len() >= n && orig.iter().zip(&pp).all(|(full, row)| row.starts_with(full));
            ensure!(!enough, "error {e:?} though the table is complete");
        }
        (Err(_), None) => {}
    }
    Ok(info)
}
fn tmut(b: u8) -> BoxedStrategy<TMut> {
    let m = (bound(b) as u16).min(300);
    bx(prop_oneof![
        4 => (0u8..4).prop_map(TMut::DropRows),
        1 => Just(TMut::DropFirstRow),
        4 => (any::<u8>(), prop_oneof![3 => 0u16..4, 1 => 0..=m]).prop_map(|(a, b)| TMut::CutRow(a, b)),
        3 => prop_oneof![3 => 0u16..4, 1 => 0..=m].prop_map(TMut::CutAll),
        1 => any::<u8>().prop_map(TMut::EmptyRow),
        1 => Just(TMut::EmptyAll),
        1 => Just(TMut::NoRows),
        1 => (0u8..4).prop_map(TMut::ExtraRow),
        2 => (0u8..20).prop_map(TMut::ExtendRows),
        3 => (1u8..=9).prop_map(TMut::OtherBits),
        1 => Just(TMut::OtherKey),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| TMut::SwapRows(a, b)),
    ])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum LMut {
    V1(i8),
    V2(i8),
    Gi(i8),
    C(i8),
    /// key and ciphertext alike
    Both(i8),
}
fn resize<T: Clone>(v: &mut Vec<T>, d: i8) {
    if d < 0 {
        let l = v.len().saturating_sub(d.unsigned_abs() as usize);
        v.truncate(l);
    } else if let Some(x) = v.first().cloned() {
        for _ in 0..d {
            v.push(x.clone());
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Len {
    keys: u64,
    chunks: Vec<u16>,
    seed: u64,
    muts: Vec<LMut>,
}
fn check_len<E: Eng>(c: &Len) -> Outcome {
    let b = 4;
    let n = c.chunks.len();
    let k = Single::<E>::new(c.keys, n, 0)?;
    let (v, r) = must!(Encryption::encrypt_decomposed_message(&mut StdRng::seed_from_u64(c.seed), c.chunks.clone(), &k.ek, &k.b.g_i));
    let pp = must!(k.dk.pairing_powers(b, &k.b.g_i));
    let (mut dk, mut g_i, mut cs) = (k.dk.clone(), k.b.g_i.clone(), v[1..n + 1].to_vec());
    for m in &c.muts {
        match m {
            LMut::V1(d) => resize(&mut dk.V_1, *d),
            LMut::V2(d) => resize(&mut dk.V_2, *d),
            LMut::Gi(d) => resize(&mut g_i, *d),
            LMut::C(d) => resize(&mut cs, *d),
            LMut::Both(d) => {
                let d = -(d.unsigned_abs() as i8 & 3);
                resize(&mut dk.V_1, d);
                resize(&mut dk.V_2, d);
                resize(&mut cs, d);
            }
        }
    }
    let fits = dk.V_1.len() == dk.V_2.len() && dk.V_1.len() == cs.len() && cs.len() <= g_i.len();
    let m = cs.len();
    // cut and extended again: the keys no longer belong to the ciphertext
    let extended = m > n || cs[..] != v[1..m + 1] || dk.V_1[..] != k.dk.V_1[..dk.V_1.len().min(n)] || dk.V_2[..] != k.dk.V_2[..dk.V_2.len().min(n)]
        || g_i.len() < m || g_i[..m] != k.b.g_i[..m];
    let calls: Vec<(&str, dist_saver::Result<Vec<u16>>)> = vec![
        ("plain", Encryption::decrypt_to_chunks(&v[0], &cs, &k.sk, dk.clone(), &g_i, b).map(|x| x.0)),
        ("prepared", Encryption::decrypt_to_chunks(&v[0], &cs, &k.sk, PreparedDecryptionKey::from(dk.clone()), &g_i, b).map(|x| x.0)),
        ("tables", Encryption::decrypt_to_chunks_given_pairing_powers(&v[0], &cs, &k.sk, dk.clone(), &g_i, b, Some(&pp)).map(|x| x.0)),
        ("vk", {
            // whole-message entry point; compose() of the chunks
            Encryption::decrypt_given_groth16_vk(&v[0], &cs, &k.sk, dk.clone(), &fake_vk::<E>(&g_i), b).map(|_| vec![])
        }),
    ];
    for (name, res) in calls {
        if !fits {
            ensure!(res.is_err(), "{name}: sizes do not fit together but decryption returned {:?}", res);
        } else if name == "vk" {
            ensure!(res.is_ok() || extended || m % 2 == 1, "{name}: fitting sizes rejected: {:?}", res);
        } else if !extended {
            ensure_eq!(must!(res), c.chunks[..m].to_vec(), "{name}");
        }
    }
    // destination side: only ciphertext and generators
    let (skd, ekd) = must!(Fkeygen_dest(&mut StdRng::seed_from_u64(c.seed), &k.b.gens));
    let c0: E::G1Affine = (k.b.gens.G * r).into();
    let ds: Vec<E::G1Affine> = (0..n.min(m)).map(|i| (k.b.g_i[i] * Fr::from(c.chunks[i] as u64) + ekd.pk * r).into()).collect();
    let res = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &ds, &skd, &g_i, b);
    if ds.len() > g_i.len() {
        ensure!(res.is_err(), "destination: too few generators but decryption returned {:?}", res);
    } else if g_i[..ds.len()] == k.b.g_i[..ds.len()] {
        ensure_eq!(must!(res), c.chunks[..ds.len()].to_vec(), "destination");
    }
    Ok(Info::new(!c.muts.is_empty()).label(if fits { "fits" } else { "does not fit" }))
}

fn main() {
    let mut p = Prop::new("C02", "Decryption returns the exact plaintext or an error, never a wrong value");
    p.assume("random 255-bit values do not collide with a searched range");
    fn ranges(b: BoxedStrategy<u8>, maxn: usize) -> BoxedStrategy<Range> {
        bx((b, any::<bool>()).prop_flat_map(move |(b, hostile)| {
            (any::<u64>(), Just(b), proptest::collection::vec(if hostile { any_val() } else { val(b) }, 1..=maxn), rng_edge(), any::<bool>())
                .prop_map(|(keys, b, vals, rng, tables)| Range { keys, b, vals, rng, tables })
        }))
    }
    let nt = "non-trivial: a value within 2 of the bound or outside the range";
    p.part("range_toy", &format!("values around the bound of ranges of 1..12 bits; {nt}"), 2500, 100000, || ranges(bx(1u8..=12), 5), check_range::<Toy>);
    p.part("range_wide_toy", &format!("ranges of 13..255 bits; {nt}"), 160, 8000,
        || ranges(bx(prop_oneof![4 => 13u8..=17, 2 => 18u8..=34, 1 => Just(32u8), 1 => Just(31u8), 1 => Just(64u8), 1 => any::<u8>().prop_map(|x| x.max(16))]), 3), check_range::<Toy>);
    p.part("range_bls", &format!("ranges of 1..9 bits, real curve; {nt}"), 120, 6000, || ranges(bx(1u8..=9), 3), check_range::<Bls>);
    fn wrongs(maxn: usize) -> BoxedStrategy<Wrong> {
        bx((1u8..=8).prop_flat_map(move |b| {
            (any::<u64>(), any::<u64>(), Just(b), (1..=maxn).prop_flat_map(move |n| chunks(b, n)), rng_plain(), 0u8..10, frs())
                .prop_map(|(keys, other, b, chunks, rng, what, sk)| Wrong { keys, other, b, chunks, rng, what, sk })
        }))
    }
    p.part("wrong_toy", "wrong keys and mixed ciphertexts; non-trivial: something really differs", 1500, 60000, || wrongs(5), check_wrong::<Toy>);
    p.part("wrong_bls", "as wrong_toy on the real curve", 60, 4000, || wrongs(3), check_wrong::<Bls>);
    fn tabs(maxb: u8, maxn: usize) -> BoxedStrategy<Tab> {
        bx((1u8..=maxb, any::<bool>()).prop_flat_map(move |(b, hostile)| {
            (any::<u64>(), Just(b), proptest::collection::vec(if hostile { any_val() } else { val(b) }, 1..=maxn), any::<u64>(),
             proptest::collection::vec(tmut(b), 1..=3))
                .prop_map(|(keys, b, vals, seed, muts)| Tab { keys, b, vals, seed, muts })
        }))
    }
    p.part("tables_toy", "defective pairing tables; non-trivial: the table differs from the complete one", 4000, 150000, || tabs(8, 6), check_tab::<Toy>);
    p.part("tables_bls", "as tables_toy on the real curve", 100, 5000, || tabs(5, 3), check_tab::<Bls>);
    fn lens(maxn: usize) -> BoxedStrategy<Len> {
        let d = || prop_oneof![2 => -3i8..=3, 1 => -70i8..=3];
        bx((any::<u64>(), (1..=maxn).prop_flat_map(|n| chunks(4, n)), any::<u64>(),
            proptest::collection::vec(prop_oneof![d().prop_map(LMut::V1), d().prop_map(LMut::V2), d().prop_map(LMut::Gi), d().prop_map(LMut::C), d().prop_map(LMut::Both)], 1..=3))
            .prop_map(|(keys, chunks, seed, muts)| Len { keys, chunks, seed, muts }))
    }
    p.part("sizes_toy", "keys, generators and ciphertexts of other sizes; non-trivial: something changed", 2500, 80000, || lens(6), check_len::<Toy>);
    p.part("sizes_bls", "as sizes_toy on the real curve", 40, 2000, || lens(3), check_len::<Bls>);
    p.finish()
}
