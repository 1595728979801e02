//! C19: memory of a secret key after it was dropped or zeroized. The memory is read while it is still
//! allocated (slots, vectors, counted pointers) or by the allocator at the moment it is given back.
use ark_bls12_381::Fq;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress};
use dsv_harness::*;
use proptest::prop_oneof;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::mem::MaybeUninit;
use zeroize::Zeroize;

/// Looks for the words of the current thread's secret in every block that is freed while watching
struct Watch;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static WORDS: Cell<[u64; 16]> = const { Cell::new([0; 16]) };
    static FOUND: Cell<u32> = const { Cell::new(0) };
    static BLOCKS: Cell<u32> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // new blocks start empty, so that a word found later was put there by its owner
        let p = System.alloc_zeroed(l);
        live::insert(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live::remove(p);
        record(p, l.size());
        let _ = ON.try_with(|on| {
            if on.get() {
                BLOCKS.with(|b| b.set(b.get() + 1));
                if holds(p, l.size(), &WORDS.with(|w| w.get())) {
                    FOUND.with(|f| f.set(f.get() + 1));
                }
            }
        });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            live::remove(p);
            record(p, l.size());
            System.dealloc(p, l);
        }
        q
    }
}
/// Where the contents of the blocks that this thread frees are kept while it records them: start, length, capacity
thread_local! {
    static TAPE: Cell<(*mut u8, usize, usize)> = const { Cell::new((std::ptr::null_mut(), 0, 0)) };
}
unsafe fn record(p: *const u8, n: usize) {
    let _ = TAPE.try_with(|t| {
        let (b, k, cap) = t.get();
        if !b.is_null() && k + n + 8 <= cap {
            std::ptr::copy_nonoverlapping(p, b.add(k), n);
            // no word is found across two blocks
            t.set((b, k + n + 8, cap));
        }
    });
}
/// Result, number of bytes freed by this thread, whether they held any of the words
fn recording<T>(f: impl FnOnce() -> T, words: impl FnOnce(&T) -> Vec<u64>) -> (T, usize, bool) {
    const CAP: usize = 1 << 18;
    let l = Layout::from_size_align(CAP, 16).unwrap();
    unsafe {
        let b = System.alloc_zeroed(l);
        TAPE.with(|t| t.set((b, 0, CAP)));
        let r = f();
        let (_, k, _) = TAPE.with(|t| t.replace((std::ptr::null_mut(), 0, 0)));
        let found = holds(b, k, &words(&r));
        System.dealloc(b, l);
        (r, k, found)
    }
}
#[global_allocator]
static ALLOC: Watch = Watch;

/// Blocks allocated by a thread while it tracks them, until they are freed (by any thread)
mod live {
    use super::*;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    const ROWS: usize = 1024;
    const COLS: usize = 16;
    #[allow(clippy::declare_interior_mutable_const)]
    const ZERO: AtomicUsize = AtomicUsize::new(0);
    #[allow(clippy::declare_interior_mutable_const)]
    const ROW: [AtomicUsize; COLS] = [ZERO; COLS];
    static PTR: [[AtomicUsize; COLS]; ROWS] = [ROW; ROWS];
    static LEN: [[AtomicUsize; COLS]; ROWS] = [ROW; ROWS];
    static TAG: [[AtomicUsize; COLS]; ROWS] = [ROW; ROWS];
    static TAGS: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static TRACK: Cell<usize> = const { Cell::new(0) };
    }
    fn row(p: *mut u8) -> usize {
        ((p as usize >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32) % ROWS
    }
    pub fn insert(p: *mut u8, n: usize) {
        let tag = TRACK.try_with(|t| t.get()).unwrap_or(0);
        if tag == 0 || p.is_null() {
            return;
        }
        let r = row(p);
        for i in 0..COLS {
            if PTR[r][i].compare_exchange(0, p as usize, SeqCst, SeqCst).is_ok() {
                LEN[r][i].store(n, SeqCst);
                TAG[r][i].store(tag, SeqCst);
                return;
            }
        }
    }
    pub fn remove(p: *mut u8) {
        let r = row(p);
        for i in 0..COLS {
            if PTR[r][i].load(SeqCst) == p as usize {
                TAG[r][i].store(0, SeqCst);
                PTR[r][i].store(0, SeqCst);
                return;
            }
        }
    }
    /// Sizes of the blocks that the closure left behind and that hold any of the words; number of blocks left
    pub fn after<T>(f: impl FnOnce() -> T, words: impl FnOnce(&T) -> Vec<u64>) -> (T, Vec<usize>, usize) {
        let tag = TAGS.fetch_add(1, SeqCst) + 1;
        TRACK.with(|t| t.set(tag));
        let r = f();
        TRACK.with(|t| t.set(0));
        let w = words(&r);
        let (mut found, mut left) = (vec![], 0);
        for (a, b) in TAG.iter().enumerate().flat_map(|(a, row)| (0..row.len()).map(move |b| (a, b))) {
            if TAG[a][b].load(SeqCst) == tag {
                left += 1;
                let (p, n) = (PTR[a][b].load(SeqCst), LEN[a][b].load(SeqCst));
                if unsafe { holds(p as *const u8, n, &w) } {
                    found.push(n);
                }
                TAG[a][b].store(0, SeqCst);
                PTR[a][b].store(0, SeqCst);
            }
        }
        (r, found, left)
    }
}

/// Any word of the secret in the block, at any byte position
unsafe fn holds(p: *const u8, n: usize, words: &[u64]) -> bool {
    if n < 8 {
        return false;
    }
    for i in 0..=n - 8 {
        let mut w = [0u8; 8];
        for (j, b) in w.iter_mut().enumerate() {
            *b = std::ptr::read_volatile(p.add(i + j));
        }
        let w = u64::from_le_bytes(w);
        if w != 0 && words.contains(&w) {
            return true;
        }
    }
    false
}
fn words<F: Limbs>(x: &F) -> [u64; 6] {
    let mut w = [0; 6];
    for (a, b) in w.iter_mut().zip(x.limbs()) {
        *a = b;
    }
    w
}
trait Limbs {
    /// the words as they are in memory
    fn limbs(&self) -> Vec<u64>;
}
impl Limbs for Fr {
    fn limbs(&self) -> Vec<u64> {
        self.0 .0.to_vec()
    }
}
impl Limbs for Fq {
    fn limbs(&self) -> Vec<u64> {
        self.0 .0.to_vec()
    }
}
/// Explicit zeroization, where the type offers it
struct Maybe<'a, T>(&'a mut T);
trait Offered {
    fn try_zeroize(&mut self) -> bool;
}
impl<T: Zeroize> Offered for Maybe<'_, T> {
    fn try_zeroize(&mut self) -> bool {
        self.0.zeroize();
        true
    }
}
trait NotOffered {
    fn try_zeroize(&mut self) -> bool;
}
impl<T> NotOffered for &mut Maybe<'_, T> {
    fn try_zeroize(&mut self) -> bool {
        false
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Origin {
    Plain,
    Clone,
    Compressed,
    Uncompressed,
    Json,
    Binary,
    Keygen,
    KeygenDest,
    Setup,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Place {
    Slot,
    BoxedSlot,
    Option,
    VecClear,
    VecTruncate,
    VecPop,
    Array,
    Counted,
    Unwinding,
    FreedBox,
    FreedVec,
    FreedCounted,
    FreedStruct,
    FreedMap,
    Assigned,
    Explicit,
    ExplicitVec,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    x: FrS,
    rng: RngS,
    origin: Origin,
    place: Place,
    count: usize,
    at: usize,
}
/// Blocks freed by the closure must not hold the secret
fn freed(w: [u64; 6], f: impl FnOnce()) -> Result<(), String> {
    let (_, blocks, found) = watching(&w, f);
    ensure!(blocks > 0, "no block was freed");
    ensure!(found == 0, "a freed block still holds the secret");
    Ok(())
}
/// Result, number of blocks this thread freed, number of those that held one of the words
fn watching<T>(w: &[u64], f: impl FnOnce() -> T) -> (T, u32, u32) {
    let mut a = [0; 16];
    a[..w.len()].copy_from_slice(w);
    WORDS.with(|x| x.set(a));
    FOUND.with(|x| x.set(0));
    BLOCKS.with(|x| x.set(0));
    ON.with(|x| x.set(true));
    let r = f();
    ON.with(|x| x.set(false));
    (r, BLOCKS.with(|x| x.get()), FOUND.with(|x| x.get()))
}
struct Guard<T>(*mut T);
impl<T> Drop for Guard<T> {
    fn drop(&mut self) {
        unsafe { std::ptr::drop_in_place(self.0) }
    }
}
macro_rules! scenario {
    ($name:ident, $F:ty) => {
        #[inline(never)]
        fn $name(c: &Case, make: &dyn Fn() -> Result<SecretKey<$F>, String>, w: [u64; 6]) -> Result<(), String> {
            type K = SecretKey<$F>;
            let size = std::mem::size_of::<K>();
            let gone = |p: *const K, what: &str| -> Result<(), String> {
                ensure!(!unsafe { holds(p as *const u8, size, &w) }, "{what}: memory still holds the secret");
                Ok(())
            };
            let many = || -> Result<Vec<K>, String> { (0..c.count).map(|_| make()).collect() };
            match c.place {
                Place::Slot => {
                    let mut m = MaybeUninit::new(make()?);
                    unsafe { std::ptr::drop_in_place(m.as_mut_ptr()) };
                    gone(m.as_ptr(), "slot")?;
                }
                Place::BoxedSlot => {
                    let mut m = Box::new(MaybeUninit::new(make()?));
                    unsafe { std::ptr::drop_in_place(m.as_mut_ptr()) };
                    gone(m.as_ptr(), "boxed slot")?;
                }
                Place::Option => {
                    let mut o = Box::new(Some(make()?));
                    let p = o.as_ref().as_ref().unwrap() as *const K;
                    drop(o.as_mut().take().map(|k| k.0));
                    *o = Some(make()?);
                    // assigning None drops in place
                    *o = None;
                    gone(p, "option")?;
                }
                Place::VecClear => {
                    let mut v = many()?;
                    let p = v.as_ptr();
                    v.clear();
                    for i in 0..c.count {
                        gone(unsafe { p.add(i) }, "cleared vector")?;
                    }
                }
                Place::VecTruncate => {
                    let mut v = many()?;
                    let p = v.as_ptr();
                    let k = c.at % c.count;
                    v.truncate(k);
                    for i in k..c.count {
                        gone(unsafe { p.add(i) }, "truncated vector")?;
                    }
                    ensure!(v.iter().all(|x| words(&x.0) == w), "the others changed");
                }
                Place::VecPop => {
                    let mut v = many()?;
                    let k = c.at % c.count;
                    v.drain(k..);
                    let p = v.as_ptr();
                    for i in k..c.count {
                        gone(unsafe { p.add(i) }, "drained vector")?;
                    }
                }
                Place::Array => {
                    let mut m = MaybeUninit::new([make()?, make()?, make()?]);
                    unsafe { std::ptr::drop_in_place(m.as_mut_ptr()) };
                    for i in 0..3 {
                        gone(unsafe { (m.as_ptr() as *const K).add(i) }, "array")?;
                    }
                }
                Place::Counted => {
                    let a = std::sync::Arc::new(make()?);
                    let weak = std::sync::Arc::downgrade(&a);
                    let b = a.clone();
                    drop(a);
                    ensure!(words(&b.0) == w, "value lost while in use");
                    drop(b);
                    gone(weak.as_ptr(), "counted pointer")?;
                }
                Place::Unwinding => {
                    let mut m = Box::new(MaybeUninit::new(make()?));
                    let p = m.as_mut_ptr();
                    let r = no_panic(|| {
                        let _g = Guard(p);
                        if c.count < 1000 {
                            panic!("unwinding");
                        }
                    });
                    ensure!(r.is_err(), "no unwinding");
                    gone(p, "unwound")?;
                }
                Place::FreedBox => {
                    let b = std::hint::black_box(Box::new(make()?));
                    freed(w, move || drop(b))?;
                }
                Place::FreedVec => {
                    let v = std::hint::black_box(many()?);
                    freed(w, move || drop(v))?;
                }
                Place::FreedCounted => {
                    let a = std::hint::black_box(std::rc::Rc::new(make()?));
                    let b = a.clone();
                    freed(w, move || {
                        drop(a);
                        drop(b)
                    })?;
                }
                Place::FreedStruct => {
                    struct Holder {
                        _name: [u8; 3],
                        _key: K,
                        _more: (u16, Option<K>),
                    }
                    let h = std::hint::black_box(Box::new(Holder { _name: [1; 3], _key: make()?, _more: (1, Some(make()?)) }));
                    freed(w, move || drop(h))?;
                }
                Place::FreedMap => {
                    let mut m = std::collections::BTreeMap::new();
                    for i in 0..c.count {
                        m.insert(i, Box::new(make()?));
                    }
                    let m = std::hint::black_box(m);
                    freed(w, move || drop(m))?;
                }
                Place::Assigned => {
                    // the old value is dropped before the new one takes its place
                    let mut b = Box::new(make()?);
                    *b = SecretKey(<$F>::from(0u64));
                    gone(&*b, "assigned")?;
                    let b = std::hint::black_box(b);
                    freed(w, move || drop(b))?;
                }
                Place::Explicit => {
                    let mut k = make()?;
                    #[allow(unused_mut, unused_imports)]
                    let done = {
                        let mut m = Maybe(&mut k);
                        (&mut m).try_zeroize()
                    };
                    if done {
                        gone(&k, "zeroized")?;
                        ensure!(k.0.is_zero(), "zeroized key is not zero");
                    }
                    let b = std::hint::black_box(Box::new(make()?));
                    freed(w, move || drop(b))?;
                }
                Place::ExplicitVec => {
                    let mut v = many()?;
                    let p = v.as_ptr();
                    let mut all = true;
                    for k in v.iter_mut() {
                        let mut m = Maybe(k);
                        all &= (&mut m).try_zeroize();
                    }
                    if all {
                        for i in 0..c.count {
                            gone(unsafe { p.add(i) }, "zeroized in a vector")?;
                        }
                    }
                }
            }
            Ok(())
        }
    };
}
scenario!(run_fr, Fr);
scenario!(run_fq, Fq);

fn copy<F: PrimeField>(x: F, o: Origin) -> Result<SecretKey<F>, String> {
    let k = SecretKey(x);
    Ok(match o {
        Origin::Clone => {
            let c = k.clone();
            drop(k);
            c
        }
        Origin::Compressed | Origin::Uncompressed => {
            let m = if o == Origin::Compressed { Compress::Yes } else { Compress::No };
            let mut b = vec![];
            k.serialize_with_mode(&mut b, m).map_err(|e| format!("{e:?}"))?;
            must!(SecretKey::<F>::deserialize_with_mode(&b[..], m, ark_serialize::Validate::Yes))
        }
        Origin::Json => must!(serde_json::from_str(&must!(serde_json::to_string(&k)))),
        Origin::Binary => must!(bincode::deserialize(&must!(bincode::serialize(&k)))),
        _ => k,
    })
}
fn check_fr(c: &Case) -> Outcome {
    // every call gives the same secret
    let gens = EncryptionGens::<toy::Toy> { G: toy::T(Fr::from(3u64)), H: toy::T(Fr::from(5u64)) };
    let make = || -> Result<SecretKey<Fr>, String> {
        let mut rng = c.rng.rng();
        Ok(match c.origin {
            Origin::Keygen => {
                let b = Base::<toy::Toy>::new(7, 2, 0);
                must!(keygen(&mut rng, bits_for(2), &b.gens, &b.g_i, &b.delta_g, &b.gamma_g)).0
            }
            Origin::KeygenDest => must!(Fkeygen_dest::<_, toy::Toy>(&mut rng, &gens)).0,
            Origin::Setup => must!(setup_for_groth16(&mut rng, 250, &gens)).1,
            o => copy(c.x.fr(), o)?,
        })
    };
    let first = make()?.0;
    ensure_eq!(make()?.0, first, "key is not determined by its inputs");
    run_fr(c, &make, words(&first))?;
    info(c, !first.is_zero())
}
fn check_fq(c: &Case) -> Outcome {
    let x = Fq::rand(&mut c.rng.rng());
    let o = match c.origin {
        Origin::Keygen | Origin::KeygenDest | Origin::Setup => Origin::Plain,
        o => o,
    };
    run_fq(c, &|| copy(x, o), words(&x))?;
    info(c, !x.is_zero())
}
/// A secret key that is used and dropped
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Use {
    keys: u64,
    n: usize,
    bits: u8,
    msg: Vec<u16>,
    rng: RngS,
    ops: Vec<u8>,
}
/// every word of the secret and of its opposite, as a field element and as an integer
fn all_words(x: &Fr) -> Vec<u64> {
    [*x, -*x].iter().flat_map(|x| [x.0 .0, x.into_bigint().0]).flatten().collect()
}
fn check_use<E: Eng>(c: &Use) -> Outcome {
    let n = c.n;
    let b = Base::<E>::new(c.keys, n, 0);
    let mut rng = c.rng.rng();
    // every operation in here is given only what it uses; what it returns is dropped
    let run = |op: u8, sk: &SecretKey<Fr>, dk: &DecryptionKey<E>, v: &[E::G1Affine], pp: &[Vec<PairingOutput<E>>]| -> bool {
        let (ct, vk) = (to_ct::<E>(v), fake_vk::<E>(&b.g_i));
        let m = v.len() - 1;
        match op % 12 {
            0 => ct.decrypt(sk, dk.clone(), &b.g_i, c.bits).is_ok(),
            1 => ct.decrypt_given_pairing_powers(sk, dk.clone(), &b.g_i, c.bits, pp).is_ok(),
            2 => ct.decrypt_given_groth16_vk(sk, dk.clone(), &vk, c.bits).is_ok(),
            3 => ct.decrypt_given_groth16_vk_and_pairing_powers(sk, dk.clone(), &vk, c.bits, pp).is_ok(),
            4 => Encryption::<E>::decrypt_to_chunks(&v[0], &v[1..m], sk, dk.clone(), &b.g_i, c.bits).is_ok(),
            5 => Encryption::<E>::decrypt_to_chunks_after_re_encryption(&v[0], &v[1..m], sk, &b.g_i, c.bits).is_ok(),
            // one chunk too few, pairing powers missing, not enough generators
            6 => Encryption::<E>::decrypt(&v[0], &v[1..m - 1], sk, dk.clone(), &b.g_i, c.bits).is_ok(),
            7 => Encryption::<E>::decrypt_given_pairing_powers(&v[0], &v[1..m], sk, dk.clone(), &b.g_i, c.bits, &pp[..n - 1]).is_ok(),
            8 => Encryption::<E>::decrypt_given_groth16_vk(&v[0], &v[1..m], sk, dk.clone(), &fake_vk::<E>(&b.g_i[..n - 1]), c.bits).is_ok(),
            9 => copy(sk.0, Origin::Clone).is_ok() && sk.clone() == *sk,
            // a different key
            10 => {
                let mut o = sk.clone();
                o.0 += Fr::one();
                Encryption::<E>::decrypt_to_chunks(&v[0], &v[1..m], sk, dk.clone(), &b.g_i, c.bits).is_ok() && o != *sk
            }
            _ => format!("{:?}", copy(sk.0, Origin::Json).map(|k| k == *sk)) == "Ok(true)",
        }
    };
    let mut fresh = StdRng::seed_from_u64(rng.next_u64());
    let (gens, bits) = (&b.gens, bits_for(n));
    let (made, found, _) = live::after(
        || -> Result<(Fr, usize), String> {
            let (made, _, found) = recording(|| keygen(&mut fresh, bits, gens, &b.g_i, &b.delta_g, &b.gamma_g), |r| r.as_ref().map(|r| all_words(&r.0 .0)).unwrap_or_default());
            ensure!(!found, "a block that key generation freed holds the secret key");
            let (sk, ek, dk) = must!(made);
            let (v, _) = must!(Encryption::encrypt_decomposed_message(&mut fresh, c.msg.clone(), &ek, &b.g_i));
            let pp = must!(PreparedDecryptionKey::from(dk.clone()).pairing_powers(c.bits, &b.g_i));
            let mut done = 0;
            for op in &c.ops {
                let (ok, _, found) = watching(&all_words(&sk.0), || run(*op, &sk, &dk, &v, &pp));
                // the text of a serialized key is not the key's memory
                if op % 12 < 11 {
                    ensure!(found == 0, "a block that operation {} freed holds the secret key", op % 12);
                }
                done += ok as usize;
            }
            Ok((sk.0, done))
        },
        |r| r.as_ref().map(|r| all_words(&r.0)).unwrap_or_default(),
    );
    let (_, done) = made?;
    ensure!(found.is_empty(), "blocks of {found:?} bytes hold the secret key after it was used and dropped");
    let (made, found, _) = live::after(
        || -> Result<Fr, String> {
            let (made, _, found) = recording(|| Fkeygen_dest::<_, E>(&mut fresh, gens), |r| r.as_ref().map(|r| all_words(&r.0 .0)).unwrap_or_default());
            ensure!(!found, "a block that key generation freed holds the destination's secret key");
            let (sk, ekd) = must!(made);
            let v: Vec<E::G1Affine> = std::iter::once(b.gens.G).chain((0..n).map(|i| (b.g_i[i] * Fr::from(c.msg[i]) + ekd.pk).into())).collect();
            let (m, _, found) = watching(&all_words(&sk.0), || Encryption::<E>::decrypt_to_chunks_after_re_encryption(&v[0], &v[1..], &sk, &b.g_i, c.bits));
            ensure!(found == 0, "a block that decryption freed holds the destination's secret key");
            let m = must!(m);
            ensure_eq!(m, c.msg, "decryption");
            Ok(sk.0)
        },
        |r| r.as_ref().map(all_words).unwrap_or_default(),
    );
    made?;
    ensure!(found.is_empty(), "blocks of {found:?} bytes hold the destination's secret key after it was used and dropped");
    Ok(Info::new(done > 0).label_if(c.ops.len() > 3, "many operations"))
}
fn uses() -> BoxedStrategy<Use> {
    bx((1u8..=4, 2usize..=5).prop_flat_map(|(bits, n)| {
        // a key whose H is the generator of the toy engine has the secret among its public elements
        ((0u64..u64::MAX / 5, 1u64..5).prop_map(|(a, b)| a * 5 + b), cheap_chunks(bits, n), rng_plain(), proptest::collection::vec(any::<u8>(), 1..8))
            .prop_map(move |(keys, msg, rng, ops)| Use { keys, n, bits, msg, rng, ops })
    }))
}
fn info(c: &Case, nt: bool) -> Outcome {
    Ok(Info::new(nt).label(format!("{:?}", c.place)).label(format!("from {:?}", c.origin)))
}
fn cases() -> BoxedStrategy<Case> {
    use Origin::*;
    use Place::*;
    let place = proptest::sample::select(vec![
        Slot, BoxedSlot, Place::Option, VecClear, VecTruncate, VecPop, Array, Counted, Unwinding, FreedBox, FreedVec, FreedCounted, FreedStruct,
        FreedMap, Assigned, Explicit, ExplicitVec,
    ]);
    let origin = prop_oneof![
        12 => proptest::sample::select(vec![Plain, Place_::CLONE, Compressed, Uncompressed, Json, Binary, Keygen, KeygenDest]),
        1 => Just(Setup)
    ];
    bx((frs(), rng_plain(), origin, place, 1usize..7, 0usize..7).prop_map(|(x, rng, origin, place, count, at)| Case { x, rng, origin, place, count, at }))
}
struct Place_;
impl Place_ {
    const CLONE: Origin = Origin::Clone;
}
fn main() {
    let mut p = Prop::new("C19", "Secret keys are erased from memory when dropped");
    p.assume("copies that moving a value leaves behind on the stack are outside the property");
    p.assume("the build under test is the optimised one of this harness");
    let nt = "non-trivial: the secret is not zero";
    p.part("scalar_field", &format!("17 places, 9 origins; memory read after drop or by the allocator when freed; {nt}"), 20000, 1_000_000, cases, check_fr);
    p.part("other_field", &format!("as scalar_field for a key over the 381-bit base field; {nt}"), 10000, 500_000, cases, check_fq);
    let nt = "a key is generated, used in 1..=7 ways (decryption in all variants, failing calls, copies) and dropped with everything that was returned; no heap block allocated meanwhile holds a word of it; non-trivial: an operation succeeded";
    p.part("use_toy", &format!("toy engine; {nt}"), 6000, 400_000, uses, check_use::<Toy>);
    p.part("use_bls", &format!("BLS12-381; {nt}"), 40, 2_000, uses, check_use::<Bls>);
    p.finish()
}
