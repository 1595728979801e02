use ark_relations::r1cs::{ConstraintMatrices, ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, SynthesisMode};
use dsv_harness::*;
use proptest::prop_oneof;

/// A value relative to the bound 2^bits
#[derive(Clone, Debug, Serialize, Deserialize)]
enum V {
    /// random value with at most `bits` bits, from a seed
    In(u64),
    /// 2^bits - 1 - d (>= 0)
    Top(u8),
    Small(u8),
    /// 2^bits + d
    Over(u8),
    /// 2^j for any j
    Pow(u8),
    /// in-range value plus 2^j
    Bit(u64, u8),
    Any(FrS),
    /// -1 - d
    Neg(u8),
}
fn pow2(j: u32) -> Fr {
    Fr::from(2u64).pow([j as u64])
}
fn in_range(x: &Fr, bits: u8) -> bool {
    use ark_ff::BigInteger;
    x.into_bigint().num_bits() <= bits as u32
}
fn low_bits(x: &Fr, bits: u8) -> Fr {
    use ark_ff::BigInteger;
    let mut b = x.into_bigint().to_bits_le();
    b.truncate(bits as usize);
    b.iter().rev().fold(Fr::zero(), |a, b| a + a + Fr::from(*b as u64))
}
impl V {
    fn x(&self, bits: u8) -> Fr {
        match self {
            V::In(s) => low_bits(&Fr::rand(&mut StdRng::seed_from_u64(*s)), bits),
            V::Top(d) => {
                let t = pow2(bits.min(254) as u32) - Fr::one();
                let d = Fr::from(*d as u64);
                if in_range(&(t - d), bits) { t - d } else { t }
            }
            V::Small(x) => low_bits(&Fr::from(*x as u64), bits),
            V::Over(d) => pow2(bits as u32) + Fr::from(*d as u64),
            V::Pow(j) => pow2(*j as u32 % 255),
            V::Bit(s, j) => low_bits(&Fr::rand(&mut StdRng::seed_from_u64(*s)), bits) + pow2(*j as u32 % 255),
            V::Any(f) => f.fr(),
            V::Neg(d) => -Fr::one() - Fr::from(*d as u64),
        }
    }
}
fn good() -> BoxedStrategy<V> {
    bx(prop_oneof![4 => any::<u64>().prop_map(V::In), 2 => (0u8..3).prop_map(V::Top), 1 => (0u8..3).prop_map(V::Small)])
}
fn bad() -> BoxedStrategy<V> {
    bx(prop_oneof![
        3 => (0u8..3).prop_map(V::Over), 3 => any::<u8>().prop_map(V::Pow), 3 => (any::<u64>(), any::<u8>()).prop_map(|(a, b)| V::Bit(a, b)),
        2 => frs().prop_map(V::Any), 2 => (0u8..3).prop_map(V::Neg)
    ])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    bits: u8,
    vals: Vec<V>,
    public: bool,
    num: u8,
}
fn synth(c: BitsizeCheckCircuit<Fr>, mode: SynthesisMode) -> Result<ConstraintSystemRef<Fr>, String> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_mode(mode);
    must!(c.generate_constraints(cs.clone()));
    cs.finalize();
    Ok(cs)
}
/// Whether the assignment satisfies all constraints
fn satisfied(cs: &ConstraintSystemRef<Fr>) -> bool {
    let m = cs.to_matrices().unwrap();
    let b = cs.borrow().unwrap();
    let z: Vec<Fr> = b.instance_assignment.iter().chain(&b.witness_assignment).cloned().collect();
    (0..m.num_constraints).all(|j| eval(&m.a[j], &z) * eval(&m.b[j], &z) == eval(&m.c[j], &z))
}
const PROVE: SynthesisMode = SynthesisMode::Prove { construct_matrices: true };
fn shape(m: &ConstraintMatrices<Fr>) -> (usize, usize, usize, &ark_relations::r1cs::Matrix<Fr>, &ark_relations::r1cs::Matrix<Fr>, &ark_relations::r1cs::Matrix<Fr>) {
    (m.num_instance_variables, m.num_witness_variables, m.num_constraints, &m.a, &m.b, &m.c)
}
fn check(c: &Case) -> Outcome {
    let n = c.vals.len();
    let xs: Vec<Fr> = c.vals.iter().map(|v| v.x(c.bits)).collect();
    let ok = xs.iter().all(|x| in_range(x, c.bits));
    let full = c.bits > 0 && utils::chunks_count::<Fr>(c.bits) as usize == n;
    // given values count, whatever number was announced
    let num = match c.num % 4 {
        0 if full => None,
        3 => Some(c.num / 4),
        _ => Some(n as u8),
    };
    let cs = synth(BitsizeCheckCircuit::new(c.bits, num, Some(xs.clone()), c.public), PROVE)?;
    let sat = satisfied(&cs);
    ensure_eq!(sat, ok, "circuit satisfied vs all values below 2^{}", c.bits);
    let m = cs.to_matrices().unwrap();
    let b = cs.borrow().unwrap();
    if c.public {
        ensure_eq!(b.instance_assignment[1..].to_vec(), xs, "public inputs");
    } else {
        ensure_eq!(b.instance_assignment.len(), 1, "public inputs of private values");
    }
    ensure_eq!(b.instance_assignment[0], Fr::one(), "constant");
    drop(b);
    // the same shape during setup and for other values
    let s = synth(BitsizeCheckCircuit::new(c.bits, Some(n as u8), None, c.public), SynthesisMode::Setup)?;
    let sm = s.to_matrices().unwrap();
    ensure!(shape(&m) == shape(&sm), "constraints differ between setup and proving");
    let z = synth(BitsizeCheckCircuit::new(c.bits, Some(n as u8), Some(vec![Fr::zero(); n]), c.public), PROVE)?;
    ensure!(shape(&z.to_matrices().unwrap()) == shape(&m), "constraints depend on the values");
    ensure!(satisfied(&z), "zeros rejected");
    let nout = xs.iter().filter(|x| !in_range(x, c.bits)).count();
    Ok(Info::new(n > 1 || !ok)
        .label(if ok { "all in range" } else { "out of range" })
        .label(if c.public { "public" } else { "private" })
        .label_if(nout == 1, "one value out of range")
        .label_if(num.is_some_and(|x| x as usize != n), "another number announced")
        .label_if(c.bits == 0, "0 bits")
        .label_if(c.bits >= 253, "253..255 bits"))
}
fn cases(maxn: usize) -> BoxedStrategy<Case> {
    let bits = prop_oneof![3 => 1u8..=16, 1 => proptest::sample::select(vec![4u8, 8, 16]), 2 => any::<u8>(), 1 => Just(0u8), 1 => 250u8..=255];
    bx((bits, 1..=maxn, any::<bool>(), any::<u8>()).prop_flat_map(|(bits, n, public, num)| {
        let vals = prop_oneof![
            3 => proptest::collection::vec(good(), n).boxed(),
            4 => (proptest::collection::vec(good(), n), 0..n, bad()).prop_map(|(mut v, i, x)| { v[i] = x; v }).boxed(),
            2 => proptest::collection::vec(prop_oneof![good(), bad()], n).boxed(),
        ];
        vals.prop_map(move |vals| Case { bits, vals, public, num })
    }))
}

// --- dishonest provers ------------------------------------------------------------------------------

/// An assignment and the value of every row
struct Search<'a> {
    m: &'a ConstraintMatrices<Fr>,
    /// rows in which a variable occurs
    rows: Vec<Vec<usize>>,
    /// variables that must keep their value
    fixed: Vec<bool>,
    budget: u32,
}
fn eval(r: &[(Fr, usize)], z: &[Fr]) -> Fr {
    r.iter().map(|(c, i)| *c * z[*i]).sum()
}
fn coeff(r: &[(Fr, usize)], v: usize) -> Fr {
    r.iter().filter(|x| x.1 == v).map(|x| x.0).sum()
}
impl Search<'_> {
    fn holds(&self, j: usize, z: &[Fr]) -> bool {
        eval(&self.m.a[j], z) * eval(&self.m.b[j], z) == eval(&self.m.c[j], z)
    }
    /// Values of variable v for which row j holds (the other variables fixed)
    fn solve(&self, j: usize, v: usize, z: &[Fr]) -> Vec<Fr> {
        let (ca, cb, cc) = (coeff(&self.m.a[j], v), coeff(&self.m.b[j], v), coeff(&self.m.c[j], v));
        let (a, b, c) = (eval(&self.m.a[j], z) - ca * z[v], eval(&self.m.b[j], z) - cb * z[v], eval(&self.m.c[j], z) - cc * z[v]);
        // (a + ca x)(b + cb x) = c + cc x
        let (q2, q1, q0) = (ca * cb, a * cb + b * ca - cc, a * b - c);
        if q2.is_zero() {
            return if q1.is_zero() { vec![] } else { vec![-q0 * q1.inverse().unwrap()] };
        }
        let disc = q1 * q1 - Fr::from(4u64) * q2 * q0;
        match disc.sqrt() {
            Some(s) => {
                let i = (q2 + q2).inverse().unwrap();
                vec![(-q1 + s) * i, (-q1 - s) * i]
            }
            None => vec![],
        }
    }
    /// Depth-first repair of violated rows by changing one variable at a time
    fn repair(&mut self, z: &mut Vec<Fr>, bad: &mut Vec<usize>, depth: u32) -> bool {
        if bad.is_empty() {
            return true;
        }
        if depth == 0 || self.budget == 0 || bad.len() > 400 {
            return false;
        }
        let j = bad[0];
        let mut vars: Vec<usize> = self.m.a[j].iter().chain(&self.m.b[j]).chain(&self.m.c[j]).map(|x| x.1).collect();
        vars.sort();
        vars.dedup();
        // try the ones with the fewest other rows first
        vars.sort_by_key(|v| self.rows[*v].len());
        for v in vars {
            if self.fixed[v] {
                continue;
            }
            for x in self.solve(j, v, z) {
                if x == z[v] || self.budget == 0 {
                    continue;
                }
                self.budget -= 1;
                let old = z[v];
                z[v] = x;
                let mut b2: Vec<usize> = bad.iter().filter(|k| !self.rows[v].contains(k)).cloned().collect();
                b2.extend(self.rows[v].iter().filter(|k| !self.holds(**k, z)));
                b2.sort();
                self.fixed[v] = true;
                let r = self.repair(z, &mut b2, depth - 1);
                self.fixed[v] = false;
                if r {
                    return true;
                }
                z[v] = old;
            }
        }
        false
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cheat {
    bits: u8,
    vals: Vec<V>,
    public: bool,
    /// where the assignment starts from: 0 honest for the low bits, 1 honest for the value itself, 2 honest for another value
    start: u8,
    other: FrS,
}
fn check_cheat(c: &Cheat) -> Outcome {
    let n = c.vals.len();
    let xs: Vec<Fr> = c.vals.iter().map(|v| v.x(c.bits)).collect();
    if xs.iter().all(|x| in_range(x, c.bits)) {
        return Ok(Info::new(false));
    }
    let start: Vec<Fr> = xs.iter().map(|x| match c.start % 3 { 0 => low_bits(x, c.bits), 1 => *x, _ => if in_range(x, c.bits) { *x } else { c.other.fr() } }).collect();
    let cs = synth(BitsizeCheckCircuit::new(c.bits, Some(n as u8), Some(start.clone()), c.public), PROVE)?;
    let m = cs.to_matrices().unwrap();
    let b = cs.borrow().unwrap();
    let mut z = b.instance_assignment.clone();
    let ni = z.len();
    z.extend_from_slice(&b.witness_assignment);
    let nv = z.len();
    let mut rows = vec![vec![]; nv];
    for j in 0..m.num_constraints {
        for (_, v) in m.a[j].iter().chain(&m.b[j]).chain(&m.c[j]) {
            if rows[*v].last() != Some(&j) {
                rows[*v].push(j);
            }
        }
    }
    let mut fixed = vec![false; nv];
    fixed[..ni].iter_mut().for_each(|f| *f = true);
    // where the values live: public inputs, or for private ones the witness variables allocated for them
    let vars: Vec<usize> = if c.public {
        (1..=n).collect()
    } else {
        // the variables allocated for the values are found by comparing assignments for different values
        let probe = |s: u64| -> Result<Vec<Fr>, String> {
            let mut r = StdRng::seed_from_u64(s);
            let xs: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut r)).collect();
            let cs = synth(BitsizeCheckCircuit::new(c.bits, Some(n as u8), Some(xs.clone()), false), PROVE)?;
            let w = cs.borrow().unwrap().witness_assignment.clone();
            Ok(xs.iter().map(|x| Fr::from(w.iter().position(|y| y == x).unwrap_or(usize::MAX >> 1) as u64)).collect())
        };
        let (p, q) = (probe(1)?, probe(2)?);
        if p != q || p.iter().any(|x| *x > Fr::from(nv as u64)) {
            // no variable that always equals the value
            return Ok(Info::new(false).label("no variable for a private value"));
        }
        p.iter().map(|x| ni + x.into_bigint().0[0] as usize).collect()
    };
    for (i, v) in vars.iter().enumerate() {
        ensure!(*v < nv, "no variable for value {i}");
        z[*v] = xs[i];
        fixed[*v] = true;
    }
    let mut s = Search { m: &m, rows, fixed, budget: 400 };
    let mut bad: Vec<usize> = (0..m.num_constraints).filter(|j| !s.holds(*j, &z)).collect();
    let nbad = bad.len();
    ensure!(nbad > 0, "assignment for other values satisfies the circuit for out-of-range values");
    ensure!(!s.repair(&mut z, &mut bad, 4), "a dishonest prover satisfies the circuit for an out-of-range value");
    Ok(Info::new(true).label(format!("start {}", c.start % 3)).label_if(nbad == 1, "one violated row").label_if(c.public, "public"))
}
fn cheats() -> BoxedStrategy<Cheat> {
    bx((prop_oneof![3 => 1u8..=16, 1 => any::<u8>(), 1 => Just(0u8)], 1usize..=3, any::<bool>(), 0u8..3, frs()).prop_flat_map(|(bits, n, public, start, other)| {
        (proptest::collection::vec(good(), n), 0..n, bad()).prop_map(move |(mut vals, i, x)| {
            vals[i] = x;
            Cheat { bits, vals, public, start, other: other.clone() }
        })
    }))
}

/// The circuit inside the SNARK
fn check_snark<E: Eng>(c: &Case) -> Outcome {
    let n = c.vals.len();
    let xs: Vec<Fr> = c.vals.iter().map(|v| v.x(c.bits)).collect();
    let ok = xs.iter().all(|x| in_range(x, c.bits));
    let s = Srs::<E>::get(c.bits, n, 0)?;
    ensure_eq!(s.vk().gamma_abc_g1.len(), n + 1, "number of public inputs");
    let k = single_over(&s, 1)?.1;
    let p = s.prove(&xs, &Fr::zero(), &k, &mut StdRng::seed_from_u64(c.num as u64))?;
    let mut v = vec![E::G1Affine::zero()];
    v.extend(xs.iter().zip(s.g_i()).map(|(x, g)| -> E::G1Affine { (*g * *x).into() }));
    v.push(E::G1Affine::zero());
    ensure_eq!(snark_equation(s.vk(), &p, &v), ok, "proof for the values holds");
    Ok(Info::new(true).label(if ok { "all in range" } else { "out of range" }))
}
fn main() {
    let mut p = Prop::new("C06", "The range circuit is satisfiable exactly for values below 2^bits");
    p.assume("soundness against dishonest assignments is searched (local repair up to 4 changed variables), not proved");
    p.part("honest", "values around the bound, 0..255 bits, public or private; non-trivial: several values or one out of range", 1500, 20000, || cases(4), check);
    p.part("many", "up to 64 values; non-trivial: as before", 24, 600, || cases(64), check);
    p.part("cheat", "search for satisfying assignments of out-of-range values; non-trivial: a value is out of range", 1000, 8000, cheats, check_cheat);
    fn small(maxbits: u8) -> BoxedStrategy<Case> {
        bx(cases(2).prop_map(move |c| Case { bits: [1u8, 2, 4, 8, 16, 0, 200][c.bits as usize % 7].min(maxbits), ..c }))
    }
    p.part("snark_toy", "proofs for in- and out-of-range values; non-trivial: all", 400, 5000, || small(255), check_snark::<Toy>);
    p.part("snark_bls", "as snark_toy on the real curve; non-trivial: all", 16, 500, || small(4), check_snark::<Bls>);
    p.finish()
}
