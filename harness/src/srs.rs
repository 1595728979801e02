//! Cached SNARK parameters over generators with known logarithms
use crate::*;
use std::{
    any::Any,
    collections::HashMap,
    sync::{Arc, Mutex, OnceLock},
};

pub struct Srs<E: Eng> {
    pub gens: Gens<E>,
    pub g: Fr,
    pub h: Fr,
    pub bits: u8,
    pub n: usize,
    pub pk: saver_groth16::ProvingKey<E>,
    pub pvk: PreparedVerifyingKey<E>,
}
impl<E: Eng> Srs<E> {
    pub fn g_i(&self) -> &[E::G1Affine] {
        &self.pk.pk.vk.gamma_abc_g1[1..]
    }
    pub fn vk(&self) -> &VerifyingKey<E> {
        &self.pk.pk.vk
    }
    /// Parameters for `n` values of `bits` bits; `variant` is one of a few seeds
    pub fn get(bits: u8, n: usize, variant: u64) -> Result<Arc<Self>, String> {
        static C: OnceLock<Mutex<HashMap<(&'static str, u8, usize, u64), Arc<dyn Any + Send + Sync>>>> = OnceLock::new();
        let key = (E::NAME, bits, n, variant);
        let c = C.get_or_init(Default::default);
        if let Some(x) = c.lock().unwrap().get(&key) {
            return Ok(x.clone().downcast::<Self>().unwrap());
        }
        let mut rng = StdRng::seed_from_u64(variant.wrapping_mul(77) ^ ((bits as u64) << 40) ^ ((n as u64) << 50));
        let (g, h) = (nz(&mut rng), nz(&mut rng));
        let gens = EncryptionGens::<E> { G: E::g1(g), H: E::g2(h) };
        let circuit = BitsizeCheckCircuit::<Fr>::new(bits, Some(n as u8), None, true);
        let pk = must!(saver_groth16::generate_srs(circuit, &gens, &mut rng));
        let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
        let s = Arc::new(Srs { gens, g, h, bits, n, pk, pvk });
        c.lock().unwrap().insert(key, s.clone());
        Ok(s)
    }
    /// Proof that `m` are values of at most `bits` bits, bound to randomness r and ek
    pub fn prove(&self, m: &[Fr], r: &Fr, ek: &EncryptionKey<E>, rng: &mut impl Rng) -> Result<Proof<E>, String> {
        let circuit = BitsizeCheckCircuit::new(self.bits, Some(self.n as u8), Some(m.to_vec()), true);
        Ok(must!(saver_groth16::create_proof(circuit, r, &self.pk, ek, rng)))
    }
}
/// The verification equation of the SNARK, from single pairings:
/// e(A, B) = e(alpha, beta) + e(C, delta) + e(X_r + sum c_i + gamma_abc_0, gamma)
pub fn snark_equation<E: Eng>(vk: &VerifyingKey<E>, p: &Proof<E>, v: &[E::G1Affine]) -> bool {
    // v is X_r, the chunks and the commitment
    if vk.gamma_abc_g1.len() + 1 != v.len() {
        return false;
    }
    let mut d: E::G1 = vk.gamma_abc_g1[0].into_group();
    for x in &v[..v.len() - 1] {
        d += x;
    }
    E::pairing(p.a, p.b) == E::pairing(vk.alpha_g1, vk.beta_g2) + E::pairing(p.c, vk.delta_g2) + E::pairing(d, vk.gamma_g2)
}
/// Single-authority keys over SNARK parameters
pub fn single_over<E: Eng>(s: &Srs<E>, seed: u64) -> Result<(SecretKey<Fr>, EncryptionKey<E>, DecryptionKey<E>), String> {
    let mut rng = StdRng::seed_from_u64(seed ^ 0x51);
    Ok(must!(keygen(&mut rng, bits_for(s.n), &s.gens, s.g_i(), &s.pk.pk.delta_g1, &s.pk.gamma_g1)))
}
/// Distributed keys over SNARK parameters
pub fn dist_over<E: Eng>(s: &Srs<E>, seed: u64, parties: usize) -> Result<(Vec<SecretKeyST<E>>, EncryptionKey<E>), String> {
    let mut rng = StdRng::seed_from_u64(seed ^ 0xd1);
    let (mut sks, mut eks) = (vec![], vec![]);
    for _ in 0..parties {
        let (sk, ek) = must!(FkeygenPartial(&mut rng, bits_for(s.n), &s.gens, s.g_i(), &s.pk.pk.delta_g1, &s.pk.gamma_g1));
        sks.push(sk);
        eks.push(ek);
    }
    let comb = combineEKs(&s.pk.gamma_g1, &eks);
    let shares: Vec<_> = sks.iter().map(|s| genP1share(&comb, s)).collect();
    Ok((sks, keygenFinal(&comb, &combineP1share(&shares))))
}
