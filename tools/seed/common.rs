#![allow(dead_code, unused_imports, non_snake_case, unused_variables)]
pub use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
pub use ark_ec::{pairing::{Pairing, PairingOutput}, AffineRepr, CurveGroup, Group};
pub use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
pub use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
pub use ark_std::{rand::{rngs::StdRng, Rng, RngCore, SeedableRng}, UniformRand};
pub use dist_saver::{
    circuit::BitsizeCheckCircuit, commitment::ChunkedCommitment, encryption::*, keygen::*, saver_groth16::*, setup::*, utils::*,
};
pub type E = Bls12_381;

/// Single-authority keys over random generators (no SNARK parameters).
pub struct Plain {
    pub gens: EncryptionGens<E>,
    pub g: Vec<G1Affine>,
    pub gd: G1Affine,
    pub gg: G1Affine,
    pub delta: Fr,
    pub gamma: Fr,
}
pub fn plain(rng: &mut StdRng, bits: u8) -> Plain {
    let n = chunks_count::<Fr>(bits) as usize;
    let gens = EncryptionGens::<E>::new_using_rng(rng);
    let g = (0..n).map(|_| G1Affine::rand(rng)).collect();
    let (delta, gamma) = (Fr::rand(rng), Fr::rand(rng));
    Plain { gd: (gens.G * delta).into_affine(), gg: (gens.G * gamma).into_affine(), gens, g, delta, gamma }
}
impl Plain {
    pub fn keys(&self, rng: &mut StdRng, bits: u8) -> (SecretKey<Fr>, EncryptionKey<E>, DecryptionKey<E>) {
        keygen(rng, bits, &self.gens, &self.g, &self.gd, &self.gg).unwrap()
    }
    pub fn parties(&self, rng: &mut StdRng, bits: u8, k: usize) -> (Vec<SecretKeyST<E>>, EncryptionKey<E>) {
        let mut sks = vec![];
        let mut eks = vec![];
        for _ in 0..k {
            let (s, e) = FkeygenPartial(rng, bits, &self.gens, &self.g, &self.gd, &self.gg).unwrap();
            sks.push(s);
            eks.push(e);
        }
        let ek = combineEKs(&self.gg, &eks);
        let p: Vec<_> = sks.iter().map(|s| genP1share(&ek, s)).collect();
        (sks, keygenFinal(&ek, &combineP1share(&p)))
    }
}
pub fn ct_of(v: &[G1Affine]) -> Ciphertext<E> {
    Ciphertext { X_r: v[0], enc_chunks: v[1..v.len() - 1].to_vec(), commitment: v[v.len() - 1] }
}
