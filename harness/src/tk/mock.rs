//! A transparent polynomial commitment scheme: the commitment is the table
//! itself.  It lets the enumeration run the real tracker / gadget / sumcheck
//! code without group arithmetic.  It follows the KZG scheme of the crate in
//! what an opening at a longer point means (see K-checks for the real one):
//! a v-variable commitment opened at an N-coordinate point is the polynomial
//! evaluated at the last v coordinates (variables added in front).
use ark_bls12_381::{Bls12_381, Fr};
use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::borrow::Borrow;
use std::sync::Arc;
use zk_sql::subroutines::pcs::prelude::PCSError;
use zk_sql::subroutines::pcs::PolynomialCommitmentScheme;
use zk_sql::transcript::IOPTranscript;

pub struct Mock;
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct MockComm {
    pub nv: u64,
    pub evals: Vec<Fr>,
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct MockProof {
    pub evals: Vec<Fr>,
}

pub fn eval_front(comm: &MockComm, point: &[Fr]) -> Option<Fr> {
    let v = comm.nv as usize;
    if point.len() < v {
        return None;
    }
    DenseMultilinearExtension::from_evaluations_slice(v, &comm.evals).evaluate(&point[point.len() - v..])
}

impl PolynomialCommitmentScheme<Bls12_381> for Mock {
    type ProverParam = ();
    type VerifierParam = ();
    type SRS = ();
    type Commitment = MockComm;
    type Proof = MockProof;
    type BatchProof = MockProof;
    fn gen_srs_for_testing<R: ark_std::rand::Rng>(_: &mut R, _: usize) -> Result<(), PCSError> {
        Ok(())
    }
    fn trim(_: impl Borrow<()>, _: Option<usize>, _: Option<usize>) -> Result<((), ()), PCSError> {
        Ok(((), ()))
    }
    fn commit(_: impl Borrow<()>, p: &DenseMultilinearExtension<Fr>) -> Result<MockComm, PCSError> {
        Ok(MockComm { nv: p.num_vars as u64, evals: p.evaluations.clone() })
    }
    fn open(_: impl Borrow<()>, p: &DenseMultilinearExtension<Fr>, pt: &[Fr]) -> Result<(MockProof, Fr), PCSError> {
        let e = p.evaluate(pt).unwrap();
        Ok((MockProof { evals: vec![e] }, e))
    }
    fn multi_open(
        _: impl Borrow<()>,
        polys: &[Arc<DenseMultilinearExtension<Fr>>],
        points: &[Vec<Fr>],
        _evals: &[Fr],
        transcript: &mut IOPTranscript<Fr>,
    ) -> Result<MockProof, PCSError> {
        let evals: Vec<Fr> = polys.iter().zip(points).map(|(p, pt)| p.evaluate(pt).unwrap()).collect();
        for e in evals.iter() {
            transcript.append_field_element(b"mock eval", e).unwrap();
        }
        Ok(MockProof { evals })
    }
    fn verify(_: &(), c: &MockComm, pt: &[Fr], v: &Fr, _p: &MockProof) -> Result<bool, PCSError> {
        Ok(eval_front(c, pt) == Some(*v))
    }
    fn batch_verify(
        _: &(),
        comms: &[MockComm],
        points: &[Vec<Fr>],
        proof: &MockProof,
        transcript: &mut IOPTranscript<Fr>,
    ) -> Result<bool, PCSError> {
        for e in proof.evals.iter() {
            transcript.append_field_element(b"mock eval", e).unwrap();
        }
        Ok(comms.len() == proof.evals.len()
            && comms.iter().zip(points).zip(&proof.evals).all(|((c, pt), e)| eval_front(c, pt) == Some(*e)))
    }
}
