//! Instantiation context for the static analyses: field types over every integer width and the
//! candidate types the fact extractor substitutes for the generic parameters of the public API.
//! Nothing in here is ever run.
#![allow(dead_code)]
use algebra::derive::*;

#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 132120577]
#[repr(transparent)]
pub struct F32(u32);

#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 1152921504606830593]
#[repr(transparent)]
pub struct F64(u64);

#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 12289]
#[repr(transparent)]
pub struct F16(u16);

#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 17]
#[repr(transparent)]
pub struct F8(u8);

pub type CandA = F32;
pub type CandB = u16;
pub type CandC = rand_chacha::ChaCha12Rng;
pub type CandD = u32;
pub type CandE = u64;
pub type CandF = algebra::modulus::PowOf2Modulus<u16>;
pub type CandG = algebra::modulus::BarrettModulus<u32>;
pub type CandH = lattice::DiscreteGaussian<u16>;
pub type CandI = algebra::FieldDiscreteGaussianSampler;
pub type CandJ = bool;
pub type CandK = std::ops::Range<usize>;
pub type CandL = Vec<u8>;
pub type CandM = Vec<u16>;
pub type CandN = Vec<u32>;
pub type CandO = Vec<u64>;
pub type CandP = Vec<u128>;
pub type CandQ = Vec<F32>;
pub type CandR = fn() -> F32;

pub type UseA = zkfhe::KeyGen;
pub type UseB = fhe_core::Steps;
pub type UseC = lattice::LWE<u16>;

/// further instantiations of the generic public API
pub fn more_codec(c: (u8, u16, u32, u64), t: u64, q: u64) {
    macro_rules! both {
        ($($m:ty, $c:ty, $v:expr, $x:expr;)*) => {$(
            let _: $c = fhe_core::encode::<$m, $c>($v, t, q);
            let _: $m = fhe_core::decode::<$m, $c>($x, t, q);
        )*};
    }
    both! {
        bool, u8, c.0 == 1, c.0; u8, u8, c.0, c.0;
        bool, u16, c.0 == 1, c.1; u8, u16, c.0, c.1; u16, u16, c.1, c.1; u32, u16, c.2, c.1; u64, u16, c.3, c.1;
        bool, u32, c.0 == 1, c.2; u8, u32, c.0, c.2; u32, u32, c.2, c.2;
        bool, u64, c.0 == 1, c.3; u8, u64, c.0, c.3; u64, u64, c.3, c.3;
    }
}

pub fn more_samplers(r: &mut rand_chacha::ChaCha12Rng) {
    use algebra::{FieldBinarySampler, FieldDiscreteGaussianSampler, FieldTernarySampler, FieldUniformSampler};
    use rand::distributions::Distribution;
    let g = FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap();
    macro_rules! field {
        ($($f:ty)*) => {$(
            let _: $f = FieldUniformSampler::<$f>::new().sample(r);
            let _: $f = FieldBinarySampler.sample(r);
            let _: $f = FieldTernarySampler.sample(r);
            let _: $f = g.sample(r);
            let _: Vec<$f> = algebra::utils::sample_cbd_field_vec(1, r);
        )*};
    }
    field! { F8 F16 F64 }
    macro_rules! int {
        ($($t:ty)*) => {$(
            let _: $t = lattice::TernarySampler::<$t>::new(3).sample(r);
            let _: $t = lattice::BinarySampler.sample(r);
            let _: $t = lattice::DiscreteGaussian::<$t>::new(3, 0.0, 3.2).unwrap().sample(r);
            let _: Vec<$t> = lattice::sample_binary_values(1, r);
            let _: Vec<$t> = lattice::sample_ternary_values(3, 1, r);
        )*};
    }
    int! { u8 u16 u32 u64 }
}

pub fn more_transforms(t: (&<F64 as algebra::NTTField>::Table, &<F16 as algebra::NTTField>::Table), a: &mut [F64], b: &mut [F16], d: usize) {
    use algebra::transformation::{AbstractNTT, MonomialNTT};
    macro_rules! both {
        ($($t:expr, $v:expr;)*) => {$(
            $t.transform_slice($v);
            $t.inverse_transform_slice($v);
            let c = $v[0];
            $t.transform_monomial(c, d, $v);
            $t.transform_coeff_one_monomial(d, $v);
            $t.transform_coeff_neg_one_monomial(d, $v);
        )*};
    }
    both! { t.0, a; t.1, b; }
}

pub fn more_powers(a: u64, b: u32, c: u8, e: (u8, u32, u64), m: (algebra::modulus::PowOf2Modulus<u32>, algebra::modulus::BarrettModulus<u32>, algebra::modulus::BarrettModulus<u64>, algebra::modulus::BarrettModulus<u8>)) {
    use algebra::reduce::ExpReduce;
    let _ = a.exp_reduce(e.2, algebra::modulus::GoldilocksModulus);
    let _ = b.exp_reduce(e.2, algebra::modulus::BabyBearModulus);
    let _ = b.exp_reduce(e.2, m.0);
    let _ = b.exp_reduce(e.2, m.1);
    let _ = a.exp_reduce(e.0, m.2);
    let _ = c.exp_reduce(e.1, m.3);
}
