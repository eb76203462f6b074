//! Checks of sm-algorithm: C01-C12.
mod big;
mod number;
mod primes;
mod sequences;
use pbt::Erased;

fn all() -> Vec<Box<dyn Erased>> {
    vec![
        Box::new(number::Power),
        Box::new(number::ExtendedGcd),
        Box::new(number::Inverse),
        Box::new(number::Division),
        Box::new(number::Coprime),
        Box::new(number::Remainder),
        Box::new(sequences::Factorial),
        Box::new(sequences::SignedFibonacci),
        Box::new(sequences::UnsignedFibonacci),
        Box::new(sequences::PrimeSumWord),
        Box::new(sequences::PrimeSumBig),
        Box::new(sequences::PrimeCount),
    ]
}

fn main() {
    pbt::main_with(all)
}
