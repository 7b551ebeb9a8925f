#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};

fn main() {
struct N; impl spaces::Space for N { type Value = Features; fn dim(&self) -> spaces::Dim { spaces::Dim::Finite(100) } fn card(&self) -> spaces::Card { spaces::Card::Infinite } } impl Combinators for N {} impl Basis<()> for N { fn project(&self, _: ()) -> Result<Features> { Ok(Features::sparse(100, vec![(63, -1.0)])) } } assert_eq!(N.normalise_l1().ith((), 63).unwrap(), -1.0);
}
