//! C06, C07: intersection and union against the tree contract, over arbitrary sources.
use crate::watched::*;
use crate::{check_cursor, check_get};
use hibit_tree::*;
use hibit_tree::const_utils::*;

macro_rules! for_depths { ($($name:ident $d:literal $start:literal $e0:literal $e1:literal;)*) => { $(
    mod $name {
        use super::*;
        type A = Wt<$d, $e0>;
        type B = Wt<$d, $e1>;
        #[kani::proof]
        #[kani::unwind(6)]
        fn intersection_contract() {
            let p = any_paths::<$d>();
            let (a, b) = (A::any(1, p), B::any(2, p));
            let t = &intersection(&a, &b);
            let model = |i: usize| match (a.model(i), b.model(i)) { (Some(x), Some(y)) => Some((x, y)), _ => None };
            check_get!(t, p, model, |d| d, |d| d);
            check_cursor!(t, $d, 2, $start, p, model, |d| d);
        }
        #[kani::proof]
        #[kani::unwind(6)]
        fn union_contract() {
            let p = any_paths::<$d>();
            let (a, b) = (A::any(1, p), B::any(2, p));
            let t = &union(&a, &b);
            let model = |i: usize| match (a.model(i), b.model(i)) { (None, None) => None, x => Some(x) };
            check_get!(t, p, model, |d| d, |d| d);
            check_cursor!(t, $d, 2, $start, p, model, |d| d);
        }
    }
)* } }
for_depths! {
    d1s0 1 0 true true;
    d2s0 2 0 true true;
    d2s1 2 1 true true;
    d3s0 3 0 true true;
    d3s1 3 1 true true;
    d3s2 3 2 true true;
    d4s0 4 0 true true;
    d4s2 4 2 true true;
    d3n 3 1 false true;
}
