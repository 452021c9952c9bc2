//! C09: map and multi_map_fold against the tree contract, over arbitrary sources.
use crate::watched::*;
use crate::{check_cursor, check_get};
use core::marker::PhantomData;
use hibit_tree::const_utils::*;
use hibit_tree::utils::Borrowable;
use hibit_tree::*;

/// result of the mapped function, distinct from its argument
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Y(u32);
fn f(v: V) -> Y { Y(v.0 ^ 0x5555_5555) }

macro_rules! for_depths { ($($name:ident $d:literal $start:literal $e:literal;)*) => { $(
    mod $name {
        use super::*;
        #[kani::proof]
        #[kani::unwind(6)]
        fn map_contract() {
            let p = any_paths::<$d>();
            let a = Wt::<$d, $e>::any(1, p);
            let m = map(&a, |v: V| {
                assert!(!v.eq(&NONE), "the function is applied to existing elements only");
                f(v)
            });
            let t = &m;
            let model = |i: usize| a.model(i).map(f);
            check_get!(t, p, model, |d| d, |d| d);
            check_cursor!(t, $d, 2, $start, p, model, |d| d);
        }
    }
)* } }
for_depths! { d1 1 0 true; d2 2 1 true; d3 3 2 true; d4 4 0 true; d3n 3 1 false; }
const NONE: V = V(u32::MAX);

/// the provided methods and owned sources go through the same operation
#[kani::proof]
#[kani::unwind(6)]
fn map_methods() {
    let p = any_paths::<2>();
    let a = Wt::<2, true>::any(1, p);
    let k = key_of(&p[0]);
    assert!(a.map_ref(f as fn(V) -> Y).get(k) == a.model(0).map(f), "map_ref maps");
    assert!(a.map(f as fn(V) -> Y).get(k) == a.model(0).map(f), "map maps");
}

/// Many-tree oracle: at each stored key a sequence of values (1..=3 of them).
pub struct Mw<const D: usize> { t: Wt<D, true>, len: [usize; P] }
pub struct Items { v: V, i: usize, n: usize }
fn item(v: V, i: usize) -> V { V(v.0 ^ ((i as u32) << 30)) }
impl Iterator for Items {
    type Item = V;
    fn next(&mut self) -> Option<V> { if self.i < self.n { self.i += 1; Some(item(self.v, self.i)) } else { None } }
}
impl<const D: usize> Mw<D> {
    fn any(p: [[usize; D]; P]) -> Self {
        let s = Mw { t: Wt::any(1, p), len: [kani::any(), kani::any()] };
        kani::assume(s.len[0] >= 1 && s.len[0] <= 3 && s.len[1] >= 1 && s.len[1] <= 3);
        // one key, one sequence
        if key_of(&p[0]) == key_of(&p[1]) { kani::assume(s.len[0] == s.len[1]); }
        s
    }
    fn items(&self, v: V) -> Items {
        let n = if v == self.t.vals[0] { self.len[0] } else if v == self.t.vals[1] { self.len[1] } else { 1 };
        Items { v, i: 0, n }
    }
}
impl<const D: usize> Borrowable for Mw<D> { type Borrowed = Self; }
impl<'this, const D: usize> HibitTreeTypes<'this> for Mw<D> where ConstUsize<D>: ConstInteger {
    type Data = Items;
    type DataUnchecked = Items;
    type Cursor = MwCursor<'this, D>;
}
impl<const D: usize> HibitTree for Mw<D> where ConstUsize<D>: ConstInteger {
    const EXACT_HIERARCHY: bool = true;
    type LevelCount = ConstUsize<D>;
    type LevelMask = u64;
    unsafe fn data(&self, index: usize, li: &[usize]) -> Option<Items> { let d = self.t.data(index, li); d.map(|v| self.items(v)) }
    unsafe fn data_unchecked(&self, index: usize, li: &[usize]) -> Items { self.items(self.t.data_unchecked(index, li)) }
}
pub struct MwCursor<'a, const D: usize>(WtCursor<'a, D, true>);
impl<'this, 'src, const D: usize> HibitTreeCursorTypes<'this> for MwCursor<'src, D> { type Data = Items; }
impl<'src, const D: usize> HibitTreeCursor<'src> for MwCursor<'src, D> where ConstUsize<D>: ConstInteger {
    type Src = Mw<D>;
    fn new(s: &'src Mw<D>) -> Self { MwCursor(HibitTreeCursor::new(&s.t)) }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, s: &'src Mw<D>, n: N, i: usize) -> u64 { self.0.select_level_node(&s.t, n, i) }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, s: &'src Mw<D>, n: N, i: usize) -> u64 { self.0.select_level_node_unchecked(&s.t, n, i) }
    unsafe fn data<'a>(&'a self, s: &'src Mw<D>, i: usize) -> Option<Items> { self.0.data(&s.t, i).map(|v| s.items(v)) }
    unsafe fn data_unchecked<'a>(&'a self, s: &'src Mw<D>, i: usize) -> Items { s.items(self.0.data_unchecked(&s.t, i)) }
}
impl<'this, const D: usize> MultiHibitTreeTypes<'this> for Mw<D> where ConstUsize<D>: ConstInteger { type IterItem = V; }
impl<const D: usize> MultiHibitTree for Mw<D> where ConstUsize<D>: ConstInteger {}

/// order sensitive fold: a hash chain
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Acc(u32, u8);
fn init() -> Acc { Acc(0x1234_5678, 0) }
fn step(a: Acc, v: V) -> Acc { Acc(a.0.rotate_left(7) ^ v.0, a.1 + 1) }

macro_rules! folds { ($($name:ident $d:literal $start:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(6)]
    fn $name() {
        let p = any_paths::<$d>();
        let m = Mw::<$d>::any(p);
        let (len, t0) = (m.len, m.t);
        let t = &multi_map_fold(m, init, step);
        let model = |i: usize| t0.model(i).map(|v| {
            let mut a = init();
            let mut k = 1;
            while k <= 3 { if k <= len[i] { a = step(a, item(v, k)); } k += 1; }
            a
        });
        check_get!(t, p, model, |d| d, |d| d);
        check_cursor!(t, $d, 2, $start, p, model, |d| d);
    }
)* } }
folds! { fold_d1 1 0; fold_d2 2 1; fold_d3 3 2; }
#[kani::proof]
#[kani::unwind(6)]
fn fold_method() {
    let p = any_paths::<2>();
    let m = Mw::<2>::any([p[0], p[0]]);
    kani::assume(m.len[0] == 1);
    let k = key_of(&p[0]);
    let e = m.t.model(0).map(|v| step(init(), item(v, 1)));
    assert!(m.map_fold(init, step).get(k) == e, "map_fold folds");
}
