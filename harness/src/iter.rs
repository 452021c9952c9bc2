//! C05: iteration. The oracle tree is generated on demand: every node the iterator visits gets an
//! arbitrary mask, nodes on the watched path are remembered. Because an iterator's state is the
//! pair (position, not yet visited bits) and masks are arbitrary, the states after the first step
//! over all trees are all the states any iteration can be in; so "first step, step, step" is the
//! base case and the inductive step of: next() yields the next stored key in ascending order.
use core::marker::PhantomData;
use hibit_tree::const_utils::*;
use hibit_tree::utils::{Borrowable, LendingIterator};
use hibit_tree::*;

/// masks are kept as plain words (W = words per mask), not as SIMD values
type M = [u64; 4];
fn words<B: BitBlock>(m: &B) -> M {
    let mut r = [0; 4];
    let a = m.as_array().as_ref();
    r[0] = a[0];
    if B::SIZE > 64 { r[1] = a[1]; }
    if B::SIZE > 128 { r[2] = a[2]; r[3] = a[3]; }
    r
}
fn block<B: BitBlock>(m: &M) -> B {
    let mut b = B::zero();
    let a = b.as_array_mut().as_mut();
    a[0] = m[0];
    if B::SIZE > 64 { a[1] = m[1]; }
    if B::SIZE > 128 { a[2] = m[2]; a[3] = m[3]; }
    b
}
fn any_words<B: BitBlock>() -> M {
    let mut r = [0; 4];
    r[0] = kani::any();
    if B::SIZE > 64 { r[1] = kani::any(); }
    if B::SIZE > 128 { r[2] = kani::any(); r[3] = kani::any(); }
    r
}
fn log<B: BitBlock>() -> usize { match B::SIZE { 64 => 6, 128 => 7, 256 => 8, _ => unreachable!() } }
fn bit(m: &M, i: usize) -> bool { (m[(i / 64) & 3] >> (i % 64)) & 1 != 0 }

pub struct Gen<B: BitBlock, const D: usize, const EXACT: bool> {
    /// watched key, by level, and whether it is stored
    w: [usize; D],
    wmask: [M; D],
    ph: PhantomData<B>,
}

impl<B: BitBlock, const D: usize, const EXACT: bool> Gen<B, D, EXACT> {
    fn any() -> Self {
        let mut w = [0; D];
        let mut n = 0;
        while n < D { w[n] = kani::any(); kani::assume(w[n] < B::SIZE); n += 1; }
        let mut wmask = [[0; 4]; D];
        let mut n = 0;
        while n < D { wmask[n] = any_words::<B>(); n += 1; }
        let s = Gen { w, wmask, ph: PhantomData };
        if EXACT {
            let mut n = 1;
            while n < D { kani::assume(!zero(&s.wmask[n])); n += 1; }
        }
        s
    }
    fn key(&self) -> usize { let mut k = 0; let mut n = 0; while n < D { k = (k << log::<B>()) | self.w[n]; n += 1; } k }
    fn has(&self) -> bool { let mut r = true; let mut n = 0; while n < D { r = r && bit(&self.wmask[n], self.w[n]); n += 1; } r }
}
fn zero(m: &M) -> bool { (m[0] | m[1] | m[2] | m[3]) == 0 }

impl<B: BitBlock, const D: usize, const E: bool> Borrowable for Gen<B, D, E> { type Borrowed = Self; }
impl<'this, B: BitBlock, const D: usize, const E: bool> HibitTreeTypes<'this> for Gen<B, D, E>
where ConstUsize<D>: ConstInteger
{ type Data = usize; type DataUnchecked = usize; type Cursor = GenCursor<'this, B, D, E>; }
impl<B: BitBlock, const D: usize, const E: bool> HibitTree for Gen<B, D, E>
where ConstUsize<D>: ConstInteger
{
    const EXACT_HIERARCHY: bool = E;
    type LevelCount = ConstUsize<D>;
    type LevelMask = B;
    unsafe fn data(&self, _: usize, _: &[usize]) -> Option<usize> { unreachable!() }
    unsafe fn data_unchecked(&self, _: usize, _: &[usize]) -> usize { unreachable!() }
}
pub struct GenCursor<'a, B: BitBlock, const D: usize, const E: bool> {
    sel: usize,
    path: [usize; D],
    mask: [M; D],
    /// empty nodes shown so far (non exact hierarchies)
    empties: usize,
    ph: PhantomData<&'a Gen<B, D, E>>,
}
impl<'this, 'src, B: BitBlock, const D: usize, const E: bool> HibitTreeCursorTypes<'this> for GenCursor<'src, B, D, E> { type Data = usize; }
impl<'src, B: BitBlock, const D: usize, const E: bool> GenCursor<'src, B, D, E> {
    fn select(&mut self, src: &'src Gen<B, D, E>, n: usize, i: usize) -> B {
        assert!(n < D && self.sel >= n, "contract: levels are selected top to bottom");
        let mut on = true;
        if n == 0 { assert!(i == 0, "contract: the root level has one node"); }
        else {
            assert!(i < B::SIZE, "contract: in-node index in range");
            assert!(bit(&self.mask[n - 1], i), "contract: the selected node exists");
            self.path[n - 1] = i;
            let mut l = 0;
            while l < n { on = on && self.path[l] == src.w[l]; l += 1; }
        }
        self.sel = n + 1;
        let m = if on { src.wmask[n] } else { let m = any_words::<B>(); if E { kani::assume(!zero(&m)); } m };
        if n > 0 && zero(&m) { self.empties += 1; kani::assume(self.empties <= 1); }
        self.mask[n] = m;
        block(&m)
    }
}
impl<'src, B: BitBlock, const D: usize, const E: bool> HibitTreeCursor<'src> for GenCursor<'src, B, D, E>
where ConstUsize<D>: ConstInteger
{
    type Src = Gen<B, D, E>;
    fn new(_: &'src Self::Src) -> Self {
        GenCursor { sel: 0, path: [0; D], mask: [[0; 4]; D], empties: 0, ph: PhantomData }
    }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'src Self::Src, _: N, i: usize) -> B { self.select(src, N::VALUE, i) }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, _: N, i: usize) -> B { self.select(src, N::VALUE, i) }
    unsafe fn data<'a>(&'a self, src: &'src Self::Src, i: usize) -> Option<usize> { Some(self.data_unchecked(src, i)) }
    unsafe fn data_unchecked<'a>(&'a self, _: &'src Self::Src, i: usize) -> usize {
        assert!(self.sel == D, "contract: all levels selected before data access");
        assert!(i < B::SIZE, "contract: in-node index in range");
        assert!(bit(&self.mask[D - 1], i), "contract: data_unchecked requires the element to exist");
        let mut k = 0; let mut n = 0;
        while n < D { k = (k << log::<B>()) | (if n == D - 1 { i } else { self.path[n] }); n += 1; }
        k
    }
}

fn steps<B: BitBlock, const D: usize, const E: bool>(calls: usize)
where ConstUsize<D>: ConstInteger
{
    let t = Gen::<B, D, E>::any();
    let mut it = t.iter();
    let mut last: Option<usize> = None;
    let mut done = false;
    let mut c = 0;
    while c < calls {
        match LendingIterator::next(&mut it) {
            Some((k, v)) => {
                assert!(!done, "an exhausted iterator stays exhausted");
                assert!(k == v, "the yielded key is the key of the yielded value");
                if let Some(l) = last { assert!(l < k, "keys are strictly ascending"); }
                if t.has() {
                    let w = t.key();
                    assert!(!(w < k && match last { Some(l) => w > l, None => true }), "no stored key is skipped");
                } else {
                    assert!(k != t.key(), "only stored keys are yielded");
                }
                last = Some(k);
            }
            None => {
                if t.has() {
                    assert!(match last { Some(l) => t.key() <= l, None => false }, "no stored key is left out at the end");
                }
                done = true;
            }
        }
        c += 1;
    }
    kani::cover!(t.has() && last.is_some() && last != Some(t.key()), "reachable");
}
macro_rules! h { ($($n:ident $b:ty, $d:literal, $e:literal, $c:literal, $u:literal;)*) => { $(
    #[kani::proof] #[kani::unwind($u)] fn $n() { steps::<$b, $d, $e>($c) }
)* } }
h! {
    iter_d1 u64, 1, true, 3, 5;
    iter_d2 u64, 2, true, 2, 4;
    iter_d3 u64, 3, true, 2, 5;
    iter_d4 u64, 4, true, 2, 6;
    iter_d2_nonexact u64, 2, false, 2, 5;
    iter_d3_nonexact u64, 3, false, 2, 6;
    iter_w128 wide::u64x2, 2, true, 2, 5;
    iter_w256 wide::u64x4, 2, true, 2, 5;
}
