//! C11: key range and decomposition, every provided width and every depth.
use core::cell::Cell;
use core::marker::PhantomData;
use hibit_tree::const_utils::*;
use hibit_tree::utils::Borrowable;
use hibit_tree::*;

/// a tree that only records how it is asked
pub struct Probe<B, const D: usize>(Cell<usize>, PhantomData<B>);
pub struct NoCursor<B, const D: usize>(PhantomData<B>);
impl<B: BitBlock, const D: usize> Borrowable for Probe<B, D> { type Borrowed = Self; }
impl<'this, B: BitBlock, const D: usize> HibitTreeTypes<'this> for Probe<B, D> where ConstUsize<D>: ConstInteger {
    type Data = (); type DataUnchecked = (); type Cursor = NoCursor<B, D>;
}
impl<B: BitBlock, const D: usize> Probe<B, D> {
    fn asked(&self, index: usize, li: &[usize]) {
        self.0.set(self.0.get() + 1);
        assert!(li.len() == D, "one position per level");
        let log = if B::SIZE == 64 { 6 } else if B::SIZE == 128 { 7 } else { 8 };
        assert!(1usize << log == B::SIZE);
        // big-endian positional decomposition: injective, and path order is key order
        let mut k: u128 = 0;
        let mut n = 0;
        while n < D {
            assert!(li[n] < B::SIZE, "every position is inside its node");
            k = (k << log) | li[n] as u128;
            n += 1;
        }
        assert!(k == index as u128, "the path is the positional decomposition of the key");
    }
}
impl<B: BitBlock, const D: usize> HibitTree for Probe<B, D> where ConstUsize<D>: ConstInteger {
    const EXACT_HIERARCHY: bool = true;
    type LevelCount = ConstUsize<D>;
    type LevelMask = B;
    unsafe fn data(&self, index: usize, li: &[usize]) -> Option<()> { self.asked(index, li); Some(()) }
    unsafe fn data_unchecked(&self, index: usize, li: &[usize]) { self.asked(index, li); }
}
impl<'this, B: BitBlock, const D: usize> HibitTreeCursorTypes<'this> for NoCursor<B, D> { type Data = (); }
impl<'src, B: BitBlock, const D: usize> HibitTreeCursor<'src> for NoCursor<B, D> where ConstUsize<D>: ConstInteger {
    type Src = Probe<B, D>;
    fn new(_: &'src Self::Src) -> Self { NoCursor(PhantomData) }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, _: &'src Self::Src, _: N, _: usize) -> B { unreachable!() }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, _: &'src Self::Src, _: N, _: usize) -> B { unreachable!() }
    unsafe fn data<'a>(&'a self, _: &'src Self::Src, _: usize) -> Option<()> { unreachable!() }
    unsafe fn data_unchecked<'a>(&'a self, _: &'src Self::Src, _: usize) { unreachable!() }
}
fn range<B: BitBlock, const D: usize>() -> usize {
    let mut r: u128 = 1;
    let mut n = 0;
    while n < D { r *= B::SIZE as u128; n += 1; }
    if r > usize::MAX as u128 { usize::MAX } else { r as usize }
}
fn accept<B: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let t = Probe::<B, D>(Cell::new(0), PhantomData);
    let r = range::<B, D>();
    assert!(<Probe<B, D> as HibitTree>::index_range().end == r, "the advertised range is the number of paths (saturating)");
    let k: usize = kani::any();
    kani::assume(k < r);
    assert!(t.get(k).is_some() && t.0.get() == 1, "a key in range is looked up once");
    let i: Index<B, ConstUsize<D>> = Index::from(k);
    assert!(usize::from(i) == k && usize::from(i.clone()) == k, "an index keeps its key");
    let i: Index<B, ConstUsize<D>> = unsafe { Index::new_unchecked(k) };
    assert!(usize::from(i) == k, "an unchecked index keeps its key");
    t.get(i);
    unsafe { t.get_unchecked(k) };
    assert!(t.0.get() == 3, "get_unchecked looks up once");
    kani::cover!(true, "reachable");
}
/// only checks named "VP:" count here: the rejection itself is a panic
fn reject<B: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let t = Probe::<B, D>(Cell::new(0), PhantomData);
    let k: usize = kani::any();
    kani::assume(k >= range::<B, D>());
    if kani::any() {
        let i: Index<B, ConstUsize<D>> = Index::from(k);
        assert!(false, "VP: a key outside the range became an index");
    } else {
        t.get(k);
        assert!(false, "VP: a key outside the range was looked up");
    }
}
macro_rules! w { ($($m:ident $b:ty: $($d:literal)*;)*) => { $( pub mod $m {
    use super::*;
    #[kani::proof] #[kani::unwind(11)] fn in_range() { $( accept::<$b, $d>(); )* }
    #[kani::proof] #[kani::unwind(11)] fn out_of_range() { let c: usize = kani::any(); $( if c == $d { reject::<$b, $d>(); } )* }
} )* } }
w! {
    w64 u64: 1 2 3 4 5 6 7 8 9;
    w128 wide::u64x2: 1 2 3 4 5 6 7 8 9;
    w256 wide::u64x4: 1 2 3 4 5 6 7 8;
}
