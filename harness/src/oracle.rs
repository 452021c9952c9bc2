//! Contract oracles: most-general trees that a verified operation may be handed.
//!
//! `Nd` is an arbitrary tree (every node mask nondeterministic) that *enforces* the documented
//! preconditions of the tree / cursor interface on its caller, and returns exactly what the
//! interface promises. Verifying an operation over `Nd` sources is verifying it against the
//! callee's contract rather than against any particular container.
use crate::mask::M;
use hibit_tree::const_utils::*;
use hibit_tree::utils::Borrowable;
use hibit_tree::*;
use core::marker::PhantomData;

/// L: log2 of node width. D: depth. EXACT: hierarchy has no false-positive bits.
/// width^(depth-1) must be <= 4.
#[derive(Clone, Copy)]
pub struct Nd<const L: usize, const D: usize, const EXACT: bool> {
    pub id: u32,
    /// masks[n][path] - mask of the node at level n with path index `path`.
    pub masks: [[u64; 4]; 3],
}

pub const fn width<const L: usize>() -> usize { 1 << L }
pub const fn range<const L: usize, const D: usize>() -> usize { 1 << (L * D) }

impl<const L: usize, const D: usize, const EXACT: bool> Nd<L, D, EXACT> {
    pub const W: usize = 1 << L;
    pub const RANGE: usize = 1 << (L * D);

    #[cfg(kani)]
    pub fn any(id: u32) -> Self {
        let mut s = Nd { id, masks: [[0; 4]; 3] };
        let full: u64 = (1u64 << (1 << L)) - 1;
        let mut n = 0;
        while n < D {
            let nodes = 1 << (L * n);
            let mut p = 0;
            while p < nodes {
                let m: u64 = kani::any();
                kani::assume(m & !full == 0);
                s.masks[n][p] = m;
                p += 1;
            }
            n += 1;
        }
        // masks of absent nodes are empty; exact hierarchies have no empty present node.
        let mut n = 1;
        while n < D {
            let nodes = 1 << (L * n);
            let mut p = 0;
            while p < nodes {
                let present = (s.masks[n - 1][p >> L] >> (p & (Self::W - 1))) & 1 != 0;
                if !present { kani::assume(s.masks[n][p] == 0); }
                if EXACT && present { kani::assume(s.masks[n][p] != 0); }
                p += 1;
            }
            n += 1;
        }
        s
    }

    /// Is `key` stored?
    pub fn has(&self, key: usize) -> bool {
        (self.masks[D - 1][key >> L] >> (key & (Self::W - 1))) & 1 != 0
    }
    /// Is node at level n (path index p) present?
    pub fn node_present(&self, n: usize, p: usize) -> bool {
        n == 0 || (self.masks[n - 1][p >> L] >> (p & (Self::W - 1))) & 1 != 0
    }
    pub fn value(&self, key: usize) -> u32 { (self.id << 8) | key as u32 }
    pub fn model(&self, key: usize) -> Option<u32> { if self.has(key) { Some(self.value(key)) } else { None } }
    pub fn count(&self) -> usize {
        let mut c = 0;
        let mut k = 0;
        while k < Self::RANGE { if self.has(k) { c += 1 } k += 1; }
        c
    }
}

pub struct NdCursor<'a, const L: usize, const D: usize, const EXACT: bool> {
    /// how many levels are selected
    sel: usize,
    path: [usize; 3],
    present: [bool; 3],
    ph: PhantomData<&'a Nd<L, D, EXACT>>,
}

impl<const L: usize, const D: usize, const EXACT: bool> Borrowable for Nd<L, D, EXACT> { type Borrowed = Self; }

impl<'this, const L: usize, const D: usize, const EXACT: bool> HibitTreeTypes<'this> for Nd<L, D, EXACT>
where ConstUsize<D>: ConstInteger
{
    type Data = u32;
    type DataUnchecked = u32;
    type Cursor = NdCursor<'this, L, D, EXACT>;
}

pub fn key_of<const L: usize, const D: usize>(li: &[usize]) -> usize {
    let mut k = 0;
    let mut n = 0;
    while n < D { k = (k << L) | li[n]; n += 1; }
    k
}

impl<const L: usize, const D: usize, const EXACT: bool> HibitTree for Nd<L, D, EXACT>
where ConstUsize<D>: ConstInteger
{
    const EXACT_HIERARCHY: bool = EXACT;
    type LevelCount = ConstUsize<D>;
    type LevelMask = M<L>;

    unsafe fn data(&self, index: usize, li: &[usize]) -> Option<u32> {
        assert!(li.len() == D, "contract: level_indices has LevelCount elements");
        assert!(index < Self::RANGE, "contract: index is in range");
        assert!(key_of::<L, D>(li) == index, "contract: level_indices correspond to index");
        self.model(index)
    }
    unsafe fn data_unchecked(&self, index: usize, li: &[usize]) -> u32 {
        assert!(li.len() == D, "contract: level_indices has LevelCount elements");
        assert!(index < Self::RANGE, "contract: index is in range");
        assert!(key_of::<L, D>(li) == index, "contract: level_indices correspond to index");
        assert!(self.has(index), "contract: data_unchecked requires the element to exist");
        self.value(index)
    }
}

impl<'this, 'src, const L: usize, const D: usize, const EXACT: bool> HibitTreeCursorTypes<'this> for NdCursor<'src, L, D, EXACT> {
    type Data = u32;
}

impl<'src, const L: usize, const D: usize, const EXACT: bool> NdCursor<'src, L, D, EXACT>
where ConstUsize<D>: ConstInteger
{
    fn select(&mut self, src: &'src Nd<L, D, EXACT>, n: usize, i: usize) -> u64 {
        assert!(n < D, "contract: level in range");
        assert!(self.sel >= n, "contract: levels are selected top to bottom");
        if n == 0 {
            assert!(i == 0, "contract: root level has one node");
            self.path[0] = 0;
            self.present[0] = true;
        } else {
            assert!(i < (1 << L), "contract: in-node index in range");
            self.path[n] = (self.path[n - 1] << L) | i;
            self.present[n] = self.present[n - 1] && src.node_present(n, self.path[n]);
        }
        self.sel = n + 1;
        if self.present[n] { src.masks[n][self.path[n]] } else { 0 }
    }
}

impl<'src, const L: usize, const D: usize, const EXACT: bool> HibitTreeCursor<'src> for NdCursor<'src, L, D, EXACT>
where ConstUsize<D>: ConstInteger
{
    type Src = Nd<L, D, EXACT>;
    fn new(_: &'src Self::Src) -> Self { NdCursor { sel: 0, path: [0; 3], present: [false; 3], ph: PhantomData } }

    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'src Self::Src, _: N, level_index: usize) -> M<L> {
        M([self.select(src, N::VALUE, level_index)])
    }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, _: N, level_index: usize) -> M<L> {
        let m = self.select(src, N::VALUE, level_index);
        assert!(self.present[N::VALUE], "contract: select_level_node_unchecked requires the node to exist");
        M([m])
    }
    unsafe fn data<'a>(&'a self, src: &'src Self::Src, i: usize) -> Option<u32> {
        assert!(self.sel == D, "contract: all levels selected before data access");
        assert!(i < (1 << L), "contract: in-node index in range");
        if !self.present[D - 1] { return None; }
        src.model((self.path[D - 1] << L) | i)
    }
    unsafe fn data_unchecked<'a>(&'a self, src: &'src Self::Src, i: usize) -> u32 {
        assert!(self.sel == D, "contract: all levels selected before data access");
        assert!(i < (1 << L), "contract: in-node index in range");
        assert!(self.present[D - 1], "contract: data_unchecked requires the node to exist");
        let k = (self.path[D - 1] << L) | i;
        assert!(src.has(k), "contract: data_unchecked requires the element to exist");
        src.value(k)
    }
}
impl<const L: usize, const D: usize, const EXACT: bool> LazyHibitTree for Nd<L, D, EXACT> where ConstUsize<D>: ConstInteger {}
