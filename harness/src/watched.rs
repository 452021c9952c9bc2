//! Contract oracle at the real node width: the most general tree, seen along watched key paths.
//!
//! A `Wt` stands for *any* tree of depth D with 64-bit node masks. Only what lies on the watched
//! paths is materialized (arbitrary masks, consistent where paths share a prefix); everything else
//! is arbitrary and forgotten. The oracle enforces the documented preconditions of the tree and
//! cursor interface on its caller and returns exactly what the interface promises, so an operation
//! verified over `Wt` sources is verified against its callees' contract, for every key of the
//! 64^D key space and every tree content.
use core::marker::PhantomData;
use hibit_tree::const_utils::*;
use hibit_tree::utils::Borrowable;
use hibit_tree::*;

pub const P: usize = 2;

/// value stored in source `id` at `key`
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct V(pub u32);
/// source id and key (depth <= 4, so keys have at most 24 bits)
pub fn val(id: u8, key: usize) -> V { V(((id as u32) << 24) | key as u32) }

#[derive(Clone, Copy)]
pub struct Wt<const D: usize, const EXACT: bool> {
    pub id: u8,
    pub paths: [[usize; D]; P],
    /// masks[p][n]: mask of the level-n node on path p.
    pub masks: [[u64; D]; P],
    /// has[p][n]: bit of masks[p][n] that leads along path p.
    pub has: [[bool; D]; P],
    pub vals: [V; P],
}

fn same<const D: usize>(a: &[usize; D], b: &[usize; D]) -> bool {
    let mut eq = true;
    let mut n = 0;
    while n < D { eq = eq && a[n] == b[n]; n += 1; }
    eq
}
#[inline] fn bit(m: u64, i: usize) -> bool { (m >> i) & 1 != 0 }

pub fn any_paths<const D: usize>() -> [[usize; D]; P] {
    let mut p = [[0; D]; P];
    let mut a = 0;
    while a < P {
        let mut n = 0;
        while n < D { p[a][n] = kani::any(); kani::assume(p[a][n] < 64); n += 1; }
        a += 1;
    }
    p
}
pub fn key_of<const D: usize>(p: &[usize; D]) -> usize {
    let mut k = 0;
    let mut n = 0;
    while n < D { k = (k << 6) | p[n]; n += 1; }
    k
}

impl<const D: usize, const EXACT: bool> Wt<D, EXACT> {
    pub fn any(id: u8, paths: [[usize; D]; P]) -> Self {
        let mut s = Wt { id, paths, masks: [[0; D]; P], has: [[false; D]; P], vals: [V(0); P] };
        let mut a = 0;
        while a < P {
            let mut n = 0;
            while n < D {
                s.masks[a][n] = kani::any();
                s.has[a][n] = bit(s.masks[a][n], paths[a][n]);
                n += 1;
            }
            s.vals[a] = val(id, key_of(&paths[a]));
            // absent nodes are empty
            let mut n = 1;
            while n < D {
                if !s.present(a, n) { kani::assume(s.masks[a][n] == 0); }
                else if EXACT { kani::assume(s.masks[a][n] != 0); }
                n += 1;
            }
            a += 1;
        }
        // shared nodes have the same mask
        let mut shared = true;
        let mut n = 0;
        while n < D {
            if shared { kani::assume(s.masks[0][n] == s.masks[1][n]); }
            shared = shared && paths[0][n] == paths[1][n];
            n += 1;
        }
        s
    }
    /// is the level-n node of watched path a present?
    pub fn present(&self, a: usize, n: usize) -> bool {
        let mut ok = true;
        let mut l = 0;
        while l < n { ok = ok && self.has[a][l]; l += 1; }
        ok
    }
    pub fn model(&self, a: usize) -> Option<V> {
        if self.present(a, D) { Some(self.vals[a]) } else { None }
    }
}

impl<const D: usize, const EXACT: bool> Borrowable for Wt<D, EXACT> { type Borrowed = Self; }

impl<'this, const D: usize, const EXACT: bool> HibitTreeTypes<'this> for Wt<D, EXACT>
where ConstUsize<D>: ConstInteger
{
    type Data = V;
    type DataUnchecked = V;
    type Cursor = WtCursor<'this, D, EXACT>;
}

impl<const D: usize, const EXACT: bool> HibitTree for Wt<D, EXACT>
where ConstUsize<D>: ConstInteger
{
    const EXACT_HIERARCHY: bool = EXACT;
    type LevelCount = ConstUsize<D>;
    type LevelMask = u64;

    unsafe fn data(&self, index: usize, li: &[usize]) -> Option<V> {
        assert!(li.len() == D, "contract: level_indices has LevelCount elements");
        let mut p = [0; D];
        let mut n = 0;
        while n < D { p[n] = li[n]; assert!(p[n] < 64, "contract: level index in range"); n += 1; }
        assert!(key_of(&p) == index, "contract: level_indices correspond to index");
        if same(&p, &self.paths[0]) { self.model(0) }
        else if same(&p, &self.paths[1]) { self.model(1) }
        else { if kani::any() { Some(V(kani::any())) } else { None } }
    }
    unsafe fn data_unchecked(&self, index: usize, li: &[usize]) -> V {
        let v = self.data(index, li);
        assert!(v.is_some(), "contract: data_unchecked requires the element to exist");
        v.unwrap()
    }
}

/// Cursor state: levels selected (bits 0..4), which watched paths the selected prefix lies on
/// (bits 4, 5) and whether the selected node is present (bit 6).
pub struct WtCursor<'a, const D: usize, const EXACT: bool> {
    st: [u8; 4],
    ph: PhantomData<&'a Wt<D, EXACT>>,
}

impl<'this, 'src, const D: usize, const EXACT: bool> HibitTreeCursorTypes<'this> for WtCursor<'src, D, EXACT> {
    type Data = V;
}

const ON0: u8 = 1; const ON1: u8 = 2; const PRESENT: u8 = 4; const SEL: u8 = 8;

impl<'src, const D: usize, const EXACT: bool> WtCursor<'src, D, EXACT> {
    fn select(&mut self, src: &'src Wt<D, EXACT>, n: usize, i: usize) -> u64 {
        assert!(n < D, "contract: level in range");
        let st = if n == 0 {
            assert!(i == 0, "contract: the root level has one node");
            SEL | ON0 | ON1 | PRESENT
        } else {
            assert!(i < 64, "contract: in-node index in range");
            let up = self.st[n - 1];
            assert!(up & SEL != 0, "contract: levels are selected top to bottom");
            // node n is child i of the selected node n-1
            let mut st = SEL;
            if up & ON0 != 0 && src.paths[0][n - 1] == i { st |= ON0; }
            if up & ON1 != 0 && src.paths[1][n - 1] == i { st |= ON1; }
            let has = if st & ON0 != 0 { src.has[0][n - 1] }
                else if st & ON1 != 0 { src.has[1][n - 1] }
                else { kani::any() };
            if up & PRESENT != 0 && has { st |= PRESENT; }
            st
        };
        self.st[n] = st;
        // levels below are no longer selected
        let mut l = 0;
        if n < 1 { self.st[1] = 0; } if n < 2 { self.st[2] = 0; } if n < 3 { self.st[3] = 0; }
        if st & PRESENT == 0 { 0 }
        else if st & ON0 != 0 { src.masks[0][n] }
        else if st & ON1 != 0 { src.masks[1][n] }
        else { let m: u64 = kani::any(); if EXACT { kani::assume(m != 0); } m }
    }
    fn elem(&self, src: &'src Wt<D, EXACT>, i: usize) -> Option<V> {
        let st = self.st[D - 1];
        assert!(st & SEL != 0, "contract: all levels selected before data access");
        assert!(i < 64, "contract: in-node index in range");
        if st & PRESENT == 0 { None }
        else if st & ON0 != 0 && src.paths[0][D - 1] == i { src.model(0) }
        else if st & ON1 != 0 && src.paths[1][D - 1] == i { src.model(1) }
        else if kani::any() { Some(V(kani::any())) } else { None }
    }
}

impl<'src, const D: usize, const EXACT: bool> HibitTreeCursor<'src> for WtCursor<'src, D, EXACT>
where ConstUsize<D>: ConstInteger
{
    type Src = Wt<D, EXACT>;
    fn new(_: &'src Self::Src) -> Self {
        WtCursor { st: [0; 4], ph: PhantomData }
    }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'src Self::Src, _: N, i: usize) -> u64 {
        self.select(src, N::VALUE, i)
    }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, _: N, i: usize) -> u64 {
        let m = self.select(src, N::VALUE, i);
        assert!(self.st[N::VALUE] & PRESENT != 0, "contract: select_level_node_unchecked requires the node to exist");
        m
    }
    unsafe fn data<'a>(&'a self, src: &'src Self::Src, i: usize) -> Option<V> {
        self.elem(src, i)
    }
    unsafe fn data_unchecked<'a>(&'a self, src: &'src Self::Src, i: usize) -> V {
        let e = self.elem(src, i);
        assert!(e.is_some(), "contract: data_unchecked requires the element to exist");
        e.unwrap()
    }
}
impl<const D: usize, const EXACT: bool> LazyHibitTree for Wt<D, EXACT> where ConstUsize<D>: ConstInteger {}

/// Random-access half of the tree contract: `get` and `get_unchecked` at an arbitrary key.
#[macro_export]
macro_rules! check_get {
    ($t:expr, $p:expr, $model:expr, $conv:expr, $convu:expr) => {{
        let t = $t;
        let k = $crate::watched::key_of(&$p[0]);
        let e = $model(0usize);
        let g = t.get(k).map($conv);
        assert!(g == e, "get(key) is the specified value");
        if e.is_some() {
            let g = unsafe { t.get_unchecked(k) };
            assert!($convu(g) == e.unwrap(), "get_unchecked(key) is the specified value");
        }
        kani::cover!(e.is_some(), "reachable");
    }};
}

/// Cursor half of the tree contract: walk to an arbitrary key, then re-select from level `$start`
/// towards another arbitrary key. `$mode`: 0 - checked access, 1 - unchecked wherever the node
/// was advertised, 2 - any mixture. `$start` 9: one walk only.
#[macro_export]
macro_rules! check_cursor {
    ($t:expr, $d:literal, $mode:expr, $start:literal, $p:expr, $model:expr, $convc:expr) => {{
        fn exact<T: HibitTree>(_: &T) -> bool { T::EXACT_HIERARCHY }
        fn cursor<'a, T: HibitTree>(t: &'a T) -> <T as HibitTreeTypes<'a>>::Cursor { HibitTreeCursor::new(t) }
        let t = $t;
        let p: [[usize; $d]; 2] = $p;
        let mut c = cursor(t);
        let mut present = [false; $d];
        let mut mask = [0u64; $d];
        // node at level n is chosen by path[n-1]: walks that restart at level s share the first s-1 components.
        { let mut i = 0; while i + 1 < $start && $start < 9 { kani::assume(p[0][i] == p[1][i]); i += 1; } }
        macro_rules! lvl { ($a:literal $n:literal $e:expr) => {
            if $n < $d && ($a == 0 || $n >= $start) {
                let q = if $n == 0 { 0 } else { $n - 1 };
                let idx = if $n == 0 { 0 } else { p[$a][q] };
                present[$n] = if $n == 0 { true } else { present[q] && (mask[q] >> idx) & 1 != 0 };
                let unchecked: bool = if $mode == 0 || $mode == 3 { false } else if $mode == 1 { true } else { kani::any() };
                let m: u64 = unsafe {
                    if unchecked && present[$n] {
                        c.select_level_node_unchecked(t, ConstUsize::<$n>, idx)
                    } else {
                        c.select_level_node(t, ConstUsize::<$n>, idx)
                    }
                };
                mask[$n] = m;
                if !present[$n] { assert!(m == 0, "an absent node has an empty mask"); }
                if exact(t) && present[$n] && $n > 0 { assert!(m != 0, "exact hierarchy has no empty node"); }
                if $e.is_some() { assert!((m >> p[$a][$n]) & 1 != 0, "every node above a stored element advertises it"); }
            }
        }}
        macro_rules! walk { ($a:literal) => {{
            let e = $model($a);
            lvl!($a 0 e); lvl!($a 1 e); lvl!($a 2 e); lvl!($a 3 e);
            let last = p[$a][$d - 1];
            assert!(((mask[$d - 1] >> last) & 1 != 0) == e.is_some(), "terminal mask bits are exactly the stored elements");
            unsafe {
                if $mode != 1 {
                    let g = c.data(t, last).map($convc);
                    assert!(g == e, "cursor data is the specified value");
                }
                if $mode != 0 && $mode != 3 && e.is_some() {
                    let g = $convc(c.data_unchecked(t, last));
                    assert!(g == e.unwrap(), "cursor data_unchecked is the specified value");
                }
            }
        }}}
        if $mode == 3 {
            // select-only first walk, then a full check of the second one
            lvl!(0 0 $model(0usize)); lvl!(0 1 $model(0usize)); lvl!(0 2 $model(0usize)); lvl!(0 3 $model(0usize));
        } else { walk!(0); }
        if $start < 9 { walk!(1); }
    }};
}
