use crate::watched::*;
use crate::{check_cursor, check_get};
use hibit_tree::*;
use hibit_tree::const_utils::*;

pub const S: usize = 3;
/// what a multi-operation yields at one key, in order.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Seq { n: usize, v: [Option<V>; S] }

fn empty() -> Seq { Seq { n: 0, v: [None; S] } }
fn push(mut s: Seq, v: V) -> Seq { assert!(s.n < S, "no more items than sources"); s.v[s.n] = Some(v); s.n += 1; s }

/// consume a data iterator by repeated next() or by fold(), both must agree with the specification.
fn collect<const FOLD: bool, I: Iterator<Item = V>>(mut i: I) -> Seq {
    let (lo, hi) = i.size_hint();
    let s = if !FOLD {
        let mut s = empty();
        while let Some(v) = i.next() { s = push(s, v); }
        s
    } else {
        i.fold(empty(), push)
    };
    assert!(lo <= s.n, "size_hint lower bound holds");
    if let Some(hi) = hi { assert!(s.n <= hi, "size_hint upper bound holds"); }
    s
}

/// index-based source iterator (the operations are generic over the iterator they are given)
#[derive(Clone)]
pub struct Src<'a, T> { a: &'a [T; S], i: usize, n: usize }
impl<'a, T> Iterator for Src<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.i < self.n { self.i += 1; Some(&self.a[self.i - 1]) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
macro_rules! for_depths { ($($name:ident $d:literal $e:literal $n:literal $mode:literal $start:literal $fold:literal;)*) => { $(
    mod $name {
        use super::*;
        type A = Wt<$d, $e>;
        fn paths() -> [[usize; $d]; 2] {
            let p = any_paths::<$d>();
            if $start == 9 { [p[0], p[0]] } else { p }
        }
        fn sources(p: [[usize; $d]; 2]) -> ([A; S], usize) {
            let n: usize = $n;
            ([A::any(1, p), A::any(2, p), A::any(3, p)], n)
        }
        #[kani::proof]
        #[kani::unwind(4)]
        fn multi_intersection_contract() {
            let p = paths();
            let (src, n) = sources(p);
            let t = &multi_intersection(Src { a: &src, i: 0, n });
            let model = |w: usize| {
                let mut s = empty();
                let mut i = 0;
                while i < n { match src[i].model(w) { Some(v) => s = push(s, v), None => return None }; i += 1; }
                Some(s)
            };
            check_cursor!(t, $d, $mode, $start, p, model, collect::<$fold, _>);
        }
        #[kani::proof]
        #[kani::solver(kissat)]
        #[kani::unwind(4)]
        fn multi_union_contract() {
            let p = paths();
            let (src, n) = sources(p);
            let t = &multi_union(Src { a: &src, i: 0, n });
            let model = |w: usize| {
                let mut s = empty();
                let mut i = 0;
                while i < n { if let Some(v) = src[i].model(w) { s = push(s, v) }; i += 1; }
                if s.n == 0 { None } else { Some(s) }
            };
            check_cursor!(t, $d, $mode, $start, p, model, collect::<$fold, _>);
        }
    }
)* } }
for_depths! {
    d1n2 1 true 2 2 0 false;
    d2n1 2 true 1 2 1 false;
    d2n2c 2 true 2 0 9 false;
    d2n2u 2 true 2 1 9 true;
    d2n2cr0 2 true 2 0 0 false;
    d2n2cr1 2 true 2 0 1 false;
    d3n2c 3 true 2 0 9 false;
    d3n2u 3 true 2 1 9 true;
    d3n2cr1 3 true 2 0 1 false;
    d3n2mr1 3 true 2 2 1 false;
    d3n2lr1 3 true 2 3 1 false;
    d3n1lr1 3 true 1 3 1 false;
    d3n1mr1 3 true 1 2 1 true;
    d3n1lr2 3 true 1 3 2 true;
}

macro_rules! gets { ($($name:ident $d:literal $n:literal $fold:literal;)*) => { $(
    mod $name {
        use super::*;
        type A = Wt<$d, true>;
        #[kani::proof]
        #[kani::unwind(5)]
        fn multi_intersection_get() {
            let p = any_paths::<$d>();
            let (p, n) = ([p[0], p[0]], $n);
            let src = [A::any(1, p), A::any(2, p), A::any(3, p)];
            let t = &multi_intersection(Src { a: &src, i: 0, n });
            let model = |w: usize| {
                let mut s = empty();
                let mut i = 0;
                while i < n { match src[i].model(w) { Some(v) => s = push(s, v), None => return None }; i += 1; }
                if n == 0 { None } else { Some(s) }
            };
            let k = key_of(&p[0]);
            let e = model(0);
            let g = t.get(k).map(collect::<$fold, _>);
            assert!(g == e, "get(key) is the specified sequence");
            if e.is_some() {
                let g = unsafe { t.get_unchecked(k) };
                assert!(collect::<$fold, _>(g) == e.unwrap(), "get_unchecked(key) is the specified sequence");
            }
        }
        #[kani::proof]
        #[kani::unwind(5)]
        fn multi_union_get() {
            let p = any_paths::<$d>();
            let (p, n) = ([p[0], p[0]], $n);
            let src = [A::any(1, p), A::any(2, p), A::any(3, p)];
            let t = &multi_union(Src { a: &src, i: 0, n });
            let model = |w: usize| {
                let mut s = empty();
                let mut i = 0;
                while i < n { if let Some(v) = src[i].model(w) { s = push(s, v) }; i += 1; }
                if s.n == 0 { None } else { Some(s) }
            };
            let k = key_of(&p[0]);
            let e = model(0);
            let g = t.get(k).map(collect::<$fold, _>);
            assert!(g == e, "get(key) is the specified sequence");
            if e.is_some() {
                let g = unsafe { t.get_unchecked(k) };
                assert!(collect::<$fold, _>(g) == e.unwrap(), "get_unchecked(key) is the specified sequence");
            }
        }
    }
)* } }
gets! {
    g2n0 2 0 false;
    g2n1 2 1 true;
    g2n2 2 2 false;
    g2n3 2 3 false;
    g2n3f 2 3 true;
    g3n2 3 2 true;
    g1n2 1 2 true;
}
macro_rules! empties { ($($name:ident $d:literal;)*) => { $(
    /// an empty list is an empty tree
    #[kani::proof]
    #[kani::unwind(5)]
    fn $name() {
        fn cursor<'a, T: HibitTree>(t: &'a T) -> <T as HibitTreeTypes<'a>>::Cursor { HibitTreeCursor::new(t) }
        let p = any_paths::<$d>();
        let src = [Wt::<$d, true>::any(1, p), Wt::<$d, true>::any(2, p), Wt::<$d, true>::any(3, p)];
        let i = multi_intersection(Src { a: &src, i: 0, n: 0 });
        let u = multi_union(Src { a: &src, i: 0, n: 0 });
        let (mut ci, mut cu) = (cursor(&i), cursor(&u));
        unsafe {
            assert!(ci.select_level_node(&i, ConstUsize::<0>, 0) == 0, "an empty intersection is empty");
            assert!(cu.select_level_node(&u, ConstUsize::<0>, 0) == 0, "an empty union is empty");
        }
        let (mut ii, mut iu) = (i.iter(), u.iter());
        assert!(hibit_tree::utils::LendingIterator::next(&mut ii).is_none(), "an empty intersection iterates nothing");
        assert!(hibit_tree::utils::LendingIterator::next(&mut iu).is_none(), "an empty union iterates nothing");
    }
)* } }
empties! { empty_d1 1; empty_d2 2; }
