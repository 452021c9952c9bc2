//! C15: compile-time loops and types.
use core::ops::ControlFlow;
use hibit_tree::const_utils::*;
use hibit_tree::utils::Array;

/// records the visited indices and stops at a nondeterministic point
struct Rec<'a> { seen: &'a mut [usize; 10], n: &'a mut usize, stop_at: usize }
impl<'a> ConstIntVisitor for Rec<'a> {
    type Out = usize;
    fn visit<I: ConstInteger>(&mut self, i: I) -> ControlFlow<usize> {
        assert!(i.value() == I::VALUE, "the index value is its type's");
        assert!(*self.n < 10, "no more visits than indices");
        self.seen[*self.n] = I::VALUE;
        *self.n += 1;
        if I::VALUE == self.stop_at { ControlFlow::Break(I::VALUE) } else { ControlFlow::Continue(()) }
    }
}
fn run<const F: usize, const T: usize>()
where ConstUsize<F>: ConstInteger, ConstUsize<T>: ConstInteger {
    let len = if T > F { T - F } else { 0 };
    let rev: bool = kani::any();
    let stop_at: usize = kani::any();
    let (mut seen, mut n) = ([usize::MAX; 10], 0);
    let v = Rec { seen: &mut seen, n: &mut n, stop_at };
    let r = if rev { const_for_rev(ConstUsize::<F>, ConstUsize::<T>, v) } else { const_for(ConstUsize::<F>, ConstUsize::<T>, v) };
    let stops = stop_at >= F && stop_at < T;
    let expect = if !stops { len } else if rev { T - stop_at } else { stop_at - F + 1 };
    assert!(n == expect, "exactly the indices of the range are visited, up to the stop");
    let mut i = 0;
    while i < 10 {
        if i < n { assert!(seen[i] == if rev { T - 1 - i } else { F + i }, "in the announced order"); }
        i += 1;
    }
    match r {
        ControlFlow::Break(x) => assert!(stops && x == stop_at, "a break is passed on"),
        ControlFlow::Continue(()) => assert!(!stops, "a finished loop continues"),
    }
}
macro_rules! from { ($($n:ident $f:literal)*) => { $(
    #[kani::proof] #[kani::unwind(11)] fn $n() {
        run::<$f, 0>(); run::<$f, 1>(); run::<$f, 2>(); run::<$f, 3>(); run::<$f, 4>();
        run::<$f, 5>(); run::<$f, 6>(); run::<$f, 7>(); run::<$f, 8>(); run::<$f, 9>();
    }
)* } }
from! { for_from0 0 for_from1 1 for_from2 2 for_from3 3 for_from4 4 for_from5 5 for_from6 6 for_from7 7 for_from8 8 for_from9 9 }

fn int<const N: usize>() where ConstUsize<N>: ConstInteger {
    type C<const N: usize> = ConstUsize<N>;
    let c = <C<N> as ConstInteger>::DEFAULT;
    assert!(<C<N> as ConstInteger>::VALUE == N && c.value() == N && <C<N> as Default>::default() == c, "value");
    assert!(<<C<N> as ConstInteger>::SatDec as ConstInteger>::VALUE == N.saturating_sub(1), "saturating decrement");
    if N > 0 { assert!(<<C<N> as ConstInteger>::Dec as ConstInteger>::VALUE == N - 1, "decrement"); }
    if N < 9 { assert!(<<C<N> as ConstInteger>::Inc as ConstInteger>::VALUE == N + 1, "increment"); }
    if N > 0 { assert!(c.dec().value() == N - 1, "dec()"); }
    if N < 9 { assert!(c.inc().value() == N + 1, "inc()"); }
    assert!(<<C<N> as ConstInteger>::SelfSizeArray<u16> as Array>::CAP == N, "self-sized array");
    assert!(<<C<N> as ConstInteger>::SelfSizeCopyArray<u16> as Array>::CAP == N, "self-sized copy array");
    let a = <<C<N> as ConstInteger>::SelfSizeArray<usize> as Array>::from_fn(|i| i * 3);
    assert!(a.as_ref().len() == N, "array length");
    let i: usize = kani::any();
    if i < N { assert!(a.as_ref()[i] == i * 3, "from_fn fills every element by its index"); }
}
#[kani::proof] #[kani::unwind(11)] fn ints() {
    int::<0>(); int::<1>(); int::<2>(); int::<3>(); int::<4>(); int::<5>(); int::<6>(); int::<7>(); int::<8>(); int::<9>();
    assert!(<ConstUsize<{ usize::MAX }> as ConstInteger>::VALUE == usize::MAX);
}
#[kani::proof] #[kani::unwind(20)] fn arrays() {
    let x: [u32; 5] = kani::any();
    let (l, r) = ConstArray::split_last(x);
    assert!(l == [x[0], x[1], x[2], x[3]] && r == x[4], "split_last splits");
    let (l, r) = ConstArray::split_last([x[0]]);
    assert!(l == [] && r == x[0], "split_last splits a one-element array");
}
#[kani::proof] #[kani::unwind(3)] fn conds() {
    let (a, b): (u64, u8) = (kani::any(), kani::any());
    let t = CondType::<ConstTrue, u64, u8>::new(|| a, || b);
    let f = CondType::<ConstFalse, u64, u8>::new(|| a, || b);
    assert!(t.0 == a && f.0 == b, "the member is the announced one");
    assert!(matches!(t.get(), Either::True(x) if *x == a), "get");
    assert!(matches!(f.get(), Either::False(x) if *x == b), "get");
    let (mut t2, mut f2) = (t.clone(), f.clone());
    if let Either::True(x) = t2.get_mut() { *x = 7; }
    if let Either::False(x) = f2.get_mut() { *x = 9; }
    assert!(t2.0 == 7 && f2.0 == 9 && t.0 == a && f.0 == b, "get_mut and clone");
    assert!(CondType::<ConstTrue, u64, u8>::from(a).0 == a && CondType::<ConstFalse, u64, u8>::from(b).0 == b, "from");
    assert!(CondType::<ConstTrue, u64, u8>::default().0 == 0, "default");
    assert!(ConstTrue::VALUE && !ConstFalse::VALUE && ConstTrue.value() && !ConstFalse.value(), "booleans");
}
