//! C13: masks and bit queues are finite sets of positions.
use core::ops::ControlFlow;
use hibit_tree::bit_queue::*;
use hibit_tree::utils::Primitive;
use hibit_tree::*;

pub type M = [u64; 4];
fn has(m: &M, i: usize) -> bool { (m[(i / 64) & 3] >> (i % 64)) & 1 != 0 }
fn any_words<B: BitBlock>() -> M {
    let mut r = [0; 4];
    r[0] = kani::any();
    if B::SIZE > 64 { r[1] = kani::any(); }
    if B::SIZE > 128 { r[2] = kani::any(); r[3] = kani::any(); }
    r
}
/// construct through the public representation access (word i holds positions 64*i..64*i+63)
fn mk<B: BitBlock>(m: &M) -> B {
    let mut b = B::zero();
    let a = b.as_array_mut().as_mut();
    assert!(a.len() * 64 == B::SIZE, "the word array covers the mask");
    a[0] = m[0];
    if B::SIZE > 64 { a[1] = m[1]; }
    if B::SIZE > 128 { a[2] = m[2]; a[3] = m[3]; }
    b
}
fn words<B: BitBlock>(b: &B) -> M {
    let a = b.as_array().as_ref();
    let mut r = [0; 4];
    r[0] = a[0];
    if B::SIZE > 64 { r[1] = a[1]; }
    if B::SIZE > 128 { r[2] = a[2]; r[3] = a[3]; }
    r
}
fn same(a: &M, b: &M) -> bool { a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] }

fn block_ops<B: BitBlock>() {
    let (x, y) = (any_words::<B>(), any_words::<B>());
    let i: usize = kani::any();
    kani::assume(i < B::SIZE);
    let (a, b) = (mk::<B>(&x), mk::<B>(&y));
    assert!(same(&words(&a), &x), "words read back");
    assert!(same(&words(&B::zero()), &[0; 4]), "zero() has no raised bit");
    assert!(a.is_zero() == same(&x, &[0; 4]), "is_zero() iff no bit is raised");
    assert!((a == b) == same(&x, &y), "equality is equality of the sets");
    assert!(a.get_bit(i) == has(&x, i), "get_bit reads the position");
    assert!(words(&a.clone())[i / 64] == x[i / 64], "clone is the same set");
    let r = words(&(a.clone() & b.clone()));
    assert!(has(&r, i) == (has(&x, i) && has(&y, i)), "& is conjunction");
    let r = words(&(a.clone() | b.clone()));
    assert!(has(&r, i) == (has(&x, i) || has(&y, i)), "| is disjunction");
    let mut c = a.clone(); c &= b.clone();
    assert!(has(&words(&c), i) == (has(&x, i) && has(&y, i)), "&= is conjunction");
    let mut c = a.clone(); c &= &b;
    assert!(has(&words(&c), i) == (has(&x, i) && has(&y, i)), "&= by reference is conjunction");
    let mut c = a.clone(); c |= b.clone();
    assert!(has(&words(&c), i) == (has(&x, i) || has(&y, i)), "|= is disjunction");
    let mut c = a.clone(); c |= &b;
    assert!(has(&words(&c), i) == (has(&x, i) || has(&y, i)), "|= by reference is disjunction");
    let n = x[0].count_ones() + x[1].count_ones() + x[2].count_ones() + x[3].count_ones();
    assert!(a.count_ones() == n as usize, "count_ones is the number of raised bits");
    kani::cover!(a.get_bit(i), "reachable");
}
fn set_ops<B: BitBlock, const F: bool>() {
    let x = any_words::<B>();
    let (i, j): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i < B::SIZE && j < B::SIZE);
    let mut a = mk::<B>(&x);
    let prev = a.set_bit::<F>(i);
    assert!(prev == has(&x, i), "set_bit returns the previous value");
    let r = words(&a);
    assert!(has(&r, i) == F, "set_bit writes the position");
    if j != i { assert!(has(&r, j) == has(&x, j), "set_bit changes no other position"); }
    kani::cover!(prev, "reachable");
}
fn visitor<'a>(x: &'a M, from: usize, w: usize, last: &'a mut Option<usize>, stopped: &'a mut bool) -> impl FnMut(usize) -> ControlFlow<()> + 'a {
    move |k| {
        assert!(!*stopped, "no visit after a break");
        assert!(k >= from && k < 256 && has(x, k), "only raised positions are visited");
        if let Some(l) = *last { assert!(l < k, "positions are visited in ascending order, once"); }
        if from <= w && has(x, w) && w < k { assert!(last.map_or(false, |l| w <= l), "no raised position is skipped"); }
        *last = Some(k);
        if kani::any() { *stopped = true; ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
    }
}
fn end(x: &M, from: usize, w: usize, last: Option<usize>, stopped: bool, r: ControlFlow<()>) {
    assert!(r.is_break() == stopped, "traverse reports a break iff the visitor broke");
    if !stopped && from <= w && has(x, w) { assert!(last.map_or(false, |l| w <= l), "no raised position is left out at the end"); }
}
fn traverse<B: BitBlock>() {
    let x = any_words::<B>();
    let w: usize = kani::any();
    kani::assume(w < B::SIZE);
    let (mut last, mut stopped) = (None, false);
    let r = mk::<B>(&x).traverse_bits(visitor(&x, 0, w, &mut last, &mut stopped));
    end(&x, 0, w, last, stopped, r);
}

/// Any state a queue can be in: built from any mask, then trimmed at any position. (A queue that
/// was polled is in the same state as one trimmed past the polled position.)
fn queue<Q: BitQueue>(x: &M, size: usize, q: Q) -> (Q, usize) {
    let mut q = q;
    let from: usize = kani::any();
    if kani::any() { q.trim_to(from); (q, from) } else { (q, 0) }
}
fn queue_next<Q: BitQueue>(x: M, size: usize, q: Q) {
    let (mut q, from) = queue(&x, size, q);
    let w: usize = kani::any();
    kani::assume(w < size && w >= from);
    let mut last: Option<usize> = None;
    let mut done = false;
    let cur = q.current();
    let mut c = 0;
    while c < 2 {
        match q.next() {
            Some(k) => {
                assert!(!done, "an exhausted queue stays exhausted");
                assert!(k < size && k >= from && has(&x, k), "only raised positions that were not removed are yielded");
                if c == 0 { assert!(cur <= k, "current() is not past the next position"); }
                if let Some(l) = last { assert!(l < k, "positions are yielded in ascending order"); }
                if has(&x, w) && w < k { assert!(last.map_or(false, |l| w <= l), "no raised position is skipped"); }
                last = Some(k);
            }
            None => {
                done = true;
                assert!(q.current() == size, "current() of a finished queue is its capacity");
                if has(&x, w) { assert!(last.map_or(false, |l| w <= l), "no raised position is left out at the end"); }
            }
        }
        c += 1;
    }
    // a polled queue can be trimmed again
    let t: usize = kani::any();
    q.trim_to(t);
    if let Some(k) = q.next() {
        assert!(k >= t && k >= from && k < size && has(&x, k) && last.map_or(true, |l| l < k), "trimming a polled queue removes exactly the leading positions");
        if has(&x, w) && w >= t && w < k { assert!(last.map_or(false, |l| w <= l), "trimming a polled queue keeps the rest"); }
    } else if has(&x, w) && w >= t { assert!(last.map_or(false, |l| w <= l), "trimming a polled queue keeps the rest (end)"); }
    kani::cover!(last.is_some() && from > 1, "reachable");
}
/// `from`: where the queue was trimmed (every word of the mask is arbitrary, so each block index is
/// covered with every remaining content)
fn queue_traverse<Q: BitQueue>(x: M, size: usize, q: Q, from: usize) {
    let mut q = q;
    if from > 0 { q.trim_to(from); }
    let w: usize = kani::any();
    kani::assume(w < size);
    let (mut last, mut stopped) = (None, false);
    let r = q.traverse(visitor(&x, from, w, &mut last, &mut stopped));
    end(&x, from, w, last, stopped, r);
}
/// callbacks through the Iterator interface (for_each / fold)
fn queue_foreach<Q: BitQueue>(x: M, size: usize, q: Q, from: usize) {
    let mut q = q;
    if from > 0 { q.trim_to(from); }
    let w: usize = kani::any();
    kani::assume(w < size);
    let mut last: Option<usize> = None;
    q.for_each(|k| {
        assert!(k >= from && k < 256 && has(&x, k), "only raised positions are visited");
        if let Some(l) = last { assert!(l < k, "positions are visited in ascending order, once"); }
        if from <= w && has(&x, w) && w < k { assert!(last.map_or(false, |l| w <= l), "no raised position is skipped"); }
        last = Some(k);
    });
    end(&x, from, w, last, false, ControlFlow::Continue(()));
}
fn fixed<Q: BitQueue>(size: usize) {
    let mut e = Q::empty();
    assert!(e.current() == size, "an empty queue is finished");
    assert!(e.next().is_none(), "empty() yields nothing");
    let w: usize = kani::any();
    kani::assume(w < size);
    let mut f = Q::filled();
    f.trim_to(w);
    assert!(f.next() == Some(w), "filled() holds every position");
    let mut g = f.clone();
    assert!(g.next() == f.next(), "a clone continues where the original is");
}
trait Mk: Sized { fn mkq(m: &M) -> Self; const SIZE: usize; }
macro_rules! prim { ($($p:ident)*) => { $(
    impl Mk for PrimitiveBitQueue<$p> {
        fn mkq(m: &M) -> Self { PrimitiveBitQueue::new(m[0] as $p) }
        const SIZE: usize = $p::BITS as usize;
    }
)* } }
prim!(u8 u16 u32 u64 usize);
impl<const N: usize> Mk for ArrayBitQueue<u64, N> {
    fn mkq(m: &M) -> Self { ArrayBitQueue::new(core::array::from_fn(|i| m[i])) }
    const SIZE: usize = 64 * N;
}
impl Mk for ArrayBitQueue<u8, 4> {
    fn mkq(m: &M) -> Self { ArrayBitQueue::new(core::array::from_fn(|i| (m[0] >> (8 * i)) as u8)) }
    const SIZE: usize = 32;
}
fn qwords(size: usize) -> M {
    let mut r: M = kani::any();
    if size < 64 { kani::assume(r[0] >> size == 0); }
    if size < 128 { r[1] = 0; }
    if size < 192 { r[2] = 0; }
    if size < 256 { r[3] = 0; }
    r
}
fn qn<Q: BitQueue + Mk>() { let x = qwords(Q::SIZE); queue_next(x, Q::SIZE, Q::mkq(&x)) }
fn qt<Q: BitQueue + Mk>(from: usize) { let x = qwords(Q::SIZE); queue_traverse(x, Q::SIZE, Q::mkq(&x), from) }
fn qf<Q: BitQueue + Mk>(from: usize) { let x = qwords(Q::SIZE); queue_foreach(x, Q::SIZE, Q::mkq(&x), from) }
/// the queue a mask turns into holds the positions of the mask
fn qb<B: BitBlock>() { let x = any_words::<B>(); queue_next(x, B::SIZE, mk::<B>(&x).into_bits_iter()) }

fn primitive<P: Primitive + Into<u64>>(bits: usize, p: P) where u64: TryInto<P> {
    let n: usize = kani::any();
    let low = if bits == 64 { n } else { n & ((1usize << bits) - 1) };
    assert!(P::from_usize(n).as_usize() == low, "from_usize keeps the low bits, as_usize the value");
    let v: u64 = p.into();
    assert!(p.as_usize() as u64 == v && p.as_u8() == v as u8, "as_* read the value");
    assert!(p.is_zero() == (v == 0), "is_zero");
    assert!(P::ZERO.as_usize() == 0 && P::ONE.as_usize() == 1 && P::MIN.is_zero(), "constants");
    assert!(P::MAX.as_usize() as u64 == u64::MAX >> (64 - bits), "MAX has every bit");
    let tz = p.trailing_zeros() as usize;
    if v == 0 { assert!(tz == bits, "trailing_zeros of zero is the width"); }
    else { assert!(tz < bits && (v >> tz) & 1 == 1 && v & ((1u64 << tz) - 1) == 0, "trailing_zeros is the lowest raised bit"); }
    let neg = p.wrapping_neg().as_usize() as u64;
    assert!((v.wrapping_add(neg)) & (u64::MAX >> (64 - bits)) == 0, "wrapping_neg is the two's complement");
}
macro_rules! h { ($($n:ident $u:literal { $($e:tt)* })*) => { $( #[kani::proof] #[kani::unwind($u)] fn $n() { $($e)* } )* } }
h! {
    ops64 6 { block_ops::<u64>() }
    ops128 20 { block_ops::<wide::u64x2>() }
    ops256 36 { block_ops::<wide::u64x4>() }
    set64 6 { set_ops::<u64, true>(); set_ops::<u64, false>() }
    set128 6 { set_ops::<wide::u64x2, true>(); set_ops::<wide::u64x2, false>() }
    set256 6 { set_ops::<wide::u64x4, true>(); set_ops::<wide::u64x4, false>() }
    traverse64 66 { traverse::<u64>() }
    traverse128 66 { traverse::<wide::u64x2>() }
    traverse256 66 { traverse::<wide::u64x4>() }
    next_block64 6 { qb::<u64>() }
    next_block128 6 { qb::<wide::u64x2>() }
    next_block256 6 { qb::<wide::u64x4>() }
    next_p8 6 { qn::<PrimitiveBitQueue<u8>>() }
    next_p16 6 { qn::<PrimitiveBitQueue<u16>>() }
    next_p32 6 { qn::<PrimitiveBitQueue<u32>>() }
    next_p64 6 { qn::<PrimitiveBitQueue<u64>>() }
    next_psize 6 { qn::<PrimitiveBitQueue<usize>>() }
    next_a8x4 6 { qn::<ArrayBitQueue<u8, 4>>() }
    next_a64x1 6 { qn::<ArrayBitQueue<u64, 1>>() }
    next_a64x3 6 { qn::<ArrayBitQueue<u64, 3>>() }
    trav_p8_0 10 { qt::<PrimitiveBitQueue<u8>>(0) }
    trav_p8_3 10 { qt::<PrimitiveBitQueue<u8>>(3) }
    trav_p64_0 66 { qt::<PrimitiveBitQueue<u64>>(0) }
    trav_p64_1 66 { qt::<PrimitiveBitQueue<u64>>(1) }
    trav_a8x4_0 10 { qt::<ArrayBitQueue<u8, 4>>(0) }
    trav_a8x4_1 10 { qt::<ArrayBitQueue<u8, 4>>(1) }
    trav_a8x4_9 10 { qt::<ArrayBitQueue<u8, 4>>(9) }
    trav_a8x4_24 10 { qt::<ArrayBitQueue<u8, 4>>(24) }
    trav_a8x4_25 10 { qt::<ArrayBitQueue<u8, 4>>(25) }
    trav_a64x2_0 66 { qt::<ArrayBitQueue<u64, 2>>(0) }
    trav_a64x2_1 66 { qt::<ArrayBitQueue<u64, 2>>(1) }
    trav_a64x2_64 66 { qt::<ArrayBitQueue<u64, 2>>(64) }
    trav_a64x2_65 66 { qt::<ArrayBitQueue<u64, 2>>(65) }
    trav_a64x4_65 66 { qt::<ArrayBitQueue<u64, 4>>(65) }
    trav_a64x4_129 66 { qt::<ArrayBitQueue<u64, 4>>(129) }
    trav_a64x4_193 66 { qt::<ArrayBitQueue<u64, 4>>(193) }
    each_p8_0 10 { qf::<PrimitiveBitQueue<u8>>(0) }
    each_p8_3 10 { qf::<PrimitiveBitQueue<u8>>(3) }
    each_p64_0 66 { qf::<PrimitiveBitQueue<u64>>(0) }
    each_p64_1 66 { qf::<PrimitiveBitQueue<u64>>(1) }
    each_a8x4_0 10 { qf::<ArrayBitQueue<u8, 4>>(0) }
    each_a8x4_1 10 { qf::<ArrayBitQueue<u8, 4>>(1) }
    each_a8x4_9 10 { qf::<ArrayBitQueue<u8, 4>>(9) }
    each_a8x4_24 10 { qf::<ArrayBitQueue<u8, 4>>(24) }
    each_a8x4_25 10 { qf::<ArrayBitQueue<u8, 4>>(25) }
    each_a64x2_0 66 { qf::<ArrayBitQueue<u64, 2>>(0) }
    each_a64x2_1 66 { qf::<ArrayBitQueue<u64, 2>>(1) }
    each_a64x2_64 66 { qf::<ArrayBitQueue<u64, 2>>(64) }
    each_a64x2_65 66 { qf::<ArrayBitQueue<u64, 2>>(65) }
    each_a64x4_65 66 { qf::<ArrayBitQueue<u64, 4>>(65) }
    each_a64x4_129 66 { qf::<ArrayBitQueue<u64, 4>>(129) }
    each_a64x4_193 66 { qf::<ArrayBitQueue<u64, 4>>(193) }
    fixed_queues 6 {
        fixed::<PrimitiveBitQueue<u8>>(8); fixed::<PrimitiveBitQueue<u64>>(64);
        fixed::<ArrayBitQueue<u64, 2>>(128); fixed::<ArrayBitQueue<u64, 4>>(256); fixed::<ArrayBitQueue<u8, 4>>(32);
        let mut e = EmptyBitQueue;
        assert!(e.next().is_none() && e.current() == 0 && EmptyBitQueue::empty().next().is_none() && EmptyBitQueue::filled().next().is_none(), "the empty queue has no positions");
        e.trim_to(kani::any());
        assert!(e.traverse(|_| { assert!(false, "the empty queue visits nothing"); ControlFlow::Break(()) }).is_continue());
    }
    primitives 3 {
        primitive::<u8>(8, kani::any()); primitive::<u16>(16, kani::any()); primitive::<u32>(32, kani::any()); primitive::<u64>(64, kani::any());
        let n: usize = kani::any();
        assert!(<usize as Primitive>::from_usize(n) == n && Primitive::as_usize(n) == n, "usize is itself");
        assert!(Primitive::is_zero(n) == (n == 0) && Primitive::trailing_zeros(n) == (n as u64).trailing_zeros() && Primitive::wrapping_neg(n) == 0usize.wrapping_sub(n), "usize operations");
    }
}
