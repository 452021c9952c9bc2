use hibit_tree::*;
use hibit_tree::bit_queue::*;
use core::ops::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct M<const LOG: usize>(pub [u64;1]);
impl<const L: usize> BitAnd for M<L> { type Output=Self; fn bitand(self, o: Self)->Self { M([self.0[0]&o.0[0]]) } }
impl<const L: usize> BitOr for M<L> { type Output=Self; fn bitor(self, o: Self)->Self { M([self.0[0]|o.0[0]]) } }
impl<const L: usize> BitAndAssign for M<L> { fn bitand_assign(&mut self, o: Self) { self.0[0] &= o.0[0] } }
impl<const L: usize> BitOrAssign for M<L> { fn bitor_assign(&mut self, o: Self) { self.0[0] |= o.0[0] } }
impl<'a, const L: usize> BitAndAssign<&'a Self> for M<L> { fn bitand_assign(&mut self, o: &'a Self) { self.0[0] &= o.0[0] } }
impl<'a, const L: usize> BitOrAssign<&'a Self> for M<L> { fn bitor_assign(&mut self, o: &'a Self) { self.0[0] |= o.0[0] } }
impl<const L: usize> BitBlock for M<L> {
    const SIZE: usize = 1 << L;
    fn zero() -> Self { M([0]) }
    type BitsIter = PrimitiveBitQueue<u64>;
    fn into_bits_iter(self) -> Self::BitsIter { PrimitiveBitQueue::new(self.0[0]) }
    type Array = [u64;1];
    fn as_array(&self) -> &[u64;1] { &self.0 }
    fn as_array_mut(&mut self) -> &mut [u64;1] { &mut self.0 }
    fn count_ones(&self) -> usize { self.0[0].count_ones() as usize }
}
