"""The obligations of each property: which harness decides it, what it states, on which functions."""
import re

OBLIGATIONS = {}
ASSUMPTIONS = {'*': [
    'rustc, Kani/CBMC and the SAT solver are sound; Kani models allocation as never failing',
    'termination is not proved',
    'panics end the run (Kani has no unwinding): behaviour after a caught panic is not covered',
    'machine arithmetic is exact (wrapping checked by Kani), target is x86_64 with 64-bit usize',
]}
TRUSTED = ['Kani 0.68.0', 'CBMC 6.11.0', 'CaDiCaL/Kissat', 'rustc nightly bundled with Kani', 'rust std as compiled by Kani']
LEVEL = {}


def ob(prop, group, names, doc, functions, tier='quick', bounded=None, timeout=400, cost=1, only=None):
    for n in names.split():
        OBLIGATIONS.setdefault(prop, []).append(dict(
            group=group, name=n, doc=doc, functions=functions.split(', '), tier=tier, bounded=bounded,
            timeout=timeout, cost=cost, only=only))


# ---- C05 -----------------------------------------------------------------------------------
F = 'Iter::new, Iter::next, data_block_index, HibitTree::iter, PrimitiveBitQueue::next'
ob('C05', 'harness', 'iter::iter_d1', 'next() yields the next stored key in order, depth 1', F)
ob('C05', 'harness', 'iter::iter_d2', 'base case and inductive step of ordered iteration, depth 2', F, cost=9)
ob('C05', 'harness', 'iter::iter_d3', 'base case and inductive step of ordered iteration, depth 3', F, cost=30)
ob('C05', 'harness', 'iter::iter_d4', 'base case and inductive step of ordered iteration, depth 4', F, cost=60)
ob('C05', 'harness_ns', 'iter::iter_w128', 'the same for 128-wide nodes, depth 2', F, cost=170, tier='thorough', timeout=1500)
ob('C05', 'harness_ns', 'iter::iter_w256', 'the same for 256-wide nodes, depth 2', F, cost=900, tier='thorough', timeout=3000)
ob('C05', 'harness', 'iter::iter_d2_nonexact', 'the same over inexact hierarchies, depth 2', F, cost=12,
   bounded='at most one empty node met per step')
ob('C05', 'harness', 'iter::iter_d3_nonexact', 'the same over inexact hierarchies, depth 3', F, cost=46,
   bounded='at most one empty node met per step')

# ---- C06, C07 ------------------------------------------------------------------------------
for p, o in (('C06', 'intersection'), ('C07', 'union')):
    F = '%s::State::data, %s::State::data_unchecked, %s::Cursor::{new,select_level_node,select_level_node_unchecked,data,data_unchecked}, HibitTree::{get,get_unchecked}' % (o, o, o)
    for m in 'd1s0 d2s0 d2s1 d3s0 d3s1 d3s2 d4s0 d4s2 d3n'.split():
        ob(p, 'harness', 'ops::%s::%s_contract' % (m, o), '%s satisfies the tree and cursor contract over any two sources satisfying it (depth %s, second walk from level %s)' % (o, m[1], m[3:] or '1, inexact source'), F, cost=10 * int(m[1]))

# ---- C08 -----------------------------------------------------------------------------------
for o in ('multi_intersection', 'multi_union'):
    F = '%s::{Cursor::select_level_node,Cursor::select_level_node_unchecked,Cursor::data,Cursor::data_unchecked,DataIter::next,DataIter::fold,DataIter::size_hint}' % o
    for m, c in (('d1n2', 5), ('d2n1', 10), ('d2n2c', 20), ('d2n2u', 20), ('d2n2cr0', 50), ('d2n2cr1', 50), ('d3n2c', 100), ('d3n2u', 100),
                 ('d3n1lr2', 100), ('d3n1lr1', 150), ('d3n1mr1', 200), ('d3n2lr1', 300), ('d3n2cr1', 999), ('d3n2mr1', 999)):
        if c == 999 and o == 'multi_union':
            continue   # beyond memory; d3n2lr1 covers the same walk with the data access after the second walk only
        ob('C08', 'harness', 'multi::%s::%s_contract' % (m, o), '%s satisfies the cursor contract over any list of %s sources, depth %s' % (o, m[3], m[1]), F,
           cost=c * (2 if o == 'multi_union' else 1), bounded='list of at most %s sources' % m[3],
           tier='thorough' if m in ('d3n2c', 'd3n2u', 'd3n2lr1') + (('d3n1mr1',) if o == 'multi_union' else ()) else 'quick')
    F = '%s::{data,data_unchecked}, HibitTree::{get,get_unchecked}' % o
    for m in 'g2n0 g2n1 g2n2 g2n3 g2n3f g3n2 g1n2'.split():
        ob('C08', 'harness', 'multi::%s::%s_get' % (m, o), '%s: get/get_unchecked of any key is the sequence of the values stored there, list of %s sources, depth %s' % (o, m[3], m[1]), F,
           cost=20, bounded='list of at most 3 sources')
for m in 'empty_d1 empty_d2'.split():
    ob('C08', 'harness', 'multi::' + m, 'an empty list is an empty tree', 'multi_intersection::Cursor, multi_union::Cursor, Iter::next')
ASSUMPTIONS['C08'] = ['arrayvec is replaced by a copy whose only change is a backing store of 4 slots (exceeding it is reported, never assumed away)']

# ---- C09 -----------------------------------------------------------------------------------
F = 'Map::{data,data_unchecked}, map::Cursor::{new,select_level_node,select_level_node_unchecked,data,data_unchecked}, map'
for m in 'd1 d2 d3 d4 d3n'.split():
    ob('C09', 'harness', 'map::%s::map_contract' % m, 'map satisfies the tree and cursor contract with the function applied, over any source (depth %s)' % m[1], F, cost=4)
ob('C09', 'harness', 'map::map_methods', 'the provided methods build the same operation', 'RegularHibitTree::{map,map_ref}')
F = 'MultiMapFold::{data,data_unchecked}, multi_map_fold::Cursor::{new,select_level_node,select_level_node_unchecked,data,data_unchecked}, multi_map_fold'
for d in '123':
    ob('C09', 'harness', 'map::fold_d' + d, 'multi_map_fold satisfies the tree and cursor contract with the left fold of the sequence stored at the key (depth %s)' % d, F, cost=4,
       bounded='at most 3 values per key')
ob('C09', 'harness', 'map::fold_method', 'the provided method builds the same operation', 'MultiHibitTree::map_fold')

# ---- C11 -----------------------------------------------------------------------------------
F = 'level_indices, Index::{from,new_unchecked}, HibitTree::{get,get_unchecked,index_range}'
for w in '64 128 256'.split():
    ob('C11', 'harness', 'index::w%s::in_range' % w, 'every key in range is accepted and reaches the path that is its positional decomposition; every depth, width ' + w, F, cost=10)
    ob('C11', 'harness', 'index::w%s::out_of_range' % w, 'every key out of range is rejected; every depth, width ' + w, F, cost=4, only='VP:')

# ---- C13 -----------------------------------------------------------------------------------
F = 'BitBlock::{zero,is_zero,get_bit,count_ones,as_array,as_array_mut}, BitBlock operators'
for w in '64 128 256'.split():
    ob('C13', 'harness', 'bits::ops' + w, 'mask operations are set operations, width ' + w, F)
    ob('C13', 'harness', 'bits::set' + w, 'set_bit writes one position and returns its previous value, width ' + w, 'BitBlock::set_bit, set_bit_unchecked, set_array_bit_unchecked')
    ob('C13', 'harness', 'bits::next_block' + w, 'the queue of a mask yields its positions, from every state, width ' + w, 'BitBlock::into_bits_iter, BitQueue::{next,trim_to,current}', cost=15)
    ob('C13', 'harness', 'bits::traverse' + w, 'traverse_bits visits exactly the raised positions in order with early stop, width ' + w, 'BitBlock::traverse_bits, traverse_one_bits, traverse_array_one_bits',
       cost=int(w), tier='thorough' if w == '256' else 'quick', timeout=600)
for q in 'p8 p16 p32 p64 psize a8x4 a64x1 a64x3'.split():
    ob('C13', 'harness', 'bits::next_' + q, 'next/trim_to/current from every queue state (%s)' % q, 'PrimitiveBitQueue, ArrayBitQueue: {new,next,trim_to,current}', cost=5)
for k in ('trav', 'each'):
    for q in 'p8_0 p8_3 a8x4_0 a8x4_1 a8x4_24 a8x4_25 a8x4_9 a64x4_193 p64_1'.split():
        ob('C13', 'harness', 'bits::%s_%s' % (k, q), 'callback traversal of a queue (%s), trimmed at the given position' % q, 'BitQueue::{traverse,for_each}', cost=40 if '64' in q else 3)
    for q in 'p64_0 a64x2_0 a64x2_1 a64x2_64 a64x2_65 a64x4_129 a64x4_65'.split():
        ob('C13', 'harness', 'bits::%s_%s' % (k, q), 'callback traversal of a queue (%s), trimmed at the given position' % q, 'BitQueue::{traverse,for_each}', cost=80, tier='thorough', timeout=900)
ob('C13', 'harness', 'bits::fixed_queues', 'empty and filled queues', 'BitQueue::{empty,filled}, EmptyBitQueue', cost=9)
ob('C13', 'harness', 'bits::primitives', 'integer helpers', 'Primitive for u8,u16,u32,u64,usize')

# ---- C15 -----------------------------------------------------------------------------------
for n in range(10):
    ob('C15', 'harness', 'constu::for_from%d' % n, 'const_for/const_for_rev from %d to every bound visit exactly the range, in order, until stopped anywhere' % n, 'const_for, const_for_rev, ConstIntegerPrivate::{iterate_as_range,iterate_as_range_rev}', cost=3)
ob('C15', 'harness', 'constu::ints', 'values, increments, decrements and self-sized arrays of all constants', 'ConstInteger for ConstUsize<0..=9>')
ob('C15', 'harness', 'constu::arrays', 'split_last', 'ConstArray::split_last')
ob('C15', 'harness', 'constu::conds', 'conditional types and booleans', 'CondType, ConstBool')


# ---- callee contracts ------------------------------------------------------------------------
def rely(prop, other, *names):
    """prop's argument uses the contract of `other`'s functions: discharge those obligations as well"""
    for o in OBLIGATIONS[other]:
        if any(re.fullmatch(n, o['name']) for n in names) and o['tier'] == 'quick':
            OBLIGATIONS[prop].append(dict(o, doc='callee contract (%s): %s' % (other, o['doc'])))

rely('C05', 'C13', r'bits::next_(p64|block128|block256|a64x2).*', r'bits::.*into.*')
rely('C09', 'C08', r'multi::d2n2u::.*', r'multi::g2n3f::.*', r'multi::g3n2::.*')
