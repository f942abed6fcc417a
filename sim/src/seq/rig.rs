//! Thin generic adapters from the sequence containers to one dynamic interface. No expectations
//! live here: this file only performs calls and reports what came back.
use crate::ledger::*;
use array_ops::{Array, ArrayMut, HasLength};
use refpool::{PoolClone, PoolDefault};
use sized_chunks::{inline_array, ring_buffer, sized_chunk, Chunk, InlineArray, RingBuffer};
use std::collections::VecDeque;
use std::mem::MaybeUninit;
use std::ptr;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Chunk,
    Ring,
    Inline,
}

/// Elements whose type allows `Extend<&A>` on the containers that need `Copy`.
pub trait RefExtend: Elem {
    fn ext_chunk<const N: usize>(_c: &mut Chunk<Self, N>, _s: &[Self]) -> bool {
        false
    }
    fn ext_inline<T>(_c: &mut InlineArray<Self, T>, _s: &[Self]) -> bool {
        false
    }
    fn ext_chunk_of<const N: usize>(_c: &mut Chunk<Self, N>, _o: &Chunk<Self, N>) {}
    fn ext_inline_of<T>(_c: &mut InlineArray<Self, T>, _o: &InlineArray<Self, T>) {}
    const REFS: bool = false;
}
impl RefExtend for Tok {}
impl RefExtend for Odd {}
impl RefExtend for Big {}
impl RefExtend for Zst {}
impl RefExtend for Zal {}
impl RefExtend for Pod {}
impl RefExtend for Cop {
    fn ext_chunk<const N: usize>(c: &mut Chunk<Self, N>, s: &[Self]) -> bool {
        c.extend(s.iter());
        true
    }
    fn ext_inline<T>(c: &mut InlineArray<Self, T>, s: &[Self]) -> bool {
        c.extend(s.iter());
        true
    }
    fn ext_chunk_of<const N: usize>(c: &mut Chunk<Self, N>, o: &Chunk<Self, N>) {
        c.extend(o.iter())
    }
    fn ext_inline_of<T>(c: &mut InlineArray<Self, T>, o: &InlineArray<Self, T>) {
        c.extend(o.iter())
    }
    const REFS: bool = true;
}

pub trait SeqC:
    Sized
    + Clone
    + Ord
    + std::hash::Hash
    + std::fmt::Debug
    + Default
    + FromIterator<Self::E>
    + Extend<Self::E>
    + IntoIterator<Item = Self::E, IntoIter: DoubleEndedIterator + ExactSizeIterator>
    + 'static
{
    type E: RefExtend;
    const KIND: Kind;
    const REFS: bool;
    fn cap() -> usize;
    fn make() -> Self;
    fn make_at(p: *mut MaybeUninit<Self>, _how: usize) {
        unsafe { ptr::write(p as *mut Self, Self::make()) }
    }
    fn pool_clone(&self, _p: *mut MaybeUninit<Self>) -> bool {
        false
    }
    fn clen(&self) -> usize;
    fn cempty(&self) -> bool;
    fn cfull(&self) -> bool;
    fn it(&self) -> impl DoubleEndedIterator<Item = &Self::E> + ExactSizeIterator;
    fn it_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut Self::E> + ExactSizeIterator;
    fn dr(&mut self) -> impl DoubleEndedIterator<Item = Self::E> + ExactSizeIterator;
    fn push_back(&mut self, e: Self::E);
    fn push_front(&mut self, _e: Self::E) {
        unreachable!()
    }
    fn pop_back(&mut self) -> Option<Self::E>;
    fn pop_front(&mut self) -> Option<Self::E> {
        unreachable!()
    }
    fn insert_at(&mut self, i: usize, e: Self::E);
    fn remove_at(&mut self, i: usize) -> Option<Self::E>;
    fn set_at(&mut self, i: usize, e: Self::E) -> Option<Self::E>;
    fn get_at(&self, i: usize) -> Option<&Self::E>;
    fn get_mut_at(&mut self, i: usize) -> Option<&mut Self::E>;
    fn index_at(&self, i: usize) -> &Self::E;
    fn index_mut_at(&mut self, i: usize) -> &mut Self::E;
    fn first_last(&self) -> (Option<&Self::E>, Option<&Self::E>);
    fn swap_at(&mut self, i: usize, j: usize);
    fn clear_all(&mut self);
    fn drop_l(&mut self, _i: usize) {
        unreachable!()
    }
    fn drop_r(&mut self, _i: usize) {
        unreachable!()
    }
    fn split(&mut self, i: usize) -> Self;
    fn append_all(&mut self, _o: &mut Self) {
        unreachable!()
    }
    fn dff(&mut self, _o: &mut Self, _n: usize) {
        unreachable!()
    }
    fn dfb(&mut self, _o: &mut Self, _n: usize) {
        unreachable!()
    }
    fn from_f(_o: &mut Self, _n: usize) -> Self {
        unreachable!()
    }
    fn from_b(_o: &mut Self, _n: usize) -> Self {
        unreachable!()
    }
    fn drain_f(_o: &mut Self) -> Self {
        unreachable!()
    }
    fn collect_f<I: Iterator<Item = Self::E>>(_i: &mut I, _n: usize) -> Self {
        unreachable!()
    }
    fn unit1(_e: Self::E) -> Self {
        unreachable!()
    }
    fn pair2(_e: Self::E, _f: Self::E) -> Self {
        unreachable!()
    }
    fn insert_many<S, I>(&mut self, _i: usize, _s: S)
    where
        S: IntoIterator<Item = Self::E, IntoIter = I>,
        I: ExactSizeIterator<Item = Self::E>,
    {
        unreachable!()
    }
    fn insert_ord(&mut self, _e: Self::E) {
        unreachable!()
    }
    fn ext_refs(&mut self, s: &[Self::E]) -> bool;
    fn ext_refs_of(&mut self, o: &Self);
    fn sort_it(&mut self, how: usize);
    fn bsearch(&self, e: &Self::E) -> Result<usize, usize>;
    fn eq_vec(&self, v: &Vec<Self::E>) -> bool;
    /// starts_with(v), ends_with(v), contains each of v, is_sorted
    fn queries(&self, v: &[Self::E]) -> [bool; 4];
    /// Elements seen through whatever range view the container offers (may panic on bad ranges).
    fn view(&self, how: usize, i: usize, j: usize, out: &mut Vec<u32>);
    /// Copy of part of the container through its range view.
    fn sub_copy(&self, i: usize, j: usize) -> Self;
    fn eq_view(&self, _o: &Self) -> Option<(bool, bool)> {
        None
    }
    fn inline_cap() -> usize {
        0
    }
    /// Build from an inline array holding the given elements; returns what was left in it.
    fn from_inline(_v: Vec<Self::E>, _by_ref: bool, _back: &mut Vec<Self::E>) -> Result<Self, Pan> {
        unreachable!()
    }
}

macro_rules! range_view {
    ($s:expr, $how:expr, $i:expr, $j:expr) => {
        match $how % 6 {
            0 => &$s[$i..$j],
            1 => &$s[$i..=$j],
            2 => &$s[..$j],
            3 => &$s[..=$j],
            4 => &$s[$i..],
            _ => &$s[..],
        }
    };
}

impl<E: RefExtend, const N: usize> SeqC for Chunk<E, N> {
    type E = E;
    const KIND: Kind = Kind::Chunk;
    const REFS: bool = E::REFS;
    fn cap() -> usize {
        N
    }
    fn make() -> Self {
        Chunk::new()
    }
    fn make_at(p: *mut MaybeUninit<Self>, how: usize) {
        unsafe {
            match how % 3 {
                0 => PoolDefault::default_uninit(&mut *p),
                1 => ptr::write(p as *mut Self, Chunk::new()),
                _ => ptr::write(p as *mut Self, Default::default()),
            }
        }
    }
    fn pool_clone(&self, p: *mut MaybeUninit<Self>) -> bool {
        unsafe { self.clone_uninit(&mut *p) }
        true
    }
    fn clen(&self) -> usize {
        Chunk::len(self)
    }
    fn cempty(&self) -> bool {
        Chunk::is_empty(self)
    }
    fn cfull(&self) -> bool {
        Chunk::is_full(self)
    }
    fn it(&self) -> impl DoubleEndedIterator<Item = &E> + ExactSizeIterator {
        self.into_iter()
    }
    fn it_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut E> + ExactSizeIterator {
        self.into_iter()
    }
    fn dr(&mut self) -> impl DoubleEndedIterator<Item = E> + ExactSizeIterator {
        let d: sized_chunk::Drain<'_, E, N> = self.drain();
        d
    }
    fn push_back(&mut self, e: E) {
        Chunk::push_back(self, e)
    }
    fn push_front(&mut self, e: E) {
        Chunk::push_front(self, e)
    }
    fn pop_back(&mut self) -> Option<E> {
        Some(Chunk::pop_back(self))
    }
    fn pop_front(&mut self) -> Option<E> {
        Some(Chunk::pop_front(self))
    }
    fn insert_at(&mut self, i: usize, e: E) {
        Chunk::insert(self, i, e)
    }
    fn remove_at(&mut self, i: usize) -> Option<E> {
        Some(Chunk::remove(self, i))
    }
    fn set_at(&mut self, i: usize, e: E) -> Option<E> {
        Some(Chunk::set(self, i, e))
    }
    fn get_at(&self, i: usize) -> Option<&E> {
        self.as_slice().get(i)
    }
    fn get_mut_at(&mut self, i: usize) -> Option<&mut E> {
        self.as_mut_slice().get_mut(i)
    }
    fn index_at(&self, i: usize) -> &E {
        &self[i]
    }
    fn index_mut_at(&mut self, i: usize) -> &mut E {
        &mut self[i]
    }
    fn first_last(&self) -> (Option<&E>, Option<&E>) {
        let s: &[E] = self.as_ref();
        (s.first(), s.last())
    }
    fn swap_at(&mut self, i: usize, j: usize) {
        let s: &mut [E] = self.as_mut();
        s.swap(i, j)
    }
    fn clear_all(&mut self) {
        self.clear()
    }
    fn drop_l(&mut self, i: usize) {
        self.drop_left(i)
    }
    fn drop_r(&mut self, i: usize) {
        self.drop_right(i)
    }
    fn split(&mut self, i: usize) -> Self {
        self.split_off(i)
    }
    fn append_all(&mut self, o: &mut Self) {
        self.append(o)
    }
    fn dff(&mut self, o: &mut Self, n: usize) {
        self.drain_from_front(o, n)
    }
    fn dfb(&mut self, o: &mut Self, n: usize) {
        self.drain_from_back(o, n)
    }
    fn from_f(o: &mut Self, n: usize) -> Self {
        Chunk::from_front(o, n)
    }
    fn from_b(o: &mut Self, n: usize) -> Self {
        Chunk::from_back(o, n)
    }
    fn drain_f(o: &mut Self) -> Self {
        Chunk::drain_from(o)
    }
    fn collect_f<I: Iterator<Item = E>>(i: &mut I, n: usize) -> Self {
        Chunk::collect_from(i, n)
    }
    fn unit1(e: E) -> Self {
        Chunk::unit(e)
    }
    fn pair2(e: E, f: E) -> Self {
        Chunk::pair(e, f)
    }
    fn insert_many<S, I>(&mut self, i: usize, s: S)
    where
        S: IntoIterator<Item = E, IntoIter = I>,
        I: ExactSizeIterator<Item = E>,
    {
        self.insert_from(i, s)
    }
    fn insert_ord(&mut self, e: E) {
        self.insert_ordered(e)
    }
    fn ext_refs(&mut self, s: &[E]) -> bool {
        E::ext_chunk(self, s)
    }
    fn ext_refs_of(&mut self, o: &Self) {
        E::ext_chunk_of(self, o)
    }
    fn sort_it(&mut self, how: usize) {
        match how % 4 {
            0 => self.sort(),
            1 => self.sort_unstable(),
            2 => self.sort_by(|a, b| b.cmp(a)),
            _ => self.reverse(),
        }
    }
    fn bsearch(&self, e: &E) -> Result<usize, usize> {
        self.binary_search(e)
    }
    fn queries(&self, v: &[E]) -> [bool; 4] {
        [self.starts_with(v), self.ends_with(v), v.iter().all(|e| self.contains(e)), self.is_sorted()]
    }
    fn eq_vec(&self, v: &Vec<E>) -> bool {
        *self == *v && self.as_slice() == v.as_slice()
    }
    fn view(&self, how: usize, i: usize, j: usize, out: &mut Vec<u32>) {
        for e in range_view!(self, how, i, j) {
            out.push(e.id())
        }
    }
    fn sub_copy(&self, i: usize, j: usize) -> Self {
        self[i..j].iter().cloned().collect()
    }
    fn inline_cap() -> usize {
        if std::mem::align_of::<E>() > 8 || E::ZST {
            0
        } else {
            InlineArray::<E, [u64; 12]>::CAPACITY
        }
    }
    fn from_inline(v: Vec<E>, by_ref: bool, back: &mut Vec<E>) -> Result<Self, Pan> {
        let mut arr: InlineArray<E, [u64; 12]> = v.into_iter().collect();
        if by_ref {
            let r = guarded(|| Chunk::from(&mut arr));
            back.extend(arr);
            r
        } else {
            guarded(|| Chunk::from(arr))
        }
    }
}

impl<E: RefExtend, const N: usize> SeqC for RingBuffer<E, N> {
    type E = E;
    const KIND: Kind = Kind::Ring;
    const REFS: bool = true;
    fn cap() -> usize {
        N
    }
    fn make() -> Self {
        RingBuffer::new()
    }
    fn make_at(p: *mut MaybeUninit<Self>, how: usize) {
        unsafe {
            match how % 3 {
                0 => PoolDefault::default_uninit(&mut *p),
                1 => ptr::write(p as *mut Self, RingBuffer::new()),
                _ => ptr::write(p as *mut Self, Default::default()),
            }
        }
    }
    fn pool_clone(&self, p: *mut MaybeUninit<Self>) -> bool {
        unsafe { self.clone_uninit(&mut *p) }
        true
    }
    fn clen(&self) -> usize {
        HasLength::len(self)
    }
    fn cempty(&self) -> bool {
        HasLength::is_empty(self)
    }
    fn cfull(&self) -> bool {
        RingBuffer::is_full(self)
    }
    fn it(&self) -> impl DoubleEndedIterator<Item = &E> + ExactSizeIterator {
        let i: ring_buffer::Iter<'_, E, N> = self.iter();
        i
    }
    fn it_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut E> + ExactSizeIterator {
        self.iter_mut()
    }
    fn dr(&mut self) -> impl DoubleEndedIterator<Item = E> + ExactSizeIterator {
        self.drain()
    }
    fn push_back(&mut self, e: E) {
        RingBuffer::push_back(self, e)
    }
    fn push_front(&mut self, e: E) {
        RingBuffer::push_front(self, e)
    }
    fn pop_back(&mut self) -> Option<E> {
        RingBuffer::pop_back(self)
    }
    fn pop_front(&mut self) -> Option<E> {
        RingBuffer::pop_front(self)
    }
    fn insert_at(&mut self, i: usize, e: E) {
        RingBuffer::insert(self, i, e)
    }
    fn remove_at(&mut self, i: usize) -> Option<E> {
        Some(RingBuffer::remove(self, i))
    }
    fn set_at(&mut self, i: usize, e: E) -> Option<E> {
        ArrayMut::set(self, i, e)
    }
    fn get_at(&self, i: usize) -> Option<&E> {
        Array::get(self, i)
    }
    fn get_mut_at(&mut self, i: usize) -> Option<&mut E> {
        ArrayMut::get_mut(self, i)
    }
    fn index_at(&self, i: usize) -> &E {
        &self[i]
    }
    fn index_mut_at(&mut self, i: usize) -> &mut E {
        &mut self[i]
    }
    fn first_last(&self) -> (Option<&E>, Option<&E>) {
        (Array::first(self), Array::last(self))
    }
    fn swap_at(&mut self, i: usize, j: usize) {
        ArrayMut::swap(self, i, j)
    }
    fn clear_all(&mut self) {
        self.clear()
    }
    fn drop_l(&mut self, i: usize) {
        self.drop_left(i)
    }
    fn drop_r(&mut self, i: usize) {
        self.drop_right(i)
    }
    fn split(&mut self, i: usize) -> Self {
        self.split_off(i)
    }
    fn append_all(&mut self, o: &mut Self) {
        self.append(o)
    }
    fn dff(&mut self, o: &mut Self, n: usize) {
        self.drain_from_front(o, n)
    }
    fn dfb(&mut self, o: &mut Self, n: usize) {
        self.drain_from_back(o, n)
    }
    fn from_f(o: &mut Self, n: usize) -> Self {
        RingBuffer::from_front(o, n)
    }
    fn from_b(o: &mut Self, n: usize) -> Self {
        RingBuffer::from_back(o, n)
    }
    fn drain_f(o: &mut Self) -> Self {
        RingBuffer::drain_from(o)
    }
    fn collect_f<I: Iterator<Item = E>>(i: &mut I, n: usize) -> Self {
        RingBuffer::collect_from(i, n)
    }
    fn unit1(e: E) -> Self {
        RingBuffer::unit(e)
    }
    fn pair2(e: E, f: E) -> Self {
        RingBuffer::pair(e, f)
    }
    fn insert_many<S, I>(&mut self, i: usize, s: S)
    where
        S: IntoIterator<Item = E, IntoIter = I>,
        I: ExactSizeIterator<Item = E>,
    {
        self.insert_from(i, s)
    }
    fn insert_ord(&mut self, e: E) {
        self.insert_ordered(e)
    }
    fn ext_refs(&mut self, s: &[E]) -> bool {
        self.extend(s.iter());
        true
    }
    fn ext_refs_of(&mut self, o: &Self) {
        self.extend(o)
    }
    fn sort_it(&mut self, how: usize) {
        match how % 3 {
            0 => ArrayMut::sort_unstable(self),
            1 => ArrayMut::sort_unstable_by(self, |a, b| a.cmp(b)),
            _ => ArrayMut::sort_unstable_by(self, |a, b| b.cmp(a)),
        }
    }
    fn bsearch(&self, e: &E) -> Result<usize, usize> {
        match e.val() % 3 {
            0 => Array::binary_search(self, e),
            1 => Array::binary_search_by(self, |x| x.cmp(e)),
            _ => {
                let t = e.val();
                Array::binary_search_by_key(self, &t, |x| {
                    let v = x.val();
                    l().tick(F_CMP);
                    v
                })
            }
        }
    }
    fn queries(&self, v: &[E]) -> [bool; 4] {
        [
            Array::starts_with(self, v),
            Array::ends_with(self, v),
            v.iter().all(|e| Array::contains(self, e)),
            Array::is_sorted(self),
        ]
    }
    fn eq_vec(&self, v: &Vec<E>) -> bool {
        *self == *v
    }
    fn view(&self, how: usize, i: usize, j: usize, out: &mut Vec<u32>) {
        let s = match how % 6 {
            0 => self.slice(i..j),
            1 => self.slice(i..=j),
            2 => self.slice(..j),
            3 => self.slice(..=j),
            4 => self.slice(i..),
            _ => self.slice(..),
        };
        let n = HasLength::len(&s);
        for k in 0..n {
            out.push(s[k].id());
        }
        let v: Vec<u32> = s.iter().rev().map(|e| e.id()).collect();
        if !v.iter().rev().eq(out.iter()) {
            l().violation("contents", "a ring buffer slice reads differently by index and by reverse iteration".into());
        }
    }
    fn sub_copy(&self, i: usize, j: usize) -> Self {
        self.slice(i..j).to_owned()
    }
    fn eq_view(&self, o: &Self) -> Option<(bool, bool)> {
        Some((*self == o.slice(..), self.slice(..) == *o))
    }
}

impl<E: RefExtend, T: 'static> SeqC for InlineArray<E, T> {
    type E = E;
    const KIND: Kind = Kind::Inline;
    const REFS: bool = E::REFS;
    fn cap() -> usize {
        InlineArray::<E, T>::CAPACITY
    }
    fn make() -> Self {
        InlineArray::new()
    }
    fn make_at(p: *mut MaybeUninit<Self>, how: usize) {
        unsafe {
            match how % 2 {
                0 => ptr::write(p as *mut Self, InlineArray::new()),
                _ => ptr::write(p as *mut Self, Default::default()),
            }
        }
    }
    fn clen(&self) -> usize {
        InlineArray::len(self)
    }
    fn cempty(&self) -> bool {
        InlineArray::is_empty(self)
    }
    fn cfull(&self) -> bool {
        InlineArray::is_full(self)
    }
    fn it(&self) -> impl DoubleEndedIterator<Item = &E> + ExactSizeIterator {
        self.into_iter()
    }
    fn it_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut E> + ExactSizeIterator {
        self.into_iter()
    }
    fn dr(&mut self) -> impl DoubleEndedIterator<Item = E> + ExactSizeIterator {
        let d: inline_array::Drain<'_, E, T> = self.drain();
        d
    }
    fn push_back(&mut self, e: E) {
        self.push(e)
    }
    fn pop_back(&mut self) -> Option<E> {
        self.pop()
    }
    fn insert_at(&mut self, i: usize, e: E) {
        InlineArray::insert(self, i, e)
    }
    fn remove_at(&mut self, i: usize) -> Option<E> {
        InlineArray::remove(self, i)
    }
    fn set_at(&mut self, i: usize, e: E) -> Option<E> {
        Some(std::mem::replace(&mut self[i], e))
    }
    fn get_at(&self, i: usize) -> Option<&E> {
        self.get(i)
    }
    fn get_mut_at(&mut self, i: usize) -> Option<&mut E> {
        self.get_mut(i)
    }
    fn index_at(&self, i: usize) -> &E {
        &self[i]
    }
    fn index_mut_at(&mut self, i: usize) -> &mut E {
        &mut self[i]
    }
    fn first_last(&self) -> (Option<&E>, Option<&E>) {
        let s: &[E] = self.as_ref();
        (s.first(), s.last())
    }
    fn swap_at(&mut self, i: usize, j: usize) {
        let s: &mut [E] = self.as_mut();
        s.swap(i, j)
    }
    fn clear_all(&mut self) {
        self.clear()
    }
    fn split(&mut self, i: usize) -> Self {
        self.split_off(i)
    }
    fn ext_refs(&mut self, s: &[E]) -> bool {
        E::ext_inline(self, s)
    }
    fn ext_refs_of(&mut self, o: &Self) {
        E::ext_inline_of(self, o)
    }
    fn sort_it(&mut self, how: usize) {
        match how % 4 {
            0 => self.sort(),
            1 => self.sort_unstable(),
            2 => self.sort_by(|a, b| b.cmp(a)),
            _ => self.reverse(),
        }
    }
    fn bsearch(&self, e: &E) -> Result<usize, usize> {
        self.binary_search(e)
    }
    fn queries(&self, v: &[E]) -> [bool; 4] {
        [self.starts_with(v), self.ends_with(v), v.iter().all(|e| self.contains(e)), self.is_sorted()]
    }
    fn eq_vec(&self, v: &Vec<E>) -> bool {
        *self == *v
    }
    fn view(&self, how: usize, i: usize, j: usize, out: &mut Vec<u32>) {
        for e in range_view!(self, how, i, j) {
            out.push(e.id())
        }
    }
    fn sub_copy(&self, i: usize, j: usize) -> Self {
        self[i..j].iter().cloned().collect()
    }
}

// ---------------------------------------------------------------- dynamic interface
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    Mint,
    HandToArg,
    HandDrop,
    Reset,
    PushBack,
    PushFront,
    PopBack,
    PopFront,
    Insert,
    Remove,
    Set,
    Get,
    IndexAt,
    IndexMutAt,
    FirstLast,
    Swap,
    Clear,
    DropLeft,
    DropRight,
    Split,
    Append,
    DrainFromFront,
    DrainFromBack,
    FromFront,
    FromBack,
    DrainFrom,
    CollectFrom,
    FromIter,
    Extend,
    ExtendRefs,
    ExtendRefsOf,
    InsertFrom,
    InsertOrdered,
    CloneTo,
    CloneFrom,
    PoolClone,
    SubCopy,
    Rel,
    EqVec,
    Sort,
    BSearch,
    View,
    Drain,
    DrainInto,
    IterWalk,
    IterMutWalk,
    IntoIter,
    FlightStep,
    FlightEnd,
    FlightTo,
    Unit,
    Pair,
    FromInline,
    MoveSite,
    DropSite,
    ForgetSite,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub f: F,
    pub a: usize,
    pub b: usize,
    pub x: usize,
    pub y: usize,
    pub z: u64,
    pub it: IterSpec,
    pub vals: Vec<i32>,
}
impl Call {
    pub fn new(f: F, a: usize) -> Self {
        Call { f, a, b: 0, x: 0, y: 0, z: 0, it: Default::default(), vals: vec![] }
    }
    pub fn b(mut self, b: usize) -> Self {
        self.b = b;
        self
    }
    pub fn x(mut self, x: usize) -> Self {
        self.x = x;
        self
    }
    pub fn y(mut self, y: usize) -> Self {
        self.y = y;
        self
    }
    pub fn z(mut self, z: u64) -> Self {
        self.z = z;
        self
    }
    pub fn it(mut self, it: IterSpec) -> Self {
        self.it = it;
        self
    }
    pub fn vals(mut self, v: Vec<i32>) -> Self {
        self.vals = v;
        self
    }
}

#[derive(Default, Debug, Clone)]
pub struct Ret {
    pub ids: Vec<u32>,
    pub n: Vec<i64>,
}

pub struct Snap {
    pub len: usize,
    pub empty: bool,
    pub full: bool,
    pub ids: Vec<u32>,
    pub off: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub kind: Kind,
    pub cap: usize,
    pub zst: bool,
    pub tracked: bool,
    pub dup: bool,
    pub refs: bool,
    pub inline_cap: usize,
}

pub trait RigDyn {
    fn info(&self) -> Info;
    fn snap(&mut self, site: usize, deep: bool) -> Snap;
    fn canary(&self) -> bool;
    fn call(&mut self, c: &Call) -> Result<Ret, Pan>;
    fn flight_len(&self, k: usize) -> usize;
    fn flights(&self) -> usize;
    fn teardown(&mut self);
}

pub const SITES: usize = 3;
const CAN: u64 = 0x5a5a_c0de_d00d_a5a5;

#[repr(C)]
pub struct Slot<C> {
    pre: [u64; 8],
    c: MaybeUninit<C>,
    post: [u64; 8],
}
impl<C> Slot<C> {
    pub fn boxed() -> Box<Self> {
        let mut b: Box<MaybeUninit<Slot<C>>> = Box::new(MaybeUninit::uninit());
        unsafe {
            ptr::write_bytes(b.as_mut_ptr() as *mut u8, 0xDB, std::mem::size_of::<Self>());
            let p = b.as_mut_ptr();
            ptr::write(ptr::addr_of_mut!((*p).pre), [CAN; 8]);
            ptr::write(ptr::addr_of_mut!((*p).post), [CAN; 8]);
            Box::from_raw(Box::into_raw(b) as *mut Slot<C>)
        }
    }
    pub fn poison(&mut self) {
        unsafe { ptr::write_bytes(self.c.as_mut_ptr() as *mut u8, 0xDB, std::mem::size_of::<C>()) }
    }
    pub fn ok(&self) -> bool {
        self.pre == [CAN; 8] && self.post == [CAN; 8]
    }
    pub fn get(&self) -> &C {
        unsafe { &*self.c.as_ptr() }
    }
    pub fn get_mut(&mut self) -> &mut C {
        unsafe { &mut *self.c.as_mut_ptr() }
    }
    pub fn raw(&mut self) -> *mut MaybeUninit<C> {
        &mut self.c
    }
}

pub struct Rig<C: SeqC> {
    sites: Vec<Box<Slot<C>>>,
    hand: Vec<C::E>,
    arg: Vec<C::E>,
    infl: Vec<C::IntoIter>,
}

/// Advance an iterator in a pattern of front/back/skip/len steps and record everything seen.
/// The engine runs the same function over the model's own queue.
pub fn walk<I: DoubleEndedIterator + ExactSizeIterator>(
    it: &mut I,
    pat: u64,
    steps: usize,
    out: &mut Vec<i64>,
    take: &mut dyn FnMut(I::Item) -> i64,
) {
    let mut p = pat;
    for _ in 0..steps {
        let c = p & 7;
        p = p.rotate_right(3) ^ (p >> 61);
        let mut see = |o: Option<I::Item>, out: &mut Vec<i64>| match o {
            Some(e) => {
                let v = take(e);
                out.push(v)
            }
            None => out.push(-1),
        };
        match c {
            0..=2 => {
                let o = it.next();
                see(o, out)
            }
            3 | 4 => {
                let o = it.next_back();
                see(o, out)
            }
            5 => {
                let (lo, hi) = it.size_hint();
                out.push(it.len() as i64);
                out.push(lo as i64);
                out.push(hi.map(|x| x as i64).unwrap_or(-1));
            }
            6 => {
                let k = skip(p, it.len());
                let o = it.nth(k);
                see(o, out)
            }
            _ => {
                let k = skip(p, it.len());
                let o = it.nth_back(k);
                see(o, out)
            }
        }
    }
}

/// How many elements to skip: usually few, sometimes about all that are left, sometimes an enormous number.
pub fn skip(p: u64, left: usize) -> usize {
    match p >> 2 & 15 {
        0 => usize::MAX - (p >> 6 & 3) as usize,
        1 => left,
        2 => left.saturating_sub(1),
        _ => (p & 3) as usize,
    }
}

pub const END_DROP: usize = 0;
pub const END_EXHAUST: usize = 1;
pub const END_FORGET: usize = 2;
pub const END_PANIC: usize = 3;
pub const END_COUNT: usize = 4;
pub const END_LAST: usize = 5;
pub const END_FOLD: usize = 6;
pub const END_REV: usize = 7;
/// a short-circuiting consumer that stops after two, then the rest by hand
pub const END_TRY: usize = 8;
pub const END_RTRY: usize = 9;
pub const END_RFOLD: usize = 10;
pub const END_STEP: usize = 11;
pub const END_SKIP: usize = 12;
pub const END_MINMAX: usize = 13;
pub const N_ENDS: usize = 14;

/// Bring an iterator to its end in one of several ways.
pub fn finish<I: DoubleEndedIterator + ExactSizeIterator>(
    mut it: I,
    how: usize,
    bound: usize,
    out: &mut Vec<i64>,
    take: &mut dyn FnMut(I::Item) -> i64,
) {
    match how % N_ENDS {
        END_DROP => drop(it),
        END_EXHAUST => {
            let mut n = 0;
            while let Some(e) = it.next() {
                let v = take(e);
                out.push(v);
                n += 1;
                if n > bound {
                    l().violation("endless", "iterator yields more elements than ever existed".into());
                    return;
                }
            }
            // exhausted: stays exhausted
            out.push(it.next().map(|e| take(e)).unwrap_or(-1));
            out.push(it.next_back().map(|e| take(e)).unwrap_or(-1));
            out.push(it.len() as i64);
            out.push(it.next().map(|e| take(e)).unwrap_or(-1));
        }
        END_FORGET => std::mem::forget(it),
        END_PANIC => {
            let _alive = it;
            std::panic::panic_any(Injected(F_BODY));
        }
        END_COUNT => out.push(it.count() as i64),
        END_LAST => {
            let o = it.last();
            out.push(o.map(|e| take(e)).unwrap_or(-1))
        }
        END_TRY | END_RTRY => {
            for _ in 0..2 {
                let mut n = 0;
                let mut visit = |e: I::Item| {
                    let v = take(e);
                    out.push(v);
                    n += 1;
                    if n == 2 {
                        None
                    } else {
                        Some(())
                    }
                };
                let full = if how % N_ENDS == END_TRY {
                    it.try_for_each(&mut visit)
                } else {
                    it.try_rfold((), |_, e| visit(e))
                };
                out.push(full.is_some() as i64);
                out.push(it.len() as i64);
            }
            drop(it)
        }
        END_RFOLD => {
            let mut n = 0;
            it.rev().for_each(|e| {
                let v = take(e);
                out.push(v);
                n += 1;
                if n > bound {
                    l().violation("endless", "reversed iterator yields more elements than ever existed".into());
                    std::panic::panic_any(Injected(F_BODY));
                }
            })
        }
        END_STEP | END_SKIP => {
            let mut n = 0;
            let mut f = |e: I::Item| {
                let v = take(e);
                out.push(v);
                n += 1;
                if n > bound {
                    l().violation("endless", "stepping iterator yields more elements than ever existed".into());
                    std::panic::panic_any(Injected(F_BODY));
                }
            };
            if how % N_ENDS == END_STEP {
                it.step_by(2).for_each(&mut f)
            } else {
                it.rev().skip(1).rev().skip(1).for_each(&mut f)
            }
        }
        END_MINMAX => {
            // reductions that keep one element and discard the others
            let o = it.by_ref().take(3).reduce(|_, b| b);
            out.push(o.map(|e| take(e)).unwrap_or(-1));
            let o = it.reduce(|a, _| a);
            out.push(o.map(|e| take(e)).unwrap_or(-1));
        }
        END_FOLD => {
            let mut n = 0;
            it.for_each(|e| {
                let v = take(e);
                out.push(v);
                n += 1;
                if n > bound {
                    l().violation("endless", "iterator yields more elements than ever existed".into());
                    std::panic::panic_any(Injected(F_BODY));
                }
            })
        }
        _ => {
            let mut n = 0;
            for e in it.rev() {
                let v = take(e);
                out.push(v);
                n += 1;
                if n > bound {
                    l().violation("endless", "reversed iterator yields more elements than ever existed".into());
                    return;
                }
            }
        }
    }
}

/// Output sink for Debug: hashes what it gets and fails the write numbered `fail`.
struct FmtBuf {
    hash: Fnv0,
    writes: u64,
    fail: u64,
}
type Fnv0 = crate::rng::Fnv;
impl std::fmt::Write for FmtBuf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.writes += 1;
        if self.writes == self.fail {
            return Err(std::fmt::Error);
        }
        std::hash::Hasher::write(&mut self.hash, s.as_bytes());
        Ok(())
    }
}
/// The numbers in a text, in order, with the least number of digits any was printed with.
fn ints(s: &str) -> (Vec<i64>, usize) {
    let mut out = vec![];
    let mut least = usize::MAX;
    for part in s.split(|c: char| !c.is_ascii_digit() && c != '-').filter(|p| p.bytes().any(|b| b != b'-')) {
        out.push(part.bytes().filter(|b| *b != b'-').fold(0i64, |n, b| n.wrapping_mul(10).wrapping_add((b - b'0') as i64)));
        least = least.min(part.len());
    }
    (out, least)
}
/// The numbers printed by Debug, in order. What the formatter is asked for (width, sign, one per line)
/// has to reach the elements, as it does for a list.
pub fn dbg_ints<T: std::fmt::Debug>(t: &T) -> Vec<i64> {
    let (out, _) = ints(&format!("{:?}", t));
    let (wide, least) = ints(&format!("{:012?}", t));
    if wide != out || least < 12 {
        l().violation("answer", format!("printed with a width of 12 digits: {:?}, without: {:?}, the shortest has {}", wide, out, least));
    }
    let alt = format!("{:#?}", t);
    if ints(&alt).0 != out || alt.lines().count() < out.len() && out.len() > 2 && !alt.contains(": ") {
        l().violation("answer", format!("printed one per line: {:?}, printed in one: {:?}", alt, out));
    }
    out
}
pub fn dbg_hash<T: std::fmt::Debug>(t: &T, alt: bool) -> u64 {
    use std::fmt::Write;
    let print = |b: &mut FmtBuf| if alt { write!(b, "{:#?}", t) } else { write!(b, "{:?}", t) };
    let mut b = FmtBuf { hash: Fnv0::default(), writes: 0, fail: 0 };
    if print(&mut b).is_err() {
        l().violation("answer", "formatting failed though every write succeeded".into());
    }
    // Once more, into a sink that refuses one write: the failure has to be passed on.
    if b.writes > 0 {
        let fail = 1 + b.hash.0 % b.writes;
        let mut f = FmtBuf { hash: Fnv0::default(), writes: 0, fail };
        let r = print(&mut f);
        *l().probes.entry("formatter_write_failed").or_insert(0) += 1;
        if r.is_ok() {
            l().violation("answer", format!("formatting reported success though write {} of {} failed", fail, b.writes));
        }
    }
    b.hash.0
}
pub fn fnv_hash<T: std::hash::Hash>(t: &T) -> u64 {
    let mut h = Fnv0::default();
    t.hash(&mut h);
    h.0
}

impl<C: SeqC> Rig<C> {
    pub fn new() -> Self {
        let mut sites = vec![];
        for i in 0..SITES {
            let mut s: Box<Slot<C>> = Slot::boxed();
            C::make_at(s.raw(), i);
            sites.push(s);
        }
        Rig { sites, hand: vec![], arg: vec![], infl: vec![] }
    }
    fn c(&mut self, i: usize) -> &mut C {
        self.sites[i].get_mut()
    }
    fn two(&mut self, a: usize, b: usize) -> (&mut C, &mut C) {
        assert!(a != b);
        let pa: *mut C = self.sites[a].get_mut();
        let pb: *mut C = self.sites[b].get_mut();
        unsafe { (&mut *pa, &mut *pb) }
    }
    fn put(&mut self, b: usize, c: C) {
        let s = &mut self.sites[b];
        unsafe { ptr::drop_in_place(s.get_mut()) };
        s.poison();
        unsafe { ptr::write(s.raw() as *mut C, c) }
    }
    fn fresh(&mut self, a: usize, how: usize) {
        let s = &mut self.sites[a];
        s.poison();
        C::make_at(s.raw(), how);
    }
    fn give(&mut self, e: C::E, r: &mut Ret) {
        r.ids.push(e.id());
        self.hand.push(e);
    }
    fn give_opt(&mut self, e: Option<C::E>, r: &mut Ret) {
        match e {
            Some(e) => {
                r.n.push(1);
                self.give(e, r)
            }
            None => r.n.push(0),
        }
    }
    fn source(&mut self, c: &Call) -> SimIter<C::E> {
        let items: VecDeque<C::E> = c.vals.iter().map(|v| C::E::mint(*v)).collect();
        SimIter::new(items, c.it)
    }
    fn run(&mut self, c: &Call, r: &mut Ret) {
        let (a, b) = (c.a, c.b);
        match c.f {
            F::Mint => {
                let e = C::E::mint(c.x as i32);
                r.ids.push(e.id());
                self.arg.push(e);
            }
            F::HandToArg => {
                let e = self.hand.remove(c.x);
                r.ids.push(e.id());
                self.arg.push(e);
            }
            F::HandDrop => {
                let e = self.hand.remove(c.x);
                r.ids.push(e.id());
                drop(e);
            }
            F::Reset => {
                unsafe { ptr::drop_in_place(self.sites[a].get_mut()) };
                self.fresh(a, c.x);
            }
            F::PushBack => {
                let e = self.arg.pop().unwrap();
                self.c(a).push_back(e)
            }
            F::PushFront => {
                let e = self.arg.pop().unwrap();
                self.c(a).push_front(e)
            }
            F::PopBack => {
                let o = self.c(a).pop_back();
                self.give_opt(o, r)
            }
            F::PopFront => {
                let o = self.c(a).pop_front();
                self.give_opt(o, r)
            }
            F::Insert => {
                let e = self.arg.pop().unwrap();
                self.c(a).insert_at(c.x, e)
            }
            F::Remove => {
                let o = self.c(a).remove_at(c.x);
                self.give_opt(o, r)
            }
            F::Set => {
                let e = self.arg.pop().unwrap();
                let o = self.c(a).set_at(c.x, e);
                self.give_opt(o, r)
            }
            F::Get => {
                let cc = self.c(a);
                match cc.get_at(c.x) {
                    Some(e) => {
                        r.n.push(1);
                        r.ids.push(e.id())
                    }
                    None => r.n.push(0),
                }
                match cc.get_mut_at(c.x) {
                    Some(e) => {
                        r.n.push(1);
                        r.ids.push(e.id())
                    }
                    None => r.n.push(0),
                }
            }
            F::IndexAt => {
                let id = self.c(a).index_at(c.x).id();
                r.ids.push(id)
            }
            F::IndexMutAt => {
                let id = self.c(a).index_mut_at(c.x).id();
                r.ids.push(id)
            }
            F::FirstLast => {
                let (f, g) = self.c(a).first_last();
                for o in [f, g] {
                    match o {
                        Some(e) => {
                            r.n.push(1);
                            r.ids.push(e.id())
                        }
                        None => r.n.push(0),
                    }
                }
            }
            F::Swap => self.c(a).swap_at(c.x, c.y),
            F::Clear => self.c(a).clear_all(),
            F::DropLeft => self.c(a).drop_l(c.x),
            F::DropRight => self.c(a).drop_r(c.x),
            F::Split => {
                let n = self.c(a).split(c.x);
                self.put(b, n)
            }
            F::Append => {
                let (p, q) = self.two(a, b);
                p.append_all(q)
            }
            F::DrainFromFront => {
                let (p, q) = self.two(a, b);
                p.dff(q, c.x)
            }
            F::DrainFromBack => {
                let (p, q) = self.two(a, b);
                p.dfb(q, c.x)
            }
            F::FromFront => {
                let n = C::from_f(self.c(a), c.x);
                self.put(b, n)
            }
            F::FromBack => {
                let n = C::from_b(self.c(a), c.x);
                self.put(b, n)
            }
            F::DrainFrom => {
                let n = C::drain_f(self.c(a));
                self.put(b, n)
            }
            F::CollectFrom => {
                let mut s = self.source(c);
                let n = C::collect_f(&mut s, c.x);
                self.put(b, n)
            }
            F::FromIter => {
                let s = self.source(c);
                let n: C = SimSrc(s).into_iter_collect();
                self.put(b, n)
            }
            F::Extend => {
                let s = self.source(c);
                self.c(a).extend(SimSrc(s))
            }
            F::ExtendRefs => {
                let v: Vec<C::E> = c.vals.iter().map(|v| C::E::mint(*v)).collect();
                for e in &v {
                    r.ids.push(e.id());
                }
                self.c(a).ext_refs(&v);
            }
            F::ExtendRefsOf => {
                // elements borrowed from another container
                let (p, q) = self.two(a, b);
                p.ext_refs_of(q);
            }
            F::InsertFrom => {
                let s = self.source(c);
                self.c(a).insert_many(c.x, SimSrc(s))
            }
            F::InsertOrdered => {
                let e = self.arg.pop().unwrap();
                self.c(a).insert_ord(e)
            }
            F::CloneTo => {
                let n = self.c(a).clone();
                self.put(b, n)
            }
            F::CloneFrom => {
                let (p, q) = self.two(a, b);
                q.clone_from(p)
            }
            F::PoolClone => {
                unsafe { ptr::drop_in_place(self.sites[b].get_mut()) };
                self.sites[b].poison();
                let p = self.sites[b].raw();
                let src = self.sites[a].get();
                let res = guarded(|| src.pool_clone(p));
                match res {
                    Ok(_) => {}
                    Err(e) => {
                        self.fresh(b, 1);
                        match e {
                            Pan::Inj(k) => std::panic::panic_any(Injected(k)),
                            Pan::Lib(s) => panic!("{}", s),
                        }
                    }
                }
            }
            F::SubCopy => {
                let n = self.c(a).sub_copy(c.x, c.y);
                self.put(b, n)
            }
            F::Rel => {
                let (p, q) = self.two(a, b);
                let (p, q): (&C, &C) = (p, q);
                r.n.push((*p == *q) as i64);
                r.n.push((*q == *p) as i64);
                r.n.push((*p != *q) as i64);
                r.n.push(p.cmp(q) as i64);
                r.n.push(q.cmp(p) as i64);
                r.n.push(p.partial_cmp(q).map(|o| o as i64).unwrap_or(9));
                r.n.push((*p < *q) as i64);
                r.n.push(fnv_hash(p) as i64);
                r.n.push(fnv_hash(q) as i64);
                r.n.push(dbg_hash(p, false) as i64);
                r.n.push(dbg_hash(q, false) as i64);
                r.n.push(dbg_hash(p, true) as i64);
                r.n.push(dbg_hash(q, true) as i64);
                match p.eq_view(q) {
                    Some((x, y)) => {
                        r.n.push(x as i64);
                        r.n.push(y as i64);
                    }
                    None => {
                        let e = r.n[0];
                        r.n.push(e);
                        r.n.push(e);
                    }
                }
                r.n.extend(dbg_ints(p));
            }
            F::EqVec => {
                let v: Vec<C::E> = c.vals.iter().map(|v| C::E::mint(*v)).collect();
                let e = self.c(a).eq_vec(&v);
                r.n.push(e as i64);
                if c.z % 2 == 1 {
                    let cut = c.y.min(v.len());
                    let p = if c.z % 4 == 1 { &v[..cut] } else { &v[cut..] };
                    r.n.extend(self.c(a).queries(p).iter().map(|b| *b as i64));
                }
            }
            F::Sort => self.c(a).sort_it(c.x),
            F::BSearch => {
                let e = C::E::mint(c.x as i32);
                match self.c(a).bsearch(&e) {
                    Ok(i) => {
                        r.n.push(1);
                        r.n.push(i as i64)
                    }
                    Err(i) => {
                        r.n.push(0);
                        r.n.push(i as i64)
                    }
                }
            }
            F::View => {
                let mut v = vec![];
                self.c(a).view(c.z as usize, c.x, c.y, &mut v);
                r.ids = v;
            }
            F::Drain => {
                let bound = self.c(a).clen() + 4;
                let mut got: Vec<C::E> = vec![];
                let res = {
                    let cc = self.sites[a].get_mut();
                    let n = &mut r.n;
                    guarded(|| {
                        let mut d = cc.dr();
                        let mut take = |e: C::E| {
                            let id = e.id() as i64;
                            got.push(e);
                            id
                        };
                        walk(&mut d, c.z, c.x, n, &mut take);
                        finish(d, c.y, bound, n, &mut take);
                    })
                };
                for e in got {
                    self.give(e, r);
                }
                rethrow(res);
            }
            F::DrainInto => {
                let (p, q) = self.two(a, b);
                match c.x {
                    0 => q.extend(p.dr()),
                    1 => q.extend(p.dr().rev()),
                    _ => q.insert_many(c.y, p.dr()),
                }
            }
            F::IterWalk => {
                let cc = self.c(a);
                let bound = cc.clen() + 4;
                let n = &mut r.n;
                let mut it = cc.it();
                let mut take = |e: &C::E| e.id() as i64;
                walk(&mut it, c.z, c.x, n, &mut take);
                finish(it, c.y, bound, n, &mut take);
            }
            F::IterMutWalk => {
                let cc = self.c(a);
                match c.x {
                    0 => {
                        // reverse through pairs of live mutable references
                        let mut it = cc.it_mut();
                        let mut guard = 0;
                        loop {
                            match (it.next(), it.next_back()) {
                                (Some(p), Some(q)) => std::mem::swap(p, q),
                                _ => break,
                            }
                            guard += 1;
                            if guard > 5000 {
                                l().violation("endless", "mutable iterator does not end".into());
                                break;
                            }
                        }
                    }
                    1 => {
                        // all references alive at once must be distinct and in order
                        let bound = cc.clen();
                        let mut v: Vec<&mut C::E> = cc.it_mut().take(bound + 4).collect();
                        if v.len() > 1 {
                            for i in 0..v.len() - 1 {
                                let (x, y) = v.split_at_mut(i + 1);
                                std::mem::swap(&mut *x[i], &mut *y[0]);
                            }
                        }
                        r.n.push(v.len() as i64);
                    }
                    _ => {
                        let n = &mut r.n;
                        let bound = cc.clen() + 4;
                        let mut it = cc.it_mut();
                        let mut take = |e: &mut C::E| e.id() as i64;
                        walk(&mut it, c.z, c.y / N_ENDS, n, &mut take);
                        finish(it, c.y % N_ENDS, bound, n, &mut take);
                    }
                }
            }
            F::IntoIter => {
                let s = &mut self.sites[a];
                let cc = unsafe { ptr::read(s.get()) };
                self.fresh(a, c.x);
                self.infl.push(cc.into_iter());
            }
            F::FlightStep => {
                let mut got = vec![];
                {
                    let it = &mut self.infl[c.x];
                    let mut take = |e: C::E| {
                        let id = e.id() as i64;
                        got.push(e);
                        id
                    };
                    walk(it, c.z, c.y, &mut r.n, &mut take);
                }
                for e in got {
                    self.give(e, r);
                }
            }
            F::FlightEnd => {
                let it = self.infl.remove(c.x);
                let bound = it.len() + 4;
                let mut got: Vec<C::E> = vec![];
                let res = {
                    let n = &mut r.n;
                    guarded(|| {
                        let mut take = |e: C::E| {
                            let id = e.id() as i64;
                            got.push(e);
                            id
                        };
                        finish(it, c.y, bound, n, &mut take)
                    })
                };
                for e in got {
                    self.give(e, r);
                }
                rethrow(res);
            }
            F::FlightTo => {
                let it = self.infl.remove(c.x);
                match c.y {
                    0 => {
                        let n: C = it.collect();
                        self.put(b, n)
                    }
                    1 => self.c(b).extend(it),
                    2 => {
                        let n: C = it.rev().collect();
                        self.put(b, n)
                    }
                    _ => {
                        let i = c.z as usize;
                        self.c(b).insert_many(i, it)
                    }
                }
            }
            F::Unit => {
                let e = self.arg.pop().unwrap();
                let n = C::unit1(e);
                self.put(b, n)
            }
            F::Pair => {
                let f = self.arg.pop().unwrap();
                let e = self.arg.pop().unwrap();
                let n = C::pair2(e, f);
                self.put(b, n)
            }
            F::FromInline => {
                let v: Vec<C::E> = c.vals.iter().map(|v| C::E::mint(*v)).collect();
                for e in &v {
                    r.ids.push(e.id());
                }
                let mut back = vec![];
                let res = C::from_inline(v, c.x == 1, &mut back);
                r.n.push(back.len() as i64);
                for e in back {
                    r.n.push(e.id() as i64);
                    self.hand.push(e);
                }
                match res {
                    Ok(n) => {
                        r.n.push(-7);
                        self.put(b, n)
                    }
                    Err(e) => rethrow(Err(e)),
                }
            }
            F::MoveSite => {
                // memory move: swap the two containers' locations
                let pa = self.sites[a].raw() as *mut C;
                let pb = self.sites[b].raw() as *mut C;
                unsafe { ptr::swap(pa, pb) };
            }
            F::DropSite => {
                let p: *mut C = self.sites[a].get_mut();
                let res = guarded(|| unsafe { ptr::drop_in_place(p) });
                self.fresh(a, c.x);
                rethrow(res);
            }
            F::ForgetSite => self.fresh(a, c.x),
        }
    }
}

fn rethrow(r: Result<(), Pan>) {
    match r {
        Ok(()) => {}
        Err(Pan::Inj(k)) => std::panic::panic_any(Injected(k)),
        Err(Pan::Lib(s)) => panic!("{}", s),
    }
}

trait CollectVia<E: Elem>: Sized {
    fn into_iter_collect<C: FromIterator<E>>(self) -> C;
}
impl<E: Elem> CollectVia<E> for SimSrc<E> {
    fn into_iter_collect<C: FromIterator<E>>(self) -> C {
        C::from_iter(self)
    }
}

impl<C: SeqC> RigDyn for Rig<C> {
    fn info(&self) -> Info {
        Info {
            kind: C::KIND,
            cap: C::cap(),
            zst: C::E::ZST,
            tracked: C::E::TRACKED,
            dup: C::E::DUP,
            refs: C::REFS,
            inline_cap: C::inline_cap(),
        }
    }
    fn snap(&mut self, site: usize, deep: bool) -> Snap {
        let cc = self.sites[site].get_mut();
        let len = cc.clen();
        let base = cc as *const C as usize;
        let mut ids = Vec::with_capacity(len.min(80));
        let mut off = usize::MAX;
        {
            let mut it = cc.it();
            if it.len() != len {
                l().violation("contents", format!("iterator claims {} elements, container {}", it.len(), len));
            }
            let bound = len.min(100_000) + 4;
            while let Some(e) = it.next() {
                if off == usize::MAX {
                    off = (e as *const C::E as usize).wrapping_sub(base) / std::mem::size_of::<C::E>().max(1);
                }
                ids.push(e.id());
                if l().viol.is_some() {
                    break;
                }
                if ids.len() > bound {
                    l().violation("endless", "iteration yields more elements than the length".into());
                    break;
                }
            }
        }
        if deep && l().viol.is_none() {
            let back: Vec<u32> = cc.it().rev().take(len + 4).map(|e| e.id()).collect();
            if !back.iter().rev().eq(ids.iter()) {
                l().violation("contents", format!("reverse iteration {:?} disagrees with forward {:?}", back, ids));
            }
            for (i, id) in ids.iter().enumerate() {
                let g = cc.get_at(i).map(|e| e.id());
                let h = cc.index_at(i).id();
                if g != Some(*id) || h != *id {
                    l().violation("contents", format!("element {} is {:?} by lookup, {} by index, {} by iteration", i, g, h, id));
                    break;
                }
            }
            if cc.get_at(ids.len()).is_some() {
                l().violation("contents", "lookup past the end answers".into());
            }
        }
        Snap { len, empty: cc.cempty(), full: cc.cfull(), ids, off }
    }
    fn canary(&self) -> bool {
        self.sites.iter().all(|s| s.ok())
    }
    fn call(&mut self, c: &Call) -> Result<Ret, Pan> {
        let mut r = Ret::default();
        let res = {
            let rr = &mut r;
            guarded(|| self.run(c, rr))
        };
        match res {
            Ok(()) => Ok(r),
            Err(p) => {
                // whatever came back before the panic is in the hand; report it through the ledger
                l().yield_hand = r.ids.clone();
                l().yield_n = r.n.clone();
                Err(p)
            }
        }
    }
    fn flight_len(&self, k: usize) -> usize {
        self.infl[k].len()
    }
    fn flights(&self) -> usize {
        self.infl.len()
    }
    fn teardown(&mut self) {
        for i in 0..SITES {
            unsafe { ptr::drop_in_place(self.sites[i].get_mut()) };
            self.fresh(i, 1);
        }
        self.hand.clear();
        self.arg.clear();
        self.infl.clear();
    }
}

impl<C: SeqC> Drop for Rig<C> {
    fn drop(&mut self) {
        // Sites are emptied by teardown; after a violation they are deliberately leaked.
        if l().viol.is_some() {
            std::mem::forget(std::mem::take(&mut self.hand));
            std::mem::forget(std::mem::take(&mut self.arg));
            std::mem::forget(std::mem::take(&mut self.infl));
        }
    }
}
