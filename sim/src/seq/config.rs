//! The container instantiations a run may use.
use super::rig::*;
use crate::ledger::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};

pub struct Cfg {
    pub name: &'static str,
    pub kind: Kind,
    pub cap: usize,
    pub weight: u32,
    pub make: fn() -> Box<dyn RigDyn>,
}

fn mk<C: SeqC>() -> Box<dyn RigDyn> {
    Box::new(Rig::<C>::new())
}

/// Host of four 32-byte-aligned blocks: the header ends up behind the elements.
#[repr(align(32))]
pub struct Block(#[allow(dead_code)] [u8; 32]);

macro_rules! cfgs {
    ($( $w:literal $t:ty ),* $(,)?) => {
        vec![ $( Cfg {
            name: stringify!($t),
            kind: <$t as SeqC>::KIND,
            cap: <$t as SeqC>::cap(),
            weight: $w,
            make: mk::<$t>,
        } ),* ]
    };
}

pub fn all() -> Vec<Cfg> {
    cfgs![
        1 Chunk<Tok, 0>, 2 Chunk<Tok, 1>, 3 Chunk<Tok, 2>, 4 Chunk<Tok, 3>, 5 Chunk<Tok, 4>, 5 Chunk<Tok, 5>,
        4 Chunk<Tok, 8>, 3 Chunk<Tok, 16>, 1 Chunk<Tok, 64>,
        2 Chunk<Zst, 4>, 2 Chunk<Odd, 3>, 2 Chunk<Odd, 8>, 2 Chunk<Big, 5>, 2 Chunk<Cop, 8>, 1 Chunk<Pod, 6>,
        1 RingBuffer<Tok, 0>, 2 RingBuffer<Tok, 1>, 3 RingBuffer<Tok, 2>, 4 RingBuffer<Tok, 3>, 5 RingBuffer<Tok, 4>,
        5 RingBuffer<Tok, 5>, 4 RingBuffer<Tok, 8>, 3 RingBuffer<Tok, 16>, 1 RingBuffer<Tok, 64>,
        2 RingBuffer<Zst, 4>, 2 RingBuffer<Odd, 7>, 2 RingBuffer<Big, 5>, 2 RingBuffer<Cop, 8>, 1 RingBuffer<Pod, 6>,
        3 InlineArray<Tok, [u64; 2]>, 4 InlineArray<Tok, [u64; 4]>, 4 InlineArray<Tok, [u64; 6]>, 4 InlineArray<Tok, [u64; 9]>,
        2 InlineArray<Tok, [u64; 17]>, 2 InlineArray<Odd, [u8; 24]>, 2 InlineArray<Odd, [u8; 27]>, 
        2 InlineArray<Big, [Block; 4]>, 1 InlineArray<Zst, [u64; 2]>, 1 InlineArray<Big, [u64; 4]>,
        1 InlineArray<Tok, [u8; 12]>, 2 InlineArray<Cop, [u64; 7]>, 1 InlineArray<Pod, [u64; 7]>,
        1 Chunk<Zal, 3>, 1 RingBuffer<Zal, 5>, 2 InlineArray<Zal, [Block; 2]>, 2 InlineArray<Tok, [u128; 3]>, 2 InlineArray<Odd, [u16; 13]>,
        1 Chunk<Tok, 300>, 1 RingBuffer<Tok, 300>, 1 InlineArray<Tok, [u64; 301]>,
    ]
}
