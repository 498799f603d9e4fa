//! Moving grown collections into other storage, optionally with every legal
//! physical oddity: bit offsets, spare bytes, garbage padding, unreferenced
//! list data, values under nulls and omitted validity.

use crate::rng::Rng;
use crate::storage::House;
use crate::val::{Dist, Val};
use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{Buffer, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::{Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSize;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::Nullability;
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;

/// Which oddities to apply.
#[derive(Clone, Debug)]
pub struct Odd {
    pub rng: Rng,
    /// Bitmaps start at a bit offset (probability).
    pub shift: f64,
    /// Spare bytes after the last used one, garbage in all padding.
    pub spare: f64,
    /// Omit validity without nulls.
    pub omit: f64,
    /// Garbage values under nulls.
    pub under: f64,
    /// Unreferenced rows after the last list.
    pub tail: f64,
    /// Largest bit offset seen applied.
    pub shifted: bool,
}

impl Odd {
    pub fn none(rng: &mut Rng) -> Self {
        Odd {
            rng: rng.fork(),
            shift: 0.0,
            spare: 0.0,
            omit: 0.0,
            under: 0.0,
            tail: 0.0,
            shifted: false,
        }
    }
    pub fn random(rng: &mut Rng) -> Self {
        let p = |rng: &mut Rng| *rng.pick(&[0.0, 0.5, 1.0]);
        Odd {
            shift: p(rng),
            spare: p(rng),
            omit: p(rng),
            under: p(rng),
            tail: p(rng),
            rng: rng.fork(),
            shifted: false,
        }
    }
    /// As `random`, but every bitmap starts at bit zero.
    pub fn unshifted(rng: &mut Rng) -> Self {
        Odd {
            shift: 0.0,
            ..Odd::random(rng)
        }
    }
}

pub trait Rehouse<S: House> {
    type Out;
    fn rehouse(self, odd: &mut Odd) -> Self::Out;
}

impl<T: FixedSize, S: House> Rehouse<S> for Vec<T> {
    type Out = S::For<T>;
    fn rehouse(self, _: &mut Odd) -> S::For<T> {
        S::house(self)
    }
}

/// The bits at `offset` in fresh bytes, with garbage around them if asked.
pub fn pack(bits: &[bool], offset: usize, spare: usize, fill: Option<&mut Rng>) -> Vec<u8> {
    let bytes = (offset + bits.len()).div_ceil(8) + spare;
    let mut out: Vec<u8> = match fill {
        Some(rng) => (0..bytes).map(|_| *rng.pick(&[0xff, 0x00, rng.clone().u64() as u8])).collect(),
        None => vec![0; bytes],
    };
    for (i, b) in bits.iter().enumerate() {
        let p = offset + i;
        if *b {
            out[p / 8] |= 1 << (p % 8);
        } else {
            out[p / 8] &= !(1 << (p % 8));
        }
    }
    out
}

impl<S: House> Rehouse<S> for Bitmap<VecBuffer> {
    type Out = Bitmap<S>;
    fn rehouse(self, odd: &mut Odd) -> Bitmap<S> {
        let mut rng = odd.rng.fork();
        let shift = if rng.chance(odd.shift) {
            match rng.below(400) {
                0..200 => rng.range(1, 7),
                200..380 => *rng.pick(&[8, 9, 10, 11, 12, 13, 14, 15, 16, 31, 32, 33, 63, 64, 65, 70]),
                380..399 => *rng.pick(&[127, 128, 255, 256, 257, 511, 512, 1000, 2048]),
                _ => *rng.pick(&[4096, 65_535, 65_536, 65_541, 524_288]),
            }
        } else {
            0
        };
        let spare = rng.chance(odd.spare);
        if shift == 0 && !spare {
            let (b, n, o) = self.into_parts();
            return Bitmap::try_from_parts(S::house(b), n, o).expect("own parts");
        }
        odd.shifted |= shift != 0;
        let bits: Vec<bool> = (&self).into_iter().collect();
        let extra = if spare { rng.range(0, 3) } else { 0 };
        let bytes = pack(&bits, shift, extra, spare.then_some(&mut rng));
        Bitmap::try_from_parts(S::house(bytes), bits.len(), shift).expect("packed parts")
    }
}

impl<S, C> Rehouse<S> for Validity<C, VecBuffer>
where
    S: House,
    C: Rehouse<S> + CollectionRealloc<Owned: Val, Alloc = ()>,
    C::Out: Collection,
{
    type Out = Validity<C::Out, S>;
    fn rehouse(self, odd: &mut Odd) -> Self::Out {
        let nulls = self.any_null();
        let under = odd.rng.chance(odd.under);
        let omit = odd.rng.chance(odd.omit);
        let valid: Vec<bool> = (0..Length::len(&self)).map(|i| self.is_valid(i).expect("row")).collect();
        let (mut c, b) = self.into_parts();
        if under && nulls {
            let mut rng = odd.rng.fork();
            let items: Vec<C::Owned> = c
                .into_iter_owned()
                .zip(&valid)
                .map(|(v, ok)| if *ok { v } else { C::Owned::sample(&mut rng, &Dist::plain()) })
                .collect();
            c = C::from_iter_in(items, ());
        }
        let c = c.rehouse(odd);
        match b {
            Some(b) if nulls || !omit => {
                let b = b.rehouse(odd);
                match Validity::try_from_parts(c, b) {
                    Ok(v) => v,
                    Err(e) => panic!("rehouse: {e}"),
                }
            }
            _ => Validity::from_collection(c),
        }
    }
}

impl<S: House, C: Collection + Rehouse<S>, const N: usize> Rehouse<S> for Flatten<C, N>
where
    C::Out: Collection,
{
    type Out = Flatten<C::Out, N>;
    fn rehouse(self, odd: &mut Odd) -> Self::Out {
        match Flatten::try_from_parts(self.into_parts().rehouse(odd)) {
            Ok(v) => v,
            Err(e) => panic!("rehouse: {e}"),
        }
    }
}

impl<S, C, O, U> Rehouse<S> for Offsets<C, O, VecBuffer, U>
where
    S: House,
    O: Offset,
    C: Rehouse<S> + CollectionRealloc<Owned: Val>,
    C::Out: Collection,
{
    type Out = Offsets<C::Out, O, S, U>;
    fn rehouse(self, odd: &mut Odd) -> Self::Out {
        let (mut data, offsets) = self.into_parts();
        if odd.rng.chance(odd.tail) {
            let mut rng = odd.rng.fork();
            let n = rng.range(1, 5);
            let d = Dist::plain();
            data.extend((0..n).map(|_| C::Owned::sample(&mut rng, &d)).collect::<Vec<_>>());
        }
        match Offsets::try_from_parts(data.rehouse(odd), S::house(offsets)) {
            Ok(v) => v,
            Err(e) => panic!("rehouse: {e}"),
        }
    }
}

impl<Nulls: Nullability, S: House> Rehouse<S> for Boolean<Nulls, VecBuffer>
where
    Nulls::Collection<Bitmap<VecBuffer>, VecBuffer>: Rehouse<S, Out = Nulls::Collection<Bitmap<S>, S>>,
{
    type Out = Boolean<Nulls, S>;
    fn rehouse(self, odd: &mut Odd) -> Self::Out {
        Boolean::from_buffer(self.into_buffer().rehouse(odd))
    }
}

impl<T: FixedSize, Nulls: Nullability, S: House> Rehouse<S> for FixedSizePrimitive<T, Nulls, VecBuffer>
where
    Nulls::Collection<Vec<T>, VecBuffer>: Rehouse<S, Out = Nulls::Collection<S::For<T>, S>>,
{
    type Out = FixedSizePrimitive<T, Nulls, S>;
    fn rehouse(self, odd: &mut Odd) -> Self::Out {
        FixedSizePrimitive::from_buffer(self.into_buffer().rehouse(odd))
    }
}

impl<T: ArrayItem, const N: usize, Nulls: Nullability, S: House> Rehouse<S> for FixedSizeList<T, N, Nulls, VecBuffer>
where
    Nulls::Collection<Flatten<T::Memory<VecBuffer>, N>, VecBuffer>:
        Rehouse<S, Out = Nulls::Collection<Flatten<T::Memory<S>, N>, S>>,
{
    type Out = FixedSizeList<T, N, Nulls, S>;
    fn rehouse(self, odd: &mut Odd) -> Self::Out {
        FixedSizeList::from_buffer(self.into_buffer().rehouse(odd))
    }
}

impl<T: ArrayItem, Nulls: Nullability, O: Offset, S: House> Rehouse<S> for VariableSizeList<T, Nulls, O, VecBuffer>
where
    Nulls::Collection<Offsets<T::Memory<VecBuffer>, O, VecBuffer>, VecBuffer>:
        Rehouse<S, Out = Nulls::Collection<Offsets<T::Memory<S>, O, S>, S>>,
{
    type Out = VariableSizeList<T, Nulls, O, S>;
    fn rehouse(self, odd: &mut Odd) -> Self::Out {
        VariableSizeList::from_buffer(self.into_buffer().rehouse(odd))
    }
}

impl<T: ArrayItem, S: House> Rehouse<S> for Array<T, VecBuffer>
where
    T::Memory<VecBuffer>: Rehouse<S, Out = T::Memory<S>>,
{
    type Out = Array<T, S>;
    fn rehouse(self, odd: &mut Odd) -> Self::Out {
        Array::from_buffer(self.into_buffer().rehouse(odd))
    }
}

/// A storage-independent name.
pub fn storage_name<S: House>() -> &'static str {
    S::NAME
}
pub type For<S, T> = <S as Buffer>::For<T>;
pub type Alloc<C> = <C as CollectionAllocIn>::Alloc;
