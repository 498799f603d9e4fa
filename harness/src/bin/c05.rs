//! C05: physical buffers follow the Arrow columnar format.
vh::zoo_uses!();
use narrow::collection::{Collection, CollectionAllocIn, CollectionRealloc};
use vh::coll::{Coll};
use vh::ensure;
use vh::hist::{Kit, history};
use vh::items::tidy;
use vh::rehouse::{Odd, Rehouse};
use vh::run::{Case, Plan, Res, Subject};
use vh::storage::FaultBuf;
use vh::val::Val;

/// The buffers decode to the rows, by the Arrow rules alone.
fn decodes<C: Coll>(c: &C, rows: &[C::Owned], case: &mut Case) -> Res {
    let got = c.decode(&mut case.obs)?;
    ensure!(got.len() == rows.len(), "buffers hold {} rows, expected {}", got.len(), rows.len());
    for (i, w) in rows.iter().enumerate() {
        ensure!(got[i].same(w), "buffers hold {:?} at row {i}, expected {w:?}", got[i]);
    }
    case.count("states_decoded", 1);
    case.count("rows_decoded", rows.len() as u64);
    Ok(())
}

fn subject<C>(case: &mut Case, odd: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res
where
    C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Default>,
    C: Default + FromIterator<<C as Collection>::Owned>,
{
    let steps = case.rng.range(1, 10);
    history(case, Kit { odd, clone: None }, steps, decodes)
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $cases:expr, $base:ty, $s:ty, $t:ty) => {
            subjects.push(Subject::new($name, $cases, |case| {
                subject::<$t>(case, |items, odd| Rehouse::<$s>::rehouse(items.into_iter().collect::<$base>(), odd))
            }));
        };
    }
    macro_rules! arr {
        ($t:ty) => {
            sub!(format!("Array<{}>", tidy(stringify!($t))), 150, Array<$t, VecBuffer>, VecBuffer, Array<$t, VecBuffer>);
        };
    }
    macro_rules! fault {
        ($t:ty) => {
            sub!(format!("Array<{},FaultBuf>", tidy(stringify!($t))), 40, Array<$t, VecBuffer>, FaultBuf, Array<$t, FaultBuf>);
        };
    }
    macro_rules! bare {
        ($t:ty) => {
            sub!(tidy(stringify!($t)), 150, $t, VecBuffer, $t);
        };
    }
    vh::all_items!(arr);
    vh::few_items!(fault);
    bare!(Bitmap);
    bare!(Validity<Vec<u16>>);
    bare!(Validity<Bitmap>);
    bare!(Validity<Flatten<Bitmap, 3>>);
    bare!(Offsets<Vec<u8>, i64>);
    bare!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>);
    bare!(Offsets<Validity<Bitmap>, i64>);
    bare!(Flatten<Validity<Vec<u8>>, 2>);
    bare!(Flatten<Offsets<Vec<u8>>, 2>);
    bare!(VariableSizeList<Option<i32>, NonNullable, i64>);
    bare!(VariableSizeList<Vec<bool>, Nullable, i64>);
    bare!(VariableSizeBinary<Nullable, i64>);
    vh::run::main(Plan {
        id: "C05",
        rule: "a case = a construction followed by 1-10 mutations; after every step the exposed buffers alone (bytes, bit offset, offsets, child slots) are checked against the format's rules and decoded by an independent LSB-first / offsets / width decoder, and compared with the plain list; non-trivial = at least one non-empty append; distinct = by start, operations and items",
        subjects,
        exhaustive: false,
    });
}
