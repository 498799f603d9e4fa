//! C01: collected items read back unchanged through every access path.
#![recursion_limit = "512"]
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::{BoxBuffer, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::{Collection, CollectionAllocIn};
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_binary::VariableSizeBinary;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};
use narrow::offset::Offsets;
use narrow::validity::Validity;
use vh::coll::{Coll, check_all, check_consume};
use vh::items::tidy;
use vh::run::{Case, Plan, Res, Subject};
use vh::source::Source;
use vh::storage::FaultBuf;
use vh::val::{Dist, Val, fp_all, sample_len, sample_n, show, vast_len};

/// Builds a collection in one way and checks every access path.
fn round<C>(case: &mut Case, how: &str, items: Vec<C::Owned>, build: impl Fn(Source<C::Owned>) -> C) -> Res
where
    C: Coll,
{
    let src = Source::random_hint(items.clone(), &mut case.rng);
    let c = build(src);
    check_all(&c, &items, &mut case.obs).map_err(|e| format!("{how}: {e}"))?;
    check_consume(c, &items, &mut case.obs).map_err(|e| format!("{how}: {e}"))?;
    case.count("collections_built", 1);
    Ok(())
}

fn generate<T: Val>(case: &mut Case) -> Vec<T> {
    let d = Dist::random(&mut case.rng);
    let n = vast_len(&mut case.rng, 4000, T::COST).unwrap_or_else(|| sample_len(&mut case.rng, T::COST));
    let items: Vec<T> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    if n > 0 {
        case.nontrivial();
    }
    case.trace(|| format!("{} items {}", n, show(&items)));
    items
}

fn subject<C>(case: &mut Case) -> Res
where
    C: Coll + CollectionAllocIn<Alloc: Default> + FromIterator<<C as Collection>::Owned>,
{
    let items: Vec<C::Owned> = generate(case);
    round::<C>(case, "collect", items.clone(), |s| s.collect())?;
    match case.rng.below(2) {
        0 => round::<C>(case, "from_iter_in", items, |s| C::from_iter_in(s, Default::default())),
        _ => round::<C>(case, "try_from_iter_in", items, |s| {
            C::try_from_iter_in(s, Default::default()).expect("memory is available")
        }),
    }
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! arr {
        ($t:ty) => {
            subjects.push(Subject::new(format!("Array<{}>", tidy(stringify!($t))), 400, subject::<Array<$t, VecBuffer>>));
        };
    }
    macro_rules! fault {
        ($t:ty) => {
            subjects.push(Subject::new(format!("Array<{},FaultBuf>", tidy(stringify!($t))), 60, subject::<Array<$t, FaultBuf>>));
        };
    }
    macro_rules! bare {
        ($n:expr, $t:ty) => {
            subjects.push(Subject::new(format!("{}:{}", tidy(stringify!($t)), $n), $n, subject::<$t>));
        };
    }
    vh::all_items!(arr);
    vh::few_items!(fault);
    bare!(400, Bitmap<VecBuffer>);
    bare!(200, Bitmap<BoxBuffer>);
    bare!(100, Vec<i32>);
    bare!(100, Vec<bool>);
    bare!(100, Vec<Option<u16>>);
    bare!(100, Vec<Vec<u8>>);
    bare!(100, Vec<[u8; 3]>);
    bare!(100, Box<[f64]>);
    bare!(300, Validity<Vec<u16>>);
    bare!(300, Validity<Bitmap>);
    bare!(200, Validity<Vec<bool>>);
    bare!(200, Offsets<Vec<u8>>);
    bare!(200, Offsets<Vec<u8>, i64>);
    bare!(200, Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>);
    bare!(200, Offsets<Bitmap, i64>);
    bare!(200, Offsets<Offsets<Bitmap>, i64>);
    bare!(200, Flatten<Bitmap, 3>);
    bare!(200, Flatten<Offsets<Vec<u8>>, 2>);
    bare!(200, Flatten<Validity<Flatten<Bitmap, 3>>, 2>);
    bare!(200, VariableSizeList<Option<i32>, NonNullable, i64>);
    bare!(200, VariableSizeList<Vec<bool>, Nullable, i64>);
    bare!(200, VariableSizeBinary<Nullable, i64>);
    bare!(200, VariableSizeBinary);
    vh::run::main(Plan {
        id: "C01",
        rule: "a case = a random sequence of items (rows around word/byte/chunk boundaries, extreme scalars, NaN payloads, nulls, empty lists) collected from a source with a random size hint by FromIterator and by (try_)from_iter_in; every row read by view, owned, borrowed and consuming iteration and by decoding the buffers; non-trivial = at least one item; distinct = by type and bit pattern of the items",
        subjects,
        exhaustive: false,
    });
}
