//! C02: any history of mutations matches a plain list.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::VecBuffer;
use narrow::collection::flatten::Flatten;
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_binary::VariableSizeBinary;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};
use narrow::offset::Offsets;
use narrow::validity::Validity;
use vh::coll::{check_all};
use vh::hist::{Kit, history};
use vh::items::tidy;
use vh::rehouse::Rehouse;
use vh::run::{Plan, Subject};
use vh::storage::FaultBuf;

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $cases:expr, $base:ty, $s:ty, $t:ty, $clone:expr) => {{
            let kit: Kit<$t> = Kit {
                odd: |items, odd| Rehouse::<$s>::rehouse(items.into_iter().collect::<$base>(), odd),
                clone: $clone,
            };
            subjects.push(Subject::new($name, $cases, move |case| {
                let steps = case.rng.range(3, 14);
                history::<$t>(case, kit, steps, |c, m, case| check_all(c, m, &mut case.obs))
            }));
        }};
    }
    macro_rules! arr {
        ($t:ty) => {
            sub!(format!("Array<{}>", tidy(stringify!($t))), 100, Array<$t, VecBuffer>, VecBuffer, Array<$t, VecBuffer>, None);
        };
    }
    macro_rules! fault {
        ($t:ty) => {
            sub!(format!("Array<{},FaultBuf>", tidy(stringify!($t))), 40, Array<$t, VecBuffer>, FaultBuf, Array<$t, FaultBuf>, None);
        };
    }
    macro_rules! bare {
        ($t:ty) => {
            sub!(tidy(stringify!($t)), 100, $t, VecBuffer, $t, None);
        };
    }
    macro_rules! cloned {
        ($t:ty) => {
            sub!(format!("{} with clones", tidy(stringify!($t))), 300, $t, VecBuffer, $t, Some(|c| c.clone()));
        };
    }
    vh::all_items!(arr);
    vh::few_items!(fault);
    cloned!(Bitmap);
    cloned!(Vec<i32>);
    cloned!(Flatten<Bitmap, 3>);
    cloned!(Flatten<Vec<u16>, 2>);
    cloned!(Flatten<Flatten<Bitmap, 2>, 3>);
    bare!(Validity<Vec<u16>>);
    bare!(Validity<Bitmap>);
    bare!(Validity<Flatten<Bitmap, 3>>);
    bare!(Offsets<Vec<u8>>);
    bare!(Offsets<Vec<u8>, i64>);
    bare!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>);
    bare!(Offsets<Bitmap, i64>);
    bare!(Offsets<Validity<Bitmap>, i64>);
    bare!(Flatten<Validity<Vec<u8>>, 2>);
    bare!(Flatten<Offsets<Vec<u8>>, 2>);
    bare!(VariableSizeList<Option<i32>, NonNullable, i64>);
    bare!(VariableSizeList<Vec<bool>, Nullable, i64>);
    bare!(VariableSizeBinary<Nullable, i64>);
    vh::run::main(Plan {
        id: "C02",
        rule: "a case = a start state (empty, with capacity, collected, or raw parts with bit offsets, garbage padding, unreferenced list data, values under nulls, omitted validity) and 3-14 operations out of extend/try_extend/reserve/try_reserve/truncate/clone with items from sources with random size hints; the whole content is compared with a plain list after every operation; non-trivial = at least one non-empty append; distinct = by start, operations and items",
        subjects,
        exhaustive: false,
    });
}
