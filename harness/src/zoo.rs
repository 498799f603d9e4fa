//! Every collection type the read-side checks are driven over.

/// Invokes `$m!(name, cases weight, collection type, builder)` where `builder`
/// is a `fn(Vec<Owned>, &mut Odd) -> C` building the collection with legal
/// physical oddities.
#[macro_export]
macro_rules! zoo {
    ($m:ident) => {
        macro_rules! zoo_build {
            ($name:expr, $w:expr, $base:ty, $s:ty, $t:ty) => {
                $m!($name, $w, $t, (|items, odd| $crate::rehouse::Rehouse::<$s>::rehouse(items.into_iter().collect::<$base>(), odd)) as fn(Vec<<$t as narrow::collection::Collection>::Owned>, &mut $crate::rehouse::Odd) -> $t);
            };
        }
        macro_rules! zoo_vec { ($t:ty) => { zoo_build!(format!("Array<{}>", $crate::items::tidy(stringify!($t))), 1.0, Array<$t, VecBuffer>, VecBuffer, Array<$t, VecBuffer>); }; }
        macro_rules! zoo_box { ($t:ty) => { zoo_build!(format!("Array<{},Box>", $crate::items::tidy(stringify!($t))), 0.5, Array<$t, VecBuffer>, BoxBuffer, Array<$t, BoxBuffer>); }; }
        macro_rules! zoo_rc { ($t:ty) => { zoo_build!(format!("Array<{},Rc>", $crate::items::tidy(stringify!($t))), 0.5, Array<$t, VecBuffer>, RcBuffer, Array<$t, RcBuffer>); }; }
        macro_rules! zoo_arc { ($t:ty) => { zoo_build!(format!("Array<{},Arc>", $crate::items::tidy(stringify!($t))), 0.5, Array<$t, VecBuffer>, ArcBuffer, Array<$t, ArcBuffer>); }; }
        macro_rules! zoo_slice { ($t:ty) => { zoo_build!(format!("Array<{},Slice>", $crate::items::tidy(stringify!($t))), 0.5, Array<$t, VecBuffer>, SliceBuffer<'static>, Array<$t, SliceBuffer<'static>>); }; }
        macro_rules! zoo_fault { ($t:ty) => { zoo_build!(format!("Array<{},Fault>", $crate::items::tidy(stringify!($t))), 0.3, Array<$t, VecBuffer>, $crate::storage::FaultBuf, Array<$t, $crate::storage::FaultBuf>); }; }
        macro_rules! zoo_bare { ($t:ty) => { zoo_build!($crate::items::tidy(stringify!($t)), 1.0, $t, VecBuffer, $t); }; }
        $crate::all_items!(zoo_vec);
        $crate::few_items!(zoo_box);
        $crate::few_items!(zoo_slice);
        zoo_rc!(bool);
        zoo_rc!(Option<i32>);
        zoo_rc!(Option<[Option<Vec<Option<i64>>>; 3]>);
        zoo_rc!(Vec<Option<i32>>);
        zoo_arc!(Option<bool>);
        zoo_arc!(i32);
        zoo_arc!(Option<Vec<Vec<Option<i32>>>>);
        zoo_arc!([Option<u8>; 2]);
        zoo_fault!(Option<[bool; 5]>);
        zoo_fault!(Vec<[u16; 2]>);
        zoo_bare!(Bitmap);
        zoo_bare!(Vec<i64>);
        zoo_bare!(Validity<Vec<u16>>);
        zoo_bare!(Validity<Bitmap>);
        zoo_bare!(Validity<Flatten<Bitmap, 3>>);
        zoo_bare!(Offsets<Vec<u8>>);
        zoo_bare!(Offsets<Vec<u8>, i64>);
        zoo_bare!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>);
        zoo_bare!(Offsets<Bitmap, i64>);
        zoo_bare!(Offsets<Validity<Bitmap>, i64>);
        zoo_bare!(Flatten<Bitmap, 3>);
        zoo_bare!(Flatten<Validity<Vec<u8>>, 2>);
        zoo_bare!(Flatten<Offsets<Vec<u8>>, 2>);
        zoo_bare!(VariableSizeList<Option<i32>, NonNullable, i64>);
        zoo_bare!(VariableSizeList<Vec<bool>, Nullable, i64>);
        zoo_bare!(VariableSizeBinary<Nullable, i64>);
    };
}

/// Brings every name the zoo uses into scope.
#[macro_export]
macro_rules! zoo_uses {
    () => {
        #[allow(unused_imports)]
        use narrow::{
            array::Array,
            bitmap::Bitmap,
            buffer::{ArcBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer},
            collection::flatten::Flatten,
            fixed_size::FixedSizeArray,
            layout::{
                boolean::Boolean, fixed_size_list::FixedSizeList,
                fixed_size_primitive::FixedSizePrimitive,
                variable_size_binary::VariableSizeBinary,
                variable_size_list::VariableSizeList,
            },
            nullability::{NonNullable, Nullable},
            offset::Offsets,
            validity::Validity,
        };
    };
}
