//! The item types every check is instantiated for.

/// Invokes `$m!(Type, "name");` for every item type of the full list.
#[macro_export]
macro_rules! all_items {
    ($m:ident) => {
        $crate::few_items!($m);
        $m!(u16);
        $m!(u32);
        $m!(u64);
        $m!(i8);
        $m!(i16);
        $m!(i64);
        $m!(f32);
        $m!(u128);
        $m!(i128);
        $m!(usize);
        $m!(isize);
        $m!(Option<i8>);
        $m!(Option<u64>);
        $m!(Option<u128>);
        $m!([u8; 1]);
        $m!([[u8; 2]; 3]);
        $m!(Option<[Option<bool>; 3]>);
        $m!([Option<[Option<bool>; 3]>; 2]);
        $m!([Vec<u8>; 2]);
        $m!(Vec<bool>);
        $m!(Option<Vec<Option<bool>>>);
        $m!(Vec<Vec<u16>>);
        $m!(Vec<Option<Vec<Option<bool>>>>);
        $m!(Option<Vec<Option<[Option<bool>; 2]>>>);
        $m!([Vec<[bool; 3]>; 2]);
        $m!([f64; 8]);
        $m!(Vec<Vec<Vec<Option<u8>>>>);
        $m!(Option<[FixedSizeArray<u8, 3>; 2]>);
    };
}

/// Item types covering every layout and nesting pattern.
#[macro_export]
macro_rules! few_items {
    ($m:ident) => {
        $m!(bool);
        $m!(Option<bool>);
        $m!(u8);
        $m!(i32);
        $m!(Option<i32>);
        $m!(Option<f64>);
        $m!(FixedSizeArray<u8, 3>);
        $m!(Option<FixedSizeArray<u16, 2>>);
        $m!(Vec<u8>);
        $m!(Option<Vec<u8>>);
        $m!(Vec<Option<i32>>);
        $m!([i32; 3]);
        $m!([bool; 3]);
        $m!(Option<[bool; 5]>);
        $m!([Option<u8>; 2]);
        $m!(Vec<[u16; 2]>);
        $m!(Option<[Option<Vec<Option<i64>>>; 3]>);
        $m!(Option<Vec<Vec<Option<i32>>>>);
    };
}

/// Strips spaces from a stringified type.
pub fn tidy(s: &str) -> String {
    s.replace(' ', "")
}
