// Included by the monitors that sweep element kinds. `$k!(list, name, type)` for each kind.
#[allow(unused_macros)]
macro_rules! for_kinds {
    ($k:ident $l:ident) => {
        $k!($l, "u8", u8);
        $k!($l, "i64", i64);
        $k!($l, "u128", u128);
        $k!($l, "f64", f64);
        $k!($l, "f32", f32);
        $k!($l, "bool", bool);
        $k!($l, "char", char);
        $k!($l, "enum with niches", Few);
        $k!($l, "over-aligned", Al64);
        $k!($l, "unit", ());
        $k!($l, "NonZeroU32", std::num::NonZeroU32);
        $k!($l, "&str", &'static str);
        $k!($l, "&u64", &'static u64);
        $k!($l, "fn", fn(u64) -> u64);
        $k!($l, "(u8,u64)", (u8, u64));
        $k!($l, "[u64;40]", [u64; 40]);
    };
}
#[allow(unused_macros)]
macro_rules! for_owning_kinds {
    ($k:ident $l:ident) => {
        $k!($l, "Box", Box<u32>);
        $k!($l, "Option<Box>", Option<Box<u16>>);
        $k!($l, "String", String);
        $k!($l, "Vec", Vec<u8>);
        $k!($l, "Rc", std::rc::Rc<u64>);
        $k!($l, "Arc", std::sync::Arc<u64>);
        $k!($l, "generation", Gen);
        $k!($l, "zst", Zst);
        $k!($l, "tok", Tok);
        $k!($l, "heap tok", HTok);
    };
}
#[allow(unused_macros)]
macro_rules! kind_retypes { ($l:ident $r:ident $c:ident) => {
    $l.push(retype_subject!("bytes to u64", [u8; 8], u64, $r, $c));
    $l.push(retype_subject!("u64 to bytes", u64, [u8; 8], $r, $c));
    $l.push(retype_subject!("bytes to over-aligned", [u8; 64], Al64, $r, $c));
    $l.push(retype_subject!("u64 to reference", u64, &'static u64, $r, $c));
    $l.push(retype_subject!("Box to u64", Box<u32>, u64, $r, $c));
    $l.push(retype_subject!("u64 to Box", u64, Box<u32>, $r, $c));
    $l.push(retype_subject!("Option<Box> to fn", Option<Box<u16>>, fn(u64) -> u64, $r, $c));
    $l.push(retype_subject!("String to Vec", String, Vec<u8>, $r, $c));
    $l.push(retype_subject!("u8 to enum", u8, Few, $r, $c));
    $l.push(retype_subject!("unit to zst", (), Zst, $r, $c));
    $l.push(retype_subject!("u128 to u8", u128, u8, $r, $c));
} }
