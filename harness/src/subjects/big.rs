// Included by the monitors that also run larger shapes (fewer runs each: `name().starts_with("big")`).
#[allow(unused_macros)]
macro_rules! big_subjects {
    ($l:ident, $name:expr, $t:ty) => {{
        $l.push(subject!(concat!("big ", $name), $t, U9, U9; vec mat sq def ar div sqar biglin));
        $l.push(subject!(concat!("big ", $name), $t, U17, U17; mat sq ar sqar biglin));
        $l.push(subject!(concat!("big ", $name), $t, U11, U19; vec mat def ar div));
        $l.push(subject!(concat!("big ", $name), $t, U25, U2; mat ar));
    }};
}
#[allow(unused_macros)]
macro_rules! huge_subjects {
    ($l:ident, $name:expr, $t:ty) => {{
        $l.push(subject!(concat!("big ", $name), $t, U32, U32; vec mat sq def ar div sqar biglin));
        $l.push(subject!(concat!("big ", $name), $t, U3, U31; mat ar));
        $l.push(subject!(concat!("big ", $name), $t, U16, U16; mat sq ar sqar biglin));
    }};
}
#[allow(unused_macros)]
macro_rules! big_ordered {
    ($l:ident, $name:expr, $t:ty) => {{
        $l.push(subject!(concat!("big ", $name, " ordered"), $t, U9, U9; clamp ext));
        $l.push(subject!(concat!("big ", $name, " ordered"), $t, U24, U24; clamp ext));
        $l.push(subject!(concat!("big ", $name, " ordered"), $t, U13, U18; clamp));
    }};
}
