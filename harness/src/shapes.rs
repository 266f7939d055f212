//! Generated lists of lengths and shapes (see gen_shapes.py).
#![allow(clippy::all)]
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_lens {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U6, 6);
        $m!($($x)* U7, 7);
        $m!($($x)* U8, 8);
        $m!($($x)* U9, 9);
        $m!($($x)* U10, 10);
        $m!($($x)* U11, 11);
        $m!($($x)* U12, 12);
        $m!($($x)* U13, 13);
        $m!($($x)* U14, 14);
        $m!($($x)* U15, 15);
        $m!($($x)* U16, 16);
        $m!($($x)* U17, 17);
        $m!($($x)* U18, 18);
        $m!($($x)* U19, 19);
        $m!($($x)* U20, 20);
        $m!($($x)* U21, 21);
        $m!($($x)* U22, 22);
        $m!($($x)* U23, 23);
        $m!($($x)* U24, 24);
        $m!($($x)* U25, 25);
        $m!($($x)* U26, 26);
        $m!($($x)* U27, 27);
        $m!($($x)* U28, 28);
        $m!($($x)* U29, 29);
        $m!($($x)* U30, 30);
        $m!($($x)* U31, 31);
        $m!($($x)* U32, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_lens {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U7, 7);
        $m!($($x)* U8, 8);
        $m!($($x)* U17, 17);
        $m!($($x)* U32, 32);
    };
}
#[macro_export]
macro_rules! for_lens_small {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U8, 8);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_lens_mid {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U6, 6);
        $m!($($x)* U7, 7);
        $m!($($x)* U8, 8);
        $m!($($x)* U9, 9);
        $m!($($x)* U11, 11);
        $m!($($x)* U16, 16);
        $m!($($x)* U17, 17);
        $m!($($x)* U24, 24);
        $m!($($x)* U31, 31);
        $m!($($x)* U32, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_lens_mid {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U1, 1);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U8, 8);
        $m!($($x)* U32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_lens_pos {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U6, 6);
        $m!($($x)* U7, 7);
        $m!($($x)* U8, 8);
        $m!($($x)* U9, 9);
        $m!($($x)* U10, 10);
        $m!($($x)* U11, 11);
        $m!($($x)* U12, 12);
        $m!($($x)* U13, 13);
        $m!($($x)* U14, 14);
        $m!($($x)* U15, 15);
        $m!($($x)* U16, 16);
        $m!($($x)* U17, 17);
        $m!($($x)* U18, 18);
        $m!($($x)* U19, 19);
        $m!($($x)* U20, 20);
        $m!($($x)* U21, 21);
        $m!($($x)* U22, 22);
        $m!($($x)* U23, 23);
        $m!($($x)* U24, 24);
        $m!($($x)* U25, 25);
        $m!($($x)* U26, 26);
        $m!($($x)* U27, 27);
        $m!($($x)* U28, 28);
        $m!($($x)* U29, 29);
        $m!($($x)* U30, 30);
        $m!($($x)* U31, 31);
        $m!($($x)* U32, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_lens_pos {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U7, 7);
        $m!($($x)* U8, 8);
        $m!($($x)* U17, 17);
        $m!($($x)* U32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_chunks {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U1, 0, 1);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U0, U3, 0, 3);
        $m!($($x)* U0, U5, 0, 5);
        $m!($($x)* U0, U32, 0, 32);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U2, U1, 2, 1);
        $m!($($x)* U2, U2, 2, 2);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U4, U1, 4, 1);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U5, U1, 5, 1);
        $m!($($x)* U5, U5, 5, 5);
        $m!($($x)* U6, U1, 6, 1);
        $m!($($x)* U6, U2, 6, 2);
        $m!($($x)* U6, U3, 6, 3);
        $m!($($x)* U6, U6, 6, 6);
        $m!($($x)* U7, U1, 7, 1);
        $m!($($x)* U7, U7, 7, 7);
        $m!($($x)* U8, U1, 8, 1);
        $m!($($x)* U8, U2, 8, 2);
        $m!($($x)* U8, U4, 8, 4);
        $m!($($x)* U8, U8, 8, 8);
        $m!($($x)* U9, U1, 9, 1);
        $m!($($x)* U9, U3, 9, 3);
        $m!($($x)* U9, U9, 9, 9);
        $m!($($x)* U10, U1, 10, 1);
        $m!($($x)* U10, U2, 10, 2);
        $m!($($x)* U10, U5, 10, 5);
        $m!($($x)* U10, U10, 10, 10);
        $m!($($x)* U11, U1, 11, 1);
        $m!($($x)* U11, U11, 11, 11);
        $m!($($x)* U12, U1, 12, 1);
        $m!($($x)* U12, U2, 12, 2);
        $m!($($x)* U12, U3, 12, 3);
        $m!($($x)* U12, U4, 12, 4);
        $m!($($x)* U12, U6, 12, 6);
        $m!($($x)* U12, U12, 12, 12);
        $m!($($x)* U13, U1, 13, 1);
        $m!($($x)* U13, U13, 13, 13);
        $m!($($x)* U14, U1, 14, 1);
        $m!($($x)* U14, U2, 14, 2);
        $m!($($x)* U14, U7, 14, 7);
        $m!($($x)* U14, U14, 14, 14);
        $m!($($x)* U15, U1, 15, 1);
        $m!($($x)* U15, U3, 15, 3);
        $m!($($x)* U15, U5, 15, 5);
        $m!($($x)* U15, U15, 15, 15);
        $m!($($x)* U16, U1, 16, 1);
        $m!($($x)* U16, U2, 16, 2);
        $m!($($x)* U16, U4, 16, 4);
        $m!($($x)* U16, U8, 16, 8);
        $m!($($x)* U16, U16, 16, 16);
        $m!($($x)* U17, U1, 17, 1);
        $m!($($x)* U17, U17, 17, 17);
        $m!($($x)* U18, U1, 18, 1);
        $m!($($x)* U18, U2, 18, 2);
        $m!($($x)* U18, U3, 18, 3);
        $m!($($x)* U18, U6, 18, 6);
        $m!($($x)* U18, U9, 18, 9);
        $m!($($x)* U18, U18, 18, 18);
        $m!($($x)* U19, U1, 19, 1);
        $m!($($x)* U19, U19, 19, 19);
        $m!($($x)* U20, U1, 20, 1);
        $m!($($x)* U20, U2, 20, 2);
        $m!($($x)* U20, U4, 20, 4);
        $m!($($x)* U20, U5, 20, 5);
        $m!($($x)* U20, U10, 20, 10);
        $m!($($x)* U20, U20, 20, 20);
        $m!($($x)* U21, U1, 21, 1);
        $m!($($x)* U21, U3, 21, 3);
        $m!($($x)* U21, U7, 21, 7);
        $m!($($x)* U21, U21, 21, 21);
        $m!($($x)* U22, U1, 22, 1);
        $m!($($x)* U22, U2, 22, 2);
        $m!($($x)* U22, U11, 22, 11);
        $m!($($x)* U22, U22, 22, 22);
        $m!($($x)* U23, U1, 23, 1);
        $m!($($x)* U23, U23, 23, 23);
        $m!($($x)* U24, U1, 24, 1);
        $m!($($x)* U24, U2, 24, 2);
        $m!($($x)* U24, U3, 24, 3);
        $m!($($x)* U24, U4, 24, 4);
        $m!($($x)* U24, U6, 24, 6);
        $m!($($x)* U24, U8, 24, 8);
        $m!($($x)* U24, U12, 24, 12);
        $m!($($x)* U24, U24, 24, 24);
        $m!($($x)* U25, U1, 25, 1);
        $m!($($x)* U25, U5, 25, 5);
        $m!($($x)* U25, U25, 25, 25);
        $m!($($x)* U26, U1, 26, 1);
        $m!($($x)* U26, U2, 26, 2);
        $m!($($x)* U26, U13, 26, 13);
        $m!($($x)* U26, U26, 26, 26);
        $m!($($x)* U27, U1, 27, 1);
        $m!($($x)* U27, U3, 27, 3);
        $m!($($x)* U27, U9, 27, 9);
        $m!($($x)* U27, U27, 27, 27);
        $m!($($x)* U28, U1, 28, 1);
        $m!($($x)* U28, U2, 28, 2);
        $m!($($x)* U28, U4, 28, 4);
        $m!($($x)* U28, U7, 28, 7);
        $m!($($x)* U28, U14, 28, 14);
        $m!($($x)* U28, U28, 28, 28);
        $m!($($x)* U29, U1, 29, 1);
        $m!($($x)* U29, U29, 29, 29);
        $m!($($x)* U30, U1, 30, 1);
        $m!($($x)* U30, U2, 30, 2);
        $m!($($x)* U30, U3, 30, 3);
        $m!($($x)* U30, U5, 30, 5);
        $m!($($x)* U30, U6, 30, 6);
        $m!($($x)* U30, U10, 30, 10);
        $m!($($x)* U30, U15, 30, 15);
        $m!($($x)* U30, U30, 30, 30);
        $m!($($x)* U31, U1, 31, 1);
        $m!($($x)* U31, U31, 31, 31);
        $m!($($x)* U32, U1, 32, 1);
        $m!($($x)* U32, U2, 32, 2);
        $m!($($x)* U32, U4, 32, 4);
        $m!($($x)* U32, U8, 32, 8);
        $m!($($x)* U32, U16, 32, 16);
        $m!($($x)* U32, U32, 32, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_chunks {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U1, 0, 1);
        $m!($($x)* U0, U3, 0, 3);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U4, U1, 4, 1);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U6, U2, 6, 2);
        $m!($($x)* U6, U3, 6, 3);
        $m!($($x)* U7, U7, 7, 7);
        $m!($($x)* U8, U4, 8, 4);
        $m!($($x)* U12, U3, 12, 3);
        $m!($($x)* U32, U8, 32, 8);
        $m!($($x)* U30, U5, 30, 5);
        $m!($($x)* U32, U32, 32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_shapes {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, 0, 0);
        $m!($($x)* U0, U1, 0, 1);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U0, U3, 0, 3);
        $m!($($x)* U0, U4, 0, 4);
        $m!($($x)* U0, U5, 0, 5);
        $m!($($x)* U1, U0, 1, 0);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U1, U2, 1, 2);
        $m!($($x)* U1, U3, 1, 3);
        $m!($($x)* U1, U4, 1, 4);
        $m!($($x)* U1, U5, 1, 5);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U2, U1, 2, 1);
        $m!($($x)* U2, U2, 2, 2);
        $m!($($x)* U2, U3, 2, 3);
        $m!($($x)* U2, U4, 2, 4);
        $m!($($x)* U2, U5, 2, 5);
        $m!($($x)* U3, U0, 3, 0);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U3, U4, 3, 4);
        $m!($($x)* U3, U5, 3, 5);
        $m!($($x)* U4, U0, 4, 0);
        $m!($($x)* U4, U1, 4, 1);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U4, U3, 4, 3);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U4, U5, 4, 5);
        $m!($($x)* U5, U0, 5, 0);
        $m!($($x)* U5, U1, 5, 1);
        $m!($($x)* U5, U2, 5, 2);
        $m!($($x)* U5, U3, 5, 3);
        $m!($($x)* U5, U4, 5, 4);
        $m!($($x)* U5, U5, 5, 5);
        $m!($($x)* U1, U8, 1, 8);
        $m!($($x)* U8, U1, 8, 1);
        $m!($($x)* U6, U6, 6, 6);
        $m!($($x)* U7, U7, 7, 7);
        $m!($($x)* U8, U8, 8, 8);
        $m!($($x)* U9, U9, 9, 9);
        $m!($($x)* U4, U8, 4, 8);
        $m!($($x)* U8, U5, 8, 5);
        $m!($($x)* U5, U8, 5, 8);
        $m!($($x)* U6, U7, 6, 7);
        $m!($($x)* U7, U6, 7, 6);
        $m!($($x)* U10, U10, 10, 10);
        $m!($($x)* U12, U12, 12, 12);
        $m!($($x)* U16, U16, 16, 16);
        $m!($($x)* U17, U17, 17, 17);
        $m!($($x)* U16, U9, 16, 9);
        $m!($($x)* U9, U16, 9, 16);
        $m!($($x)* U5, U17, 5, 17);
        $m!($($x)* U17, U5, 17, 5);
        $m!($($x)* U1, U32, 1, 32);
        $m!($($x)* U32, U1, 32, 1);
        $m!($($x)* U2, U32, 2, 32);
        $m!($($x)* U32, U2, 32, 2);
        $m!($($x)* U0, U32, 0, 32);
        $m!($($x)* U32, U0, 32, 0);
        $m!($($x)* U31, U32, 31, 32);
        $m!($($x)* U32, U31, 32, 31);
        $m!($($x)* U32, U32, 32, 32);
        $m!($($x)* U3, U20, 3, 20);
        $m!($($x)* U20, U3, 20, 3);
        $m!($($x)* U24, U24, 24, 24);
        $m!($($x)* U15, U15, 15, 15);
        $m!($($x)* U13, U11, 13, 11);
        $m!($($x)* U11, U13, 11, 13);
        $m!($($x)* U14, U21, 14, 21);
        $m!($($x)* U18, U27, 18, 27);
        $m!($($x)* U19, U18, 19, 18);
        $m!($($x)* U21, U25, 21, 25);
        $m!($($x)* U22, U30, 22, 30);
        $m!($($x)* U23, U22, 23, 22);
        $m!($($x)* U25, U28, 25, 28);
        $m!($($x)* U26, U19, 26, 19);
        $m!($($x)* U27, U26, 27, 26);
        $m!($($x)* U28, U14, 28, 14);
        $m!($($x)* U29, U23, 29, 23);
        $m!($($x)* U30, U29, 30, 29);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_shapes {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, 0, 0);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U1, U3, 1, 3);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U2, U3, 2, 3);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U8, U5, 8, 5);
        $m!($($x)* U1, U32, 1, 32);
        $m!($($x)* U32, U32, 32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_shapes_small {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, 0, 0);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U1, U3, 1, 3);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U2, U2, 2, 2);
        $m!($($x)* U2, U3, 2, 3);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U5, U5, 5, 5);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_shapes_small {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U2, U2, 2, 2);
        $m!($($x)* U3, U2, 3, 2);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_shapes_mid {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, 0, 0);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U0, U5, 0, 5);
        $m!($($x)* U5, U0, 5, 0);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U1, U2, 1, 2);
        $m!($($x)* U2, U1, 2, 1);
        $m!($($x)* U1, U3, 1, 3);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U2, U2, 2, 2);
        $m!($($x)* U2, U3, 2, 3);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U3, U4, 3, 4);
        $m!($($x)* U4, U3, 4, 3);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U5, U5, 5, 5);
        $m!($($x)* U5, U3, 5, 3);
        $m!($($x)* U3, U5, 3, 5);
        $m!($($x)* U6, U6, 6, 6);
        $m!($($x)* U7, U7, 7, 7);
        $m!($($x)* U8, U8, 8, 8);
        $m!($($x)* U8, U5, 8, 5);
        $m!($($x)* U5, U8, 5, 8);
        $m!($($x)* U1, U32, 1, 32);
        $m!($($x)* U32, U1, 32, 1);
        $m!($($x)* U16, U16, 16, 16);
        $m!($($x)* U17, U5, 17, 5);
        $m!($($x)* U5, U17, 5, 17);
        $m!($($x)* U32, U32, 32, 32);
        $m!($($x)* U9, U9, 9, 9);
        $m!($($x)* U31, U32, 31, 32);
        $m!($($x)* U12, U7, 12, 7);
        $m!($($x)* U7, U12, 7, 12);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_shapes_mid {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, 0, 0);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U1, U3, 1, 3);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U2, U3, 2, 3);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U8, U5, 8, 5);
        $m!($($x)* U1, U32, 1, 32);
        $m!($($x)* U32, U32, 32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_squares {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U6, 6);
        $m!($($x)* U7, 7);
        $m!($($x)* U8, 8);
        $m!($($x)* U9, 9);
        $m!($($x)* U10, 10);
        $m!($($x)* U12, 12);
        $m!($($x)* U15, 15);
        $m!($($x)* U16, 16);
        $m!($($x)* U17, 17);
        $m!($($x)* U24, 24);
        $m!($($x)* U31, 31);
        $m!($($x)* U32, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_squares {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U8, 8);
        $m!($($x)* U32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_squares_pos {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U6, 6);
        $m!($($x)* U7, 7);
        $m!($($x)* U8, 8);
        $m!($($x)* U9, 9);
        $m!($($x)* U10, 10);
        $m!($($x)* U12, 12);
        $m!($($x)* U15, 15);
        $m!($($x)* U16, 16);
        $m!($($x)* U17, 17);
        $m!($($x)* U24, 24);
        $m!($($x)* U31, 31);
        $m!($($x)* U32, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_squares_pos {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U8, 8);
        $m!($($x)* U32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_squares_all {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U6, 6);
        $m!($($x)* U7, 7);
        $m!($($x)* U8, 8);
        $m!($($x)* U9, 9);
        $m!($($x)* U10, 10);
        $m!($($x)* U11, 11);
        $m!($($x)* U12, 12);
        $m!($($x)* U13, 13);
        $m!($($x)* U14, 14);
        $m!($($x)* U15, 15);
        $m!($($x)* U16, 16);
        $m!($($x)* U17, 17);
        $m!($($x)* U18, 18);
        $m!($($x)* U19, 19);
        $m!($($x)* U20, 20);
        $m!($($x)* U21, 21);
        $m!($($x)* U22, 22);
        $m!($($x)* U23, 23);
        $m!($($x)* U24, 24);
        $m!($($x)* U25, 25);
        $m!($($x)* U26, 26);
        $m!($($x)* U27, 27);
        $m!($($x)* U28, 28);
        $m!($($x)* U29, 29);
        $m!($($x)* U30, 30);
        $m!($($x)* U31, 31);
        $m!($($x)* U32, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_squares_all {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
        $m!($($x)* U8, 8);
        $m!($($x)* U32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_squares_big {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U9, 9);
        $m!($($x)* U10, 10);
        $m!($($x)* U11, 11);
        $m!($($x)* U12, 12);
        $m!($($x)* U13, 13);
        $m!($($x)* U14, 14);
        $m!($($x)* U15, 15);
        $m!($($x)* U16, 16);
        $m!($($x)* U17, 17);
        $m!($($x)* U18, 18);
        $m!($($x)* U19, 19);
        $m!($($x)* U20, 20);
        $m!($($x)* U21, 21);
        $m!($($x)* U22, 22);
        $m!($($x)* U23, 23);
        $m!($($x)* U24, 24);
        $m!($($x)* U25, 25);
        $m!($($x)* U26, 26);
        $m!($($x)* U27, 27);
        $m!($($x)* U28, 28);
        $m!($($x)* U29, 29);
        $m!($($x)* U30, 30);
        $m!($($x)* U31, 31);
        $m!($($x)* U32, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_squares_big {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U9, 9);
        $m!($($x)* U17, 17);
        $m!($($x)* U32, 32);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_squares_small {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U1, 1);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U4, 4);
        $m!($($x)* U5, 5);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_squares_small {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, 0);
        $m!($($x)* U2, 2);
        $m!($($x)* U3, 3);
        $m!($($x)* U5, 5);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_triples {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, U0, 0, 0, 0);
        $m!($($x)* U0, U0, U1, 0, 0, 1);
        $m!($($x)* U0, U0, U2, 0, 0, 2);
        $m!($($x)* U0, U0, U3, 0, 0, 3);
        $m!($($x)* U0, U1, U0, 0, 1, 0);
        $m!($($x)* U0, U1, U1, 0, 1, 1);
        $m!($($x)* U0, U1, U2, 0, 1, 2);
        $m!($($x)* U0, U1, U3, 0, 1, 3);
        $m!($($x)* U0, U2, U0, 0, 2, 0);
        $m!($($x)* U0, U2, U1, 0, 2, 1);
        $m!($($x)* U0, U2, U2, 0, 2, 2);
        $m!($($x)* U0, U2, U3, 0, 2, 3);
        $m!($($x)* U0, U3, U0, 0, 3, 0);
        $m!($($x)* U0, U3, U1, 0, 3, 1);
        $m!($($x)* U0, U3, U2, 0, 3, 2);
        $m!($($x)* U0, U3, U3, 0, 3, 3);
        $m!($($x)* U1, U0, U0, 1, 0, 0);
        $m!($($x)* U1, U0, U1, 1, 0, 1);
        $m!($($x)* U1, U0, U2, 1, 0, 2);
        $m!($($x)* U1, U0, U3, 1, 0, 3);
        $m!($($x)* U1, U1, U0, 1, 1, 0);
        $m!($($x)* U1, U1, U1, 1, 1, 1);
        $m!($($x)* U1, U1, U2, 1, 1, 2);
        $m!($($x)* U1, U1, U3, 1, 1, 3);
        $m!($($x)* U1, U2, U0, 1, 2, 0);
        $m!($($x)* U1, U2, U1, 1, 2, 1);
        $m!($($x)* U1, U2, U2, 1, 2, 2);
        $m!($($x)* U1, U2, U3, 1, 2, 3);
        $m!($($x)* U1, U3, U0, 1, 3, 0);
        $m!($($x)* U1, U3, U1, 1, 3, 1);
        $m!($($x)* U1, U3, U2, 1, 3, 2);
        $m!($($x)* U1, U3, U3, 1, 3, 3);
        $m!($($x)* U2, U0, U0, 2, 0, 0);
        $m!($($x)* U2, U0, U1, 2, 0, 1);
        $m!($($x)* U2, U0, U2, 2, 0, 2);
        $m!($($x)* U2, U0, U3, 2, 0, 3);
        $m!($($x)* U2, U1, U0, 2, 1, 0);
        $m!($($x)* U2, U1, U1, 2, 1, 1);
        $m!($($x)* U2, U1, U2, 2, 1, 2);
        $m!($($x)* U2, U1, U3, 2, 1, 3);
        $m!($($x)* U2, U2, U0, 2, 2, 0);
        $m!($($x)* U2, U2, U1, 2, 2, 1);
        $m!($($x)* U2, U2, U2, 2, 2, 2);
        $m!($($x)* U2, U2, U3, 2, 2, 3);
        $m!($($x)* U2, U3, U0, 2, 3, 0);
        $m!($($x)* U2, U3, U1, 2, 3, 1);
        $m!($($x)* U2, U3, U2, 2, 3, 2);
        $m!($($x)* U2, U3, U3, 2, 3, 3);
        $m!($($x)* U3, U0, U0, 3, 0, 0);
        $m!($($x)* U3, U0, U1, 3, 0, 1);
        $m!($($x)* U3, U0, U2, 3, 0, 2);
        $m!($($x)* U3, U0, U3, 3, 0, 3);
        $m!($($x)* U3, U1, U0, 3, 1, 0);
        $m!($($x)* U3, U1, U1, 3, 1, 1);
        $m!($($x)* U3, U1, U2, 3, 1, 2);
        $m!($($x)* U3, U1, U3, 3, 1, 3);
        $m!($($x)* U3, U2, U0, 3, 2, 0);
        $m!($($x)* U3, U2, U1, 3, 2, 1);
        $m!($($x)* U3, U2, U2, 3, 2, 2);
        $m!($($x)* U3, U2, U3, 3, 2, 3);
        $m!($($x)* U3, U3, U0, 3, 3, 0);
        $m!($($x)* U3, U3, U1, 3, 3, 1);
        $m!($($x)* U3, U3, U2, 3, 3, 2);
        $m!($($x)* U3, U3, U3, 3, 3, 3);
        $m!($($x)* U4, U4, U4, 4, 4, 4);
        $m!($($x)* U5, U5, U5, 5, 5, 5);
        $m!($($x)* U4, U5, U6, 4, 5, 6);
        $m!($($x)* U6, U5, U4, 6, 5, 4);
        $m!($($x)* U8, U8, U8, 8, 8, 8);
        $m!($($x)* U1, U32, U1, 1, 32, 1);
        $m!($($x)* U32, U1, U32, 32, 1, 32);
        $m!($($x)* U16, U17, U5, 16, 17, 5);
        $m!($($x)* U5, U17, U16, 5, 17, 16);
        $m!($($x)* U7, U3, U9, 7, 3, 9);
        $m!($($x)* U9, U3, U7, 9, 3, 7);
        $m!($($x)* U2, U16, U2, 2, 16, 2);
        $m!($($x)* U12, U12, U12, 12, 12, 12);
        $m!($($x)* U16, U16, U16, 16, 16, 16);
        $m!($($x)* U32, U32, U32, 32, 32, 32);
        $m!($($x)* U1, U8, U8, 1, 8, 8);
        $m!($($x)* U8, U8, U1, 8, 8, 1);
        $m!($($x)* U8, U1, U8, 8, 1, 8);
        $m!($($x)* U31, U32, U31, 31, 32, 31);
        $m!($($x)* U4, U1, U4, 4, 1, 4);
        $m!($($x)* U1, U4, U4, 1, 4, 4);
        $m!($($x)* U4, U4, U1, 4, 4, 1);
        $m!($($x)* U10, U10, U10, 10, 10, 10);
        $m!($($x)* U17, U17, U17, 17, 17, 17);
        $m!($($x)* U24, U3, U24, 24, 3, 24);
        $m!($($x)* U3, U24, U3, 3, 24, 3);
        $m!($($x)* U2, U6, U3, 2, 6, 3);
        $m!($($x)* U2, U7, U3, 2, 7, 3);
        $m!($($x)* U2, U9, U3, 2, 9, 3);
        $m!($($x)* U2, U11, U3, 2, 11, 3);
        $m!($($x)* U2, U13, U3, 2, 13, 3);
        $m!($($x)* U2, U14, U3, 2, 14, 3);
        $m!($($x)* U2, U15, U3, 2, 15, 3);
        $m!($($x)* U2, U18, U3, 2, 18, 3);
        $m!($($x)* U2, U19, U3, 2, 19, 3);
        $m!($($x)* U2, U20, U3, 2, 20, 3);
        $m!($($x)* U2, U21, U3, 2, 21, 3);
        $m!($($x)* U2, U22, U3, 2, 22, 3);
        $m!($($x)* U2, U23, U3, 2, 23, 3);
        $m!($($x)* U2, U25, U3, 2, 25, 3);
        $m!($($x)* U2, U26, U3, 2, 26, 3);
        $m!($($x)* U2, U27, U3, 2, 27, 3);
        $m!($($x)* U2, U28, U3, 2, 28, 3);
        $m!($($x)* U2, U29, U3, 2, 29, 3);
        $m!($($x)* U2, U30, U3, 2, 30, 3);
        $m!($($x)* U2, U31, U3, 2, 31, 3);
        $m!($($x)* U11, U3, U2, 11, 3, 2);
        $m!($($x)* U13, U3, U2, 13, 3, 2);
        $m!($($x)* U14, U3, U2, 14, 3, 2);
        $m!($($x)* U15, U3, U2, 15, 3, 2);
        $m!($($x)* U18, U3, U2, 18, 3, 2);
        $m!($($x)* U19, U3, U2, 19, 3, 2);
        $m!($($x)* U20, U3, U2, 20, 3, 2);
        $m!($($x)* U21, U3, U2, 21, 3, 2);
        $m!($($x)* U22, U3, U2, 22, 3, 2);
        $m!($($x)* U23, U3, U2, 23, 3, 2);
        $m!($($x)* U25, U3, U2, 25, 3, 2);
        $m!($($x)* U26, U3, U2, 26, 3, 2);
        $m!($($x)* U27, U3, U2, 27, 3, 2);
        $m!($($x)* U28, U3, U2, 28, 3, 2);
        $m!($($x)* U29, U3, U2, 29, 3, 2);
        $m!($($x)* U30, U3, U2, 30, 3, 2);
        $m!($($x)* U2, U2, U11, 2, 2, 11);
        $m!($($x)* U2, U2, U13, 2, 2, 13);
        $m!($($x)* U2, U2, U14, 2, 2, 14);
        $m!($($x)* U2, U2, U15, 2, 2, 15);
        $m!($($x)* U2, U2, U18, 2, 2, 18);
        $m!($($x)* U2, U2, U19, 2, 2, 19);
        $m!($($x)* U2, U2, U20, 2, 2, 20);
        $m!($($x)* U2, U2, U21, 2, 2, 21);
        $m!($($x)* U2, U2, U22, 2, 2, 22);
        $m!($($x)* U2, U2, U23, 2, 2, 23);
        $m!($($x)* U2, U2, U25, 2, 2, 25);
        $m!($($x)* U2, U2, U26, 2, 2, 26);
        $m!($($x)* U2, U2, U27, 2, 2, 27);
        $m!($($x)* U2, U2, U28, 2, 2, 28);
        $m!($($x)* U2, U2, U29, 2, 2, 29);
        $m!($($x)* U2, U2, U30, 2, 2, 30);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_triples {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, U0, 0, 0, 0);
        $m!($($x)* U1, U1, U1, 1, 1, 1);
        $m!($($x)* U2, U2, U2, 2, 2, 2);
        $m!($($x)* U3, U3, U3, 3, 3, 3);
        $m!($($x)* U4, U4, U4, 4, 4, 4);
        $m!($($x)* U2, U3, U4, 2, 3, 4);
        $m!($($x)* U4, U3, U2, 4, 3, 2);
        $m!($($x)* U3, U0, U2, 3, 0, 2);
        $m!($($x)* U0, U3, U2, 0, 3, 2);
        $m!($($x)* U1, U4, U1, 1, 4, 1);
        $m!($($x)* U4, U1, U4, 4, 1, 4);
        $m!($($x)* U5, U5, U5, 5, 5, 5);
        $m!($($x)* U16, U17, U5, 16, 17, 5);
        $m!($($x)* U8, U8, U8, 8, 8, 8);
    };
}
#[macro_export]
macro_rules! for_triples_small {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, U0, 0, 0, 0);
        $m!($($x)* U1, U1, U1, 1, 1, 1);
        $m!($($x)* U2, U2, U2, 2, 2, 2);
        $m!($($x)* U2, U3, U4, 2, 3, 4);
        $m!($($x)* U4, U3, U2, 4, 3, 2);
        $m!($($x)* U3, U0, U2, 3, 0, 2);
        $m!($($x)* U0, U3, U2, 0, 3, 2);
        $m!($($x)* U1, U4, U1, 1, 4, 1);
        $m!($($x)* U4, U1, U4, 4, 1, 4);
        $m!($($x)* U5, U5, U5, 5, 5, 5);
    };
}
#[cfg(not(feature = "narrow"))]
#[macro_export]
macro_rules! for_flat {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U1, U0, 0, 1);
        $m!($($x)* U1, U1, U1, 1, 1);
        $m!($($x)* U2, U1, U2, 2, 1);
        $m!($($x)* U3, U1, U3, 3, 1);
        $m!($($x)* U4, U1, U4, 4, 1);
        $m!($($x)* U5, U1, U5, 5, 1);
        $m!($($x)* U6, U1, U6, 6, 1);
        $m!($($x)* U7, U1, U7, 7, 1);
        $m!($($x)* U8, U1, U8, 8, 1);
        $m!($($x)* U9, U1, U9, 9, 1);
        $m!($($x)* U10, U1, U10, 10, 1);
        $m!($($x)* U11, U1, U11, 11, 1);
        $m!($($x)* U12, U1, U12, 12, 1);
        $m!($($x)* U13, U1, U13, 13, 1);
        $m!($($x)* U14, U1, U14, 14, 1);
        $m!($($x)* U15, U1, U15, 15, 1);
        $m!($($x)* U16, U1, U16, 16, 1);
        $m!($($x)* U17, U1, U17, 17, 1);
        $m!($($x)* U18, U1, U18, 18, 1);
        $m!($($x)* U19, U1, U19, 19, 1);
        $m!($($x)* U20, U1, U20, 20, 1);
        $m!($($x)* U21, U1, U21, 21, 1);
        $m!($($x)* U22, U1, U22, 22, 1);
        $m!($($x)* U23, U1, U23, 23, 1);
        $m!($($x)* U24, U1, U24, 24, 1);
        $m!($($x)* U25, U1, U25, 25, 1);
        $m!($($x)* U26, U1, U26, 26, 1);
        $m!($($x)* U27, U1, U27, 27, 1);
        $m!($($x)* U28, U1, U28, 28, 1);
        $m!($($x)* U29, U1, U29, 29, 1);
        $m!($($x)* U30, U1, U30, 30, 1);
        $m!($($x)* U31, U1, U31, 31, 1);
        $m!($($x)* U32, U1, U32, 32, 1);
        $m!($($x)* U0, U2, U0, 0, 2);
        $m!($($x)* U1, U2, U2, 1, 2);
        $m!($($x)* U2, U2, U4, 2, 2);
        $m!($($x)* U3, U2, U6, 3, 2);
        $m!($($x)* U4, U2, U8, 4, 2);
        $m!($($x)* U5, U2, U10, 5, 2);
        $m!($($x)* U6, U2, U12, 6, 2);
        $m!($($x)* U7, U2, U14, 7, 2);
        $m!($($x)* U8, U2, U16, 8, 2);
        $m!($($x)* U9, U2, U18, 9, 2);
        $m!($($x)* U10, U2, U20, 10, 2);
        $m!($($x)* U11, U2, U22, 11, 2);
        $m!($($x)* U12, U2, U24, 12, 2);
        $m!($($x)* U13, U2, U26, 13, 2);
        $m!($($x)* U14, U2, U28, 14, 2);
        $m!($($x)* U15, U2, U30, 15, 2);
        $m!($($x)* U16, U2, U32, 16, 2);
        $m!($($x)* U1, U3, U3, 1, 3);
        $m!($($x)* U2, U3, U6, 2, 3);
        $m!($($x)* U3, U3, U9, 3, 3);
        $m!($($x)* U4, U3, U12, 4, 3);
        $m!($($x)* U5, U3, U15, 5, 3);
        $m!($($x)* U6, U3, U18, 6, 3);
        $m!($($x)* U7, U3, U21, 7, 3);
        $m!($($x)* U8, U3, U24, 8, 3);
        $m!($($x)* U9, U3, U27, 9, 3);
        $m!($($x)* U10, U3, U30, 10, 3);
        $m!($($x)* U1, U4, U4, 1, 4);
        $m!($($x)* U2, U4, U8, 2, 4);
        $m!($($x)* U3, U4, U12, 3, 4);
        $m!($($x)* U4, U4, U16, 4, 4);
        $m!($($x)* U5, U4, U20, 5, 4);
        $m!($($x)* U6, U4, U24, 6, 4);
        $m!($($x)* U7, U4, U28, 7, 4);
        $m!($($x)* U8, U4, U32, 8, 4);
        $m!($($x)* U0, U5, U0, 0, 5);
        $m!($($x)* U1, U5, U5, 1, 5);
        $m!($($x)* U2, U5, U10, 2, 5);
        $m!($($x)* U3, U5, U15, 3, 5);
        $m!($($x)* U4, U5, U20, 4, 5);
        $m!($($x)* U5, U5, U25, 5, 5);
        $m!($($x)* U6, U5, U30, 6, 5);
        $m!($($x)* U1, U6, U6, 1, 6);
        $m!($($x)* U2, U6, U12, 2, 6);
        $m!($($x)* U3, U6, U18, 3, 6);
        $m!($($x)* U4, U6, U24, 4, 6);
        $m!($($x)* U5, U6, U30, 5, 6);
        $m!($($x)* U1, U7, U7, 1, 7);
        $m!($($x)* U2, U7, U14, 2, 7);
        $m!($($x)* U3, U7, U21, 3, 7);
        $m!($($x)* U4, U7, U28, 4, 7);
        $m!($($x)* U1, U8, U8, 1, 8);
        $m!($($x)* U2, U8, U16, 2, 8);
        $m!($($x)* U3, U8, U24, 3, 8);
        $m!($($x)* U4, U8, U32, 4, 8);
        $m!($($x)* U1, U9, U9, 1, 9);
        $m!($($x)* U2, U9, U18, 2, 9);
        $m!($($x)* U3, U9, U27, 3, 9);
        $m!($($x)* U1, U10, U10, 1, 10);
        $m!($($x)* U2, U10, U20, 2, 10);
        $m!($($x)* U3, U10, U30, 3, 10);
        $m!($($x)* U1, U11, U11, 1, 11);
        $m!($($x)* U2, U11, U22, 2, 11);
        $m!($($x)* U1, U12, U12, 1, 12);
        $m!($($x)* U2, U12, U24, 2, 12);
        $m!($($x)* U1, U13, U13, 1, 13);
        $m!($($x)* U2, U13, U26, 2, 13);
        $m!($($x)* U1, U14, U14, 1, 14);
        $m!($($x)* U2, U14, U28, 2, 14);
        $m!($($x)* U1, U15, U15, 1, 15);
        $m!($($x)* U2, U15, U30, 2, 15);
        $m!($($x)* U1, U16, U16, 1, 16);
        $m!($($x)* U2, U16, U32, 2, 16);
        $m!($($x)* U1, U17, U17, 1, 17);
        $m!($($x)* U1, U18, U18, 1, 18);
        $m!($($x)* U1, U19, U19, 1, 19);
        $m!($($x)* U1, U20, U20, 1, 20);
        $m!($($x)* U1, U21, U21, 1, 21);
        $m!($($x)* U1, U22, U22, 1, 22);
        $m!($($x)* U1, U23, U23, 1, 23);
        $m!($($x)* U1, U24, U24, 1, 24);
        $m!($($x)* U1, U25, U25, 1, 25);
        $m!($($x)* U1, U26, U26, 1, 26);
        $m!($($x)* U1, U27, U27, 1, 27);
        $m!($($x)* U1, U28, U28, 1, 28);
        $m!($($x)* U1, U29, U29, 1, 29);
        $m!($($x)* U1, U30, U30, 1, 30);
        $m!($($x)* U1, U31, U31, 1, 31);
        $m!($($x)* U0, U32, U0, 0, 32);
        $m!($($x)* U1, U32, U32, 1, 32);
    };
}
#[cfg(feature = "narrow")]
#[macro_export]
macro_rules! for_flat {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U1, U0, 0, 1);
        $m!($($x)* U1, U1, U1, 1, 1);
        $m!($($x)* U32, U1, U32, 32, 1);
        $m!($($x)* U3, U2, U6, 3, 2);
        $m!($($x)* U2, U3, U6, 2, 3);
        $m!($($x)* U8, U4, U32, 8, 4);
        $m!($($x)* U5, U6, U30, 5, 6);
        $m!($($x)* U4, U8, U32, 4, 8);
        $m!($($x)* U1, U32, U32, 1, 32);
    };
}
#[macro_export]
macro_rules! for_index {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, 0, 0);
        $m!($($x)* U0, U1, 0, 1);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U0, U3, 0, 3);
        $m!($($x)* U0, U4, 0, 4);
        $m!($($x)* U0, U5, 0, 5);
        $m!($($x)* U0, U6, 0, 6);
        $m!($($x)* U0, U7, 0, 7);
        $m!($($x)* U0, U8, 0, 8);
        $m!($($x)* U0, U9, 0, 9);
        $m!($($x)* U0, U10, 0, 10);
        $m!($($x)* U0, U11, 0, 11);
        $m!($($x)* U0, U12, 0, 12);
        $m!($($x)* U0, U13, 0, 13);
        $m!($($x)* U0, U14, 0, 14);
        $m!($($x)* U0, U15, 0, 15);
        $m!($($x)* U0, U16, 0, 16);
        $m!($($x)* U0, U17, 0, 17);
        $m!($($x)* U0, U18, 0, 18);
        $m!($($x)* U0, U19, 0, 19);
        $m!($($x)* U0, U20, 0, 20);
        $m!($($x)* U0, U21, 0, 21);
        $m!($($x)* U0, U22, 0, 22);
        $m!($($x)* U0, U23, 0, 23);
        $m!($($x)* U0, U24, 0, 24);
        $m!($($x)* U0, U25, 0, 25);
        $m!($($x)* U0, U26, 0, 26);
        $m!($($x)* U0, U27, 0, 27);
        $m!($($x)* U0, U28, 0, 28);
        $m!($($x)* U0, U29, 0, 29);
        $m!($($x)* U0, U30, 0, 30);
        $m!($($x)* U0, U31, 0, 31);
        $m!($($x)* U0, U32, 0, 32);
        $m!($($x)* U0, U33, 0, 33);
        $m!($($x)* U1, U0, 1, 0);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U1, U2, 1, 2);
        $m!($($x)* U1, U3, 1, 3);
        $m!($($x)* U1, U4, 1, 4);
        $m!($($x)* U1, U5, 1, 5);
        $m!($($x)* U1, U6, 1, 6);
        $m!($($x)* U1, U7, 1, 7);
        $m!($($x)* U1, U8, 1, 8);
        $m!($($x)* U1, U9, 1, 9);
        $m!($($x)* U1, U10, 1, 10);
        $m!($($x)* U1, U11, 1, 11);
        $m!($($x)* U1, U12, 1, 12);
        $m!($($x)* U1, U13, 1, 13);
        $m!($($x)* U1, U14, 1, 14);
        $m!($($x)* U1, U15, 1, 15);
        $m!($($x)* U1, U16, 1, 16);
        $m!($($x)* U1, U17, 1, 17);
        $m!($($x)* U1, U18, 1, 18);
        $m!($($x)* U1, U19, 1, 19);
        $m!($($x)* U1, U20, 1, 20);
        $m!($($x)* U1, U21, 1, 21);
        $m!($($x)* U1, U22, 1, 22);
        $m!($($x)* U1, U23, 1, 23);
        $m!($($x)* U1, U24, 1, 24);
        $m!($($x)* U1, U25, 1, 25);
        $m!($($x)* U1, U26, 1, 26);
        $m!($($x)* U1, U27, 1, 27);
        $m!($($x)* U1, U28, 1, 28);
        $m!($($x)* U1, U29, 1, 29);
        $m!($($x)* U1, U30, 1, 30);
        $m!($($x)* U1, U31, 1, 31);
        $m!($($x)* U1, U32, 1, 32);
        $m!($($x)* U1, U33, 1, 33);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U2, U1, 2, 1);
        $m!($($x)* U2, U2, 2, 2);
        $m!($($x)* U2, U3, 2, 3);
        $m!($($x)* U2, U4, 2, 4);
        $m!($($x)* U2, U5, 2, 5);
        $m!($($x)* U2, U6, 2, 6);
        $m!($($x)* U2, U7, 2, 7);
        $m!($($x)* U2, U8, 2, 8);
        $m!($($x)* U2, U9, 2, 9);
        $m!($($x)* U2, U10, 2, 10);
        $m!($($x)* U2, U11, 2, 11);
        $m!($($x)* U2, U12, 2, 12);
        $m!($($x)* U2, U13, 2, 13);
        $m!($($x)* U2, U14, 2, 14);
        $m!($($x)* U2, U15, 2, 15);
        $m!($($x)* U2, U16, 2, 16);
        $m!($($x)* U2, U17, 2, 17);
        $m!($($x)* U2, U18, 2, 18);
        $m!($($x)* U2, U19, 2, 19);
        $m!($($x)* U2, U20, 2, 20);
        $m!($($x)* U2, U21, 2, 21);
        $m!($($x)* U2, U22, 2, 22);
        $m!($($x)* U2, U23, 2, 23);
        $m!($($x)* U2, U24, 2, 24);
        $m!($($x)* U2, U25, 2, 25);
        $m!($($x)* U2, U26, 2, 26);
        $m!($($x)* U2, U27, 2, 27);
        $m!($($x)* U2, U28, 2, 28);
        $m!($($x)* U2, U29, 2, 29);
        $m!($($x)* U2, U30, 2, 30);
        $m!($($x)* U2, U31, 2, 31);
        $m!($($x)* U2, U32, 2, 32);
        $m!($($x)* U2, U33, 2, 33);
        $m!($($x)* U3, U0, 3, 0);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U3, U4, 3, 4);
        $m!($($x)* U3, U5, 3, 5);
        $m!($($x)* U3, U6, 3, 6);
        $m!($($x)* U3, U7, 3, 7);
        $m!($($x)* U3, U8, 3, 8);
        $m!($($x)* U3, U9, 3, 9);
        $m!($($x)* U3, U10, 3, 10);
        $m!($($x)* U3, U11, 3, 11);
        $m!($($x)* U3, U12, 3, 12);
        $m!($($x)* U3, U13, 3, 13);
        $m!($($x)* U3, U14, 3, 14);
        $m!($($x)* U3, U15, 3, 15);
        $m!($($x)* U3, U16, 3, 16);
        $m!($($x)* U3, U17, 3, 17);
        $m!($($x)* U3, U18, 3, 18);
        $m!($($x)* U3, U19, 3, 19);
        $m!($($x)* U3, U20, 3, 20);
        $m!($($x)* U3, U21, 3, 21);
        $m!($($x)* U3, U22, 3, 22);
        $m!($($x)* U3, U23, 3, 23);
        $m!($($x)* U3, U24, 3, 24);
        $m!($($x)* U3, U25, 3, 25);
        $m!($($x)* U3, U26, 3, 26);
        $m!($($x)* U3, U27, 3, 27);
        $m!($($x)* U3, U28, 3, 28);
        $m!($($x)* U3, U29, 3, 29);
        $m!($($x)* U3, U30, 3, 30);
        $m!($($x)* U3, U31, 3, 31);
        $m!($($x)* U3, U32, 3, 32);
        $m!($($x)* U3, U33, 3, 33);
        $m!($($x)* U4, U0, 4, 0);
        $m!($($x)* U4, U1, 4, 1);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U4, U3, 4, 3);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U4, U5, 4, 5);
        $m!($($x)* U4, U6, 4, 6);
        $m!($($x)* U4, U7, 4, 7);
        $m!($($x)* U4, U8, 4, 8);
        $m!($($x)* U4, U9, 4, 9);
        $m!($($x)* U4, U10, 4, 10);
        $m!($($x)* U4, U11, 4, 11);
        $m!($($x)* U4, U12, 4, 12);
        $m!($($x)* U4, U13, 4, 13);
        $m!($($x)* U4, U14, 4, 14);
        $m!($($x)* U4, U15, 4, 15);
        $m!($($x)* U4, U16, 4, 16);
        $m!($($x)* U4, U17, 4, 17);
        $m!($($x)* U4, U18, 4, 18);
        $m!($($x)* U4, U19, 4, 19);
        $m!($($x)* U4, U20, 4, 20);
        $m!($($x)* U4, U21, 4, 21);
        $m!($($x)* U4, U22, 4, 22);
        $m!($($x)* U4, U23, 4, 23);
        $m!($($x)* U4, U24, 4, 24);
        $m!($($x)* U4, U25, 4, 25);
        $m!($($x)* U4, U26, 4, 26);
        $m!($($x)* U4, U27, 4, 27);
        $m!($($x)* U4, U28, 4, 28);
        $m!($($x)* U4, U29, 4, 29);
        $m!($($x)* U4, U30, 4, 30);
        $m!($($x)* U4, U31, 4, 31);
        $m!($($x)* U4, U32, 4, 32);
        $m!($($x)* U4, U33, 4, 33);
        $m!($($x)* U5, U0, 5, 0);
        $m!($($x)* U5, U1, 5, 1);
        $m!($($x)* U5, U2, 5, 2);
        $m!($($x)* U5, U3, 5, 3);
        $m!($($x)* U5, U4, 5, 4);
        $m!($($x)* U5, U5, 5, 5);
        $m!($($x)* U5, U6, 5, 6);
        $m!($($x)* U5, U7, 5, 7);
        $m!($($x)* U5, U8, 5, 8);
        $m!($($x)* U5, U9, 5, 9);
        $m!($($x)* U5, U10, 5, 10);
        $m!($($x)* U5, U11, 5, 11);
        $m!($($x)* U5, U12, 5, 12);
        $m!($($x)* U5, U13, 5, 13);
        $m!($($x)* U5, U14, 5, 14);
        $m!($($x)* U5, U15, 5, 15);
        $m!($($x)* U5, U16, 5, 16);
        $m!($($x)* U5, U17, 5, 17);
        $m!($($x)* U5, U18, 5, 18);
        $m!($($x)* U5, U19, 5, 19);
        $m!($($x)* U5, U20, 5, 20);
        $m!($($x)* U5, U21, 5, 21);
        $m!($($x)* U5, U22, 5, 22);
        $m!($($x)* U5, U23, 5, 23);
        $m!($($x)* U5, U24, 5, 24);
        $m!($($x)* U5, U25, 5, 25);
        $m!($($x)* U5, U26, 5, 26);
        $m!($($x)* U5, U27, 5, 27);
        $m!($($x)* U5, U28, 5, 28);
        $m!($($x)* U5, U29, 5, 29);
        $m!($($x)* U5, U30, 5, 30);
        $m!($($x)* U5, U31, 5, 31);
        $m!($($x)* U5, U32, 5, 32);
        $m!($($x)* U5, U33, 5, 33);
        $m!($($x)* U6, U0, 6, 0);
        $m!($($x)* U6, U1, 6, 1);
        $m!($($x)* U6, U2, 6, 2);
        $m!($($x)* U6, U3, 6, 3);
        $m!($($x)* U6, U4, 6, 4);
        $m!($($x)* U6, U5, 6, 5);
        $m!($($x)* U6, U6, 6, 6);
        $m!($($x)* U6, U7, 6, 7);
        $m!($($x)* U6, U8, 6, 8);
        $m!($($x)* U6, U9, 6, 9);
        $m!($($x)* U6, U10, 6, 10);
        $m!($($x)* U6, U11, 6, 11);
        $m!($($x)* U6, U12, 6, 12);
        $m!($($x)* U6, U13, 6, 13);
        $m!($($x)* U6, U14, 6, 14);
        $m!($($x)* U6, U15, 6, 15);
        $m!($($x)* U6, U16, 6, 16);
        $m!($($x)* U6, U17, 6, 17);
        $m!($($x)* U6, U18, 6, 18);
        $m!($($x)* U6, U19, 6, 19);
        $m!($($x)* U6, U20, 6, 20);
        $m!($($x)* U6, U21, 6, 21);
        $m!($($x)* U6, U22, 6, 22);
        $m!($($x)* U6, U23, 6, 23);
        $m!($($x)* U6, U24, 6, 24);
        $m!($($x)* U6, U25, 6, 25);
        $m!($($x)* U6, U26, 6, 26);
        $m!($($x)* U6, U27, 6, 27);
        $m!($($x)* U6, U28, 6, 28);
        $m!($($x)* U6, U29, 6, 29);
        $m!($($x)* U6, U30, 6, 30);
        $m!($($x)* U6, U31, 6, 31);
        $m!($($x)* U6, U32, 6, 32);
        $m!($($x)* U6, U33, 6, 33);
        $m!($($x)* U7, U0, 7, 0);
        $m!($($x)* U7, U1, 7, 1);
        $m!($($x)* U7, U2, 7, 2);
        $m!($($x)* U7, U3, 7, 3);
        $m!($($x)* U7, U4, 7, 4);
        $m!($($x)* U7, U5, 7, 5);
        $m!($($x)* U7, U6, 7, 6);
        $m!($($x)* U7, U7, 7, 7);
        $m!($($x)* U7, U8, 7, 8);
        $m!($($x)* U7, U9, 7, 9);
        $m!($($x)* U7, U10, 7, 10);
        $m!($($x)* U7, U11, 7, 11);
        $m!($($x)* U7, U12, 7, 12);
        $m!($($x)* U7, U13, 7, 13);
        $m!($($x)* U7, U14, 7, 14);
        $m!($($x)* U7, U15, 7, 15);
        $m!($($x)* U7, U16, 7, 16);
        $m!($($x)* U7, U17, 7, 17);
        $m!($($x)* U7, U18, 7, 18);
        $m!($($x)* U7, U19, 7, 19);
        $m!($($x)* U7, U20, 7, 20);
        $m!($($x)* U7, U21, 7, 21);
        $m!($($x)* U7, U22, 7, 22);
        $m!($($x)* U7, U23, 7, 23);
        $m!($($x)* U7, U24, 7, 24);
        $m!($($x)* U7, U25, 7, 25);
        $m!($($x)* U7, U26, 7, 26);
        $m!($($x)* U7, U27, 7, 27);
        $m!($($x)* U7, U28, 7, 28);
        $m!($($x)* U7, U29, 7, 29);
        $m!($($x)* U7, U30, 7, 30);
        $m!($($x)* U7, U31, 7, 31);
        $m!($($x)* U7, U32, 7, 32);
        $m!($($x)* U7, U33, 7, 33);
        $m!($($x)* U8, U0, 8, 0);
        $m!($($x)* U8, U1, 8, 1);
        $m!($($x)* U8, U2, 8, 2);
        $m!($($x)* U8, U3, 8, 3);
        $m!($($x)* U8, U4, 8, 4);
        $m!($($x)* U8, U5, 8, 5);
        $m!($($x)* U8, U6, 8, 6);
        $m!($($x)* U8, U7, 8, 7);
        $m!($($x)* U8, U8, 8, 8);
        $m!($($x)* U8, U9, 8, 9);
        $m!($($x)* U8, U10, 8, 10);
        $m!($($x)* U8, U11, 8, 11);
        $m!($($x)* U8, U12, 8, 12);
        $m!($($x)* U8, U13, 8, 13);
        $m!($($x)* U8, U14, 8, 14);
        $m!($($x)* U8, U15, 8, 15);
        $m!($($x)* U8, U16, 8, 16);
        $m!($($x)* U8, U17, 8, 17);
        $m!($($x)* U8, U18, 8, 18);
        $m!($($x)* U8, U19, 8, 19);
        $m!($($x)* U8, U20, 8, 20);
        $m!($($x)* U8, U21, 8, 21);
        $m!($($x)* U8, U22, 8, 22);
        $m!($($x)* U8, U23, 8, 23);
        $m!($($x)* U8, U24, 8, 24);
        $m!($($x)* U8, U25, 8, 25);
        $m!($($x)* U8, U26, 8, 26);
        $m!($($x)* U8, U27, 8, 27);
        $m!($($x)* U8, U28, 8, 28);
        $m!($($x)* U8, U29, 8, 29);
        $m!($($x)* U8, U30, 8, 30);
        $m!($($x)* U8, U31, 8, 31);
        $m!($($x)* U8, U32, 8, 32);
        $m!($($x)* U8, U33, 8, 33);
        $m!($($x)* U9, U0, 9, 0);
        $m!($($x)* U9, U1, 9, 1);
        $m!($($x)* U9, U2, 9, 2);
        $m!($($x)* U9, U3, 9, 3);
        $m!($($x)* U9, U4, 9, 4);
        $m!($($x)* U9, U5, 9, 5);
        $m!($($x)* U9, U6, 9, 6);
        $m!($($x)* U9, U7, 9, 7);
        $m!($($x)* U9, U8, 9, 8);
        $m!($($x)* U9, U9, 9, 9);
        $m!($($x)* U9, U10, 9, 10);
        $m!($($x)* U9, U11, 9, 11);
        $m!($($x)* U9, U12, 9, 12);
        $m!($($x)* U9, U13, 9, 13);
        $m!($($x)* U9, U14, 9, 14);
        $m!($($x)* U9, U15, 9, 15);
        $m!($($x)* U9, U16, 9, 16);
        $m!($($x)* U9, U17, 9, 17);
        $m!($($x)* U9, U18, 9, 18);
        $m!($($x)* U9, U19, 9, 19);
        $m!($($x)* U9, U20, 9, 20);
        $m!($($x)* U9, U21, 9, 21);
        $m!($($x)* U9, U22, 9, 22);
        $m!($($x)* U9, U23, 9, 23);
        $m!($($x)* U9, U24, 9, 24);
        $m!($($x)* U9, U25, 9, 25);
        $m!($($x)* U9, U26, 9, 26);
        $m!($($x)* U9, U27, 9, 27);
        $m!($($x)* U9, U28, 9, 28);
        $m!($($x)* U9, U29, 9, 29);
        $m!($($x)* U9, U30, 9, 30);
        $m!($($x)* U9, U31, 9, 31);
        $m!($($x)* U9, U32, 9, 32);
        $m!($($x)* U9, U33, 9, 33);
        $m!($($x)* U10, U0, 10, 0);
        $m!($($x)* U10, U1, 10, 1);
        $m!($($x)* U10, U2, 10, 2);
        $m!($($x)* U10, U3, 10, 3);
        $m!($($x)* U10, U4, 10, 4);
        $m!($($x)* U10, U5, 10, 5);
        $m!($($x)* U10, U6, 10, 6);
        $m!($($x)* U10, U7, 10, 7);
        $m!($($x)* U10, U8, 10, 8);
        $m!($($x)* U10, U9, 10, 9);
        $m!($($x)* U10, U10, 10, 10);
        $m!($($x)* U10, U11, 10, 11);
        $m!($($x)* U10, U12, 10, 12);
        $m!($($x)* U10, U13, 10, 13);
        $m!($($x)* U10, U14, 10, 14);
        $m!($($x)* U10, U15, 10, 15);
        $m!($($x)* U10, U16, 10, 16);
        $m!($($x)* U10, U17, 10, 17);
        $m!($($x)* U10, U18, 10, 18);
        $m!($($x)* U10, U19, 10, 19);
        $m!($($x)* U10, U20, 10, 20);
        $m!($($x)* U10, U21, 10, 21);
        $m!($($x)* U10, U22, 10, 22);
        $m!($($x)* U10, U23, 10, 23);
        $m!($($x)* U10, U24, 10, 24);
        $m!($($x)* U10, U25, 10, 25);
        $m!($($x)* U10, U26, 10, 26);
        $m!($($x)* U10, U27, 10, 27);
        $m!($($x)* U10, U28, 10, 28);
        $m!($($x)* U10, U29, 10, 29);
        $m!($($x)* U10, U30, 10, 30);
        $m!($($x)* U10, U31, 10, 31);
        $m!($($x)* U10, U32, 10, 32);
        $m!($($x)* U10, U33, 10, 33);
        $m!($($x)* U11, U0, 11, 0);
        $m!($($x)* U11, U1, 11, 1);
        $m!($($x)* U11, U2, 11, 2);
        $m!($($x)* U11, U3, 11, 3);
        $m!($($x)* U11, U4, 11, 4);
        $m!($($x)* U11, U5, 11, 5);
        $m!($($x)* U11, U6, 11, 6);
        $m!($($x)* U11, U7, 11, 7);
        $m!($($x)* U11, U8, 11, 8);
        $m!($($x)* U11, U9, 11, 9);
        $m!($($x)* U11, U10, 11, 10);
        $m!($($x)* U11, U11, 11, 11);
        $m!($($x)* U11, U12, 11, 12);
        $m!($($x)* U11, U13, 11, 13);
        $m!($($x)* U11, U14, 11, 14);
        $m!($($x)* U11, U15, 11, 15);
        $m!($($x)* U11, U16, 11, 16);
        $m!($($x)* U11, U17, 11, 17);
        $m!($($x)* U11, U18, 11, 18);
        $m!($($x)* U11, U19, 11, 19);
        $m!($($x)* U11, U20, 11, 20);
        $m!($($x)* U11, U21, 11, 21);
        $m!($($x)* U11, U22, 11, 22);
        $m!($($x)* U11, U23, 11, 23);
        $m!($($x)* U11, U24, 11, 24);
        $m!($($x)* U11, U25, 11, 25);
        $m!($($x)* U11, U26, 11, 26);
        $m!($($x)* U11, U27, 11, 27);
        $m!($($x)* U11, U28, 11, 28);
        $m!($($x)* U11, U29, 11, 29);
        $m!($($x)* U11, U30, 11, 30);
        $m!($($x)* U11, U31, 11, 31);
        $m!($($x)* U11, U32, 11, 32);
        $m!($($x)* U11, U33, 11, 33);
        $m!($($x)* U12, U0, 12, 0);
        $m!($($x)* U12, U1, 12, 1);
        $m!($($x)* U12, U2, 12, 2);
        $m!($($x)* U12, U3, 12, 3);
        $m!($($x)* U12, U4, 12, 4);
        $m!($($x)* U12, U5, 12, 5);
        $m!($($x)* U12, U6, 12, 6);
        $m!($($x)* U12, U7, 12, 7);
        $m!($($x)* U12, U8, 12, 8);
        $m!($($x)* U12, U9, 12, 9);
        $m!($($x)* U12, U10, 12, 10);
        $m!($($x)* U12, U11, 12, 11);
        $m!($($x)* U12, U12, 12, 12);
        $m!($($x)* U12, U13, 12, 13);
        $m!($($x)* U12, U14, 12, 14);
        $m!($($x)* U12, U15, 12, 15);
        $m!($($x)* U12, U16, 12, 16);
        $m!($($x)* U12, U17, 12, 17);
        $m!($($x)* U12, U18, 12, 18);
        $m!($($x)* U12, U19, 12, 19);
        $m!($($x)* U12, U20, 12, 20);
        $m!($($x)* U12, U21, 12, 21);
        $m!($($x)* U12, U22, 12, 22);
        $m!($($x)* U12, U23, 12, 23);
        $m!($($x)* U12, U24, 12, 24);
        $m!($($x)* U12, U25, 12, 25);
        $m!($($x)* U12, U26, 12, 26);
        $m!($($x)* U12, U27, 12, 27);
        $m!($($x)* U12, U28, 12, 28);
        $m!($($x)* U12, U29, 12, 29);
        $m!($($x)* U12, U30, 12, 30);
        $m!($($x)* U12, U31, 12, 31);
        $m!($($x)* U12, U32, 12, 32);
        $m!($($x)* U12, U33, 12, 33);
        $m!($($x)* U13, U0, 13, 0);
        $m!($($x)* U13, U1, 13, 1);
        $m!($($x)* U13, U2, 13, 2);
        $m!($($x)* U13, U3, 13, 3);
        $m!($($x)* U13, U4, 13, 4);
        $m!($($x)* U13, U5, 13, 5);
        $m!($($x)* U13, U6, 13, 6);
        $m!($($x)* U13, U7, 13, 7);
        $m!($($x)* U13, U8, 13, 8);
        $m!($($x)* U13, U9, 13, 9);
        $m!($($x)* U13, U10, 13, 10);
        $m!($($x)* U13, U11, 13, 11);
        $m!($($x)* U13, U12, 13, 12);
        $m!($($x)* U13, U13, 13, 13);
        $m!($($x)* U13, U14, 13, 14);
        $m!($($x)* U13, U15, 13, 15);
        $m!($($x)* U13, U16, 13, 16);
        $m!($($x)* U13, U17, 13, 17);
        $m!($($x)* U13, U18, 13, 18);
        $m!($($x)* U13, U19, 13, 19);
        $m!($($x)* U13, U20, 13, 20);
        $m!($($x)* U13, U21, 13, 21);
        $m!($($x)* U13, U22, 13, 22);
        $m!($($x)* U13, U23, 13, 23);
        $m!($($x)* U13, U24, 13, 24);
        $m!($($x)* U13, U25, 13, 25);
        $m!($($x)* U13, U26, 13, 26);
        $m!($($x)* U13, U27, 13, 27);
        $m!($($x)* U13, U28, 13, 28);
        $m!($($x)* U13, U29, 13, 29);
        $m!($($x)* U13, U30, 13, 30);
        $m!($($x)* U13, U31, 13, 31);
        $m!($($x)* U13, U32, 13, 32);
        $m!($($x)* U13, U33, 13, 33);
        $m!($($x)* U14, U0, 14, 0);
        $m!($($x)* U14, U1, 14, 1);
        $m!($($x)* U14, U2, 14, 2);
        $m!($($x)* U14, U3, 14, 3);
        $m!($($x)* U14, U4, 14, 4);
        $m!($($x)* U14, U5, 14, 5);
        $m!($($x)* U14, U6, 14, 6);
        $m!($($x)* U14, U7, 14, 7);
        $m!($($x)* U14, U8, 14, 8);
        $m!($($x)* U14, U9, 14, 9);
        $m!($($x)* U14, U10, 14, 10);
        $m!($($x)* U14, U11, 14, 11);
        $m!($($x)* U14, U12, 14, 12);
        $m!($($x)* U14, U13, 14, 13);
        $m!($($x)* U14, U14, 14, 14);
        $m!($($x)* U14, U15, 14, 15);
        $m!($($x)* U14, U16, 14, 16);
        $m!($($x)* U14, U17, 14, 17);
        $m!($($x)* U14, U18, 14, 18);
        $m!($($x)* U14, U19, 14, 19);
        $m!($($x)* U14, U20, 14, 20);
        $m!($($x)* U14, U21, 14, 21);
        $m!($($x)* U14, U22, 14, 22);
        $m!($($x)* U14, U23, 14, 23);
        $m!($($x)* U14, U24, 14, 24);
        $m!($($x)* U14, U25, 14, 25);
        $m!($($x)* U14, U26, 14, 26);
        $m!($($x)* U14, U27, 14, 27);
        $m!($($x)* U14, U28, 14, 28);
        $m!($($x)* U14, U29, 14, 29);
        $m!($($x)* U14, U30, 14, 30);
        $m!($($x)* U14, U31, 14, 31);
        $m!($($x)* U14, U32, 14, 32);
        $m!($($x)* U14, U33, 14, 33);
        $m!($($x)* U15, U0, 15, 0);
        $m!($($x)* U15, U1, 15, 1);
        $m!($($x)* U15, U2, 15, 2);
        $m!($($x)* U15, U3, 15, 3);
        $m!($($x)* U15, U4, 15, 4);
        $m!($($x)* U15, U5, 15, 5);
        $m!($($x)* U15, U6, 15, 6);
        $m!($($x)* U15, U7, 15, 7);
        $m!($($x)* U15, U8, 15, 8);
        $m!($($x)* U15, U9, 15, 9);
        $m!($($x)* U15, U10, 15, 10);
        $m!($($x)* U15, U11, 15, 11);
        $m!($($x)* U15, U12, 15, 12);
        $m!($($x)* U15, U13, 15, 13);
        $m!($($x)* U15, U14, 15, 14);
        $m!($($x)* U15, U15, 15, 15);
        $m!($($x)* U15, U16, 15, 16);
        $m!($($x)* U15, U17, 15, 17);
        $m!($($x)* U15, U18, 15, 18);
        $m!($($x)* U15, U19, 15, 19);
        $m!($($x)* U15, U20, 15, 20);
        $m!($($x)* U15, U21, 15, 21);
        $m!($($x)* U15, U22, 15, 22);
        $m!($($x)* U15, U23, 15, 23);
        $m!($($x)* U15, U24, 15, 24);
        $m!($($x)* U15, U25, 15, 25);
        $m!($($x)* U15, U26, 15, 26);
        $m!($($x)* U15, U27, 15, 27);
        $m!($($x)* U15, U28, 15, 28);
        $m!($($x)* U15, U29, 15, 29);
        $m!($($x)* U15, U30, 15, 30);
        $m!($($x)* U15, U31, 15, 31);
        $m!($($x)* U15, U32, 15, 32);
        $m!($($x)* U15, U33, 15, 33);
        $m!($($x)* U16, U0, 16, 0);
        $m!($($x)* U16, U1, 16, 1);
        $m!($($x)* U16, U2, 16, 2);
        $m!($($x)* U16, U3, 16, 3);
        $m!($($x)* U16, U4, 16, 4);
        $m!($($x)* U16, U5, 16, 5);
        $m!($($x)* U16, U6, 16, 6);
        $m!($($x)* U16, U7, 16, 7);
        $m!($($x)* U16, U8, 16, 8);
        $m!($($x)* U16, U9, 16, 9);
        $m!($($x)* U16, U10, 16, 10);
        $m!($($x)* U16, U11, 16, 11);
        $m!($($x)* U16, U12, 16, 12);
        $m!($($x)* U16, U13, 16, 13);
        $m!($($x)* U16, U14, 16, 14);
        $m!($($x)* U16, U15, 16, 15);
        $m!($($x)* U16, U16, 16, 16);
        $m!($($x)* U16, U17, 16, 17);
        $m!($($x)* U16, U18, 16, 18);
        $m!($($x)* U16, U19, 16, 19);
        $m!($($x)* U16, U20, 16, 20);
        $m!($($x)* U16, U21, 16, 21);
        $m!($($x)* U16, U22, 16, 22);
        $m!($($x)* U16, U23, 16, 23);
        $m!($($x)* U16, U24, 16, 24);
        $m!($($x)* U16, U25, 16, 25);
        $m!($($x)* U16, U26, 16, 26);
        $m!($($x)* U16, U27, 16, 27);
        $m!($($x)* U16, U28, 16, 28);
        $m!($($x)* U16, U29, 16, 29);
        $m!($($x)* U16, U30, 16, 30);
        $m!($($x)* U16, U31, 16, 31);
        $m!($($x)* U16, U32, 16, 32);
        $m!($($x)* U16, U33, 16, 33);
        $m!($($x)* U17, U0, 17, 0);
        $m!($($x)* U17, U1, 17, 1);
        $m!($($x)* U17, U2, 17, 2);
        $m!($($x)* U17, U3, 17, 3);
        $m!($($x)* U17, U4, 17, 4);
        $m!($($x)* U17, U5, 17, 5);
        $m!($($x)* U17, U6, 17, 6);
        $m!($($x)* U17, U7, 17, 7);
        $m!($($x)* U17, U8, 17, 8);
        $m!($($x)* U17, U9, 17, 9);
        $m!($($x)* U17, U10, 17, 10);
        $m!($($x)* U17, U11, 17, 11);
        $m!($($x)* U17, U12, 17, 12);
        $m!($($x)* U17, U13, 17, 13);
        $m!($($x)* U17, U14, 17, 14);
        $m!($($x)* U17, U15, 17, 15);
        $m!($($x)* U17, U16, 17, 16);
        $m!($($x)* U17, U17, 17, 17);
        $m!($($x)* U17, U18, 17, 18);
        $m!($($x)* U17, U19, 17, 19);
        $m!($($x)* U17, U20, 17, 20);
        $m!($($x)* U17, U21, 17, 21);
        $m!($($x)* U17, U22, 17, 22);
        $m!($($x)* U17, U23, 17, 23);
        $m!($($x)* U17, U24, 17, 24);
        $m!($($x)* U17, U25, 17, 25);
        $m!($($x)* U17, U26, 17, 26);
        $m!($($x)* U17, U27, 17, 27);
        $m!($($x)* U17, U28, 17, 28);
        $m!($($x)* U17, U29, 17, 29);
        $m!($($x)* U17, U30, 17, 30);
        $m!($($x)* U17, U31, 17, 31);
        $m!($($x)* U17, U32, 17, 32);
        $m!($($x)* U17, U33, 17, 33);
        $m!($($x)* U18, U0, 18, 0);
        $m!($($x)* U18, U1, 18, 1);
        $m!($($x)* U18, U2, 18, 2);
        $m!($($x)* U18, U3, 18, 3);
        $m!($($x)* U18, U4, 18, 4);
        $m!($($x)* U18, U5, 18, 5);
        $m!($($x)* U18, U6, 18, 6);
        $m!($($x)* U18, U7, 18, 7);
        $m!($($x)* U18, U8, 18, 8);
        $m!($($x)* U18, U9, 18, 9);
        $m!($($x)* U18, U10, 18, 10);
        $m!($($x)* U18, U11, 18, 11);
        $m!($($x)* U18, U12, 18, 12);
        $m!($($x)* U18, U13, 18, 13);
        $m!($($x)* U18, U14, 18, 14);
        $m!($($x)* U18, U15, 18, 15);
        $m!($($x)* U18, U16, 18, 16);
        $m!($($x)* U18, U17, 18, 17);
        $m!($($x)* U18, U18, 18, 18);
        $m!($($x)* U18, U19, 18, 19);
        $m!($($x)* U18, U20, 18, 20);
        $m!($($x)* U18, U21, 18, 21);
        $m!($($x)* U18, U22, 18, 22);
        $m!($($x)* U18, U23, 18, 23);
        $m!($($x)* U18, U24, 18, 24);
        $m!($($x)* U18, U25, 18, 25);
        $m!($($x)* U18, U26, 18, 26);
        $m!($($x)* U18, U27, 18, 27);
        $m!($($x)* U18, U28, 18, 28);
        $m!($($x)* U18, U29, 18, 29);
        $m!($($x)* U18, U30, 18, 30);
        $m!($($x)* U18, U31, 18, 31);
        $m!($($x)* U18, U32, 18, 32);
        $m!($($x)* U18, U33, 18, 33);
        $m!($($x)* U19, U0, 19, 0);
        $m!($($x)* U19, U1, 19, 1);
        $m!($($x)* U19, U2, 19, 2);
        $m!($($x)* U19, U3, 19, 3);
        $m!($($x)* U19, U4, 19, 4);
        $m!($($x)* U19, U5, 19, 5);
        $m!($($x)* U19, U6, 19, 6);
        $m!($($x)* U19, U7, 19, 7);
        $m!($($x)* U19, U8, 19, 8);
        $m!($($x)* U19, U9, 19, 9);
        $m!($($x)* U19, U10, 19, 10);
        $m!($($x)* U19, U11, 19, 11);
        $m!($($x)* U19, U12, 19, 12);
        $m!($($x)* U19, U13, 19, 13);
        $m!($($x)* U19, U14, 19, 14);
        $m!($($x)* U19, U15, 19, 15);
        $m!($($x)* U19, U16, 19, 16);
        $m!($($x)* U19, U17, 19, 17);
        $m!($($x)* U19, U18, 19, 18);
        $m!($($x)* U19, U19, 19, 19);
        $m!($($x)* U19, U20, 19, 20);
        $m!($($x)* U19, U21, 19, 21);
        $m!($($x)* U19, U22, 19, 22);
        $m!($($x)* U19, U23, 19, 23);
        $m!($($x)* U19, U24, 19, 24);
        $m!($($x)* U19, U25, 19, 25);
        $m!($($x)* U19, U26, 19, 26);
        $m!($($x)* U19, U27, 19, 27);
        $m!($($x)* U19, U28, 19, 28);
        $m!($($x)* U19, U29, 19, 29);
        $m!($($x)* U19, U30, 19, 30);
        $m!($($x)* U19, U31, 19, 31);
        $m!($($x)* U19, U32, 19, 32);
        $m!($($x)* U19, U33, 19, 33);
        $m!($($x)* U20, U0, 20, 0);
        $m!($($x)* U20, U1, 20, 1);
        $m!($($x)* U20, U2, 20, 2);
        $m!($($x)* U20, U3, 20, 3);
        $m!($($x)* U20, U4, 20, 4);
        $m!($($x)* U20, U5, 20, 5);
        $m!($($x)* U20, U6, 20, 6);
        $m!($($x)* U20, U7, 20, 7);
        $m!($($x)* U20, U8, 20, 8);
        $m!($($x)* U20, U9, 20, 9);
        $m!($($x)* U20, U10, 20, 10);
        $m!($($x)* U20, U11, 20, 11);
        $m!($($x)* U20, U12, 20, 12);
        $m!($($x)* U20, U13, 20, 13);
        $m!($($x)* U20, U14, 20, 14);
        $m!($($x)* U20, U15, 20, 15);
        $m!($($x)* U20, U16, 20, 16);
        $m!($($x)* U20, U17, 20, 17);
        $m!($($x)* U20, U18, 20, 18);
        $m!($($x)* U20, U19, 20, 19);
        $m!($($x)* U20, U20, 20, 20);
        $m!($($x)* U20, U21, 20, 21);
        $m!($($x)* U20, U22, 20, 22);
        $m!($($x)* U20, U23, 20, 23);
        $m!($($x)* U20, U24, 20, 24);
        $m!($($x)* U20, U25, 20, 25);
        $m!($($x)* U20, U26, 20, 26);
        $m!($($x)* U20, U27, 20, 27);
        $m!($($x)* U20, U28, 20, 28);
        $m!($($x)* U20, U29, 20, 29);
        $m!($($x)* U20, U30, 20, 30);
        $m!($($x)* U20, U31, 20, 31);
        $m!($($x)* U20, U32, 20, 32);
        $m!($($x)* U20, U33, 20, 33);
        $m!($($x)* U21, U0, 21, 0);
        $m!($($x)* U21, U1, 21, 1);
        $m!($($x)* U21, U2, 21, 2);
        $m!($($x)* U21, U3, 21, 3);
        $m!($($x)* U21, U4, 21, 4);
        $m!($($x)* U21, U5, 21, 5);
        $m!($($x)* U21, U6, 21, 6);
        $m!($($x)* U21, U7, 21, 7);
        $m!($($x)* U21, U8, 21, 8);
        $m!($($x)* U21, U9, 21, 9);
        $m!($($x)* U21, U10, 21, 10);
        $m!($($x)* U21, U11, 21, 11);
        $m!($($x)* U21, U12, 21, 12);
        $m!($($x)* U21, U13, 21, 13);
        $m!($($x)* U21, U14, 21, 14);
        $m!($($x)* U21, U15, 21, 15);
        $m!($($x)* U21, U16, 21, 16);
        $m!($($x)* U21, U17, 21, 17);
        $m!($($x)* U21, U18, 21, 18);
        $m!($($x)* U21, U19, 21, 19);
        $m!($($x)* U21, U20, 21, 20);
        $m!($($x)* U21, U21, 21, 21);
        $m!($($x)* U21, U22, 21, 22);
        $m!($($x)* U21, U23, 21, 23);
        $m!($($x)* U21, U24, 21, 24);
        $m!($($x)* U21, U25, 21, 25);
        $m!($($x)* U21, U26, 21, 26);
        $m!($($x)* U21, U27, 21, 27);
        $m!($($x)* U21, U28, 21, 28);
        $m!($($x)* U21, U29, 21, 29);
        $m!($($x)* U21, U30, 21, 30);
        $m!($($x)* U21, U31, 21, 31);
        $m!($($x)* U21, U32, 21, 32);
        $m!($($x)* U21, U33, 21, 33);
        $m!($($x)* U22, U0, 22, 0);
        $m!($($x)* U22, U1, 22, 1);
        $m!($($x)* U22, U2, 22, 2);
        $m!($($x)* U22, U3, 22, 3);
        $m!($($x)* U22, U4, 22, 4);
        $m!($($x)* U22, U5, 22, 5);
        $m!($($x)* U22, U6, 22, 6);
        $m!($($x)* U22, U7, 22, 7);
        $m!($($x)* U22, U8, 22, 8);
        $m!($($x)* U22, U9, 22, 9);
        $m!($($x)* U22, U10, 22, 10);
        $m!($($x)* U22, U11, 22, 11);
        $m!($($x)* U22, U12, 22, 12);
        $m!($($x)* U22, U13, 22, 13);
        $m!($($x)* U22, U14, 22, 14);
        $m!($($x)* U22, U15, 22, 15);
        $m!($($x)* U22, U16, 22, 16);
        $m!($($x)* U22, U17, 22, 17);
        $m!($($x)* U22, U18, 22, 18);
        $m!($($x)* U22, U19, 22, 19);
        $m!($($x)* U22, U20, 22, 20);
        $m!($($x)* U22, U21, 22, 21);
        $m!($($x)* U22, U22, 22, 22);
        $m!($($x)* U22, U23, 22, 23);
        $m!($($x)* U22, U24, 22, 24);
        $m!($($x)* U22, U25, 22, 25);
        $m!($($x)* U22, U26, 22, 26);
        $m!($($x)* U22, U27, 22, 27);
        $m!($($x)* U22, U28, 22, 28);
        $m!($($x)* U22, U29, 22, 29);
        $m!($($x)* U22, U30, 22, 30);
        $m!($($x)* U22, U31, 22, 31);
        $m!($($x)* U22, U32, 22, 32);
        $m!($($x)* U22, U33, 22, 33);
        $m!($($x)* U23, U0, 23, 0);
        $m!($($x)* U23, U1, 23, 1);
        $m!($($x)* U23, U2, 23, 2);
        $m!($($x)* U23, U3, 23, 3);
        $m!($($x)* U23, U4, 23, 4);
        $m!($($x)* U23, U5, 23, 5);
        $m!($($x)* U23, U6, 23, 6);
        $m!($($x)* U23, U7, 23, 7);
        $m!($($x)* U23, U8, 23, 8);
        $m!($($x)* U23, U9, 23, 9);
        $m!($($x)* U23, U10, 23, 10);
        $m!($($x)* U23, U11, 23, 11);
        $m!($($x)* U23, U12, 23, 12);
        $m!($($x)* U23, U13, 23, 13);
        $m!($($x)* U23, U14, 23, 14);
        $m!($($x)* U23, U15, 23, 15);
        $m!($($x)* U23, U16, 23, 16);
        $m!($($x)* U23, U17, 23, 17);
        $m!($($x)* U23, U18, 23, 18);
        $m!($($x)* U23, U19, 23, 19);
        $m!($($x)* U23, U20, 23, 20);
        $m!($($x)* U23, U21, 23, 21);
        $m!($($x)* U23, U22, 23, 22);
        $m!($($x)* U23, U23, 23, 23);
        $m!($($x)* U23, U24, 23, 24);
        $m!($($x)* U23, U25, 23, 25);
        $m!($($x)* U23, U26, 23, 26);
        $m!($($x)* U23, U27, 23, 27);
        $m!($($x)* U23, U28, 23, 28);
        $m!($($x)* U23, U29, 23, 29);
        $m!($($x)* U23, U30, 23, 30);
        $m!($($x)* U23, U31, 23, 31);
        $m!($($x)* U23, U32, 23, 32);
        $m!($($x)* U23, U33, 23, 33);
        $m!($($x)* U24, U0, 24, 0);
        $m!($($x)* U24, U1, 24, 1);
        $m!($($x)* U24, U2, 24, 2);
        $m!($($x)* U24, U3, 24, 3);
        $m!($($x)* U24, U4, 24, 4);
        $m!($($x)* U24, U5, 24, 5);
        $m!($($x)* U24, U6, 24, 6);
        $m!($($x)* U24, U7, 24, 7);
        $m!($($x)* U24, U8, 24, 8);
        $m!($($x)* U24, U9, 24, 9);
        $m!($($x)* U24, U10, 24, 10);
        $m!($($x)* U24, U11, 24, 11);
        $m!($($x)* U24, U12, 24, 12);
        $m!($($x)* U24, U13, 24, 13);
        $m!($($x)* U24, U14, 24, 14);
        $m!($($x)* U24, U15, 24, 15);
        $m!($($x)* U24, U16, 24, 16);
        $m!($($x)* U24, U17, 24, 17);
        $m!($($x)* U24, U18, 24, 18);
        $m!($($x)* U24, U19, 24, 19);
        $m!($($x)* U24, U20, 24, 20);
        $m!($($x)* U24, U21, 24, 21);
        $m!($($x)* U24, U22, 24, 22);
        $m!($($x)* U24, U23, 24, 23);
        $m!($($x)* U24, U24, 24, 24);
        $m!($($x)* U24, U25, 24, 25);
        $m!($($x)* U24, U26, 24, 26);
        $m!($($x)* U24, U27, 24, 27);
        $m!($($x)* U24, U28, 24, 28);
        $m!($($x)* U24, U29, 24, 29);
        $m!($($x)* U24, U30, 24, 30);
        $m!($($x)* U24, U31, 24, 31);
        $m!($($x)* U24, U32, 24, 32);
        $m!($($x)* U24, U33, 24, 33);
        $m!($($x)* U25, U0, 25, 0);
        $m!($($x)* U25, U1, 25, 1);
        $m!($($x)* U25, U2, 25, 2);
        $m!($($x)* U25, U3, 25, 3);
        $m!($($x)* U25, U4, 25, 4);
        $m!($($x)* U25, U5, 25, 5);
        $m!($($x)* U25, U6, 25, 6);
        $m!($($x)* U25, U7, 25, 7);
        $m!($($x)* U25, U8, 25, 8);
        $m!($($x)* U25, U9, 25, 9);
        $m!($($x)* U25, U10, 25, 10);
        $m!($($x)* U25, U11, 25, 11);
        $m!($($x)* U25, U12, 25, 12);
        $m!($($x)* U25, U13, 25, 13);
        $m!($($x)* U25, U14, 25, 14);
        $m!($($x)* U25, U15, 25, 15);
        $m!($($x)* U25, U16, 25, 16);
        $m!($($x)* U25, U17, 25, 17);
        $m!($($x)* U25, U18, 25, 18);
        $m!($($x)* U25, U19, 25, 19);
        $m!($($x)* U25, U20, 25, 20);
        $m!($($x)* U25, U21, 25, 21);
        $m!($($x)* U25, U22, 25, 22);
        $m!($($x)* U25, U23, 25, 23);
        $m!($($x)* U25, U24, 25, 24);
        $m!($($x)* U25, U25, 25, 25);
        $m!($($x)* U25, U26, 25, 26);
        $m!($($x)* U25, U27, 25, 27);
        $m!($($x)* U25, U28, 25, 28);
        $m!($($x)* U25, U29, 25, 29);
        $m!($($x)* U25, U30, 25, 30);
        $m!($($x)* U25, U31, 25, 31);
        $m!($($x)* U25, U32, 25, 32);
        $m!($($x)* U25, U33, 25, 33);
        $m!($($x)* U26, U0, 26, 0);
        $m!($($x)* U26, U1, 26, 1);
        $m!($($x)* U26, U2, 26, 2);
        $m!($($x)* U26, U3, 26, 3);
        $m!($($x)* U26, U4, 26, 4);
        $m!($($x)* U26, U5, 26, 5);
        $m!($($x)* U26, U6, 26, 6);
        $m!($($x)* U26, U7, 26, 7);
        $m!($($x)* U26, U8, 26, 8);
        $m!($($x)* U26, U9, 26, 9);
        $m!($($x)* U26, U10, 26, 10);
        $m!($($x)* U26, U11, 26, 11);
        $m!($($x)* U26, U12, 26, 12);
        $m!($($x)* U26, U13, 26, 13);
        $m!($($x)* U26, U14, 26, 14);
        $m!($($x)* U26, U15, 26, 15);
        $m!($($x)* U26, U16, 26, 16);
        $m!($($x)* U26, U17, 26, 17);
        $m!($($x)* U26, U18, 26, 18);
        $m!($($x)* U26, U19, 26, 19);
        $m!($($x)* U26, U20, 26, 20);
        $m!($($x)* U26, U21, 26, 21);
        $m!($($x)* U26, U22, 26, 22);
        $m!($($x)* U26, U23, 26, 23);
        $m!($($x)* U26, U24, 26, 24);
        $m!($($x)* U26, U25, 26, 25);
        $m!($($x)* U26, U26, 26, 26);
        $m!($($x)* U26, U27, 26, 27);
        $m!($($x)* U26, U28, 26, 28);
        $m!($($x)* U26, U29, 26, 29);
        $m!($($x)* U26, U30, 26, 30);
        $m!($($x)* U26, U31, 26, 31);
        $m!($($x)* U26, U32, 26, 32);
        $m!($($x)* U26, U33, 26, 33);
        $m!($($x)* U27, U0, 27, 0);
        $m!($($x)* U27, U1, 27, 1);
        $m!($($x)* U27, U2, 27, 2);
        $m!($($x)* U27, U3, 27, 3);
        $m!($($x)* U27, U4, 27, 4);
        $m!($($x)* U27, U5, 27, 5);
        $m!($($x)* U27, U6, 27, 6);
        $m!($($x)* U27, U7, 27, 7);
        $m!($($x)* U27, U8, 27, 8);
        $m!($($x)* U27, U9, 27, 9);
        $m!($($x)* U27, U10, 27, 10);
        $m!($($x)* U27, U11, 27, 11);
        $m!($($x)* U27, U12, 27, 12);
        $m!($($x)* U27, U13, 27, 13);
        $m!($($x)* U27, U14, 27, 14);
        $m!($($x)* U27, U15, 27, 15);
        $m!($($x)* U27, U16, 27, 16);
        $m!($($x)* U27, U17, 27, 17);
        $m!($($x)* U27, U18, 27, 18);
        $m!($($x)* U27, U19, 27, 19);
        $m!($($x)* U27, U20, 27, 20);
        $m!($($x)* U27, U21, 27, 21);
        $m!($($x)* U27, U22, 27, 22);
        $m!($($x)* U27, U23, 27, 23);
        $m!($($x)* U27, U24, 27, 24);
        $m!($($x)* U27, U25, 27, 25);
        $m!($($x)* U27, U26, 27, 26);
        $m!($($x)* U27, U27, 27, 27);
        $m!($($x)* U27, U28, 27, 28);
        $m!($($x)* U27, U29, 27, 29);
        $m!($($x)* U27, U30, 27, 30);
        $m!($($x)* U27, U31, 27, 31);
        $m!($($x)* U27, U32, 27, 32);
        $m!($($x)* U27, U33, 27, 33);
        $m!($($x)* U28, U0, 28, 0);
        $m!($($x)* U28, U1, 28, 1);
        $m!($($x)* U28, U2, 28, 2);
        $m!($($x)* U28, U3, 28, 3);
        $m!($($x)* U28, U4, 28, 4);
        $m!($($x)* U28, U5, 28, 5);
        $m!($($x)* U28, U6, 28, 6);
        $m!($($x)* U28, U7, 28, 7);
        $m!($($x)* U28, U8, 28, 8);
        $m!($($x)* U28, U9, 28, 9);
        $m!($($x)* U28, U10, 28, 10);
        $m!($($x)* U28, U11, 28, 11);
        $m!($($x)* U28, U12, 28, 12);
        $m!($($x)* U28, U13, 28, 13);
        $m!($($x)* U28, U14, 28, 14);
        $m!($($x)* U28, U15, 28, 15);
        $m!($($x)* U28, U16, 28, 16);
        $m!($($x)* U28, U17, 28, 17);
        $m!($($x)* U28, U18, 28, 18);
        $m!($($x)* U28, U19, 28, 19);
        $m!($($x)* U28, U20, 28, 20);
        $m!($($x)* U28, U21, 28, 21);
        $m!($($x)* U28, U22, 28, 22);
        $m!($($x)* U28, U23, 28, 23);
        $m!($($x)* U28, U24, 28, 24);
        $m!($($x)* U28, U25, 28, 25);
        $m!($($x)* U28, U26, 28, 26);
        $m!($($x)* U28, U27, 28, 27);
        $m!($($x)* U28, U28, 28, 28);
        $m!($($x)* U28, U29, 28, 29);
        $m!($($x)* U28, U30, 28, 30);
        $m!($($x)* U28, U31, 28, 31);
        $m!($($x)* U28, U32, 28, 32);
        $m!($($x)* U28, U33, 28, 33);
        $m!($($x)* U29, U0, 29, 0);
        $m!($($x)* U29, U1, 29, 1);
        $m!($($x)* U29, U2, 29, 2);
        $m!($($x)* U29, U3, 29, 3);
        $m!($($x)* U29, U4, 29, 4);
        $m!($($x)* U29, U5, 29, 5);
        $m!($($x)* U29, U6, 29, 6);
        $m!($($x)* U29, U7, 29, 7);
        $m!($($x)* U29, U8, 29, 8);
        $m!($($x)* U29, U9, 29, 9);
        $m!($($x)* U29, U10, 29, 10);
        $m!($($x)* U29, U11, 29, 11);
        $m!($($x)* U29, U12, 29, 12);
        $m!($($x)* U29, U13, 29, 13);
        $m!($($x)* U29, U14, 29, 14);
        $m!($($x)* U29, U15, 29, 15);
        $m!($($x)* U29, U16, 29, 16);
        $m!($($x)* U29, U17, 29, 17);
        $m!($($x)* U29, U18, 29, 18);
        $m!($($x)* U29, U19, 29, 19);
        $m!($($x)* U29, U20, 29, 20);
        $m!($($x)* U29, U21, 29, 21);
        $m!($($x)* U29, U22, 29, 22);
        $m!($($x)* U29, U23, 29, 23);
        $m!($($x)* U29, U24, 29, 24);
        $m!($($x)* U29, U25, 29, 25);
        $m!($($x)* U29, U26, 29, 26);
        $m!($($x)* U29, U27, 29, 27);
        $m!($($x)* U29, U28, 29, 28);
        $m!($($x)* U29, U29, 29, 29);
        $m!($($x)* U29, U30, 29, 30);
        $m!($($x)* U29, U31, 29, 31);
        $m!($($x)* U29, U32, 29, 32);
        $m!($($x)* U29, U33, 29, 33);
        $m!($($x)* U30, U0, 30, 0);
        $m!($($x)* U30, U1, 30, 1);
        $m!($($x)* U30, U2, 30, 2);
        $m!($($x)* U30, U3, 30, 3);
        $m!($($x)* U30, U4, 30, 4);
        $m!($($x)* U30, U5, 30, 5);
        $m!($($x)* U30, U6, 30, 6);
        $m!($($x)* U30, U7, 30, 7);
        $m!($($x)* U30, U8, 30, 8);
        $m!($($x)* U30, U9, 30, 9);
        $m!($($x)* U30, U10, 30, 10);
        $m!($($x)* U30, U11, 30, 11);
        $m!($($x)* U30, U12, 30, 12);
        $m!($($x)* U30, U13, 30, 13);
        $m!($($x)* U30, U14, 30, 14);
        $m!($($x)* U30, U15, 30, 15);
        $m!($($x)* U30, U16, 30, 16);
        $m!($($x)* U30, U17, 30, 17);
        $m!($($x)* U30, U18, 30, 18);
        $m!($($x)* U30, U19, 30, 19);
        $m!($($x)* U30, U20, 30, 20);
        $m!($($x)* U30, U21, 30, 21);
        $m!($($x)* U30, U22, 30, 22);
        $m!($($x)* U30, U23, 30, 23);
        $m!($($x)* U30, U24, 30, 24);
        $m!($($x)* U30, U25, 30, 25);
        $m!($($x)* U30, U26, 30, 26);
        $m!($($x)* U30, U27, 30, 27);
        $m!($($x)* U30, U28, 30, 28);
        $m!($($x)* U30, U29, 30, 29);
        $m!($($x)* U30, U30, 30, 30);
        $m!($($x)* U30, U31, 30, 31);
        $m!($($x)* U30, U32, 30, 32);
        $m!($($x)* U30, U33, 30, 33);
        $m!($($x)* U31, U0, 31, 0);
        $m!($($x)* U31, U1, 31, 1);
        $m!($($x)* U31, U2, 31, 2);
        $m!($($x)* U31, U3, 31, 3);
        $m!($($x)* U31, U4, 31, 4);
        $m!($($x)* U31, U5, 31, 5);
        $m!($($x)* U31, U6, 31, 6);
        $m!($($x)* U31, U7, 31, 7);
        $m!($($x)* U31, U8, 31, 8);
        $m!($($x)* U31, U9, 31, 9);
        $m!($($x)* U31, U10, 31, 10);
        $m!($($x)* U31, U11, 31, 11);
        $m!($($x)* U31, U12, 31, 12);
        $m!($($x)* U31, U13, 31, 13);
        $m!($($x)* U31, U14, 31, 14);
        $m!($($x)* U31, U15, 31, 15);
        $m!($($x)* U31, U16, 31, 16);
        $m!($($x)* U31, U17, 31, 17);
        $m!($($x)* U31, U18, 31, 18);
        $m!($($x)* U31, U19, 31, 19);
        $m!($($x)* U31, U20, 31, 20);
        $m!($($x)* U31, U21, 31, 21);
        $m!($($x)* U31, U22, 31, 22);
        $m!($($x)* U31, U23, 31, 23);
        $m!($($x)* U31, U24, 31, 24);
        $m!($($x)* U31, U25, 31, 25);
        $m!($($x)* U31, U26, 31, 26);
        $m!($($x)* U31, U27, 31, 27);
        $m!($($x)* U31, U28, 31, 28);
        $m!($($x)* U31, U29, 31, 29);
        $m!($($x)* U31, U30, 31, 30);
        $m!($($x)* U31, U31, 31, 31);
        $m!($($x)* U31, U32, 31, 32);
        $m!($($x)* U31, U33, 31, 33);
        $m!($($x)* U32, U0, 32, 0);
        $m!($($x)* U32, U1, 32, 1);
        $m!($($x)* U32, U2, 32, 2);
        $m!($($x)* U32, U3, 32, 3);
        $m!($($x)* U32, U4, 32, 4);
        $m!($($x)* U32, U5, 32, 5);
        $m!($($x)* U32, U6, 32, 6);
        $m!($($x)* U32, U7, 32, 7);
        $m!($($x)* U32, U8, 32, 8);
        $m!($($x)* U32, U9, 32, 9);
        $m!($($x)* U32, U10, 32, 10);
        $m!($($x)* U32, U11, 32, 11);
        $m!($($x)* U32, U12, 32, 12);
        $m!($($x)* U32, U13, 32, 13);
        $m!($($x)* U32, U14, 32, 14);
        $m!($($x)* U32, U15, 32, 15);
        $m!($($x)* U32, U16, 32, 16);
        $m!($($x)* U32, U17, 32, 17);
        $m!($($x)* U32, U18, 32, 18);
        $m!($($x)* U32, U19, 32, 19);
        $m!($($x)* U32, U20, 32, 20);
        $m!($($x)* U32, U21, 32, 21);
        $m!($($x)* U32, U22, 32, 22);
        $m!($($x)* U32, U23, 32, 23);
        $m!($($x)* U32, U24, 32, 24);
        $m!($($x)* U32, U25, 32, 25);
        $m!($($x)* U32, U26, 32, 26);
        $m!($($x)* U32, U27, 32, 27);
        $m!($($x)* U32, U28, 32, 28);
        $m!($($x)* U32, U29, 32, 29);
        $m!($($x)* U32, U30, 32, 30);
        $m!($($x)* U32, U31, 32, 31);
        $m!($($x)* U32, U32, 32, 32);
        $m!($($x)* U32, U33, 32, 33);
    };
}
#[macro_export]
macro_rules! for_index_in {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U1, U0, 1, 0);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U2, U1, 2, 1);
        $m!($($x)* U3, U0, 3, 0);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U4, U0, 4, 0);
        $m!($($x)* U4, U1, 4, 1);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U4, U3, 4, 3);
        $m!($($x)* U5, U0, 5, 0);
        $m!($($x)* U5, U1, 5, 1);
        $m!($($x)* U5, U2, 5, 2);
        $m!($($x)* U5, U3, 5, 3);
        $m!($($x)* U5, U4, 5, 4);
        $m!($($x)* U6, U0, 6, 0);
        $m!($($x)* U6, U1, 6, 1);
        $m!($($x)* U6, U2, 6, 2);
        $m!($($x)* U6, U3, 6, 3);
        $m!($($x)* U6, U4, 6, 4);
        $m!($($x)* U6, U5, 6, 5);
        $m!($($x)* U7, U0, 7, 0);
        $m!($($x)* U7, U1, 7, 1);
        $m!($($x)* U7, U2, 7, 2);
        $m!($($x)* U7, U3, 7, 3);
        $m!($($x)* U7, U4, 7, 4);
        $m!($($x)* U7, U5, 7, 5);
        $m!($($x)* U7, U6, 7, 6);
        $m!($($x)* U8, U0, 8, 0);
        $m!($($x)* U8, U1, 8, 1);
        $m!($($x)* U8, U2, 8, 2);
        $m!($($x)* U8, U3, 8, 3);
        $m!($($x)* U8, U4, 8, 4);
        $m!($($x)* U8, U5, 8, 5);
        $m!($($x)* U8, U6, 8, 6);
        $m!($($x)* U8, U7, 8, 7);
        $m!($($x)* U9, U0, 9, 0);
        $m!($($x)* U9, U1, 9, 1);
        $m!($($x)* U9, U2, 9, 2);
        $m!($($x)* U9, U3, 9, 3);
        $m!($($x)* U9, U4, 9, 4);
        $m!($($x)* U9, U5, 9, 5);
        $m!($($x)* U9, U6, 9, 6);
        $m!($($x)* U9, U7, 9, 7);
        $m!($($x)* U9, U8, 9, 8);
        $m!($($x)* U10, U0, 10, 0);
        $m!($($x)* U10, U1, 10, 1);
        $m!($($x)* U10, U2, 10, 2);
        $m!($($x)* U10, U3, 10, 3);
        $m!($($x)* U10, U4, 10, 4);
        $m!($($x)* U10, U5, 10, 5);
        $m!($($x)* U10, U6, 10, 6);
        $m!($($x)* U10, U7, 10, 7);
        $m!($($x)* U10, U8, 10, 8);
        $m!($($x)* U10, U9, 10, 9);
        $m!($($x)* U11, U0, 11, 0);
        $m!($($x)* U11, U1, 11, 1);
        $m!($($x)* U11, U2, 11, 2);
        $m!($($x)* U11, U3, 11, 3);
        $m!($($x)* U11, U4, 11, 4);
        $m!($($x)* U11, U5, 11, 5);
        $m!($($x)* U11, U6, 11, 6);
        $m!($($x)* U11, U7, 11, 7);
        $m!($($x)* U11, U8, 11, 8);
        $m!($($x)* U11, U9, 11, 9);
        $m!($($x)* U11, U10, 11, 10);
        $m!($($x)* U12, U0, 12, 0);
        $m!($($x)* U12, U1, 12, 1);
        $m!($($x)* U12, U2, 12, 2);
        $m!($($x)* U12, U3, 12, 3);
        $m!($($x)* U12, U4, 12, 4);
        $m!($($x)* U12, U5, 12, 5);
        $m!($($x)* U12, U6, 12, 6);
        $m!($($x)* U12, U7, 12, 7);
        $m!($($x)* U12, U8, 12, 8);
        $m!($($x)* U12, U9, 12, 9);
        $m!($($x)* U12, U10, 12, 10);
        $m!($($x)* U12, U11, 12, 11);
        $m!($($x)* U13, U0, 13, 0);
        $m!($($x)* U13, U1, 13, 1);
        $m!($($x)* U13, U2, 13, 2);
        $m!($($x)* U13, U3, 13, 3);
        $m!($($x)* U13, U4, 13, 4);
        $m!($($x)* U13, U5, 13, 5);
        $m!($($x)* U13, U6, 13, 6);
        $m!($($x)* U13, U7, 13, 7);
        $m!($($x)* U13, U8, 13, 8);
        $m!($($x)* U13, U9, 13, 9);
        $m!($($x)* U13, U10, 13, 10);
        $m!($($x)* U13, U11, 13, 11);
        $m!($($x)* U13, U12, 13, 12);
        $m!($($x)* U14, U0, 14, 0);
        $m!($($x)* U14, U1, 14, 1);
        $m!($($x)* U14, U2, 14, 2);
        $m!($($x)* U14, U3, 14, 3);
        $m!($($x)* U14, U4, 14, 4);
        $m!($($x)* U14, U5, 14, 5);
        $m!($($x)* U14, U6, 14, 6);
        $m!($($x)* U14, U7, 14, 7);
        $m!($($x)* U14, U8, 14, 8);
        $m!($($x)* U14, U9, 14, 9);
        $m!($($x)* U14, U10, 14, 10);
        $m!($($x)* U14, U11, 14, 11);
        $m!($($x)* U14, U12, 14, 12);
        $m!($($x)* U14, U13, 14, 13);
        $m!($($x)* U15, U0, 15, 0);
        $m!($($x)* U15, U1, 15, 1);
        $m!($($x)* U15, U2, 15, 2);
        $m!($($x)* U15, U3, 15, 3);
        $m!($($x)* U15, U4, 15, 4);
        $m!($($x)* U15, U5, 15, 5);
        $m!($($x)* U15, U6, 15, 6);
        $m!($($x)* U15, U7, 15, 7);
        $m!($($x)* U15, U8, 15, 8);
        $m!($($x)* U15, U9, 15, 9);
        $m!($($x)* U15, U10, 15, 10);
        $m!($($x)* U15, U11, 15, 11);
        $m!($($x)* U15, U12, 15, 12);
        $m!($($x)* U15, U13, 15, 13);
        $m!($($x)* U15, U14, 15, 14);
        $m!($($x)* U16, U0, 16, 0);
        $m!($($x)* U16, U1, 16, 1);
        $m!($($x)* U16, U2, 16, 2);
        $m!($($x)* U16, U3, 16, 3);
        $m!($($x)* U16, U4, 16, 4);
        $m!($($x)* U16, U5, 16, 5);
        $m!($($x)* U16, U6, 16, 6);
        $m!($($x)* U16, U7, 16, 7);
        $m!($($x)* U16, U8, 16, 8);
        $m!($($x)* U16, U9, 16, 9);
        $m!($($x)* U16, U10, 16, 10);
        $m!($($x)* U16, U11, 16, 11);
        $m!($($x)* U16, U12, 16, 12);
        $m!($($x)* U16, U13, 16, 13);
        $m!($($x)* U16, U14, 16, 14);
        $m!($($x)* U16, U15, 16, 15);
        $m!($($x)* U17, U0, 17, 0);
        $m!($($x)* U17, U1, 17, 1);
        $m!($($x)* U17, U2, 17, 2);
        $m!($($x)* U17, U3, 17, 3);
        $m!($($x)* U17, U4, 17, 4);
        $m!($($x)* U17, U5, 17, 5);
        $m!($($x)* U17, U6, 17, 6);
        $m!($($x)* U17, U7, 17, 7);
        $m!($($x)* U17, U8, 17, 8);
        $m!($($x)* U17, U9, 17, 9);
        $m!($($x)* U17, U10, 17, 10);
        $m!($($x)* U17, U11, 17, 11);
        $m!($($x)* U17, U12, 17, 12);
        $m!($($x)* U17, U13, 17, 13);
        $m!($($x)* U17, U14, 17, 14);
        $m!($($x)* U17, U15, 17, 15);
        $m!($($x)* U17, U16, 17, 16);
        $m!($($x)* U18, U0, 18, 0);
        $m!($($x)* U18, U1, 18, 1);
        $m!($($x)* U18, U2, 18, 2);
        $m!($($x)* U18, U3, 18, 3);
        $m!($($x)* U18, U4, 18, 4);
        $m!($($x)* U18, U5, 18, 5);
        $m!($($x)* U18, U6, 18, 6);
        $m!($($x)* U18, U7, 18, 7);
        $m!($($x)* U18, U8, 18, 8);
        $m!($($x)* U18, U9, 18, 9);
        $m!($($x)* U18, U10, 18, 10);
        $m!($($x)* U18, U11, 18, 11);
        $m!($($x)* U18, U12, 18, 12);
        $m!($($x)* U18, U13, 18, 13);
        $m!($($x)* U18, U14, 18, 14);
        $m!($($x)* U18, U15, 18, 15);
        $m!($($x)* U18, U16, 18, 16);
        $m!($($x)* U18, U17, 18, 17);
        $m!($($x)* U19, U0, 19, 0);
        $m!($($x)* U19, U1, 19, 1);
        $m!($($x)* U19, U2, 19, 2);
        $m!($($x)* U19, U3, 19, 3);
        $m!($($x)* U19, U4, 19, 4);
        $m!($($x)* U19, U5, 19, 5);
        $m!($($x)* U19, U6, 19, 6);
        $m!($($x)* U19, U7, 19, 7);
        $m!($($x)* U19, U8, 19, 8);
        $m!($($x)* U19, U9, 19, 9);
        $m!($($x)* U19, U10, 19, 10);
        $m!($($x)* U19, U11, 19, 11);
        $m!($($x)* U19, U12, 19, 12);
        $m!($($x)* U19, U13, 19, 13);
        $m!($($x)* U19, U14, 19, 14);
        $m!($($x)* U19, U15, 19, 15);
        $m!($($x)* U19, U16, 19, 16);
        $m!($($x)* U19, U17, 19, 17);
        $m!($($x)* U19, U18, 19, 18);
        $m!($($x)* U20, U0, 20, 0);
        $m!($($x)* U20, U1, 20, 1);
        $m!($($x)* U20, U2, 20, 2);
        $m!($($x)* U20, U3, 20, 3);
        $m!($($x)* U20, U4, 20, 4);
        $m!($($x)* U20, U5, 20, 5);
        $m!($($x)* U20, U6, 20, 6);
        $m!($($x)* U20, U7, 20, 7);
        $m!($($x)* U20, U8, 20, 8);
        $m!($($x)* U20, U9, 20, 9);
        $m!($($x)* U20, U10, 20, 10);
        $m!($($x)* U20, U11, 20, 11);
        $m!($($x)* U20, U12, 20, 12);
        $m!($($x)* U20, U13, 20, 13);
        $m!($($x)* U20, U14, 20, 14);
        $m!($($x)* U20, U15, 20, 15);
        $m!($($x)* U20, U16, 20, 16);
        $m!($($x)* U20, U17, 20, 17);
        $m!($($x)* U20, U18, 20, 18);
        $m!($($x)* U20, U19, 20, 19);
        $m!($($x)* U21, U0, 21, 0);
        $m!($($x)* U21, U1, 21, 1);
        $m!($($x)* U21, U2, 21, 2);
        $m!($($x)* U21, U3, 21, 3);
        $m!($($x)* U21, U4, 21, 4);
        $m!($($x)* U21, U5, 21, 5);
        $m!($($x)* U21, U6, 21, 6);
        $m!($($x)* U21, U7, 21, 7);
        $m!($($x)* U21, U8, 21, 8);
        $m!($($x)* U21, U9, 21, 9);
        $m!($($x)* U21, U10, 21, 10);
        $m!($($x)* U21, U11, 21, 11);
        $m!($($x)* U21, U12, 21, 12);
        $m!($($x)* U21, U13, 21, 13);
        $m!($($x)* U21, U14, 21, 14);
        $m!($($x)* U21, U15, 21, 15);
        $m!($($x)* U21, U16, 21, 16);
        $m!($($x)* U21, U17, 21, 17);
        $m!($($x)* U21, U18, 21, 18);
        $m!($($x)* U21, U19, 21, 19);
        $m!($($x)* U21, U20, 21, 20);
        $m!($($x)* U22, U0, 22, 0);
        $m!($($x)* U22, U1, 22, 1);
        $m!($($x)* U22, U2, 22, 2);
        $m!($($x)* U22, U3, 22, 3);
        $m!($($x)* U22, U4, 22, 4);
        $m!($($x)* U22, U5, 22, 5);
        $m!($($x)* U22, U6, 22, 6);
        $m!($($x)* U22, U7, 22, 7);
        $m!($($x)* U22, U8, 22, 8);
        $m!($($x)* U22, U9, 22, 9);
        $m!($($x)* U22, U10, 22, 10);
        $m!($($x)* U22, U11, 22, 11);
        $m!($($x)* U22, U12, 22, 12);
        $m!($($x)* U22, U13, 22, 13);
        $m!($($x)* U22, U14, 22, 14);
        $m!($($x)* U22, U15, 22, 15);
        $m!($($x)* U22, U16, 22, 16);
        $m!($($x)* U22, U17, 22, 17);
        $m!($($x)* U22, U18, 22, 18);
        $m!($($x)* U22, U19, 22, 19);
        $m!($($x)* U22, U20, 22, 20);
        $m!($($x)* U22, U21, 22, 21);
        $m!($($x)* U23, U0, 23, 0);
        $m!($($x)* U23, U1, 23, 1);
        $m!($($x)* U23, U2, 23, 2);
        $m!($($x)* U23, U3, 23, 3);
        $m!($($x)* U23, U4, 23, 4);
        $m!($($x)* U23, U5, 23, 5);
        $m!($($x)* U23, U6, 23, 6);
        $m!($($x)* U23, U7, 23, 7);
        $m!($($x)* U23, U8, 23, 8);
        $m!($($x)* U23, U9, 23, 9);
        $m!($($x)* U23, U10, 23, 10);
        $m!($($x)* U23, U11, 23, 11);
        $m!($($x)* U23, U12, 23, 12);
        $m!($($x)* U23, U13, 23, 13);
        $m!($($x)* U23, U14, 23, 14);
        $m!($($x)* U23, U15, 23, 15);
        $m!($($x)* U23, U16, 23, 16);
        $m!($($x)* U23, U17, 23, 17);
        $m!($($x)* U23, U18, 23, 18);
        $m!($($x)* U23, U19, 23, 19);
        $m!($($x)* U23, U20, 23, 20);
        $m!($($x)* U23, U21, 23, 21);
        $m!($($x)* U23, U22, 23, 22);
        $m!($($x)* U24, U0, 24, 0);
        $m!($($x)* U24, U1, 24, 1);
        $m!($($x)* U24, U2, 24, 2);
        $m!($($x)* U24, U3, 24, 3);
        $m!($($x)* U24, U4, 24, 4);
        $m!($($x)* U24, U5, 24, 5);
        $m!($($x)* U24, U6, 24, 6);
        $m!($($x)* U24, U7, 24, 7);
        $m!($($x)* U24, U8, 24, 8);
        $m!($($x)* U24, U9, 24, 9);
        $m!($($x)* U24, U10, 24, 10);
        $m!($($x)* U24, U11, 24, 11);
        $m!($($x)* U24, U12, 24, 12);
        $m!($($x)* U24, U13, 24, 13);
        $m!($($x)* U24, U14, 24, 14);
        $m!($($x)* U24, U15, 24, 15);
        $m!($($x)* U24, U16, 24, 16);
        $m!($($x)* U24, U17, 24, 17);
        $m!($($x)* U24, U18, 24, 18);
        $m!($($x)* U24, U19, 24, 19);
        $m!($($x)* U24, U20, 24, 20);
        $m!($($x)* U24, U21, 24, 21);
        $m!($($x)* U24, U22, 24, 22);
        $m!($($x)* U24, U23, 24, 23);
        $m!($($x)* U25, U0, 25, 0);
        $m!($($x)* U25, U1, 25, 1);
        $m!($($x)* U25, U2, 25, 2);
        $m!($($x)* U25, U3, 25, 3);
        $m!($($x)* U25, U4, 25, 4);
        $m!($($x)* U25, U5, 25, 5);
        $m!($($x)* U25, U6, 25, 6);
        $m!($($x)* U25, U7, 25, 7);
        $m!($($x)* U25, U8, 25, 8);
        $m!($($x)* U25, U9, 25, 9);
        $m!($($x)* U25, U10, 25, 10);
        $m!($($x)* U25, U11, 25, 11);
        $m!($($x)* U25, U12, 25, 12);
        $m!($($x)* U25, U13, 25, 13);
        $m!($($x)* U25, U14, 25, 14);
        $m!($($x)* U25, U15, 25, 15);
        $m!($($x)* U25, U16, 25, 16);
        $m!($($x)* U25, U17, 25, 17);
        $m!($($x)* U25, U18, 25, 18);
        $m!($($x)* U25, U19, 25, 19);
        $m!($($x)* U25, U20, 25, 20);
        $m!($($x)* U25, U21, 25, 21);
        $m!($($x)* U25, U22, 25, 22);
        $m!($($x)* U25, U23, 25, 23);
        $m!($($x)* U25, U24, 25, 24);
        $m!($($x)* U26, U0, 26, 0);
        $m!($($x)* U26, U1, 26, 1);
        $m!($($x)* U26, U2, 26, 2);
        $m!($($x)* U26, U3, 26, 3);
        $m!($($x)* U26, U4, 26, 4);
        $m!($($x)* U26, U5, 26, 5);
        $m!($($x)* U26, U6, 26, 6);
        $m!($($x)* U26, U7, 26, 7);
        $m!($($x)* U26, U8, 26, 8);
        $m!($($x)* U26, U9, 26, 9);
        $m!($($x)* U26, U10, 26, 10);
        $m!($($x)* U26, U11, 26, 11);
        $m!($($x)* U26, U12, 26, 12);
        $m!($($x)* U26, U13, 26, 13);
        $m!($($x)* U26, U14, 26, 14);
        $m!($($x)* U26, U15, 26, 15);
        $m!($($x)* U26, U16, 26, 16);
        $m!($($x)* U26, U17, 26, 17);
        $m!($($x)* U26, U18, 26, 18);
        $m!($($x)* U26, U19, 26, 19);
        $m!($($x)* U26, U20, 26, 20);
        $m!($($x)* U26, U21, 26, 21);
        $m!($($x)* U26, U22, 26, 22);
        $m!($($x)* U26, U23, 26, 23);
        $m!($($x)* U26, U24, 26, 24);
        $m!($($x)* U26, U25, 26, 25);
        $m!($($x)* U27, U0, 27, 0);
        $m!($($x)* U27, U1, 27, 1);
        $m!($($x)* U27, U2, 27, 2);
        $m!($($x)* U27, U3, 27, 3);
        $m!($($x)* U27, U4, 27, 4);
        $m!($($x)* U27, U5, 27, 5);
        $m!($($x)* U27, U6, 27, 6);
        $m!($($x)* U27, U7, 27, 7);
        $m!($($x)* U27, U8, 27, 8);
        $m!($($x)* U27, U9, 27, 9);
        $m!($($x)* U27, U10, 27, 10);
        $m!($($x)* U27, U11, 27, 11);
        $m!($($x)* U27, U12, 27, 12);
        $m!($($x)* U27, U13, 27, 13);
        $m!($($x)* U27, U14, 27, 14);
        $m!($($x)* U27, U15, 27, 15);
        $m!($($x)* U27, U16, 27, 16);
        $m!($($x)* U27, U17, 27, 17);
        $m!($($x)* U27, U18, 27, 18);
        $m!($($x)* U27, U19, 27, 19);
        $m!($($x)* U27, U20, 27, 20);
        $m!($($x)* U27, U21, 27, 21);
        $m!($($x)* U27, U22, 27, 22);
        $m!($($x)* U27, U23, 27, 23);
        $m!($($x)* U27, U24, 27, 24);
        $m!($($x)* U27, U25, 27, 25);
        $m!($($x)* U27, U26, 27, 26);
        $m!($($x)* U28, U0, 28, 0);
        $m!($($x)* U28, U1, 28, 1);
        $m!($($x)* U28, U2, 28, 2);
        $m!($($x)* U28, U3, 28, 3);
        $m!($($x)* U28, U4, 28, 4);
        $m!($($x)* U28, U5, 28, 5);
        $m!($($x)* U28, U6, 28, 6);
        $m!($($x)* U28, U7, 28, 7);
        $m!($($x)* U28, U8, 28, 8);
        $m!($($x)* U28, U9, 28, 9);
        $m!($($x)* U28, U10, 28, 10);
        $m!($($x)* U28, U11, 28, 11);
        $m!($($x)* U28, U12, 28, 12);
        $m!($($x)* U28, U13, 28, 13);
        $m!($($x)* U28, U14, 28, 14);
        $m!($($x)* U28, U15, 28, 15);
        $m!($($x)* U28, U16, 28, 16);
        $m!($($x)* U28, U17, 28, 17);
        $m!($($x)* U28, U18, 28, 18);
        $m!($($x)* U28, U19, 28, 19);
        $m!($($x)* U28, U20, 28, 20);
        $m!($($x)* U28, U21, 28, 21);
        $m!($($x)* U28, U22, 28, 22);
        $m!($($x)* U28, U23, 28, 23);
        $m!($($x)* U28, U24, 28, 24);
        $m!($($x)* U28, U25, 28, 25);
        $m!($($x)* U28, U26, 28, 26);
        $m!($($x)* U28, U27, 28, 27);
        $m!($($x)* U29, U0, 29, 0);
        $m!($($x)* U29, U1, 29, 1);
        $m!($($x)* U29, U2, 29, 2);
        $m!($($x)* U29, U3, 29, 3);
        $m!($($x)* U29, U4, 29, 4);
        $m!($($x)* U29, U5, 29, 5);
        $m!($($x)* U29, U6, 29, 6);
        $m!($($x)* U29, U7, 29, 7);
        $m!($($x)* U29, U8, 29, 8);
        $m!($($x)* U29, U9, 29, 9);
        $m!($($x)* U29, U10, 29, 10);
        $m!($($x)* U29, U11, 29, 11);
        $m!($($x)* U29, U12, 29, 12);
        $m!($($x)* U29, U13, 29, 13);
        $m!($($x)* U29, U14, 29, 14);
        $m!($($x)* U29, U15, 29, 15);
        $m!($($x)* U29, U16, 29, 16);
        $m!($($x)* U29, U17, 29, 17);
        $m!($($x)* U29, U18, 29, 18);
        $m!($($x)* U29, U19, 29, 19);
        $m!($($x)* U29, U20, 29, 20);
        $m!($($x)* U29, U21, 29, 21);
        $m!($($x)* U29, U22, 29, 22);
        $m!($($x)* U29, U23, 29, 23);
        $m!($($x)* U29, U24, 29, 24);
        $m!($($x)* U29, U25, 29, 25);
        $m!($($x)* U29, U26, 29, 26);
        $m!($($x)* U29, U27, 29, 27);
        $m!($($x)* U29, U28, 29, 28);
        $m!($($x)* U30, U0, 30, 0);
        $m!($($x)* U30, U1, 30, 1);
        $m!($($x)* U30, U2, 30, 2);
        $m!($($x)* U30, U3, 30, 3);
        $m!($($x)* U30, U4, 30, 4);
        $m!($($x)* U30, U5, 30, 5);
        $m!($($x)* U30, U6, 30, 6);
        $m!($($x)* U30, U7, 30, 7);
        $m!($($x)* U30, U8, 30, 8);
        $m!($($x)* U30, U9, 30, 9);
        $m!($($x)* U30, U10, 30, 10);
        $m!($($x)* U30, U11, 30, 11);
        $m!($($x)* U30, U12, 30, 12);
        $m!($($x)* U30, U13, 30, 13);
        $m!($($x)* U30, U14, 30, 14);
        $m!($($x)* U30, U15, 30, 15);
        $m!($($x)* U30, U16, 30, 16);
        $m!($($x)* U30, U17, 30, 17);
        $m!($($x)* U30, U18, 30, 18);
        $m!($($x)* U30, U19, 30, 19);
        $m!($($x)* U30, U20, 30, 20);
        $m!($($x)* U30, U21, 30, 21);
        $m!($($x)* U30, U22, 30, 22);
        $m!($($x)* U30, U23, 30, 23);
        $m!($($x)* U30, U24, 30, 24);
        $m!($($x)* U30, U25, 30, 25);
        $m!($($x)* U30, U26, 30, 26);
        $m!($($x)* U30, U27, 30, 27);
        $m!($($x)* U30, U28, 30, 28);
        $m!($($x)* U30, U29, 30, 29);
        $m!($($x)* U31, U0, 31, 0);
        $m!($($x)* U31, U1, 31, 1);
        $m!($($x)* U31, U2, 31, 2);
        $m!($($x)* U31, U3, 31, 3);
        $m!($($x)* U31, U4, 31, 4);
        $m!($($x)* U31, U5, 31, 5);
        $m!($($x)* U31, U6, 31, 6);
        $m!($($x)* U31, U7, 31, 7);
        $m!($($x)* U31, U8, 31, 8);
        $m!($($x)* U31, U9, 31, 9);
        $m!($($x)* U31, U10, 31, 10);
        $m!($($x)* U31, U11, 31, 11);
        $m!($($x)* U31, U12, 31, 12);
        $m!($($x)* U31, U13, 31, 13);
        $m!($($x)* U31, U14, 31, 14);
        $m!($($x)* U31, U15, 31, 15);
        $m!($($x)* U31, U16, 31, 16);
        $m!($($x)* U31, U17, 31, 17);
        $m!($($x)* U31, U18, 31, 18);
        $m!($($x)* U31, U19, 31, 19);
        $m!($($x)* U31, U20, 31, 20);
        $m!($($x)* U31, U21, 31, 21);
        $m!($($x)* U31, U22, 31, 22);
        $m!($($x)* U31, U23, 31, 23);
        $m!($($x)* U31, U24, 31, 24);
        $m!($($x)* U31, U25, 31, 25);
        $m!($($x)* U31, U26, 31, 26);
        $m!($($x)* U31, U27, 31, 27);
        $m!($($x)* U31, U28, 31, 28);
        $m!($($x)* U31, U29, 31, 29);
        $m!($($x)* U31, U30, 31, 30);
        $m!($($x)* U32, U0, 32, 0);
        $m!($($x)* U32, U1, 32, 1);
        $m!($($x)* U32, U2, 32, 2);
        $m!($($x)* U32, U3, 32, 3);
        $m!($($x)* U32, U4, 32, 4);
        $m!($($x)* U32, U5, 32, 5);
        $m!($($x)* U32, U6, 32, 6);
        $m!($($x)* U32, U7, 32, 7);
        $m!($($x)* U32, U8, 32, 8);
        $m!($($x)* U32, U9, 32, 9);
        $m!($($x)* U32, U10, 32, 10);
        $m!($($x)* U32, U11, 32, 11);
        $m!($($x)* U32, U12, 32, 12);
        $m!($($x)* U32, U13, 32, 13);
        $m!($($x)* U32, U14, 32, 14);
        $m!($($x)* U32, U15, 32, 15);
        $m!($($x)* U32, U16, 32, 16);
        $m!($($x)* U32, U17, 32, 17);
        $m!($($x)* U32, U18, 32, 18);
        $m!($($x)* U32, U19, 32, 19);
        $m!($($x)* U32, U20, 32, 20);
        $m!($($x)* U32, U21, 32, 21);
        $m!($($x)* U32, U22, 32, 22);
        $m!($($x)* U32, U23, 32, 23);
        $m!($($x)* U32, U24, 32, 24);
        $m!($($x)* U32, U25, 32, 25);
        $m!($($x)* U32, U26, 32, 26);
        $m!($($x)* U32, U27, 32, 27);
        $m!($($x)* U32, U28, 32, 28);
        $m!($($x)* U32, U29, 32, 29);
        $m!($($x)* U32, U30, 32, 30);
        $m!($($x)* U32, U31, 32, 31);
    };
}
#[macro_export]
macro_rules! for_index2 {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, U0, U0, 0, 0, 0, 0);
        $m!($($x)* U0, U0, U0, U1, 0, 0, 0, 1);
        $m!($($x)* U0, U0, U0, U2, 0, 0, 0, 2);
        $m!($($x)* U0, U0, U0, U3, 0, 0, 0, 3);
        $m!($($x)* U0, U0, U0, U4, 0, 0, 0, 4);
        $m!($($x)* U0, U0, U1, U0, 0, 0, 1, 0);
        $m!($($x)* U0, U0, U1, U1, 0, 0, 1, 1);
        $m!($($x)* U0, U0, U1, U2, 0, 0, 1, 2);
        $m!($($x)* U0, U0, U1, U3, 0, 0, 1, 3);
        $m!($($x)* U0, U0, U1, U4, 0, 0, 1, 4);
        $m!($($x)* U0, U0, U2, U0, 0, 0, 2, 0);
        $m!($($x)* U0, U0, U2, U1, 0, 0, 2, 1);
        $m!($($x)* U0, U0, U2, U2, 0, 0, 2, 2);
        $m!($($x)* U0, U0, U2, U3, 0, 0, 2, 3);
        $m!($($x)* U0, U0, U2, U4, 0, 0, 2, 4);
        $m!($($x)* U0, U0, U3, U0, 0, 0, 3, 0);
        $m!($($x)* U0, U0, U3, U1, 0, 0, 3, 1);
        $m!($($x)* U0, U0, U3, U2, 0, 0, 3, 2);
        $m!($($x)* U0, U0, U3, U3, 0, 0, 3, 3);
        $m!($($x)* U0, U0, U3, U4, 0, 0, 3, 4);
        $m!($($x)* U0, U0, U4, U0, 0, 0, 4, 0);
        $m!($($x)* U0, U0, U4, U1, 0, 0, 4, 1);
        $m!($($x)* U0, U0, U4, U2, 0, 0, 4, 2);
        $m!($($x)* U0, U0, U4, U3, 0, 0, 4, 3);
        $m!($($x)* U0, U0, U4, U4, 0, 0, 4, 4);
        $m!($($x)* U0, U1, U0, U0, 0, 1, 0, 0);
        $m!($($x)* U0, U1, U0, U1, 0, 1, 0, 1);
        $m!($($x)* U0, U1, U0, U2, 0, 1, 0, 2);
        $m!($($x)* U0, U1, U0, U3, 0, 1, 0, 3);
        $m!($($x)* U0, U1, U0, U4, 0, 1, 0, 4);
        $m!($($x)* U0, U1, U1, U0, 0, 1, 1, 0);
        $m!($($x)* U0, U1, U1, U1, 0, 1, 1, 1);
        $m!($($x)* U0, U1, U1, U2, 0, 1, 1, 2);
        $m!($($x)* U0, U1, U1, U3, 0, 1, 1, 3);
        $m!($($x)* U0, U1, U1, U4, 0, 1, 1, 4);
        $m!($($x)* U0, U1, U2, U0, 0, 1, 2, 0);
        $m!($($x)* U0, U1, U2, U1, 0, 1, 2, 1);
        $m!($($x)* U0, U1, U2, U2, 0, 1, 2, 2);
        $m!($($x)* U0, U1, U2, U3, 0, 1, 2, 3);
        $m!($($x)* U0, U1, U2, U4, 0, 1, 2, 4);
        $m!($($x)* U0, U1, U3, U0, 0, 1, 3, 0);
        $m!($($x)* U0, U1, U3, U1, 0, 1, 3, 1);
        $m!($($x)* U0, U1, U3, U2, 0, 1, 3, 2);
        $m!($($x)* U0, U1, U3, U3, 0, 1, 3, 3);
        $m!($($x)* U0, U1, U3, U4, 0, 1, 3, 4);
        $m!($($x)* U0, U1, U4, U0, 0, 1, 4, 0);
        $m!($($x)* U0, U1, U4, U1, 0, 1, 4, 1);
        $m!($($x)* U0, U1, U4, U2, 0, 1, 4, 2);
        $m!($($x)* U0, U1, U4, U3, 0, 1, 4, 3);
        $m!($($x)* U0, U1, U4, U4, 0, 1, 4, 4);
        $m!($($x)* U0, U2, U0, U0, 0, 2, 0, 0);
        $m!($($x)* U0, U2, U0, U1, 0, 2, 0, 1);
        $m!($($x)* U0, U2, U0, U2, 0, 2, 0, 2);
        $m!($($x)* U0, U2, U0, U3, 0, 2, 0, 3);
        $m!($($x)* U0, U2, U0, U4, 0, 2, 0, 4);
        $m!($($x)* U0, U2, U1, U0, 0, 2, 1, 0);
        $m!($($x)* U0, U2, U1, U1, 0, 2, 1, 1);
        $m!($($x)* U0, U2, U1, U2, 0, 2, 1, 2);
        $m!($($x)* U0, U2, U1, U3, 0, 2, 1, 3);
        $m!($($x)* U0, U2, U1, U4, 0, 2, 1, 4);
        $m!($($x)* U0, U2, U2, U0, 0, 2, 2, 0);
        $m!($($x)* U0, U2, U2, U1, 0, 2, 2, 1);
        $m!($($x)* U0, U2, U2, U2, 0, 2, 2, 2);
        $m!($($x)* U0, U2, U2, U3, 0, 2, 2, 3);
        $m!($($x)* U0, U2, U2, U4, 0, 2, 2, 4);
        $m!($($x)* U0, U2, U3, U0, 0, 2, 3, 0);
        $m!($($x)* U0, U2, U3, U1, 0, 2, 3, 1);
        $m!($($x)* U0, U2, U3, U2, 0, 2, 3, 2);
        $m!($($x)* U0, U2, U3, U3, 0, 2, 3, 3);
        $m!($($x)* U0, U2, U3, U4, 0, 2, 3, 4);
        $m!($($x)* U0, U2, U4, U0, 0, 2, 4, 0);
        $m!($($x)* U0, U2, U4, U1, 0, 2, 4, 1);
        $m!($($x)* U0, U2, U4, U2, 0, 2, 4, 2);
        $m!($($x)* U0, U2, U4, U3, 0, 2, 4, 3);
        $m!($($x)* U0, U2, U4, U4, 0, 2, 4, 4);
        $m!($($x)* U0, U3, U0, U0, 0, 3, 0, 0);
        $m!($($x)* U0, U3, U0, U1, 0, 3, 0, 1);
        $m!($($x)* U0, U3, U0, U2, 0, 3, 0, 2);
        $m!($($x)* U0, U3, U0, U3, 0, 3, 0, 3);
        $m!($($x)* U0, U3, U0, U4, 0, 3, 0, 4);
        $m!($($x)* U0, U3, U1, U0, 0, 3, 1, 0);
        $m!($($x)* U0, U3, U1, U1, 0, 3, 1, 1);
        $m!($($x)* U0, U3, U1, U2, 0, 3, 1, 2);
        $m!($($x)* U0, U3, U1, U3, 0, 3, 1, 3);
        $m!($($x)* U0, U3, U1, U4, 0, 3, 1, 4);
        $m!($($x)* U0, U3, U2, U0, 0, 3, 2, 0);
        $m!($($x)* U0, U3, U2, U1, 0, 3, 2, 1);
        $m!($($x)* U0, U3, U2, U2, 0, 3, 2, 2);
        $m!($($x)* U0, U3, U2, U3, 0, 3, 2, 3);
        $m!($($x)* U0, U3, U2, U4, 0, 3, 2, 4);
        $m!($($x)* U0, U3, U3, U0, 0, 3, 3, 0);
        $m!($($x)* U0, U3, U3, U1, 0, 3, 3, 1);
        $m!($($x)* U0, U3, U3, U2, 0, 3, 3, 2);
        $m!($($x)* U0, U3, U3, U3, 0, 3, 3, 3);
        $m!($($x)* U0, U3, U3, U4, 0, 3, 3, 4);
        $m!($($x)* U0, U3, U4, U0, 0, 3, 4, 0);
        $m!($($x)* U0, U3, U4, U1, 0, 3, 4, 1);
        $m!($($x)* U0, U3, U4, U2, 0, 3, 4, 2);
        $m!($($x)* U0, U3, U4, U3, 0, 3, 4, 3);
        $m!($($x)* U0, U3, U4, U4, 0, 3, 4, 4);
        $m!($($x)* U1, U0, U0, U0, 1, 0, 0, 0);
        $m!($($x)* U1, U0, U0, U1, 1, 0, 0, 1);
        $m!($($x)* U1, U0, U0, U2, 1, 0, 0, 2);
        $m!($($x)* U1, U0, U0, U3, 1, 0, 0, 3);
        $m!($($x)* U1, U0, U0, U4, 1, 0, 0, 4);
        $m!($($x)* U1, U0, U1, U0, 1, 0, 1, 0);
        $m!($($x)* U1, U0, U1, U1, 1, 0, 1, 1);
        $m!($($x)* U1, U0, U1, U2, 1, 0, 1, 2);
        $m!($($x)* U1, U0, U1, U3, 1, 0, 1, 3);
        $m!($($x)* U1, U0, U1, U4, 1, 0, 1, 4);
        $m!($($x)* U1, U0, U2, U0, 1, 0, 2, 0);
        $m!($($x)* U1, U0, U2, U1, 1, 0, 2, 1);
        $m!($($x)* U1, U0, U2, U2, 1, 0, 2, 2);
        $m!($($x)* U1, U0, U2, U3, 1, 0, 2, 3);
        $m!($($x)* U1, U0, U2, U4, 1, 0, 2, 4);
        $m!($($x)* U1, U0, U3, U0, 1, 0, 3, 0);
        $m!($($x)* U1, U0, U3, U1, 1, 0, 3, 1);
        $m!($($x)* U1, U0, U3, U2, 1, 0, 3, 2);
        $m!($($x)* U1, U0, U3, U3, 1, 0, 3, 3);
        $m!($($x)* U1, U0, U3, U4, 1, 0, 3, 4);
        $m!($($x)* U1, U0, U4, U0, 1, 0, 4, 0);
        $m!($($x)* U1, U0, U4, U1, 1, 0, 4, 1);
        $m!($($x)* U1, U0, U4, U2, 1, 0, 4, 2);
        $m!($($x)* U1, U0, U4, U3, 1, 0, 4, 3);
        $m!($($x)* U1, U0, U4, U4, 1, 0, 4, 4);
        $m!($($x)* U1, U1, U0, U0, 1, 1, 0, 0);
        $m!($($x)* U1, U1, U0, U1, 1, 1, 0, 1);
        $m!($($x)* U1, U1, U0, U2, 1, 1, 0, 2);
        $m!($($x)* U1, U1, U0, U3, 1, 1, 0, 3);
        $m!($($x)* U1, U1, U0, U4, 1, 1, 0, 4);
        $m!($($x)* U1, U1, U1, U0, 1, 1, 1, 0);
        $m!($($x)* U1, U1, U1, U1, 1, 1, 1, 1);
        $m!($($x)* U1, U1, U1, U2, 1, 1, 1, 2);
        $m!($($x)* U1, U1, U1, U3, 1, 1, 1, 3);
        $m!($($x)* U1, U1, U1, U4, 1, 1, 1, 4);
        $m!($($x)* U1, U1, U2, U0, 1, 1, 2, 0);
        $m!($($x)* U1, U1, U2, U1, 1, 1, 2, 1);
        $m!($($x)* U1, U1, U2, U2, 1, 1, 2, 2);
        $m!($($x)* U1, U1, U2, U3, 1, 1, 2, 3);
        $m!($($x)* U1, U1, U2, U4, 1, 1, 2, 4);
        $m!($($x)* U1, U1, U3, U0, 1, 1, 3, 0);
        $m!($($x)* U1, U1, U3, U1, 1, 1, 3, 1);
        $m!($($x)* U1, U1, U3, U2, 1, 1, 3, 2);
        $m!($($x)* U1, U1, U3, U3, 1, 1, 3, 3);
        $m!($($x)* U1, U1, U3, U4, 1, 1, 3, 4);
        $m!($($x)* U1, U1, U4, U0, 1, 1, 4, 0);
        $m!($($x)* U1, U1, U4, U1, 1, 1, 4, 1);
        $m!($($x)* U1, U1, U4, U2, 1, 1, 4, 2);
        $m!($($x)* U1, U1, U4, U3, 1, 1, 4, 3);
        $m!($($x)* U1, U1, U4, U4, 1, 1, 4, 4);
        $m!($($x)* U1, U2, U0, U0, 1, 2, 0, 0);
        $m!($($x)* U1, U2, U0, U1, 1, 2, 0, 1);
        $m!($($x)* U1, U2, U0, U2, 1, 2, 0, 2);
        $m!($($x)* U1, U2, U0, U3, 1, 2, 0, 3);
        $m!($($x)* U1, U2, U0, U4, 1, 2, 0, 4);
        $m!($($x)* U1, U2, U1, U0, 1, 2, 1, 0);
        $m!($($x)* U1, U2, U1, U1, 1, 2, 1, 1);
        $m!($($x)* U1, U2, U1, U2, 1, 2, 1, 2);
        $m!($($x)* U1, U2, U1, U3, 1, 2, 1, 3);
        $m!($($x)* U1, U2, U1, U4, 1, 2, 1, 4);
        $m!($($x)* U1, U2, U2, U0, 1, 2, 2, 0);
        $m!($($x)* U1, U2, U2, U1, 1, 2, 2, 1);
        $m!($($x)* U1, U2, U2, U2, 1, 2, 2, 2);
        $m!($($x)* U1, U2, U2, U3, 1, 2, 2, 3);
        $m!($($x)* U1, U2, U2, U4, 1, 2, 2, 4);
        $m!($($x)* U1, U2, U3, U0, 1, 2, 3, 0);
        $m!($($x)* U1, U2, U3, U1, 1, 2, 3, 1);
        $m!($($x)* U1, U2, U3, U2, 1, 2, 3, 2);
        $m!($($x)* U1, U2, U3, U3, 1, 2, 3, 3);
        $m!($($x)* U1, U2, U3, U4, 1, 2, 3, 4);
        $m!($($x)* U1, U2, U4, U0, 1, 2, 4, 0);
        $m!($($x)* U1, U2, U4, U1, 1, 2, 4, 1);
        $m!($($x)* U1, U2, U4, U2, 1, 2, 4, 2);
        $m!($($x)* U1, U2, U4, U3, 1, 2, 4, 3);
        $m!($($x)* U1, U2, U4, U4, 1, 2, 4, 4);
        $m!($($x)* U1, U3, U0, U0, 1, 3, 0, 0);
        $m!($($x)* U1, U3, U0, U1, 1, 3, 0, 1);
        $m!($($x)* U1, U3, U0, U2, 1, 3, 0, 2);
        $m!($($x)* U1, U3, U0, U3, 1, 3, 0, 3);
        $m!($($x)* U1, U3, U0, U4, 1, 3, 0, 4);
        $m!($($x)* U1, U3, U1, U0, 1, 3, 1, 0);
        $m!($($x)* U1, U3, U1, U1, 1, 3, 1, 1);
        $m!($($x)* U1, U3, U1, U2, 1, 3, 1, 2);
        $m!($($x)* U1, U3, U1, U3, 1, 3, 1, 3);
        $m!($($x)* U1, U3, U1, U4, 1, 3, 1, 4);
        $m!($($x)* U1, U3, U2, U0, 1, 3, 2, 0);
        $m!($($x)* U1, U3, U2, U1, 1, 3, 2, 1);
        $m!($($x)* U1, U3, U2, U2, 1, 3, 2, 2);
        $m!($($x)* U1, U3, U2, U3, 1, 3, 2, 3);
        $m!($($x)* U1, U3, U2, U4, 1, 3, 2, 4);
        $m!($($x)* U1, U3, U3, U0, 1, 3, 3, 0);
        $m!($($x)* U1, U3, U3, U1, 1, 3, 3, 1);
        $m!($($x)* U1, U3, U3, U2, 1, 3, 3, 2);
        $m!($($x)* U1, U3, U3, U3, 1, 3, 3, 3);
        $m!($($x)* U1, U3, U3, U4, 1, 3, 3, 4);
        $m!($($x)* U1, U3, U4, U0, 1, 3, 4, 0);
        $m!($($x)* U1, U3, U4, U1, 1, 3, 4, 1);
        $m!($($x)* U1, U3, U4, U2, 1, 3, 4, 2);
        $m!($($x)* U1, U3, U4, U3, 1, 3, 4, 3);
        $m!($($x)* U1, U3, U4, U4, 1, 3, 4, 4);
        $m!($($x)* U2, U0, U0, U0, 2, 0, 0, 0);
        $m!($($x)* U2, U0, U0, U1, 2, 0, 0, 1);
        $m!($($x)* U2, U0, U0, U2, 2, 0, 0, 2);
        $m!($($x)* U2, U0, U0, U3, 2, 0, 0, 3);
        $m!($($x)* U2, U0, U0, U4, 2, 0, 0, 4);
        $m!($($x)* U2, U0, U1, U0, 2, 0, 1, 0);
        $m!($($x)* U2, U0, U1, U1, 2, 0, 1, 1);
        $m!($($x)* U2, U0, U1, U2, 2, 0, 1, 2);
        $m!($($x)* U2, U0, U1, U3, 2, 0, 1, 3);
        $m!($($x)* U2, U0, U1, U4, 2, 0, 1, 4);
        $m!($($x)* U2, U0, U2, U0, 2, 0, 2, 0);
        $m!($($x)* U2, U0, U2, U1, 2, 0, 2, 1);
        $m!($($x)* U2, U0, U2, U2, 2, 0, 2, 2);
        $m!($($x)* U2, U0, U2, U3, 2, 0, 2, 3);
        $m!($($x)* U2, U0, U2, U4, 2, 0, 2, 4);
        $m!($($x)* U2, U0, U3, U0, 2, 0, 3, 0);
        $m!($($x)* U2, U0, U3, U1, 2, 0, 3, 1);
        $m!($($x)* U2, U0, U3, U2, 2, 0, 3, 2);
        $m!($($x)* U2, U0, U3, U3, 2, 0, 3, 3);
        $m!($($x)* U2, U0, U3, U4, 2, 0, 3, 4);
        $m!($($x)* U2, U0, U4, U0, 2, 0, 4, 0);
        $m!($($x)* U2, U0, U4, U1, 2, 0, 4, 1);
        $m!($($x)* U2, U0, U4, U2, 2, 0, 4, 2);
        $m!($($x)* U2, U0, U4, U3, 2, 0, 4, 3);
        $m!($($x)* U2, U0, U4, U4, 2, 0, 4, 4);
        $m!($($x)* U2, U1, U0, U0, 2, 1, 0, 0);
        $m!($($x)* U2, U1, U0, U1, 2, 1, 0, 1);
        $m!($($x)* U2, U1, U0, U2, 2, 1, 0, 2);
        $m!($($x)* U2, U1, U0, U3, 2, 1, 0, 3);
        $m!($($x)* U2, U1, U0, U4, 2, 1, 0, 4);
        $m!($($x)* U2, U1, U1, U0, 2, 1, 1, 0);
        $m!($($x)* U2, U1, U1, U1, 2, 1, 1, 1);
        $m!($($x)* U2, U1, U1, U2, 2, 1, 1, 2);
        $m!($($x)* U2, U1, U1, U3, 2, 1, 1, 3);
        $m!($($x)* U2, U1, U1, U4, 2, 1, 1, 4);
        $m!($($x)* U2, U1, U2, U0, 2, 1, 2, 0);
        $m!($($x)* U2, U1, U2, U1, 2, 1, 2, 1);
        $m!($($x)* U2, U1, U2, U2, 2, 1, 2, 2);
        $m!($($x)* U2, U1, U2, U3, 2, 1, 2, 3);
        $m!($($x)* U2, U1, U2, U4, 2, 1, 2, 4);
        $m!($($x)* U2, U1, U3, U0, 2, 1, 3, 0);
        $m!($($x)* U2, U1, U3, U1, 2, 1, 3, 1);
        $m!($($x)* U2, U1, U3, U2, 2, 1, 3, 2);
        $m!($($x)* U2, U1, U3, U3, 2, 1, 3, 3);
        $m!($($x)* U2, U1, U3, U4, 2, 1, 3, 4);
        $m!($($x)* U2, U1, U4, U0, 2, 1, 4, 0);
        $m!($($x)* U2, U1, U4, U1, 2, 1, 4, 1);
        $m!($($x)* U2, U1, U4, U2, 2, 1, 4, 2);
        $m!($($x)* U2, U1, U4, U3, 2, 1, 4, 3);
        $m!($($x)* U2, U1, U4, U4, 2, 1, 4, 4);
        $m!($($x)* U2, U2, U0, U0, 2, 2, 0, 0);
        $m!($($x)* U2, U2, U0, U1, 2, 2, 0, 1);
        $m!($($x)* U2, U2, U0, U2, 2, 2, 0, 2);
        $m!($($x)* U2, U2, U0, U3, 2, 2, 0, 3);
        $m!($($x)* U2, U2, U0, U4, 2, 2, 0, 4);
        $m!($($x)* U2, U2, U1, U0, 2, 2, 1, 0);
        $m!($($x)* U2, U2, U1, U1, 2, 2, 1, 1);
        $m!($($x)* U2, U2, U1, U2, 2, 2, 1, 2);
        $m!($($x)* U2, U2, U1, U3, 2, 2, 1, 3);
        $m!($($x)* U2, U2, U1, U4, 2, 2, 1, 4);
        $m!($($x)* U2, U2, U2, U0, 2, 2, 2, 0);
        $m!($($x)* U2, U2, U2, U1, 2, 2, 2, 1);
        $m!($($x)* U2, U2, U2, U2, 2, 2, 2, 2);
        $m!($($x)* U2, U2, U2, U3, 2, 2, 2, 3);
        $m!($($x)* U2, U2, U2, U4, 2, 2, 2, 4);
        $m!($($x)* U2, U2, U3, U0, 2, 2, 3, 0);
        $m!($($x)* U2, U2, U3, U1, 2, 2, 3, 1);
        $m!($($x)* U2, U2, U3, U2, 2, 2, 3, 2);
        $m!($($x)* U2, U2, U3, U3, 2, 2, 3, 3);
        $m!($($x)* U2, U2, U3, U4, 2, 2, 3, 4);
        $m!($($x)* U2, U2, U4, U0, 2, 2, 4, 0);
        $m!($($x)* U2, U2, U4, U1, 2, 2, 4, 1);
        $m!($($x)* U2, U2, U4, U2, 2, 2, 4, 2);
        $m!($($x)* U2, U2, U4, U3, 2, 2, 4, 3);
        $m!($($x)* U2, U2, U4, U4, 2, 2, 4, 4);
        $m!($($x)* U2, U3, U0, U0, 2, 3, 0, 0);
        $m!($($x)* U2, U3, U0, U1, 2, 3, 0, 1);
        $m!($($x)* U2, U3, U0, U2, 2, 3, 0, 2);
        $m!($($x)* U2, U3, U0, U3, 2, 3, 0, 3);
        $m!($($x)* U2, U3, U0, U4, 2, 3, 0, 4);
        $m!($($x)* U2, U3, U1, U0, 2, 3, 1, 0);
        $m!($($x)* U2, U3, U1, U1, 2, 3, 1, 1);
        $m!($($x)* U2, U3, U1, U2, 2, 3, 1, 2);
        $m!($($x)* U2, U3, U1, U3, 2, 3, 1, 3);
        $m!($($x)* U2, U3, U1, U4, 2, 3, 1, 4);
        $m!($($x)* U2, U3, U2, U0, 2, 3, 2, 0);
        $m!($($x)* U2, U3, U2, U1, 2, 3, 2, 1);
        $m!($($x)* U2, U3, U2, U2, 2, 3, 2, 2);
        $m!($($x)* U2, U3, U2, U3, 2, 3, 2, 3);
        $m!($($x)* U2, U3, U2, U4, 2, 3, 2, 4);
        $m!($($x)* U2, U3, U3, U0, 2, 3, 3, 0);
        $m!($($x)* U2, U3, U3, U1, 2, 3, 3, 1);
        $m!($($x)* U2, U3, U3, U2, 2, 3, 3, 2);
        $m!($($x)* U2, U3, U3, U3, 2, 3, 3, 3);
        $m!($($x)* U2, U3, U3, U4, 2, 3, 3, 4);
        $m!($($x)* U2, U3, U4, U0, 2, 3, 4, 0);
        $m!($($x)* U2, U3, U4, U1, 2, 3, 4, 1);
        $m!($($x)* U2, U3, U4, U2, 2, 3, 4, 2);
        $m!($($x)* U2, U3, U4, U3, 2, 3, 4, 3);
        $m!($($x)* U2, U3, U4, U4, 2, 3, 4, 4);
        $m!($($x)* U3, U0, U0, U0, 3, 0, 0, 0);
        $m!($($x)* U3, U0, U0, U1, 3, 0, 0, 1);
        $m!($($x)* U3, U0, U0, U2, 3, 0, 0, 2);
        $m!($($x)* U3, U0, U0, U3, 3, 0, 0, 3);
        $m!($($x)* U3, U0, U0, U4, 3, 0, 0, 4);
        $m!($($x)* U3, U0, U1, U0, 3, 0, 1, 0);
        $m!($($x)* U3, U0, U1, U1, 3, 0, 1, 1);
        $m!($($x)* U3, U0, U1, U2, 3, 0, 1, 2);
        $m!($($x)* U3, U0, U1, U3, 3, 0, 1, 3);
        $m!($($x)* U3, U0, U1, U4, 3, 0, 1, 4);
        $m!($($x)* U3, U0, U2, U0, 3, 0, 2, 0);
        $m!($($x)* U3, U0, U2, U1, 3, 0, 2, 1);
        $m!($($x)* U3, U0, U2, U2, 3, 0, 2, 2);
        $m!($($x)* U3, U0, U2, U3, 3, 0, 2, 3);
        $m!($($x)* U3, U0, U2, U4, 3, 0, 2, 4);
        $m!($($x)* U3, U0, U3, U0, 3, 0, 3, 0);
        $m!($($x)* U3, U0, U3, U1, 3, 0, 3, 1);
        $m!($($x)* U3, U0, U3, U2, 3, 0, 3, 2);
        $m!($($x)* U3, U0, U3, U3, 3, 0, 3, 3);
        $m!($($x)* U3, U0, U3, U4, 3, 0, 3, 4);
        $m!($($x)* U3, U0, U4, U0, 3, 0, 4, 0);
        $m!($($x)* U3, U0, U4, U1, 3, 0, 4, 1);
        $m!($($x)* U3, U0, U4, U2, 3, 0, 4, 2);
        $m!($($x)* U3, U0, U4, U3, 3, 0, 4, 3);
        $m!($($x)* U3, U0, U4, U4, 3, 0, 4, 4);
        $m!($($x)* U3, U1, U0, U0, 3, 1, 0, 0);
        $m!($($x)* U3, U1, U0, U1, 3, 1, 0, 1);
        $m!($($x)* U3, U1, U0, U2, 3, 1, 0, 2);
        $m!($($x)* U3, U1, U0, U3, 3, 1, 0, 3);
        $m!($($x)* U3, U1, U0, U4, 3, 1, 0, 4);
        $m!($($x)* U3, U1, U1, U0, 3, 1, 1, 0);
        $m!($($x)* U3, U1, U1, U1, 3, 1, 1, 1);
        $m!($($x)* U3, U1, U1, U2, 3, 1, 1, 2);
        $m!($($x)* U3, U1, U1, U3, 3, 1, 1, 3);
        $m!($($x)* U3, U1, U1, U4, 3, 1, 1, 4);
        $m!($($x)* U3, U1, U2, U0, 3, 1, 2, 0);
        $m!($($x)* U3, U1, U2, U1, 3, 1, 2, 1);
        $m!($($x)* U3, U1, U2, U2, 3, 1, 2, 2);
        $m!($($x)* U3, U1, U2, U3, 3, 1, 2, 3);
        $m!($($x)* U3, U1, U2, U4, 3, 1, 2, 4);
        $m!($($x)* U3, U1, U3, U0, 3, 1, 3, 0);
        $m!($($x)* U3, U1, U3, U1, 3, 1, 3, 1);
        $m!($($x)* U3, U1, U3, U2, 3, 1, 3, 2);
        $m!($($x)* U3, U1, U3, U3, 3, 1, 3, 3);
        $m!($($x)* U3, U1, U3, U4, 3, 1, 3, 4);
        $m!($($x)* U3, U1, U4, U0, 3, 1, 4, 0);
        $m!($($x)* U3, U1, U4, U1, 3, 1, 4, 1);
        $m!($($x)* U3, U1, U4, U2, 3, 1, 4, 2);
        $m!($($x)* U3, U1, U4, U3, 3, 1, 4, 3);
        $m!($($x)* U3, U1, U4, U4, 3, 1, 4, 4);
        $m!($($x)* U3, U2, U0, U0, 3, 2, 0, 0);
        $m!($($x)* U3, U2, U0, U1, 3, 2, 0, 1);
        $m!($($x)* U3, U2, U0, U2, 3, 2, 0, 2);
        $m!($($x)* U3, U2, U0, U3, 3, 2, 0, 3);
        $m!($($x)* U3, U2, U0, U4, 3, 2, 0, 4);
        $m!($($x)* U3, U2, U1, U0, 3, 2, 1, 0);
        $m!($($x)* U3, U2, U1, U1, 3, 2, 1, 1);
        $m!($($x)* U3, U2, U1, U2, 3, 2, 1, 2);
        $m!($($x)* U3, U2, U1, U3, 3, 2, 1, 3);
        $m!($($x)* U3, U2, U1, U4, 3, 2, 1, 4);
        $m!($($x)* U3, U2, U2, U0, 3, 2, 2, 0);
        $m!($($x)* U3, U2, U2, U1, 3, 2, 2, 1);
        $m!($($x)* U3, U2, U2, U2, 3, 2, 2, 2);
        $m!($($x)* U3, U2, U2, U3, 3, 2, 2, 3);
        $m!($($x)* U3, U2, U2, U4, 3, 2, 2, 4);
        $m!($($x)* U3, U2, U3, U0, 3, 2, 3, 0);
        $m!($($x)* U3, U2, U3, U1, 3, 2, 3, 1);
        $m!($($x)* U3, U2, U3, U2, 3, 2, 3, 2);
        $m!($($x)* U3, U2, U3, U3, 3, 2, 3, 3);
        $m!($($x)* U3, U2, U3, U4, 3, 2, 3, 4);
        $m!($($x)* U3, U2, U4, U0, 3, 2, 4, 0);
        $m!($($x)* U3, U2, U4, U1, 3, 2, 4, 1);
        $m!($($x)* U3, U2, U4, U2, 3, 2, 4, 2);
        $m!($($x)* U3, U2, U4, U3, 3, 2, 4, 3);
        $m!($($x)* U3, U2, U4, U4, 3, 2, 4, 4);
        $m!($($x)* U3, U3, U0, U0, 3, 3, 0, 0);
        $m!($($x)* U3, U3, U0, U1, 3, 3, 0, 1);
        $m!($($x)* U3, U3, U0, U2, 3, 3, 0, 2);
        $m!($($x)* U3, U3, U0, U3, 3, 3, 0, 3);
        $m!($($x)* U3, U3, U0, U4, 3, 3, 0, 4);
        $m!($($x)* U3, U3, U1, U0, 3, 3, 1, 0);
        $m!($($x)* U3, U3, U1, U1, 3, 3, 1, 1);
        $m!($($x)* U3, U3, U1, U2, 3, 3, 1, 2);
        $m!($($x)* U3, U3, U1, U3, 3, 3, 1, 3);
        $m!($($x)* U3, U3, U1, U4, 3, 3, 1, 4);
        $m!($($x)* U3, U3, U2, U0, 3, 3, 2, 0);
        $m!($($x)* U3, U3, U2, U1, 3, 3, 2, 1);
        $m!($($x)* U3, U3, U2, U2, 3, 3, 2, 2);
        $m!($($x)* U3, U3, U2, U3, 3, 3, 2, 3);
        $m!($($x)* U3, U3, U2, U4, 3, 3, 2, 4);
        $m!($($x)* U3, U3, U3, U0, 3, 3, 3, 0);
        $m!($($x)* U3, U3, U3, U1, 3, 3, 3, 1);
        $m!($($x)* U3, U3, U3, U2, 3, 3, 3, 2);
        $m!($($x)* U3, U3, U3, U3, 3, 3, 3, 3);
        $m!($($x)* U3, U3, U3, U4, 3, 3, 3, 4);
        $m!($($x)* U3, U3, U4, U0, 3, 3, 4, 0);
        $m!($($x)* U3, U3, U4, U1, 3, 3, 4, 1);
        $m!($($x)* U3, U3, U4, U2, 3, 3, 4, 2);
        $m!($($x)* U3, U3, U4, U3, 3, 3, 4, 3);
        $m!($($x)* U3, U3, U4, U4, 3, 3, 4, 4);
        $m!($($x)* U4, U4, U0, U0, 4, 4, 0, 0);
        $m!($($x)* U4, U4, U0, U1, 4, 4, 0, 1);
        $m!($($x)* U4, U4, U0, U2, 4, 4, 0, 2);
        $m!($($x)* U4, U4, U0, U3, 4, 4, 0, 3);
        $m!($($x)* U4, U4, U0, U4, 4, 4, 0, 4);
        $m!($($x)* U4, U4, U0, U5, 4, 4, 0, 5);
        $m!($($x)* U4, U4, U1, U0, 4, 4, 1, 0);
        $m!($($x)* U4, U4, U1, U1, 4, 4, 1, 1);
        $m!($($x)* U4, U4, U1, U2, 4, 4, 1, 2);
        $m!($($x)* U4, U4, U1, U3, 4, 4, 1, 3);
        $m!($($x)* U4, U4, U1, U4, 4, 4, 1, 4);
        $m!($($x)* U4, U4, U1, U5, 4, 4, 1, 5);
        $m!($($x)* U4, U4, U2, U0, 4, 4, 2, 0);
        $m!($($x)* U4, U4, U2, U1, 4, 4, 2, 1);
        $m!($($x)* U4, U4, U2, U2, 4, 4, 2, 2);
        $m!($($x)* U4, U4, U2, U3, 4, 4, 2, 3);
        $m!($($x)* U4, U4, U2, U4, 4, 4, 2, 4);
        $m!($($x)* U4, U4, U2, U5, 4, 4, 2, 5);
        $m!($($x)* U4, U4, U3, U0, 4, 4, 3, 0);
        $m!($($x)* U4, U4, U3, U1, 4, 4, 3, 1);
        $m!($($x)* U4, U4, U3, U2, 4, 4, 3, 2);
        $m!($($x)* U4, U4, U3, U3, 4, 4, 3, 3);
        $m!($($x)* U4, U4, U3, U4, 4, 4, 3, 4);
        $m!($($x)* U4, U4, U3, U5, 4, 4, 3, 5);
        $m!($($x)* U4, U4, U4, U0, 4, 4, 4, 0);
        $m!($($x)* U4, U4, U4, U1, 4, 4, 4, 1);
        $m!($($x)* U4, U4, U4, U2, 4, 4, 4, 2);
        $m!($($x)* U4, U4, U4, U3, 4, 4, 4, 3);
        $m!($($x)* U4, U4, U4, U4, 4, 4, 4, 4);
        $m!($($x)* U4, U4, U4, U5, 4, 4, 4, 5);
        $m!($($x)* U4, U4, U5, U0, 4, 4, 5, 0);
        $m!($($x)* U4, U4, U5, U1, 4, 4, 5, 1);
        $m!($($x)* U4, U4, U5, U2, 4, 4, 5, 2);
        $m!($($x)* U4, U4, U5, U3, 4, 4, 5, 3);
        $m!($($x)* U4, U4, U5, U4, 4, 4, 5, 4);
        $m!($($x)* U4, U4, U5, U5, 4, 4, 5, 5);
        $m!($($x)* U5, U3, U0, U0, 5, 3, 0, 0);
        $m!($($x)* U5, U3, U0, U1, 5, 3, 0, 1);
        $m!($($x)* U5, U3, U0, U2, 5, 3, 0, 2);
        $m!($($x)* U5, U3, U0, U3, 5, 3, 0, 3);
        $m!($($x)* U5, U3, U0, U4, 5, 3, 0, 4);
        $m!($($x)* U5, U3, U1, U0, 5, 3, 1, 0);
        $m!($($x)* U5, U3, U1, U1, 5, 3, 1, 1);
        $m!($($x)* U5, U3, U1, U2, 5, 3, 1, 2);
        $m!($($x)* U5, U3, U1, U3, 5, 3, 1, 3);
        $m!($($x)* U5, U3, U1, U4, 5, 3, 1, 4);
        $m!($($x)* U5, U3, U2, U0, 5, 3, 2, 0);
        $m!($($x)* U5, U3, U2, U1, 5, 3, 2, 1);
        $m!($($x)* U5, U3, U2, U2, 5, 3, 2, 2);
        $m!($($x)* U5, U3, U2, U3, 5, 3, 2, 3);
        $m!($($x)* U5, U3, U2, U4, 5, 3, 2, 4);
        $m!($($x)* U5, U3, U4, U0, 5, 3, 4, 0);
        $m!($($x)* U5, U3, U4, U1, 5, 3, 4, 1);
        $m!($($x)* U5, U3, U4, U2, 5, 3, 4, 2);
        $m!($($x)* U5, U3, U4, U3, 5, 3, 4, 3);
        $m!($($x)* U5, U3, U4, U4, 5, 3, 4, 4);
        $m!($($x)* U5, U3, U5, U0, 5, 3, 5, 0);
        $m!($($x)* U5, U3, U5, U1, 5, 3, 5, 1);
        $m!($($x)* U5, U3, U5, U2, 5, 3, 5, 2);
        $m!($($x)* U5, U3, U5, U3, 5, 3, 5, 3);
        $m!($($x)* U5, U3, U5, U4, 5, 3, 5, 4);
        $m!($($x)* U5, U3, U6, U0, 5, 3, 6, 0);
        $m!($($x)* U5, U3, U6, U1, 5, 3, 6, 1);
        $m!($($x)* U5, U3, U6, U2, 5, 3, 6, 2);
        $m!($($x)* U5, U3, U6, U3, 5, 3, 6, 3);
        $m!($($x)* U5, U3, U6, U4, 5, 3, 6, 4);
        $m!($($x)* U3, U5, U0, U0, 3, 5, 0, 0);
        $m!($($x)* U3, U5, U0, U1, 3, 5, 0, 1);
        $m!($($x)* U3, U5, U0, U2, 3, 5, 0, 2);
        $m!($($x)* U3, U5, U0, U3, 3, 5, 0, 3);
        $m!($($x)* U3, U5, U0, U4, 3, 5, 0, 4);
        $m!($($x)* U3, U5, U0, U5, 3, 5, 0, 5);
        $m!($($x)* U3, U5, U0, U6, 3, 5, 0, 6);
        $m!($($x)* U3, U5, U1, U0, 3, 5, 1, 0);
        $m!($($x)* U3, U5, U1, U1, 3, 5, 1, 1);
        $m!($($x)* U3, U5, U1, U2, 3, 5, 1, 2);
        $m!($($x)* U3, U5, U1, U3, 3, 5, 1, 3);
        $m!($($x)* U3, U5, U1, U4, 3, 5, 1, 4);
        $m!($($x)* U3, U5, U1, U5, 3, 5, 1, 5);
        $m!($($x)* U3, U5, U1, U6, 3, 5, 1, 6);
        $m!($($x)* U3, U5, U2, U0, 3, 5, 2, 0);
        $m!($($x)* U3, U5, U2, U1, 3, 5, 2, 1);
        $m!($($x)* U3, U5, U2, U2, 3, 5, 2, 2);
        $m!($($x)* U3, U5, U2, U3, 3, 5, 2, 3);
        $m!($($x)* U3, U5, U2, U4, 3, 5, 2, 4);
        $m!($($x)* U3, U5, U2, U5, 3, 5, 2, 5);
        $m!($($x)* U3, U5, U2, U6, 3, 5, 2, 6);
        $m!($($x)* U3, U5, U3, U0, 3, 5, 3, 0);
        $m!($($x)* U3, U5, U3, U1, 3, 5, 3, 1);
        $m!($($x)* U3, U5, U3, U2, 3, 5, 3, 2);
        $m!($($x)* U3, U5, U3, U3, 3, 5, 3, 3);
        $m!($($x)* U3, U5, U3, U4, 3, 5, 3, 4);
        $m!($($x)* U3, U5, U3, U5, 3, 5, 3, 5);
        $m!($($x)* U3, U5, U3, U6, 3, 5, 3, 6);
        $m!($($x)* U3, U5, U4, U0, 3, 5, 4, 0);
        $m!($($x)* U3, U5, U4, U1, 3, 5, 4, 1);
        $m!($($x)* U3, U5, U4, U2, 3, 5, 4, 2);
        $m!($($x)* U3, U5, U4, U3, 3, 5, 4, 3);
        $m!($($x)* U3, U5, U4, U4, 3, 5, 4, 4);
        $m!($($x)* U3, U5, U4, U5, 3, 5, 4, 5);
        $m!($($x)* U3, U5, U4, U6, 3, 5, 4, 6);
        $m!($($x)* U8, U7, U0, U0, 8, 7, 0, 0);
        $m!($($x)* U8, U7, U0, U1, 8, 7, 0, 1);
        $m!($($x)* U8, U7, U0, U3, 8, 7, 0, 3);
        $m!($($x)* U8, U7, U0, U6, 8, 7, 0, 6);
        $m!($($x)* U8, U7, U0, U7, 8, 7, 0, 7);
        $m!($($x)* U8, U7, U0, U8, 8, 7, 0, 8);
        $m!($($x)* U8, U7, U1, U0, 8, 7, 1, 0);
        $m!($($x)* U8, U7, U1, U1, 8, 7, 1, 1);
        $m!($($x)* U8, U7, U1, U3, 8, 7, 1, 3);
        $m!($($x)* U8, U7, U1, U6, 8, 7, 1, 6);
        $m!($($x)* U8, U7, U1, U7, 8, 7, 1, 7);
        $m!($($x)* U8, U7, U1, U8, 8, 7, 1, 8);
        $m!($($x)* U8, U7, U2, U0, 8, 7, 2, 0);
        $m!($($x)* U8, U7, U2, U1, 8, 7, 2, 1);
        $m!($($x)* U8, U7, U2, U3, 8, 7, 2, 3);
        $m!($($x)* U8, U7, U2, U6, 8, 7, 2, 6);
        $m!($($x)* U8, U7, U2, U7, 8, 7, 2, 7);
        $m!($($x)* U8, U7, U2, U8, 8, 7, 2, 8);
        $m!($($x)* U8, U7, U4, U0, 8, 7, 4, 0);
        $m!($($x)* U8, U7, U4, U1, 8, 7, 4, 1);
        $m!($($x)* U8, U7, U4, U3, 8, 7, 4, 3);
        $m!($($x)* U8, U7, U4, U6, 8, 7, 4, 6);
        $m!($($x)* U8, U7, U4, U7, 8, 7, 4, 7);
        $m!($($x)* U8, U7, U4, U8, 8, 7, 4, 8);
        $m!($($x)* U8, U7, U7, U0, 8, 7, 7, 0);
        $m!($($x)* U8, U7, U7, U1, 8, 7, 7, 1);
        $m!($($x)* U8, U7, U7, U3, 8, 7, 7, 3);
        $m!($($x)* U8, U7, U7, U6, 8, 7, 7, 6);
        $m!($($x)* U8, U7, U7, U7, 8, 7, 7, 7);
        $m!($($x)* U8, U7, U7, U8, 8, 7, 7, 8);
        $m!($($x)* U8, U7, U8, U0, 8, 7, 8, 0);
        $m!($($x)* U8, U7, U8, U1, 8, 7, 8, 1);
        $m!($($x)* U8, U7, U8, U3, 8, 7, 8, 3);
        $m!($($x)* U8, U7, U8, U6, 8, 7, 8, 6);
        $m!($($x)* U8, U7, U8, U7, 8, 7, 8, 7);
        $m!($($x)* U8, U7, U8, U8, 8, 7, 8, 8);
        $m!($($x)* U8, U7, U9, U0, 8, 7, 9, 0);
        $m!($($x)* U8, U7, U9, U1, 8, 7, 9, 1);
        $m!($($x)* U8, U7, U9, U3, 8, 7, 9, 3);
        $m!($($x)* U8, U7, U9, U6, 8, 7, 9, 6);
        $m!($($x)* U8, U7, U9, U7, 8, 7, 9, 7);
        $m!($($x)* U8, U7, U9, U8, 8, 7, 9, 8);
        $m!($($x)* U1, U32, U0, U0, 1, 32, 0, 0);
        $m!($($x)* U1, U32, U0, U1, 1, 32, 0, 1);
        $m!($($x)* U1, U32, U0, U3, 1, 32, 0, 3);
        $m!($($x)* U1, U32, U0, U16, 1, 32, 0, 16);
        $m!($($x)* U1, U32, U0, U31, 1, 32, 0, 31);
        $m!($($x)* U1, U32, U0, U32, 1, 32, 0, 32);
        $m!($($x)* U1, U32, U0, U33, 1, 32, 0, 33);
        $m!($($x)* U1, U32, U1, U0, 1, 32, 1, 0);
        $m!($($x)* U1, U32, U1, U1, 1, 32, 1, 1);
        $m!($($x)* U1, U32, U1, U3, 1, 32, 1, 3);
        $m!($($x)* U1, U32, U1, U16, 1, 32, 1, 16);
        $m!($($x)* U1, U32, U1, U31, 1, 32, 1, 31);
        $m!($($x)* U1, U32, U1, U32, 1, 32, 1, 32);
        $m!($($x)* U1, U32, U1, U33, 1, 32, 1, 33);
        $m!($($x)* U1, U32, U2, U0, 1, 32, 2, 0);
        $m!($($x)* U1, U32, U2, U1, 1, 32, 2, 1);
        $m!($($x)* U1, U32, U2, U3, 1, 32, 2, 3);
        $m!($($x)* U1, U32, U2, U16, 1, 32, 2, 16);
        $m!($($x)* U1, U32, U2, U31, 1, 32, 2, 31);
        $m!($($x)* U1, U32, U2, U32, 1, 32, 2, 32);
        $m!($($x)* U1, U32, U2, U33, 1, 32, 2, 33);
        $m!($($x)* U32, U1, U0, U0, 32, 1, 0, 0);
        $m!($($x)* U32, U1, U0, U1, 32, 1, 0, 1);
        $m!($($x)* U32, U1, U0, U2, 32, 1, 0, 2);
        $m!($($x)* U32, U1, U0, U3, 32, 1, 0, 3);
        $m!($($x)* U32, U1, U1, U0, 32, 1, 1, 0);
        $m!($($x)* U32, U1, U1, U1, 32, 1, 1, 1);
        $m!($($x)* U32, U1, U1, U2, 32, 1, 1, 2);
        $m!($($x)* U32, U1, U1, U3, 32, 1, 1, 3);
        $m!($($x)* U32, U1, U2, U0, 32, 1, 2, 0);
        $m!($($x)* U32, U1, U2, U1, 32, 1, 2, 1);
        $m!($($x)* U32, U1, U2, U2, 32, 1, 2, 2);
        $m!($($x)* U32, U1, U2, U3, 32, 1, 2, 3);
        $m!($($x)* U32, U1, U16, U0, 32, 1, 16, 0);
        $m!($($x)* U32, U1, U16, U1, 32, 1, 16, 1);
        $m!($($x)* U32, U1, U16, U2, 32, 1, 16, 2);
        $m!($($x)* U32, U1, U16, U3, 32, 1, 16, 3);
        $m!($($x)* U32, U1, U31, U0, 32, 1, 31, 0);
        $m!($($x)* U32, U1, U31, U1, 32, 1, 31, 1);
        $m!($($x)* U32, U1, U31, U2, 32, 1, 31, 2);
        $m!($($x)* U32, U1, U31, U3, 32, 1, 31, 3);
        $m!($($x)* U32, U1, U32, U0, 32, 1, 32, 0);
        $m!($($x)* U32, U1, U32, U1, 32, 1, 32, 1);
        $m!($($x)* U32, U1, U32, U2, 32, 1, 32, 2);
        $m!($($x)* U32, U1, U32, U3, 32, 1, 32, 3);
        $m!($($x)* U32, U1, U33, U0, 32, 1, 33, 0);
        $m!($($x)* U32, U1, U33, U1, 32, 1, 33, 1);
        $m!($($x)* U32, U1, U33, U2, 32, 1, 33, 2);
        $m!($($x)* U32, U1, U33, U3, 32, 1, 33, 3);
        $m!($($x)* U16, U17, U0, U0, 16, 17, 0, 0);
        $m!($($x)* U16, U17, U0, U1, 16, 17, 0, 1);
        $m!($($x)* U16, U17, U0, U3, 16, 17, 0, 3);
        $m!($($x)* U16, U17, U0, U8, 16, 17, 0, 8);
        $m!($($x)* U16, U17, U0, U16, 16, 17, 0, 16);
        $m!($($x)* U16, U17, U0, U17, 16, 17, 0, 17);
        $m!($($x)* U16, U17, U0, U18, 16, 17, 0, 18);
        $m!($($x)* U16, U17, U1, U0, 16, 17, 1, 0);
        $m!($($x)* U16, U17, U1, U1, 16, 17, 1, 1);
        $m!($($x)* U16, U17, U1, U3, 16, 17, 1, 3);
        $m!($($x)* U16, U17, U1, U8, 16, 17, 1, 8);
        $m!($($x)* U16, U17, U1, U16, 16, 17, 1, 16);
        $m!($($x)* U16, U17, U1, U17, 16, 17, 1, 17);
        $m!($($x)* U16, U17, U1, U18, 16, 17, 1, 18);
        $m!($($x)* U16, U17, U2, U0, 16, 17, 2, 0);
        $m!($($x)* U16, U17, U2, U1, 16, 17, 2, 1);
        $m!($($x)* U16, U17, U2, U3, 16, 17, 2, 3);
        $m!($($x)* U16, U17, U2, U8, 16, 17, 2, 8);
        $m!($($x)* U16, U17, U2, U16, 16, 17, 2, 16);
        $m!($($x)* U16, U17, U2, U17, 16, 17, 2, 17);
        $m!($($x)* U16, U17, U2, U18, 16, 17, 2, 18);
        $m!($($x)* U16, U17, U8, U0, 16, 17, 8, 0);
        $m!($($x)* U16, U17, U8, U1, 16, 17, 8, 1);
        $m!($($x)* U16, U17, U8, U3, 16, 17, 8, 3);
        $m!($($x)* U16, U17, U8, U8, 16, 17, 8, 8);
        $m!($($x)* U16, U17, U8, U16, 16, 17, 8, 16);
        $m!($($x)* U16, U17, U8, U17, 16, 17, 8, 17);
        $m!($($x)* U16, U17, U8, U18, 16, 17, 8, 18);
        $m!($($x)* U16, U17, U15, U0, 16, 17, 15, 0);
        $m!($($x)* U16, U17, U15, U1, 16, 17, 15, 1);
        $m!($($x)* U16, U17, U15, U3, 16, 17, 15, 3);
        $m!($($x)* U16, U17, U15, U8, 16, 17, 15, 8);
        $m!($($x)* U16, U17, U15, U16, 16, 17, 15, 16);
        $m!($($x)* U16, U17, U15, U17, 16, 17, 15, 17);
        $m!($($x)* U16, U17, U15, U18, 16, 17, 15, 18);
        $m!($($x)* U16, U17, U16, U0, 16, 17, 16, 0);
        $m!($($x)* U16, U17, U16, U1, 16, 17, 16, 1);
        $m!($($x)* U16, U17, U16, U3, 16, 17, 16, 3);
        $m!($($x)* U16, U17, U16, U8, 16, 17, 16, 8);
        $m!($($x)* U16, U17, U16, U16, 16, 17, 16, 16);
        $m!($($x)* U16, U17, U16, U17, 16, 17, 16, 17);
        $m!($($x)* U16, U17, U16, U18, 16, 17, 16, 18);
        $m!($($x)* U16, U17, U17, U0, 16, 17, 17, 0);
        $m!($($x)* U16, U17, U17, U1, 16, 17, 17, 1);
        $m!($($x)* U16, U17, U17, U3, 16, 17, 17, 3);
        $m!($($x)* U16, U17, U17, U8, 16, 17, 17, 8);
        $m!($($x)* U16, U17, U17, U16, 16, 17, 17, 16);
        $m!($($x)* U16, U17, U17, U17, 16, 17, 17, 17);
        $m!($($x)* U16, U17, U17, U18, 16, 17, 17, 18);
        $m!($($x)* U32, U32, U0, U0, 32, 32, 0, 0);
        $m!($($x)* U32, U32, U0, U1, 32, 32, 0, 1);
        $m!($($x)* U32, U32, U0, U3, 32, 32, 0, 3);
        $m!($($x)* U32, U32, U0, U16, 32, 32, 0, 16);
        $m!($($x)* U32, U32, U0, U31, 32, 32, 0, 31);
        $m!($($x)* U32, U32, U0, U32, 32, 32, 0, 32);
        $m!($($x)* U32, U32, U0, U33, 32, 32, 0, 33);
        $m!($($x)* U32, U32, U1, U0, 32, 32, 1, 0);
        $m!($($x)* U32, U32, U1, U1, 32, 32, 1, 1);
        $m!($($x)* U32, U32, U1, U3, 32, 32, 1, 3);
        $m!($($x)* U32, U32, U1, U16, 32, 32, 1, 16);
        $m!($($x)* U32, U32, U1, U31, 32, 32, 1, 31);
        $m!($($x)* U32, U32, U1, U32, 32, 32, 1, 32);
        $m!($($x)* U32, U32, U1, U33, 32, 32, 1, 33);
        $m!($($x)* U32, U32, U2, U0, 32, 32, 2, 0);
        $m!($($x)* U32, U32, U2, U1, 32, 32, 2, 1);
        $m!($($x)* U32, U32, U2, U3, 32, 32, 2, 3);
        $m!($($x)* U32, U32, U2, U16, 32, 32, 2, 16);
        $m!($($x)* U32, U32, U2, U31, 32, 32, 2, 31);
        $m!($($x)* U32, U32, U2, U32, 32, 32, 2, 32);
        $m!($($x)* U32, U32, U2, U33, 32, 32, 2, 33);
        $m!($($x)* U32, U32, U16, U0, 32, 32, 16, 0);
        $m!($($x)* U32, U32, U16, U1, 32, 32, 16, 1);
        $m!($($x)* U32, U32, U16, U3, 32, 32, 16, 3);
        $m!($($x)* U32, U32, U16, U16, 32, 32, 16, 16);
        $m!($($x)* U32, U32, U16, U31, 32, 32, 16, 31);
        $m!($($x)* U32, U32, U16, U32, 32, 32, 16, 32);
        $m!($($x)* U32, U32, U16, U33, 32, 32, 16, 33);
        $m!($($x)* U32, U32, U31, U0, 32, 32, 31, 0);
        $m!($($x)* U32, U32, U31, U1, 32, 32, 31, 1);
        $m!($($x)* U32, U32, U31, U3, 32, 32, 31, 3);
        $m!($($x)* U32, U32, U31, U16, 32, 32, 31, 16);
        $m!($($x)* U32, U32, U31, U31, 32, 32, 31, 31);
        $m!($($x)* U32, U32, U31, U32, 32, 32, 31, 32);
        $m!($($x)* U32, U32, U31, U33, 32, 32, 31, 33);
        $m!($($x)* U32, U32, U32, U0, 32, 32, 32, 0);
        $m!($($x)* U32, U32, U32, U1, 32, 32, 32, 1);
        $m!($($x)* U32, U32, U32, U3, 32, 32, 32, 3);
        $m!($($x)* U32, U32, U32, U16, 32, 32, 32, 16);
        $m!($($x)* U32, U32, U32, U31, 32, 32, 32, 31);
        $m!($($x)* U32, U32, U32, U32, 32, 32, 32, 32);
        $m!($($x)* U32, U32, U32, U33, 32, 32, 32, 33);
        $m!($($x)* U32, U32, U33, U0, 32, 32, 33, 0);
        $m!($($x)* U32, U32, U33, U1, 32, 32, 33, 1);
        $m!($($x)* U32, U32, U33, U3, 32, 32, 33, 3);
        $m!($($x)* U32, U32, U33, U16, 32, 32, 33, 16);
        $m!($($x)* U32, U32, U33, U31, 32, 32, 33, 31);
        $m!($($x)* U32, U32, U33, U32, 32, 32, 33, 32);
        $m!($($x)* U32, U32, U33, U33, 32, 32, 33, 33);
        $m!($($x)* U0, U5, U0, U0, 0, 5, 0, 0);
        $m!($($x)* U0, U5, U0, U1, 0, 5, 0, 1);
        $m!($($x)* U0, U5, U0, U2, 0, 5, 0, 2);
        $m!($($x)* U0, U5, U0, U3, 0, 5, 0, 3);
        $m!($($x)* U0, U5, U0, U4, 0, 5, 0, 4);
        $m!($($x)* U0, U5, U0, U5, 0, 5, 0, 5);
        $m!($($x)* U0, U5, U0, U6, 0, 5, 0, 6);
        $m!($($x)* U0, U5, U1, U0, 0, 5, 1, 0);
        $m!($($x)* U0, U5, U1, U1, 0, 5, 1, 1);
        $m!($($x)* U0, U5, U1, U2, 0, 5, 1, 2);
        $m!($($x)* U0, U5, U1, U3, 0, 5, 1, 3);
        $m!($($x)* U0, U5, U1, U4, 0, 5, 1, 4);
        $m!($($x)* U0, U5, U1, U5, 0, 5, 1, 5);
        $m!($($x)* U0, U5, U1, U6, 0, 5, 1, 6);
        $m!($($x)* U0, U5, U2, U0, 0, 5, 2, 0);
        $m!($($x)* U0, U5, U2, U1, 0, 5, 2, 1);
        $m!($($x)* U0, U5, U2, U2, 0, 5, 2, 2);
        $m!($($x)* U0, U5, U2, U3, 0, 5, 2, 3);
        $m!($($x)* U0, U5, U2, U4, 0, 5, 2, 4);
        $m!($($x)* U0, U5, U2, U5, 0, 5, 2, 5);
        $m!($($x)* U0, U5, U2, U6, 0, 5, 2, 6);
        $m!($($x)* U5, U0, U0, U0, 5, 0, 0, 0);
        $m!($($x)* U5, U0, U0, U1, 5, 0, 0, 1);
        $m!($($x)* U5, U0, U0, U3, 5, 0, 0, 3);
        $m!($($x)* U5, U0, U1, U0, 5, 0, 1, 0);
        $m!($($x)* U5, U0, U1, U1, 5, 0, 1, 1);
        $m!($($x)* U5, U0, U1, U3, 5, 0, 1, 3);
        $m!($($x)* U5, U0, U2, U0, 5, 0, 2, 0);
        $m!($($x)* U5, U0, U2, U1, 5, 0, 2, 1);
        $m!($($x)* U5, U0, U2, U3, 5, 0, 2, 3);
        $m!($($x)* U5, U0, U4, U0, 5, 0, 4, 0);
        $m!($($x)* U5, U0, U4, U1, 5, 0, 4, 1);
        $m!($($x)* U5, U0, U4, U3, 5, 0, 4, 3);
        $m!($($x)* U5, U0, U5, U0, 5, 0, 5, 0);
        $m!($($x)* U5, U0, U5, U1, 5, 0, 5, 1);
        $m!($($x)* U5, U0, U5, U3, 5, 0, 5, 3);
        $m!($($x)* U5, U0, U6, U0, 5, 0, 6, 0);
        $m!($($x)* U5, U0, U6, U1, 5, 0, 6, 1);
        $m!($($x)* U5, U0, U6, U3, 5, 0, 6, 3);
        $m!($($x)* U9, U2, U0, U0, 9, 2, 0, 0);
        $m!($($x)* U9, U2, U0, U1, 9, 2, 0, 1);
        $m!($($x)* U9, U2, U0, U2, 9, 2, 0, 2);
        $m!($($x)* U9, U2, U0, U3, 9, 2, 0, 3);
        $m!($($x)* U9, U2, U1, U0, 9, 2, 1, 0);
        $m!($($x)* U9, U2, U1, U1, 9, 2, 1, 1);
        $m!($($x)* U9, U2, U1, U2, 9, 2, 1, 2);
        $m!($($x)* U9, U2, U1, U3, 9, 2, 1, 3);
        $m!($($x)* U9, U2, U2, U0, 9, 2, 2, 0);
        $m!($($x)* U9, U2, U2, U1, 9, 2, 2, 1);
        $m!($($x)* U9, U2, U2, U2, 9, 2, 2, 2);
        $m!($($x)* U9, U2, U2, U3, 9, 2, 2, 3);
        $m!($($x)* U9, U2, U4, U0, 9, 2, 4, 0);
        $m!($($x)* U9, U2, U4, U1, 9, 2, 4, 1);
        $m!($($x)* U9, U2, U4, U2, 9, 2, 4, 2);
        $m!($($x)* U9, U2, U4, U3, 9, 2, 4, 3);
        $m!($($x)* U9, U2, U8, U0, 9, 2, 8, 0);
        $m!($($x)* U9, U2, U8, U1, 9, 2, 8, 1);
        $m!($($x)* U9, U2, U8, U2, 9, 2, 8, 2);
        $m!($($x)* U9, U2, U8, U3, 9, 2, 8, 3);
        $m!($($x)* U9, U2, U9, U0, 9, 2, 9, 0);
        $m!($($x)* U9, U2, U9, U1, 9, 2, 9, 1);
        $m!($($x)* U9, U2, U9, U2, 9, 2, 9, 2);
        $m!($($x)* U9, U2, U9, U3, 9, 2, 9, 3);
        $m!($($x)* U9, U2, U10, U0, 9, 2, 10, 0);
        $m!($($x)* U9, U2, U10, U1, 9, 2, 10, 1);
        $m!($($x)* U9, U2, U10, U2, 9, 2, 10, 2);
        $m!($($x)* U9, U2, U10, U3, 9, 2, 10, 3);
    };
}
#[macro_export]
macro_rules! for_index2_in {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U1, U1, U0, U0, 1, 1, 0, 0);
        $m!($($x)* U1, U2, U0, U0, 1, 2, 0, 0);
        $m!($($x)* U1, U2, U0, U1, 1, 2, 0, 1);
        $m!($($x)* U1, U3, U0, U0, 1, 3, 0, 0);
        $m!($($x)* U1, U3, U0, U1, 1, 3, 0, 1);
        $m!($($x)* U1, U3, U0, U2, 1, 3, 0, 2);
        $m!($($x)* U2, U1, U0, U0, 2, 1, 0, 0);
        $m!($($x)* U2, U1, U1, U0, 2, 1, 1, 0);
        $m!($($x)* U2, U2, U0, U0, 2, 2, 0, 0);
        $m!($($x)* U2, U2, U0, U1, 2, 2, 0, 1);
        $m!($($x)* U2, U2, U1, U0, 2, 2, 1, 0);
        $m!($($x)* U2, U2, U1, U1, 2, 2, 1, 1);
        $m!($($x)* U2, U3, U0, U0, 2, 3, 0, 0);
        $m!($($x)* U2, U3, U0, U1, 2, 3, 0, 1);
        $m!($($x)* U2, U3, U0, U2, 2, 3, 0, 2);
        $m!($($x)* U2, U3, U1, U0, 2, 3, 1, 0);
        $m!($($x)* U2, U3, U1, U1, 2, 3, 1, 1);
        $m!($($x)* U2, U3, U1, U2, 2, 3, 1, 2);
        $m!($($x)* U3, U1, U0, U0, 3, 1, 0, 0);
        $m!($($x)* U3, U1, U1, U0, 3, 1, 1, 0);
        $m!($($x)* U3, U1, U2, U0, 3, 1, 2, 0);
        $m!($($x)* U3, U2, U0, U0, 3, 2, 0, 0);
        $m!($($x)* U3, U2, U0, U1, 3, 2, 0, 1);
        $m!($($x)* U3, U2, U1, U0, 3, 2, 1, 0);
        $m!($($x)* U3, U2, U1, U1, 3, 2, 1, 1);
        $m!($($x)* U3, U2, U2, U0, 3, 2, 2, 0);
        $m!($($x)* U3, U2, U2, U1, 3, 2, 2, 1);
        $m!($($x)* U3, U3, U0, U0, 3, 3, 0, 0);
        $m!($($x)* U3, U3, U0, U1, 3, 3, 0, 1);
        $m!($($x)* U3, U3, U0, U2, 3, 3, 0, 2);
        $m!($($x)* U3, U3, U1, U0, 3, 3, 1, 0);
        $m!($($x)* U3, U3, U1, U1, 3, 3, 1, 1);
        $m!($($x)* U3, U3, U1, U2, 3, 3, 1, 2);
        $m!($($x)* U3, U3, U2, U0, 3, 3, 2, 0);
        $m!($($x)* U3, U3, U2, U1, 3, 3, 2, 1);
        $m!($($x)* U3, U3, U2, U2, 3, 3, 2, 2);
        $m!($($x)* U4, U4, U0, U0, 4, 4, 0, 0);
        $m!($($x)* U4, U4, U0, U1, 4, 4, 0, 1);
        $m!($($x)* U4, U4, U0, U2, 4, 4, 0, 2);
        $m!($($x)* U4, U4, U0, U3, 4, 4, 0, 3);
        $m!($($x)* U4, U4, U1, U0, 4, 4, 1, 0);
        $m!($($x)* U4, U4, U1, U1, 4, 4, 1, 1);
        $m!($($x)* U4, U4, U1, U2, 4, 4, 1, 2);
        $m!($($x)* U4, U4, U1, U3, 4, 4, 1, 3);
        $m!($($x)* U4, U4, U2, U0, 4, 4, 2, 0);
        $m!($($x)* U4, U4, U2, U1, 4, 4, 2, 1);
        $m!($($x)* U4, U4, U2, U2, 4, 4, 2, 2);
        $m!($($x)* U4, U4, U2, U3, 4, 4, 2, 3);
        $m!($($x)* U4, U4, U3, U0, 4, 4, 3, 0);
        $m!($($x)* U4, U4, U3, U1, 4, 4, 3, 1);
        $m!($($x)* U4, U4, U3, U2, 4, 4, 3, 2);
        $m!($($x)* U4, U4, U3, U3, 4, 4, 3, 3);
        $m!($($x)* U5, U3, U0, U0, 5, 3, 0, 0);
        $m!($($x)* U5, U3, U0, U1, 5, 3, 0, 1);
        $m!($($x)* U5, U3, U0, U2, 5, 3, 0, 2);
        $m!($($x)* U5, U3, U1, U0, 5, 3, 1, 0);
        $m!($($x)* U5, U3, U1, U1, 5, 3, 1, 1);
        $m!($($x)* U5, U3, U1, U2, 5, 3, 1, 2);
        $m!($($x)* U5, U3, U2, U0, 5, 3, 2, 0);
        $m!($($x)* U5, U3, U2, U1, 5, 3, 2, 1);
        $m!($($x)* U5, U3, U2, U2, 5, 3, 2, 2);
        $m!($($x)* U5, U3, U4, U0, 5, 3, 4, 0);
        $m!($($x)* U5, U3, U4, U1, 5, 3, 4, 1);
        $m!($($x)* U5, U3, U4, U2, 5, 3, 4, 2);
        $m!($($x)* U3, U5, U0, U0, 3, 5, 0, 0);
        $m!($($x)* U3, U5, U0, U1, 3, 5, 0, 1);
        $m!($($x)* U3, U5, U0, U2, 3, 5, 0, 2);
        $m!($($x)* U3, U5, U0, U3, 3, 5, 0, 3);
        $m!($($x)* U3, U5, U0, U4, 3, 5, 0, 4);
        $m!($($x)* U3, U5, U1, U0, 3, 5, 1, 0);
        $m!($($x)* U3, U5, U1, U1, 3, 5, 1, 1);
        $m!($($x)* U3, U5, U1, U2, 3, 5, 1, 2);
        $m!($($x)* U3, U5, U1, U3, 3, 5, 1, 3);
        $m!($($x)* U3, U5, U1, U4, 3, 5, 1, 4);
        $m!($($x)* U3, U5, U2, U0, 3, 5, 2, 0);
        $m!($($x)* U3, U5, U2, U1, 3, 5, 2, 1);
        $m!($($x)* U3, U5, U2, U2, 3, 5, 2, 2);
        $m!($($x)* U3, U5, U2, U3, 3, 5, 2, 3);
        $m!($($x)* U3, U5, U2, U4, 3, 5, 2, 4);
        $m!($($x)* U8, U7, U0, U0, 8, 7, 0, 0);
        $m!($($x)* U8, U7, U0, U1, 8, 7, 0, 1);
        $m!($($x)* U8, U7, U0, U3, 8, 7, 0, 3);
        $m!($($x)* U8, U7, U0, U6, 8, 7, 0, 6);
        $m!($($x)* U8, U7, U1, U0, 8, 7, 1, 0);
        $m!($($x)* U8, U7, U1, U1, 8, 7, 1, 1);
        $m!($($x)* U8, U7, U1, U3, 8, 7, 1, 3);
        $m!($($x)* U8, U7, U1, U6, 8, 7, 1, 6);
        $m!($($x)* U8, U7, U2, U0, 8, 7, 2, 0);
        $m!($($x)* U8, U7, U2, U1, 8, 7, 2, 1);
        $m!($($x)* U8, U7, U2, U3, 8, 7, 2, 3);
        $m!($($x)* U8, U7, U2, U6, 8, 7, 2, 6);
        $m!($($x)* U8, U7, U4, U0, 8, 7, 4, 0);
        $m!($($x)* U8, U7, U4, U1, 8, 7, 4, 1);
        $m!($($x)* U8, U7, U4, U3, 8, 7, 4, 3);
        $m!($($x)* U8, U7, U4, U6, 8, 7, 4, 6);
        $m!($($x)* U8, U7, U7, U0, 8, 7, 7, 0);
        $m!($($x)* U8, U7, U7, U1, 8, 7, 7, 1);
        $m!($($x)* U8, U7, U7, U3, 8, 7, 7, 3);
        $m!($($x)* U8, U7, U7, U6, 8, 7, 7, 6);
        $m!($($x)* U1, U32, U0, U0, 1, 32, 0, 0);
        $m!($($x)* U1, U32, U0, U1, 1, 32, 0, 1);
        $m!($($x)* U1, U32, U0, U3, 1, 32, 0, 3);
        $m!($($x)* U1, U32, U0, U16, 1, 32, 0, 16);
        $m!($($x)* U1, U32, U0, U31, 1, 32, 0, 31);
        $m!($($x)* U32, U1, U0, U0, 32, 1, 0, 0);
        $m!($($x)* U32, U1, U1, U0, 32, 1, 1, 0);
        $m!($($x)* U32, U1, U2, U0, 32, 1, 2, 0);
        $m!($($x)* U32, U1, U16, U0, 32, 1, 16, 0);
        $m!($($x)* U32, U1, U31, U0, 32, 1, 31, 0);
        $m!($($x)* U16, U17, U0, U0, 16, 17, 0, 0);
        $m!($($x)* U16, U17, U0, U1, 16, 17, 0, 1);
        $m!($($x)* U16, U17, U0, U3, 16, 17, 0, 3);
        $m!($($x)* U16, U17, U0, U8, 16, 17, 0, 8);
        $m!($($x)* U16, U17, U0, U16, 16, 17, 0, 16);
        $m!($($x)* U16, U17, U1, U0, 16, 17, 1, 0);
        $m!($($x)* U16, U17, U1, U1, 16, 17, 1, 1);
        $m!($($x)* U16, U17, U1, U3, 16, 17, 1, 3);
        $m!($($x)* U16, U17, U1, U8, 16, 17, 1, 8);
        $m!($($x)* U16, U17, U1, U16, 16, 17, 1, 16);
        $m!($($x)* U16, U17, U2, U0, 16, 17, 2, 0);
        $m!($($x)* U16, U17, U2, U1, 16, 17, 2, 1);
        $m!($($x)* U16, U17, U2, U3, 16, 17, 2, 3);
        $m!($($x)* U16, U17, U2, U8, 16, 17, 2, 8);
        $m!($($x)* U16, U17, U2, U16, 16, 17, 2, 16);
        $m!($($x)* U16, U17, U8, U0, 16, 17, 8, 0);
        $m!($($x)* U16, U17, U8, U1, 16, 17, 8, 1);
        $m!($($x)* U16, U17, U8, U3, 16, 17, 8, 3);
        $m!($($x)* U16, U17, U8, U8, 16, 17, 8, 8);
        $m!($($x)* U16, U17, U8, U16, 16, 17, 8, 16);
        $m!($($x)* U16, U17, U15, U0, 16, 17, 15, 0);
        $m!($($x)* U16, U17, U15, U1, 16, 17, 15, 1);
        $m!($($x)* U16, U17, U15, U3, 16, 17, 15, 3);
        $m!($($x)* U16, U17, U15, U8, 16, 17, 15, 8);
        $m!($($x)* U16, U17, U15, U16, 16, 17, 15, 16);
        $m!($($x)* U32, U32, U0, U0, 32, 32, 0, 0);
        $m!($($x)* U32, U32, U0, U1, 32, 32, 0, 1);
        $m!($($x)* U32, U32, U0, U3, 32, 32, 0, 3);
        $m!($($x)* U32, U32, U0, U16, 32, 32, 0, 16);
        $m!($($x)* U32, U32, U0, U31, 32, 32, 0, 31);
        $m!($($x)* U32, U32, U1, U0, 32, 32, 1, 0);
        $m!($($x)* U32, U32, U1, U1, 32, 32, 1, 1);
        $m!($($x)* U32, U32, U1, U3, 32, 32, 1, 3);
        $m!($($x)* U32, U32, U1, U16, 32, 32, 1, 16);
        $m!($($x)* U32, U32, U1, U31, 32, 32, 1, 31);
        $m!($($x)* U32, U32, U2, U0, 32, 32, 2, 0);
        $m!($($x)* U32, U32, U2, U1, 32, 32, 2, 1);
        $m!($($x)* U32, U32, U2, U3, 32, 32, 2, 3);
        $m!($($x)* U32, U32, U2, U16, 32, 32, 2, 16);
        $m!($($x)* U32, U32, U2, U31, 32, 32, 2, 31);
        $m!($($x)* U32, U32, U16, U0, 32, 32, 16, 0);
        $m!($($x)* U32, U32, U16, U1, 32, 32, 16, 1);
        $m!($($x)* U32, U32, U16, U3, 32, 32, 16, 3);
        $m!($($x)* U32, U32, U16, U16, 32, 32, 16, 16);
        $m!($($x)* U32, U32, U16, U31, 32, 32, 16, 31);
        $m!($($x)* U32, U32, U31, U0, 32, 32, 31, 0);
        $m!($($x)* U32, U32, U31, U1, 32, 32, 31, 1);
        $m!($($x)* U32, U32, U31, U3, 32, 32, 31, 3);
        $m!($($x)* U32, U32, U31, U16, 32, 32, 31, 16);
        $m!($($x)* U32, U32, U31, U31, 32, 32, 31, 31);
        $m!($($x)* U9, U2, U0, U0, 9, 2, 0, 0);
        $m!($($x)* U9, U2, U0, U1, 9, 2, 0, 1);
        $m!($($x)* U9, U2, U1, U0, 9, 2, 1, 0);
        $m!($($x)* U9, U2, U1, U1, 9, 2, 1, 1);
        $m!($($x)* U9, U2, U2, U0, 9, 2, 2, 0);
        $m!($($x)* U9, U2, U2, U1, 9, 2, 2, 1);
        $m!($($x)* U9, U2, U4, U0, 9, 2, 4, 0);
        $m!($($x)* U9, U2, U4, U1, 9, 2, 4, 1);
        $m!($($x)* U9, U2, U8, U0, 9, 2, 8, 0);
        $m!($($x)* U9, U2, U8, U1, 9, 2, 8, 1);
    };
}
