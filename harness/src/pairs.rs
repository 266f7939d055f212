//! Generated by gen_probes.py.
macro_rules! for_vpairs {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, 0, 0);
        $m!($($x)* U0, U1, 0, 1);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U0, U3, 0, 3);
        $m!($($x)* U0, U4, 0, 4);
        $m!($($x)* U0, U5, 0, 5);
        $m!($($x)* U0, U6, 0, 6);
        $m!($($x)* U0, U7, 0, 7);
        $m!($($x)* U0, U8, 0, 8);
        $m!($($x)* U0, U9, 0, 9);
        $m!($($x)* U0, U10, 0, 10);
        $m!($($x)* U0, U11, 0, 11);
        $m!($($x)* U0, U12, 0, 12);
        $m!($($x)* U0, U13, 0, 13);
        $m!($($x)* U0, U14, 0, 14);
        $m!($($x)* U0, U15, 0, 15);
        $m!($($x)* U0, U16, 0, 16);
        $m!($($x)* U0, U17, 0, 17);
        $m!($($x)* U0, U18, 0, 18);
        $m!($($x)* U0, U19, 0, 19);
        $m!($($x)* U0, U20, 0, 20);
        $m!($($x)* U0, U21, 0, 21);
        $m!($($x)* U0, U22, 0, 22);
        $m!($($x)* U0, U23, 0, 23);
        $m!($($x)* U0, U24, 0, 24);
        $m!($($x)* U0, U25, 0, 25);
        $m!($($x)* U0, U26, 0, 26);
        $m!($($x)* U0, U27, 0, 27);
        $m!($($x)* U0, U28, 0, 28);
        $m!($($x)* U0, U29, 0, 29);
        $m!($($x)* U0, U30, 0, 30);
        $m!($($x)* U0, U31, 0, 31);
        $m!($($x)* U0, U32, 0, 32);
        $m!($($x)* U1, U0, 1, 0);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U1, U2, 1, 2);
        $m!($($x)* U1, U3, 1, 3);
        $m!($($x)* U1, U4, 1, 4);
        $m!($($x)* U1, U5, 1, 5);
        $m!($($x)* U1, U6, 1, 6);
        $m!($($x)* U1, U7, 1, 7);
        $m!($($x)* U1, U8, 1, 8);
        $m!($($x)* U1, U9, 1, 9);
        $m!($($x)* U1, U10, 1, 10);
        $m!($($x)* U1, U11, 1, 11);
        $m!($($x)* U1, U12, 1, 12);
        $m!($($x)* U1, U13, 1, 13);
        $m!($($x)* U1, U14, 1, 14);
        $m!($($x)* U1, U15, 1, 15);
        $m!($($x)* U1, U16, 1, 16);
        $m!($($x)* U1, U17, 1, 17);
        $m!($($x)* U1, U18, 1, 18);
        $m!($($x)* U1, U19, 1, 19);
        $m!($($x)* U1, U20, 1, 20);
        $m!($($x)* U1, U21, 1, 21);
        $m!($($x)* U1, U22, 1, 22);
        $m!($($x)* U1, U23, 1, 23);
        $m!($($x)* U1, U24, 1, 24);
        $m!($($x)* U1, U25, 1, 25);
        $m!($($x)* U1, U26, 1, 26);
        $m!($($x)* U1, U27, 1, 27);
        $m!($($x)* U1, U28, 1, 28);
        $m!($($x)* U1, U29, 1, 29);
        $m!($($x)* U1, U30, 1, 30);
        $m!($($x)* U1, U31, 1, 31);
        $m!($($x)* U1, U32, 1, 32);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U2, U1, 2, 1);
        $m!($($x)* U2, U2, 2, 2);
        $m!($($x)* U2, U3, 2, 3);
        $m!($($x)* U2, U4, 2, 4);
        $m!($($x)* U2, U10, 2, 10);
        $m!($($x)* U2, U18, 2, 18);
        $m!($($x)* U2, U26, 2, 26);
        $m!($($x)* U2, U32, 2, 32);
        $m!($($x)* U3, U0, 3, 0);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U3, U4, 3, 4);
        $m!($($x)* U3, U5, 3, 5);
        $m!($($x)* U3, U6, 3, 6);
        $m!($($x)* U3, U11, 3, 11);
        $m!($($x)* U3, U19, 3, 19);
        $m!($($x)* U3, U27, 3, 27);
        $m!($($x)* U3, U32, 3, 32);
        $m!($($x)* U4, U0, 4, 0);
        $m!($($x)* U4, U1, 4, 1);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U4, U3, 4, 3);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U4, U5, 4, 5);
        $m!($($x)* U4, U6, 4, 6);
        $m!($($x)* U4, U8, 4, 8);
        $m!($($x)* U4, U12, 4, 12);
        $m!($($x)* U4, U20, 4, 20);
        $m!($($x)* U4, U28, 4, 28);
        $m!($($x)* U4, U32, 4, 32);
        $m!($($x)* U5, U0, 5, 0);
        $m!($($x)* U5, U1, 5, 1);
        $m!($($x)* U5, U3, 5, 3);
        $m!($($x)* U5, U4, 5, 4);
        $m!($($x)* U5, U5, 5, 5);
        $m!($($x)* U5, U6, 5, 6);
        $m!($($x)* U5, U7, 5, 7);
        $m!($($x)* U5, U10, 5, 10);
        $m!($($x)* U5, U13, 5, 13);
        $m!($($x)* U5, U21, 5, 21);
        $m!($($x)* U5, U29, 5, 29);
        $m!($($x)* U5, U32, 5, 32);
        $m!($($x)* U6, U0, 6, 0);
        $m!($($x)* U6, U1, 6, 1);
        $m!($($x)* U6, U3, 6, 3);
        $m!($($x)* U6, U4, 6, 4);
        $m!($($x)* U6, U5, 6, 5);
        $m!($($x)* U6, U6, 6, 6);
        $m!($($x)* U6, U7, 6, 7);
        $m!($($x)* U6, U8, 6, 8);
        $m!($($x)* U6, U12, 6, 12);
        $m!($($x)* U6, U14, 6, 14);
        $m!($($x)* U6, U22, 6, 22);
        $m!($($x)* U6, U30, 6, 30);
        $m!($($x)* U6, U32, 6, 32);
        $m!($($x)* U7, U0, 7, 0);
        $m!($($x)* U7, U1, 7, 1);
        $m!($($x)* U7, U5, 7, 5);
        $m!($($x)* U7, U6, 7, 6);
        $m!($($x)* U7, U7, 7, 7);
        $m!($($x)* U7, U8, 7, 8);
        $m!($($x)* U7, U9, 7, 9);
        $m!($($x)* U7, U14, 7, 14);
        $m!($($x)* U7, U15, 7, 15);
        $m!($($x)* U7, U23, 7, 23);
        $m!($($x)* U7, U31, 7, 31);
        $m!($($x)* U7, U32, 7, 32);
        $m!($($x)* U8, U0, 8, 0);
        $m!($($x)* U8, U1, 8, 1);
        $m!($($x)* U8, U4, 8, 4);
        $m!($($x)* U8, U6, 8, 6);
        $m!($($x)* U8, U7, 8, 7);
        $m!($($x)* U8, U8, 8, 8);
        $m!($($x)* U8, U9, 8, 9);
        $m!($($x)* U8, U10, 8, 10);
        $m!($($x)* U8, U16, 8, 16);
        $m!($($x)* U8, U24, 8, 24);
        $m!($($x)* U8, U32, 8, 32);
        $m!($($x)* U9, U0, 9, 0);
        $m!($($x)* U9, U1, 9, 1);
        $m!($($x)* U9, U7, 9, 7);
        $m!($($x)* U9, U8, 9, 8);
        $m!($($x)* U9, U9, 9, 9);
        $m!($($x)* U9, U10, 9, 10);
        $m!($($x)* U9, U11, 9, 11);
        $m!($($x)* U9, U17, 9, 17);
        $m!($($x)* U9, U18, 9, 18);
        $m!($($x)* U9, U25, 9, 25);
        $m!($($x)* U9, U32, 9, 32);
        $m!($($x)* U10, U0, 10, 0);
        $m!($($x)* U10, U1, 10, 1);
        $m!($($x)* U10, U2, 10, 2);
        $m!($($x)* U10, U5, 10, 5);
        $m!($($x)* U10, U8, 10, 8);
        $m!($($x)* U10, U9, 10, 9);
        $m!($($x)* U10, U10, 10, 10);
        $m!($($x)* U10, U11, 10, 11);
        $m!($($x)* U10, U12, 10, 12);
        $m!($($x)* U10, U18, 10, 18);
        $m!($($x)* U10, U20, 10, 20);
        $m!($($x)* U10, U26, 10, 26);
        $m!($($x)* U10, U32, 10, 32);
        $m!($($x)* U11, U0, 11, 0);
        $m!($($x)* U11, U1, 11, 1);
        $m!($($x)* U11, U3, 11, 3);
        $m!($($x)* U11, U9, 11, 9);
        $m!($($x)* U11, U10, 11, 10);
        $m!($($x)* U11, U11, 11, 11);
        $m!($($x)* U11, U12, 11, 12);
        $m!($($x)* U11, U13, 11, 13);
        $m!($($x)* U11, U19, 11, 19);
        $m!($($x)* U11, U22, 11, 22);
        $m!($($x)* U11, U27, 11, 27);
        $m!($($x)* U11, U32, 11, 32);
        $m!($($x)* U12, U0, 12, 0);
        $m!($($x)* U12, U1, 12, 1);
        $m!($($x)* U12, U4, 12, 4);
        $m!($($x)* U12, U6, 12, 6);
        $m!($($x)* U12, U10, 12, 10);
        $m!($($x)* U12, U11, 12, 11);
        $m!($($x)* U12, U12, 12, 12);
        $m!($($x)* U12, U13, 12, 13);
        $m!($($x)* U12, U14, 12, 14);
        $m!($($x)* U12, U20, 12, 20);
        $m!($($x)* U12, U24, 12, 24);
        $m!($($x)* U12, U28, 12, 28);
        $m!($($x)* U12, U32, 12, 32);
        $m!($($x)* U13, U0, 13, 0);
        $m!($($x)* U13, U1, 13, 1);
        $m!($($x)* U13, U5, 13, 5);
        $m!($($x)* U13, U11, 13, 11);
        $m!($($x)* U13, U12, 13, 12);
        $m!($($x)* U13, U13, 13, 13);
        $m!($($x)* U13, U14, 13, 14);
        $m!($($x)* U13, U15, 13, 15);
        $m!($($x)* U13, U21, 13, 21);
        $m!($($x)* U13, U26, 13, 26);
        $m!($($x)* U13, U29, 13, 29);
        $m!($($x)* U13, U32, 13, 32);
        $m!($($x)* U14, U0, 14, 0);
        $m!($($x)* U14, U1, 14, 1);
        $m!($($x)* U14, U6, 14, 6);
        $m!($($x)* U14, U7, 14, 7);
        $m!($($x)* U14, U12, 14, 12);
        $m!($($x)* U14, U13, 14, 13);
        $m!($($x)* U14, U14, 14, 14);
        $m!($($x)* U14, U15, 14, 15);
        $m!($($x)* U14, U16, 14, 16);
        $m!($($x)* U14, U22, 14, 22);
        $m!($($x)* U14, U28, 14, 28);
        $m!($($x)* U14, U30, 14, 30);
        $m!($($x)* U14, U32, 14, 32);
        $m!($($x)* U15, U0, 15, 0);
        $m!($($x)* U15, U1, 15, 1);
        $m!($($x)* U15, U7, 15, 7);
        $m!($($x)* U15, U13, 15, 13);
        $m!($($x)* U15, U14, 15, 14);
        $m!($($x)* U15, U15, 15, 15);
        $m!($($x)* U15, U16, 15, 16);
        $m!($($x)* U15, U17, 15, 17);
        $m!($($x)* U15, U23, 15, 23);
        $m!($($x)* U15, U30, 15, 30);
        $m!($($x)* U15, U31, 15, 31);
        $m!($($x)* U15, U32, 15, 32);
        $m!($($x)* U16, U0, 16, 0);
        $m!($($x)* U16, U1, 16, 1);
        $m!($($x)* U16, U8, 16, 8);
        $m!($($x)* U16, U14, 16, 14);
        $m!($($x)* U16, U15, 16, 15);
        $m!($($x)* U16, U16, 16, 16);
        $m!($($x)* U16, U17, 16, 17);
        $m!($($x)* U16, U18, 16, 18);
        $m!($($x)* U16, U24, 16, 24);
        $m!($($x)* U16, U32, 16, 32);
        $m!($($x)* U17, U0, 17, 0);
        $m!($($x)* U17, U1, 17, 1);
        $m!($($x)* U17, U9, 17, 9);
        $m!($($x)* U17, U15, 17, 15);
        $m!($($x)* U17, U16, 17, 16);
        $m!($($x)* U17, U17, 17, 17);
        $m!($($x)* U17, U18, 17, 18);
        $m!($($x)* U17, U19, 17, 19);
        $m!($($x)* U17, U25, 17, 25);
        $m!($($x)* U17, U32, 17, 32);
        $m!($($x)* U18, U0, 18, 0);
        $m!($($x)* U18, U1, 18, 1);
        $m!($($x)* U18, U2, 18, 2);
        $m!($($x)* U18, U9, 18, 9);
        $m!($($x)* U18, U10, 18, 10);
        $m!($($x)* U18, U16, 18, 16);
        $m!($($x)* U18, U17, 18, 17);
        $m!($($x)* U18, U18, 18, 18);
        $m!($($x)* U18, U19, 18, 19);
        $m!($($x)* U18, U20, 18, 20);
        $m!($($x)* U18, U26, 18, 26);
        $m!($($x)* U18, U32, 18, 32);
        $m!($($x)* U19, U0, 19, 0);
        $m!($($x)* U19, U1, 19, 1);
        $m!($($x)* U19, U3, 19, 3);
        $m!($($x)* U19, U11, 19, 11);
        $m!($($x)* U19, U17, 19, 17);
        $m!($($x)* U19, U18, 19, 18);
        $m!($($x)* U19, U19, 19, 19);
        $m!($($x)* U19, U20, 19, 20);
        $m!($($x)* U19, U21, 19, 21);
        $m!($($x)* U19, U27, 19, 27);
        $m!($($x)* U19, U32, 19, 32);
        $m!($($x)* U20, U0, 20, 0);
        $m!($($x)* U20, U1, 20, 1);
        $m!($($x)* U20, U4, 20, 4);
        $m!($($x)* U20, U10, 20, 10);
        $m!($($x)* U20, U12, 20, 12);
        $m!($($x)* U20, U18, 20, 18);
        $m!($($x)* U20, U19, 20, 19);
        $m!($($x)* U20, U20, 20, 20);
        $m!($($x)* U20, U21, 20, 21);
        $m!($($x)* U20, U22, 20, 22);
        $m!($($x)* U20, U28, 20, 28);
        $m!($($x)* U20, U32, 20, 32);
        $m!($($x)* U21, U0, 21, 0);
        $m!($($x)* U21, U1, 21, 1);
        $m!($($x)* U21, U5, 21, 5);
        $m!($($x)* U21, U13, 21, 13);
        $m!($($x)* U21, U19, 21, 19);
        $m!($($x)* U21, U20, 21, 20);
        $m!($($x)* U21, U21, 21, 21);
        $m!($($x)* U21, U22, 21, 22);
        $m!($($x)* U21, U23, 21, 23);
        $m!($($x)* U21, U29, 21, 29);
        $m!($($x)* U21, U32, 21, 32);
        $m!($($x)* U22, U0, 22, 0);
        $m!($($x)* U22, U1, 22, 1);
        $m!($($x)* U22, U6, 22, 6);
        $m!($($x)* U22, U11, 22, 11);
        $m!($($x)* U22, U14, 22, 14);
        $m!($($x)* U22, U20, 22, 20);
        $m!($($x)* U22, U21, 22, 21);
        $m!($($x)* U22, U22, 22, 22);
        $m!($($x)* U22, U23, 22, 23);
        $m!($($x)* U22, U24, 22, 24);
        $m!($($x)* U22, U30, 22, 30);
        $m!($($x)* U22, U32, 22, 32);
        $m!($($x)* U23, U0, 23, 0);
        $m!($($x)* U23, U1, 23, 1);
        $m!($($x)* U23, U7, 23, 7);
        $m!($($x)* U23, U15, 23, 15);
        $m!($($x)* U23, U21, 23, 21);
        $m!($($x)* U23, U22, 23, 22);
        $m!($($x)* U23, U23, 23, 23);
        $m!($($x)* U23, U24, 23, 24);
        $m!($($x)* U23, U25, 23, 25);
        $m!($($x)* U23, U31, 23, 31);
        $m!($($x)* U23, U32, 23, 32);
        $m!($($x)* U24, U0, 24, 0);
        $m!($($x)* U24, U1, 24, 1);
        $m!($($x)* U24, U8, 24, 8);
        $m!($($x)* U24, U12, 24, 12);
        $m!($($x)* U24, U16, 24, 16);
        $m!($($x)* U24, U22, 24, 22);
        $m!($($x)* U24, U23, 24, 23);
        $m!($($x)* U24, U24, 24, 24);
        $m!($($x)* U24, U25, 24, 25);
        $m!($($x)* U24, U26, 24, 26);
        $m!($($x)* U24, U32, 24, 32);
        $m!($($x)* U25, U0, 25, 0);
        $m!($($x)* U25, U1, 25, 1);
        $m!($($x)* U25, U9, 25, 9);
        $m!($($x)* U25, U17, 25, 17);
        $m!($($x)* U25, U23, 25, 23);
        $m!($($x)* U25, U24, 25, 24);
        $m!($($x)* U25, U25, 25, 25);
        $m!($($x)* U25, U26, 25, 26);
        $m!($($x)* U25, U27, 25, 27);
        $m!($($x)* U25, U32, 25, 32);
        $m!($($x)* U26, U0, 26, 0);
        $m!($($x)* U26, U1, 26, 1);
        $m!($($x)* U26, U2, 26, 2);
        $m!($($x)* U26, U10, 26, 10);
        $m!($($x)* U26, U13, 26, 13);
        $m!($($x)* U26, U18, 26, 18);
        $m!($($x)* U26, U24, 26, 24);
        $m!($($x)* U26, U25, 26, 25);
        $m!($($x)* U26, U26, 26, 26);
        $m!($($x)* U26, U27, 26, 27);
        $m!($($x)* U26, U28, 26, 28);
        $m!($($x)* U26, U32, 26, 32);
        $m!($($x)* U27, U0, 27, 0);
        $m!($($x)* U27, U1, 27, 1);
        $m!($($x)* U27, U3, 27, 3);
        $m!($($x)* U27, U11, 27, 11);
        $m!($($x)* U27, U19, 27, 19);
        $m!($($x)* U27, U25, 27, 25);
        $m!($($x)* U27, U26, 27, 26);
        $m!($($x)* U27, U27, 27, 27);
        $m!($($x)* U27, U28, 27, 28);
        $m!($($x)* U27, U29, 27, 29);
        $m!($($x)* U27, U32, 27, 32);
        $m!($($x)* U28, U0, 28, 0);
        $m!($($x)* U28, U1, 28, 1);
        $m!($($x)* U28, U4, 28, 4);
        $m!($($x)* U28, U12, 28, 12);
        $m!($($x)* U28, U14, 28, 14);
        $m!($($x)* U28, U20, 28, 20);
        $m!($($x)* U28, U26, 28, 26);
        $m!($($x)* U28, U27, 28, 27);
        $m!($($x)* U28, U28, 28, 28);
        $m!($($x)* U28, U29, 28, 29);
        $m!($($x)* U28, U30, 28, 30);
        $m!($($x)* U28, U32, 28, 32);
        $m!($($x)* U29, U0, 29, 0);
        $m!($($x)* U29, U1, 29, 1);
        $m!($($x)* U29, U5, 29, 5);
        $m!($($x)* U29, U13, 29, 13);
        $m!($($x)* U29, U21, 29, 21);
        $m!($($x)* U29, U27, 29, 27);
        $m!($($x)* U29, U28, 29, 28);
        $m!($($x)* U29, U29, 29, 29);
        $m!($($x)* U29, U30, 29, 30);
        $m!($($x)* U29, U31, 29, 31);
        $m!($($x)* U29, U32, 29, 32);
        $m!($($x)* U30, U0, 30, 0);
        $m!($($x)* U30, U1, 30, 1);
        $m!($($x)* U30, U6, 30, 6);
        $m!($($x)* U30, U14, 30, 14);
        $m!($($x)* U30, U15, 30, 15);
        $m!($($x)* U30, U22, 30, 22);
        $m!($($x)* U30, U28, 30, 28);
        $m!($($x)* U30, U29, 30, 29);
        $m!($($x)* U30, U30, 30, 30);
        $m!($($x)* U30, U31, 30, 31);
        $m!($($x)* U30, U32, 30, 32);
        $m!($($x)* U31, U0, 31, 0);
        $m!($($x)* U31, U1, 31, 1);
        $m!($($x)* U31, U7, 31, 7);
        $m!($($x)* U31, U15, 31, 15);
        $m!($($x)* U31, U23, 31, 23);
        $m!($($x)* U31, U29, 31, 29);
        $m!($($x)* U31, U30, 31, 30);
        $m!($($x)* U31, U31, 31, 31);
        $m!($($x)* U31, U32, 31, 32);
        $m!($($x)* U32, U0, 32, 0);
        $m!($($x)* U32, U1, 32, 1);
        $m!($($x)* U32, U2, 32, 2);
        $m!($($x)* U32, U3, 32, 3);
        $m!($($x)* U32, U4, 32, 4);
        $m!($($x)* U32, U5, 32, 5);
        $m!($($x)* U32, U6, 32, 6);
        $m!($($x)* U32, U7, 32, 7);
        $m!($($x)* U32, U8, 32, 8);
        $m!($($x)* U32, U9, 32, 9);
        $m!($($x)* U32, U10, 32, 10);
        $m!($($x)* U32, U11, 32, 11);
        $m!($($x)* U32, U12, 32, 12);
        $m!($($x)* U32, U13, 32, 13);
        $m!($($x)* U32, U14, 32, 14);
        $m!($($x)* U32, U15, 32, 15);
        $m!($($x)* U32, U16, 32, 16);
        $m!($($x)* U32, U17, 32, 17);
        $m!($($x)* U32, U18, 32, 18);
        $m!($($x)* U32, U19, 32, 19);
        $m!($($x)* U32, U20, 32, 20);
        $m!($($x)* U32, U21, 32, 21);
        $m!($($x)* U32, U22, 32, 22);
        $m!($($x)* U32, U23, 32, 23);
        $m!($($x)* U32, U24, 32, 24);
        $m!($($x)* U32, U25, 32, 25);
        $m!($($x)* U32, U26, 32, 26);
        $m!($($x)* U32, U27, 32, 27);
        $m!($($x)* U32, U28, 32, 28);
        $m!($($x)* U32, U29, 32, 29);
        $m!($($x)* U32, U30, 32, 30);
        $m!($($x)* U32, U31, 32, 31);
        $m!($($x)* U32, U32, 32, 32);
    };
}
macro_rules! for_mpairs {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, U0, U0, 0, 0, 0, 0);
        $m!($($x)* U0, U0, U0, U1, 0, 0, 0, 1);
        $m!($($x)* U0, U0, U0, U2, 0, 0, 0, 2);
        $m!($($x)* U0, U0, U0, U3, 0, 0, 0, 3);
        $m!($($x)* U0, U0, U0, U4, 0, 0, 0, 4);
        $m!($($x)* U0, U0, U1, U0, 0, 0, 1, 0);
        $m!($($x)* U0, U0, U1, U1, 0, 0, 1, 1);
        $m!($($x)* U0, U0, U1, U2, 0, 0, 1, 2);
        $m!($($x)* U0, U0, U1, U3, 0, 0, 1, 3);
        $m!($($x)* U0, U0, U1, U4, 0, 0, 1, 4);
        $m!($($x)* U0, U0, U2, U0, 0, 0, 2, 0);
        $m!($($x)* U0, U0, U2, U1, 0, 0, 2, 1);
        $m!($($x)* U0, U0, U2, U2, 0, 0, 2, 2);
        $m!($($x)* U0, U0, U2, U3, 0, 0, 2, 3);
        $m!($($x)* U0, U0, U2, U4, 0, 0, 2, 4);
        $m!($($x)* U0, U0, U3, U0, 0, 0, 3, 0);
        $m!($($x)* U0, U0, U3, U1, 0, 0, 3, 1);
        $m!($($x)* U0, U0, U3, U2, 0, 0, 3, 2);
        $m!($($x)* U0, U0, U3, U3, 0, 0, 3, 3);
        $m!($($x)* U0, U0, U3, U4, 0, 0, 3, 4);
        $m!($($x)* U0, U0, U4, U0, 0, 0, 4, 0);
        $m!($($x)* U0, U0, U4, U1, 0, 0, 4, 1);
        $m!($($x)* U0, U0, U4, U2, 0, 0, 4, 2);
        $m!($($x)* U0, U0, U4, U3, 0, 0, 4, 3);
        $m!($($x)* U0, U0, U4, U4, 0, 0, 4, 4);
        $m!($($x)* U0, U1, U0, U0, 0, 1, 0, 0);
        $m!($($x)* U0, U1, U0, U1, 0, 1, 0, 1);
        $m!($($x)* U0, U1, U0, U2, 0, 1, 0, 2);
        $m!($($x)* U0, U1, U0, U3, 0, 1, 0, 3);
        $m!($($x)* U0, U1, U0, U4, 0, 1, 0, 4);
        $m!($($x)* U0, U1, U1, U0, 0, 1, 1, 0);
        $m!($($x)* U0, U1, U1, U1, 0, 1, 1, 1);
        $m!($($x)* U0, U1, U1, U2, 0, 1, 1, 2);
        $m!($($x)* U0, U1, U1, U3, 0, 1, 1, 3);
        $m!($($x)* U0, U1, U1, U4, 0, 1, 1, 4);
        $m!($($x)* U0, U1, U2, U0, 0, 1, 2, 0);
        $m!($($x)* U0, U1, U2, U1, 0, 1, 2, 1);
        $m!($($x)* U0, U1, U2, U2, 0, 1, 2, 2);
        $m!($($x)* U0, U1, U2, U3, 0, 1, 2, 3);
        $m!($($x)* U0, U1, U2, U4, 0, 1, 2, 4);
        $m!($($x)* U0, U1, U3, U0, 0, 1, 3, 0);
        $m!($($x)* U0, U1, U3, U1, 0, 1, 3, 1);
        $m!($($x)* U0, U1, U3, U2, 0, 1, 3, 2);
        $m!($($x)* U0, U1, U3, U3, 0, 1, 3, 3);
        $m!($($x)* U0, U1, U3, U4, 0, 1, 3, 4);
        $m!($($x)* U0, U1, U4, U0, 0, 1, 4, 0);
        $m!($($x)* U0, U1, U4, U1, 0, 1, 4, 1);
        $m!($($x)* U0, U1, U4, U2, 0, 1, 4, 2);
        $m!($($x)* U0, U1, U4, U3, 0, 1, 4, 3);
        $m!($($x)* U0, U1, U4, U4, 0, 1, 4, 4);
        $m!($($x)* U0, U2, U0, U0, 0, 2, 0, 0);
        $m!($($x)* U0, U2, U0, U1, 0, 2, 0, 1);
        $m!($($x)* U0, U2, U0, U2, 0, 2, 0, 2);
        $m!($($x)* U0, U2, U0, U3, 0, 2, 0, 3);
        $m!($($x)* U0, U2, U0, U4, 0, 2, 0, 4);
        $m!($($x)* U0, U2, U1, U0, 0, 2, 1, 0);
        $m!($($x)* U0, U2, U1, U1, 0, 2, 1, 1);
        $m!($($x)* U0, U2, U1, U2, 0, 2, 1, 2);
        $m!($($x)* U0, U2, U1, U3, 0, 2, 1, 3);
        $m!($($x)* U0, U2, U1, U4, 0, 2, 1, 4);
        $m!($($x)* U0, U2, U2, U0, 0, 2, 2, 0);
        $m!($($x)* U0, U2, U2, U1, 0, 2, 2, 1);
        $m!($($x)* U0, U2, U2, U2, 0, 2, 2, 2);
        $m!($($x)* U0, U2, U2, U3, 0, 2, 2, 3);
        $m!($($x)* U0, U2, U2, U4, 0, 2, 2, 4);
        $m!($($x)* U0, U2, U3, U0, 0, 2, 3, 0);
        $m!($($x)* U0, U2, U3, U1, 0, 2, 3, 1);
        $m!($($x)* U0, U2, U3, U2, 0, 2, 3, 2);
        $m!($($x)* U0, U2, U3, U3, 0, 2, 3, 3);
        $m!($($x)* U0, U2, U3, U4, 0, 2, 3, 4);
        $m!($($x)* U0, U2, U4, U0, 0, 2, 4, 0);
        $m!($($x)* U0, U2, U4, U1, 0, 2, 4, 1);
        $m!($($x)* U0, U2, U4, U2, 0, 2, 4, 2);
        $m!($($x)* U0, U2, U4, U3, 0, 2, 4, 3);
        $m!($($x)* U0, U2, U4, U4, 0, 2, 4, 4);
        $m!($($x)* U0, U3, U0, U0, 0, 3, 0, 0);
        $m!($($x)* U0, U3, U0, U1, 0, 3, 0, 1);
        $m!($($x)* U0, U3, U0, U2, 0, 3, 0, 2);
        $m!($($x)* U0, U3, U0, U3, 0, 3, 0, 3);
        $m!($($x)* U0, U3, U0, U4, 0, 3, 0, 4);
        $m!($($x)* U0, U3, U1, U0, 0, 3, 1, 0);
        $m!($($x)* U0, U3, U1, U1, 0, 3, 1, 1);
        $m!($($x)* U0, U3, U1, U2, 0, 3, 1, 2);
        $m!($($x)* U0, U3, U1, U3, 0, 3, 1, 3);
        $m!($($x)* U0, U3, U1, U4, 0, 3, 1, 4);
        $m!($($x)* U0, U3, U2, U0, 0, 3, 2, 0);
        $m!($($x)* U0, U3, U2, U1, 0, 3, 2, 1);
        $m!($($x)* U0, U3, U2, U2, 0, 3, 2, 2);
        $m!($($x)* U0, U3, U2, U3, 0, 3, 2, 3);
        $m!($($x)* U0, U3, U2, U4, 0, 3, 2, 4);
        $m!($($x)* U0, U3, U3, U0, 0, 3, 3, 0);
        $m!($($x)* U0, U3, U3, U1, 0, 3, 3, 1);
        $m!($($x)* U0, U3, U3, U2, 0, 3, 3, 2);
        $m!($($x)* U0, U3, U3, U3, 0, 3, 3, 3);
        $m!($($x)* U0, U3, U3, U4, 0, 3, 3, 4);
        $m!($($x)* U0, U3, U4, U0, 0, 3, 4, 0);
        $m!($($x)* U0, U3, U4, U1, 0, 3, 4, 1);
        $m!($($x)* U0, U3, U4, U2, 0, 3, 4, 2);
        $m!($($x)* U0, U3, U4, U3, 0, 3, 4, 3);
        $m!($($x)* U0, U3, U4, U4, 0, 3, 4, 4);
        $m!($($x)* U0, U4, U0, U0, 0, 4, 0, 0);
        $m!($($x)* U0, U4, U0, U1, 0, 4, 0, 1);
        $m!($($x)* U0, U4, U0, U2, 0, 4, 0, 2);
        $m!($($x)* U0, U4, U0, U3, 0, 4, 0, 3);
        $m!($($x)* U0, U4, U0, U4, 0, 4, 0, 4);
        $m!($($x)* U0, U4, U1, U0, 0, 4, 1, 0);
        $m!($($x)* U0, U4, U1, U1, 0, 4, 1, 1);
        $m!($($x)* U0, U4, U1, U2, 0, 4, 1, 2);
        $m!($($x)* U0, U4, U1, U3, 0, 4, 1, 3);
        $m!($($x)* U0, U4, U1, U4, 0, 4, 1, 4);
        $m!($($x)* U0, U4, U2, U0, 0, 4, 2, 0);
        $m!($($x)* U0, U4, U2, U1, 0, 4, 2, 1);
        $m!($($x)* U0, U4, U2, U2, 0, 4, 2, 2);
        $m!($($x)* U0, U4, U2, U3, 0, 4, 2, 3);
        $m!($($x)* U0, U4, U2, U4, 0, 4, 2, 4);
        $m!($($x)* U0, U4, U3, U0, 0, 4, 3, 0);
        $m!($($x)* U0, U4, U3, U1, 0, 4, 3, 1);
        $m!($($x)* U0, U4, U3, U2, 0, 4, 3, 2);
        $m!($($x)* U0, U4, U3, U3, 0, 4, 3, 3);
        $m!($($x)* U0, U4, U3, U4, 0, 4, 3, 4);
        $m!($($x)* U0, U4, U4, U0, 0, 4, 4, 0);
        $m!($($x)* U0, U4, U4, U1, 0, 4, 4, 1);
        $m!($($x)* U0, U4, U4, U2, 0, 4, 4, 2);
        $m!($($x)* U0, U4, U4, U3, 0, 4, 4, 3);
        $m!($($x)* U0, U4, U4, U4, 0, 4, 4, 4);
        $m!($($x)* U1, U0, U0, U0, 1, 0, 0, 0);
        $m!($($x)* U1, U0, U0, U1, 1, 0, 0, 1);
        $m!($($x)* U1, U0, U0, U2, 1, 0, 0, 2);
        $m!($($x)* U1, U0, U0, U3, 1, 0, 0, 3);
        $m!($($x)* U1, U0, U0, U4, 1, 0, 0, 4);
        $m!($($x)* U1, U0, U1, U0, 1, 0, 1, 0);
        $m!($($x)* U1, U0, U1, U1, 1, 0, 1, 1);
        $m!($($x)* U1, U0, U1, U2, 1, 0, 1, 2);
        $m!($($x)* U1, U0, U1, U3, 1, 0, 1, 3);
        $m!($($x)* U1, U0, U1, U4, 1, 0, 1, 4);
        $m!($($x)* U1, U0, U2, U0, 1, 0, 2, 0);
        $m!($($x)* U1, U0, U2, U1, 1, 0, 2, 1);
        $m!($($x)* U1, U0, U2, U2, 1, 0, 2, 2);
        $m!($($x)* U1, U0, U2, U3, 1, 0, 2, 3);
        $m!($($x)* U1, U0, U2, U4, 1, 0, 2, 4);
        $m!($($x)* U1, U0, U3, U0, 1, 0, 3, 0);
        $m!($($x)* U1, U0, U3, U1, 1, 0, 3, 1);
        $m!($($x)* U1, U0, U3, U2, 1, 0, 3, 2);
        $m!($($x)* U1, U0, U3, U3, 1, 0, 3, 3);
        $m!($($x)* U1, U0, U3, U4, 1, 0, 3, 4);
        $m!($($x)* U1, U0, U4, U0, 1, 0, 4, 0);
        $m!($($x)* U1, U0, U4, U1, 1, 0, 4, 1);
        $m!($($x)* U1, U0, U4, U2, 1, 0, 4, 2);
        $m!($($x)* U1, U0, U4, U3, 1, 0, 4, 3);
        $m!($($x)* U1, U0, U4, U4, 1, 0, 4, 4);
        $m!($($x)* U1, U1, U0, U0, 1, 1, 0, 0);
        $m!($($x)* U1, U1, U0, U1, 1, 1, 0, 1);
        $m!($($x)* U1, U1, U0, U2, 1, 1, 0, 2);
        $m!($($x)* U1, U1, U0, U3, 1, 1, 0, 3);
        $m!($($x)* U1, U1, U0, U4, 1, 1, 0, 4);
        $m!($($x)* U1, U1, U1, U0, 1, 1, 1, 0);
        $m!($($x)* U1, U1, U1, U1, 1, 1, 1, 1);
        $m!($($x)* U1, U1, U1, U2, 1, 1, 1, 2);
        $m!($($x)* U1, U1, U1, U3, 1, 1, 1, 3);
        $m!($($x)* U1, U1, U1, U4, 1, 1, 1, 4);
        $m!($($x)* U1, U1, U2, U0, 1, 1, 2, 0);
        $m!($($x)* U1, U1, U2, U1, 1, 1, 2, 1);
        $m!($($x)* U1, U1, U2, U2, 1, 1, 2, 2);
        $m!($($x)* U1, U1, U2, U3, 1, 1, 2, 3);
        $m!($($x)* U1, U1, U2, U4, 1, 1, 2, 4);
        $m!($($x)* U1, U1, U3, U0, 1, 1, 3, 0);
        $m!($($x)* U1, U1, U3, U1, 1, 1, 3, 1);
        $m!($($x)* U1, U1, U3, U2, 1, 1, 3, 2);
        $m!($($x)* U1, U1, U3, U3, 1, 1, 3, 3);
        $m!($($x)* U1, U1, U3, U4, 1, 1, 3, 4);
        $m!($($x)* U1, U1, U4, U0, 1, 1, 4, 0);
        $m!($($x)* U1, U1, U4, U1, 1, 1, 4, 1);
        $m!($($x)* U1, U1, U4, U2, 1, 1, 4, 2);
        $m!($($x)* U1, U1, U4, U3, 1, 1, 4, 3);
        $m!($($x)* U1, U1, U4, U4, 1, 1, 4, 4);
        $m!($($x)* U1, U2, U0, U0, 1, 2, 0, 0);
        $m!($($x)* U1, U2, U0, U1, 1, 2, 0, 1);
        $m!($($x)* U1, U2, U0, U2, 1, 2, 0, 2);
        $m!($($x)* U1, U2, U0, U3, 1, 2, 0, 3);
        $m!($($x)* U1, U2, U0, U4, 1, 2, 0, 4);
        $m!($($x)* U1, U2, U1, U0, 1, 2, 1, 0);
        $m!($($x)* U1, U2, U1, U1, 1, 2, 1, 1);
        $m!($($x)* U1, U2, U1, U2, 1, 2, 1, 2);
        $m!($($x)* U1, U2, U1, U3, 1, 2, 1, 3);
        $m!($($x)* U1, U2, U1, U4, 1, 2, 1, 4);
        $m!($($x)* U1, U2, U2, U0, 1, 2, 2, 0);
        $m!($($x)* U1, U2, U2, U1, 1, 2, 2, 1);
        $m!($($x)* U1, U2, U2, U2, 1, 2, 2, 2);
        $m!($($x)* U1, U2, U2, U3, 1, 2, 2, 3);
        $m!($($x)* U1, U2, U2, U4, 1, 2, 2, 4);
        $m!($($x)* U1, U2, U3, U0, 1, 2, 3, 0);
        $m!($($x)* U1, U2, U3, U1, 1, 2, 3, 1);
        $m!($($x)* U1, U2, U3, U2, 1, 2, 3, 2);
        $m!($($x)* U1, U2, U3, U3, 1, 2, 3, 3);
        $m!($($x)* U1, U2, U3, U4, 1, 2, 3, 4);
        $m!($($x)* U1, U2, U4, U0, 1, 2, 4, 0);
        $m!($($x)* U1, U2, U4, U1, 1, 2, 4, 1);
        $m!($($x)* U1, U2, U4, U2, 1, 2, 4, 2);
        $m!($($x)* U1, U2, U4, U3, 1, 2, 4, 3);
        $m!($($x)* U1, U2, U4, U4, 1, 2, 4, 4);
        $m!($($x)* U1, U3, U0, U0, 1, 3, 0, 0);
        $m!($($x)* U1, U3, U0, U1, 1, 3, 0, 1);
        $m!($($x)* U1, U3, U0, U2, 1, 3, 0, 2);
        $m!($($x)* U1, U3, U0, U3, 1, 3, 0, 3);
        $m!($($x)* U1, U3, U0, U4, 1, 3, 0, 4);
        $m!($($x)* U1, U3, U1, U0, 1, 3, 1, 0);
        $m!($($x)* U1, U3, U1, U1, 1, 3, 1, 1);
        $m!($($x)* U1, U3, U1, U2, 1, 3, 1, 2);
        $m!($($x)* U1, U3, U1, U3, 1, 3, 1, 3);
        $m!($($x)* U1, U3, U1, U4, 1, 3, 1, 4);
        $m!($($x)* U1, U3, U2, U0, 1, 3, 2, 0);
        $m!($($x)* U1, U3, U2, U1, 1, 3, 2, 1);
        $m!($($x)* U1, U3, U2, U2, 1, 3, 2, 2);
        $m!($($x)* U1, U3, U2, U3, 1, 3, 2, 3);
        $m!($($x)* U1, U3, U2, U4, 1, 3, 2, 4);
        $m!($($x)* U1, U3, U3, U0, 1, 3, 3, 0);
        $m!($($x)* U1, U3, U3, U1, 1, 3, 3, 1);
        $m!($($x)* U1, U3, U3, U2, 1, 3, 3, 2);
        $m!($($x)* U1, U3, U3, U3, 1, 3, 3, 3);
        $m!($($x)* U1, U3, U3, U4, 1, 3, 3, 4);
        $m!($($x)* U1, U3, U4, U0, 1, 3, 4, 0);
        $m!($($x)* U1, U3, U4, U1, 1, 3, 4, 1);
        $m!($($x)* U1, U3, U4, U2, 1, 3, 4, 2);
        $m!($($x)* U1, U3, U4, U3, 1, 3, 4, 3);
        $m!($($x)* U1, U3, U4, U4, 1, 3, 4, 4);
        $m!($($x)* U1, U4, U0, U0, 1, 4, 0, 0);
        $m!($($x)* U1, U4, U0, U1, 1, 4, 0, 1);
        $m!($($x)* U1, U4, U0, U2, 1, 4, 0, 2);
        $m!($($x)* U1, U4, U0, U3, 1, 4, 0, 3);
        $m!($($x)* U1, U4, U0, U4, 1, 4, 0, 4);
        $m!($($x)* U1, U4, U1, U0, 1, 4, 1, 0);
        $m!($($x)* U1, U4, U1, U1, 1, 4, 1, 1);
        $m!($($x)* U1, U4, U1, U2, 1, 4, 1, 2);
        $m!($($x)* U1, U4, U1, U3, 1, 4, 1, 3);
        $m!($($x)* U1, U4, U1, U4, 1, 4, 1, 4);
        $m!($($x)* U1, U4, U2, U0, 1, 4, 2, 0);
        $m!($($x)* U1, U4, U2, U1, 1, 4, 2, 1);
        $m!($($x)* U1, U4, U2, U2, 1, 4, 2, 2);
        $m!($($x)* U1, U4, U2, U3, 1, 4, 2, 3);
        $m!($($x)* U1, U4, U2, U4, 1, 4, 2, 4);
        $m!($($x)* U1, U4, U3, U0, 1, 4, 3, 0);
        $m!($($x)* U1, U4, U3, U1, 1, 4, 3, 1);
        $m!($($x)* U1, U4, U3, U2, 1, 4, 3, 2);
        $m!($($x)* U1, U4, U3, U3, 1, 4, 3, 3);
        $m!($($x)* U1, U4, U3, U4, 1, 4, 3, 4);
        $m!($($x)* U1, U4, U4, U0, 1, 4, 4, 0);
        $m!($($x)* U1, U4, U4, U1, 1, 4, 4, 1);
        $m!($($x)* U1, U4, U4, U2, 1, 4, 4, 2);
        $m!($($x)* U1, U4, U4, U3, 1, 4, 4, 3);
        $m!($($x)* U1, U4, U4, U4, 1, 4, 4, 4);
        $m!($($x)* U2, U0, U0, U0, 2, 0, 0, 0);
        $m!($($x)* U2, U0, U0, U1, 2, 0, 0, 1);
        $m!($($x)* U2, U0, U0, U2, 2, 0, 0, 2);
        $m!($($x)* U2, U0, U0, U3, 2, 0, 0, 3);
        $m!($($x)* U2, U0, U0, U4, 2, 0, 0, 4);
        $m!($($x)* U2, U0, U1, U0, 2, 0, 1, 0);
        $m!($($x)* U2, U0, U1, U1, 2, 0, 1, 1);
        $m!($($x)* U2, U0, U1, U2, 2, 0, 1, 2);
        $m!($($x)* U2, U0, U1, U3, 2, 0, 1, 3);
        $m!($($x)* U2, U0, U1, U4, 2, 0, 1, 4);
        $m!($($x)* U2, U0, U2, U0, 2, 0, 2, 0);
        $m!($($x)* U2, U0, U2, U1, 2, 0, 2, 1);
        $m!($($x)* U2, U0, U2, U2, 2, 0, 2, 2);
        $m!($($x)* U2, U0, U2, U3, 2, 0, 2, 3);
        $m!($($x)* U2, U0, U2, U4, 2, 0, 2, 4);
        $m!($($x)* U2, U0, U3, U0, 2, 0, 3, 0);
        $m!($($x)* U2, U0, U3, U1, 2, 0, 3, 1);
        $m!($($x)* U2, U0, U3, U2, 2, 0, 3, 2);
        $m!($($x)* U2, U0, U3, U3, 2, 0, 3, 3);
        $m!($($x)* U2, U0, U3, U4, 2, 0, 3, 4);
        $m!($($x)* U2, U0, U4, U0, 2, 0, 4, 0);
        $m!($($x)* U2, U0, U4, U1, 2, 0, 4, 1);
        $m!($($x)* U2, U0, U4, U2, 2, 0, 4, 2);
        $m!($($x)* U2, U0, U4, U3, 2, 0, 4, 3);
        $m!($($x)* U2, U0, U4, U4, 2, 0, 4, 4);
        $m!($($x)* U2, U1, U0, U0, 2, 1, 0, 0);
        $m!($($x)* U2, U1, U0, U1, 2, 1, 0, 1);
        $m!($($x)* U2, U1, U0, U2, 2, 1, 0, 2);
        $m!($($x)* U2, U1, U0, U3, 2, 1, 0, 3);
        $m!($($x)* U2, U1, U0, U4, 2, 1, 0, 4);
        $m!($($x)* U2, U1, U1, U0, 2, 1, 1, 0);
        $m!($($x)* U2, U1, U1, U1, 2, 1, 1, 1);
        $m!($($x)* U2, U1, U1, U2, 2, 1, 1, 2);
        $m!($($x)* U2, U1, U1, U3, 2, 1, 1, 3);
        $m!($($x)* U2, U1, U1, U4, 2, 1, 1, 4);
        $m!($($x)* U2, U1, U2, U0, 2, 1, 2, 0);
        $m!($($x)* U2, U1, U2, U1, 2, 1, 2, 1);
        $m!($($x)* U2, U1, U2, U2, 2, 1, 2, 2);
        $m!($($x)* U2, U1, U2, U3, 2, 1, 2, 3);
        $m!($($x)* U2, U1, U2, U4, 2, 1, 2, 4);
        $m!($($x)* U2, U1, U3, U0, 2, 1, 3, 0);
        $m!($($x)* U2, U1, U3, U1, 2, 1, 3, 1);
        $m!($($x)* U2, U1, U3, U2, 2, 1, 3, 2);
        $m!($($x)* U2, U1, U3, U3, 2, 1, 3, 3);
        $m!($($x)* U2, U1, U3, U4, 2, 1, 3, 4);
        $m!($($x)* U2, U1, U4, U0, 2, 1, 4, 0);
        $m!($($x)* U2, U1, U4, U1, 2, 1, 4, 1);
        $m!($($x)* U2, U1, U4, U2, 2, 1, 4, 2);
        $m!($($x)* U2, U1, U4, U3, 2, 1, 4, 3);
        $m!($($x)* U2, U1, U4, U4, 2, 1, 4, 4);
        $m!($($x)* U2, U2, U0, U0, 2, 2, 0, 0);
        $m!($($x)* U2, U2, U0, U1, 2, 2, 0, 1);
        $m!($($x)* U2, U2, U0, U2, 2, 2, 0, 2);
        $m!($($x)* U2, U2, U0, U3, 2, 2, 0, 3);
        $m!($($x)* U2, U2, U0, U4, 2, 2, 0, 4);
        $m!($($x)* U2, U2, U1, U0, 2, 2, 1, 0);
        $m!($($x)* U2, U2, U1, U1, 2, 2, 1, 1);
        $m!($($x)* U2, U2, U1, U2, 2, 2, 1, 2);
        $m!($($x)* U2, U2, U1, U3, 2, 2, 1, 3);
        $m!($($x)* U2, U2, U1, U4, 2, 2, 1, 4);
        $m!($($x)* U2, U2, U2, U0, 2, 2, 2, 0);
        $m!($($x)* U2, U2, U2, U1, 2, 2, 2, 1);
        $m!($($x)* U2, U2, U2, U2, 2, 2, 2, 2);
        $m!($($x)* U2, U2, U2, U3, 2, 2, 2, 3);
        $m!($($x)* U2, U2, U2, U4, 2, 2, 2, 4);
        $m!($($x)* U2, U2, U3, U0, 2, 2, 3, 0);
        $m!($($x)* U2, U2, U3, U1, 2, 2, 3, 1);
        $m!($($x)* U2, U2, U3, U2, 2, 2, 3, 2);
        $m!($($x)* U2, U2, U3, U3, 2, 2, 3, 3);
        $m!($($x)* U2, U2, U3, U4, 2, 2, 3, 4);
        $m!($($x)* U2, U2, U4, U0, 2, 2, 4, 0);
        $m!($($x)* U2, U2, U4, U1, 2, 2, 4, 1);
        $m!($($x)* U2, U2, U4, U2, 2, 2, 4, 2);
        $m!($($x)* U2, U2, U4, U3, 2, 2, 4, 3);
        $m!($($x)* U2, U2, U4, U4, 2, 2, 4, 4);
        $m!($($x)* U2, U3, U0, U0, 2, 3, 0, 0);
        $m!($($x)* U2, U3, U0, U1, 2, 3, 0, 1);
        $m!($($x)* U2, U3, U0, U2, 2, 3, 0, 2);
        $m!($($x)* U2, U3, U0, U3, 2, 3, 0, 3);
        $m!($($x)* U2, U3, U0, U4, 2, 3, 0, 4);
        $m!($($x)* U2, U3, U1, U0, 2, 3, 1, 0);
        $m!($($x)* U2, U3, U1, U1, 2, 3, 1, 1);
        $m!($($x)* U2, U3, U1, U2, 2, 3, 1, 2);
        $m!($($x)* U2, U3, U1, U3, 2, 3, 1, 3);
        $m!($($x)* U2, U3, U1, U4, 2, 3, 1, 4);
        $m!($($x)* U2, U3, U2, U0, 2, 3, 2, 0);
        $m!($($x)* U2, U3, U2, U1, 2, 3, 2, 1);
        $m!($($x)* U2, U3, U2, U2, 2, 3, 2, 2);
        $m!($($x)* U2, U3, U2, U3, 2, 3, 2, 3);
        $m!($($x)* U2, U3, U2, U4, 2, 3, 2, 4);
        $m!($($x)* U2, U3, U3, U0, 2, 3, 3, 0);
        $m!($($x)* U2, U3, U3, U1, 2, 3, 3, 1);
        $m!($($x)* U2, U3, U3, U2, 2, 3, 3, 2);
        $m!($($x)* U2, U3, U3, U3, 2, 3, 3, 3);
        $m!($($x)* U2, U3, U3, U4, 2, 3, 3, 4);
        $m!($($x)* U2, U3, U4, U0, 2, 3, 4, 0);
        $m!($($x)* U2, U3, U4, U1, 2, 3, 4, 1);
        $m!($($x)* U2, U3, U4, U2, 2, 3, 4, 2);
        $m!($($x)* U2, U3, U4, U3, 2, 3, 4, 3);
        $m!($($x)* U2, U3, U4, U4, 2, 3, 4, 4);
        $m!($($x)* U2, U4, U0, U0, 2, 4, 0, 0);
        $m!($($x)* U2, U4, U0, U1, 2, 4, 0, 1);
        $m!($($x)* U2, U4, U0, U2, 2, 4, 0, 2);
        $m!($($x)* U2, U4, U0, U3, 2, 4, 0, 3);
        $m!($($x)* U2, U4, U0, U4, 2, 4, 0, 4);
        $m!($($x)* U2, U4, U1, U0, 2, 4, 1, 0);
        $m!($($x)* U2, U4, U1, U1, 2, 4, 1, 1);
        $m!($($x)* U2, U4, U1, U2, 2, 4, 1, 2);
        $m!($($x)* U2, U4, U1, U3, 2, 4, 1, 3);
        $m!($($x)* U2, U4, U1, U4, 2, 4, 1, 4);
        $m!($($x)* U2, U4, U2, U0, 2, 4, 2, 0);
        $m!($($x)* U2, U4, U2, U1, 2, 4, 2, 1);
        $m!($($x)* U2, U4, U2, U2, 2, 4, 2, 2);
        $m!($($x)* U2, U4, U2, U3, 2, 4, 2, 3);
        $m!($($x)* U2, U4, U2, U4, 2, 4, 2, 4);
        $m!($($x)* U2, U4, U3, U0, 2, 4, 3, 0);
        $m!($($x)* U2, U4, U3, U1, 2, 4, 3, 1);
        $m!($($x)* U2, U4, U3, U2, 2, 4, 3, 2);
        $m!($($x)* U2, U4, U3, U3, 2, 4, 3, 3);
        $m!($($x)* U2, U4, U3, U4, 2, 4, 3, 4);
        $m!($($x)* U2, U4, U4, U0, 2, 4, 4, 0);
        $m!($($x)* U2, U4, U4, U1, 2, 4, 4, 1);
        $m!($($x)* U2, U4, U4, U2, 2, 4, 4, 2);
        $m!($($x)* U2, U4, U4, U3, 2, 4, 4, 3);
        $m!($($x)* U2, U4, U4, U4, 2, 4, 4, 4);
        $m!($($x)* U3, U0, U0, U0, 3, 0, 0, 0);
        $m!($($x)* U3, U0, U0, U1, 3, 0, 0, 1);
        $m!($($x)* U3, U0, U0, U2, 3, 0, 0, 2);
        $m!($($x)* U3, U0, U0, U3, 3, 0, 0, 3);
        $m!($($x)* U3, U0, U0, U4, 3, 0, 0, 4);
        $m!($($x)* U3, U0, U1, U0, 3, 0, 1, 0);
        $m!($($x)* U3, U0, U1, U1, 3, 0, 1, 1);
        $m!($($x)* U3, U0, U1, U2, 3, 0, 1, 2);
        $m!($($x)* U3, U0, U1, U3, 3, 0, 1, 3);
        $m!($($x)* U3, U0, U1, U4, 3, 0, 1, 4);
        $m!($($x)* U3, U0, U2, U0, 3, 0, 2, 0);
        $m!($($x)* U3, U0, U2, U1, 3, 0, 2, 1);
        $m!($($x)* U3, U0, U2, U2, 3, 0, 2, 2);
        $m!($($x)* U3, U0, U2, U3, 3, 0, 2, 3);
        $m!($($x)* U3, U0, U2, U4, 3, 0, 2, 4);
        $m!($($x)* U3, U0, U3, U0, 3, 0, 3, 0);
        $m!($($x)* U3, U0, U3, U1, 3, 0, 3, 1);
        $m!($($x)* U3, U0, U3, U2, 3, 0, 3, 2);
        $m!($($x)* U3, U0, U3, U3, 3, 0, 3, 3);
        $m!($($x)* U3, U0, U3, U4, 3, 0, 3, 4);
        $m!($($x)* U3, U0, U4, U0, 3, 0, 4, 0);
        $m!($($x)* U3, U0, U4, U1, 3, 0, 4, 1);
        $m!($($x)* U3, U0, U4, U2, 3, 0, 4, 2);
        $m!($($x)* U3, U0, U4, U3, 3, 0, 4, 3);
        $m!($($x)* U3, U0, U4, U4, 3, 0, 4, 4);
        $m!($($x)* U3, U1, U0, U0, 3, 1, 0, 0);
        $m!($($x)* U3, U1, U0, U1, 3, 1, 0, 1);
        $m!($($x)* U3, U1, U0, U2, 3, 1, 0, 2);
        $m!($($x)* U3, U1, U0, U3, 3, 1, 0, 3);
        $m!($($x)* U3, U1, U0, U4, 3, 1, 0, 4);
        $m!($($x)* U3, U1, U1, U0, 3, 1, 1, 0);
        $m!($($x)* U3, U1, U1, U1, 3, 1, 1, 1);
        $m!($($x)* U3, U1, U1, U2, 3, 1, 1, 2);
        $m!($($x)* U3, U1, U1, U3, 3, 1, 1, 3);
        $m!($($x)* U3, U1, U1, U4, 3, 1, 1, 4);
        $m!($($x)* U3, U1, U2, U0, 3, 1, 2, 0);
        $m!($($x)* U3, U1, U2, U1, 3, 1, 2, 1);
        $m!($($x)* U3, U1, U2, U2, 3, 1, 2, 2);
        $m!($($x)* U3, U1, U2, U3, 3, 1, 2, 3);
        $m!($($x)* U3, U1, U2, U4, 3, 1, 2, 4);
        $m!($($x)* U3, U1, U3, U0, 3, 1, 3, 0);
        $m!($($x)* U3, U1, U3, U1, 3, 1, 3, 1);
        $m!($($x)* U3, U1, U3, U2, 3, 1, 3, 2);
        $m!($($x)* U3, U1, U3, U3, 3, 1, 3, 3);
        $m!($($x)* U3, U1, U3, U4, 3, 1, 3, 4);
        $m!($($x)* U3, U1, U4, U0, 3, 1, 4, 0);
        $m!($($x)* U3, U1, U4, U1, 3, 1, 4, 1);
        $m!($($x)* U3, U1, U4, U2, 3, 1, 4, 2);
        $m!($($x)* U3, U1, U4, U3, 3, 1, 4, 3);
        $m!($($x)* U3, U1, U4, U4, 3, 1, 4, 4);
        $m!($($x)* U3, U2, U0, U0, 3, 2, 0, 0);
        $m!($($x)* U3, U2, U0, U1, 3, 2, 0, 1);
        $m!($($x)* U3, U2, U0, U2, 3, 2, 0, 2);
        $m!($($x)* U3, U2, U0, U3, 3, 2, 0, 3);
        $m!($($x)* U3, U2, U0, U4, 3, 2, 0, 4);
        $m!($($x)* U3, U2, U1, U0, 3, 2, 1, 0);
        $m!($($x)* U3, U2, U1, U1, 3, 2, 1, 1);
        $m!($($x)* U3, U2, U1, U2, 3, 2, 1, 2);
        $m!($($x)* U3, U2, U1, U3, 3, 2, 1, 3);
        $m!($($x)* U3, U2, U1, U4, 3, 2, 1, 4);
        $m!($($x)* U3, U2, U2, U0, 3, 2, 2, 0);
        $m!($($x)* U3, U2, U2, U1, 3, 2, 2, 1);
        $m!($($x)* U3, U2, U2, U2, 3, 2, 2, 2);
        $m!($($x)* U3, U2, U2, U3, 3, 2, 2, 3);
        $m!($($x)* U3, U2, U2, U4, 3, 2, 2, 4);
        $m!($($x)* U3, U2, U3, U0, 3, 2, 3, 0);
        $m!($($x)* U3, U2, U3, U1, 3, 2, 3, 1);
        $m!($($x)* U3, U2, U3, U2, 3, 2, 3, 2);
        $m!($($x)* U3, U2, U3, U3, 3, 2, 3, 3);
        $m!($($x)* U3, U2, U3, U4, 3, 2, 3, 4);
        $m!($($x)* U3, U2, U4, U0, 3, 2, 4, 0);
        $m!($($x)* U3, U2, U4, U1, 3, 2, 4, 1);
        $m!($($x)* U3, U2, U4, U2, 3, 2, 4, 2);
        $m!($($x)* U3, U2, U4, U3, 3, 2, 4, 3);
        $m!($($x)* U3, U2, U4, U4, 3, 2, 4, 4);
        $m!($($x)* U3, U3, U0, U0, 3, 3, 0, 0);
        $m!($($x)* U3, U3, U0, U1, 3, 3, 0, 1);
        $m!($($x)* U3, U3, U0, U2, 3, 3, 0, 2);
        $m!($($x)* U3, U3, U0, U3, 3, 3, 0, 3);
        $m!($($x)* U3, U3, U0, U4, 3, 3, 0, 4);
        $m!($($x)* U3, U3, U1, U0, 3, 3, 1, 0);
        $m!($($x)* U3, U3, U1, U1, 3, 3, 1, 1);
        $m!($($x)* U3, U3, U1, U2, 3, 3, 1, 2);
        $m!($($x)* U3, U3, U1, U3, 3, 3, 1, 3);
        $m!($($x)* U3, U3, U1, U4, 3, 3, 1, 4);
        $m!($($x)* U3, U3, U2, U0, 3, 3, 2, 0);
        $m!($($x)* U3, U3, U2, U1, 3, 3, 2, 1);
        $m!($($x)* U3, U3, U2, U2, 3, 3, 2, 2);
        $m!($($x)* U3, U3, U2, U3, 3, 3, 2, 3);
        $m!($($x)* U3, U3, U2, U4, 3, 3, 2, 4);
        $m!($($x)* U3, U3, U3, U0, 3, 3, 3, 0);
        $m!($($x)* U3, U3, U3, U1, 3, 3, 3, 1);
        $m!($($x)* U3, U3, U3, U2, 3, 3, 3, 2);
        $m!($($x)* U3, U3, U3, U3, 3, 3, 3, 3);
        $m!($($x)* U3, U3, U3, U4, 3, 3, 3, 4);
        $m!($($x)* U3, U3, U4, U0, 3, 3, 4, 0);
        $m!($($x)* U3, U3, U4, U1, 3, 3, 4, 1);
        $m!($($x)* U3, U3, U4, U2, 3, 3, 4, 2);
        $m!($($x)* U3, U3, U4, U3, 3, 3, 4, 3);
        $m!($($x)* U3, U3, U4, U4, 3, 3, 4, 4);
        $m!($($x)* U3, U4, U0, U0, 3, 4, 0, 0);
        $m!($($x)* U3, U4, U0, U1, 3, 4, 0, 1);
        $m!($($x)* U3, U4, U0, U2, 3, 4, 0, 2);
        $m!($($x)* U3, U4, U0, U3, 3, 4, 0, 3);
        $m!($($x)* U3, U4, U0, U4, 3, 4, 0, 4);
        $m!($($x)* U3, U4, U1, U0, 3, 4, 1, 0);
        $m!($($x)* U3, U4, U1, U1, 3, 4, 1, 1);
        $m!($($x)* U3, U4, U1, U2, 3, 4, 1, 2);
        $m!($($x)* U3, U4, U1, U3, 3, 4, 1, 3);
        $m!($($x)* U3, U4, U1, U4, 3, 4, 1, 4);
        $m!($($x)* U3, U4, U2, U0, 3, 4, 2, 0);
        $m!($($x)* U3, U4, U2, U1, 3, 4, 2, 1);
        $m!($($x)* U3, U4, U2, U2, 3, 4, 2, 2);
        $m!($($x)* U3, U4, U2, U3, 3, 4, 2, 3);
        $m!($($x)* U3, U4, U2, U4, 3, 4, 2, 4);
        $m!($($x)* U3, U4, U3, U0, 3, 4, 3, 0);
        $m!($($x)* U3, U4, U3, U1, 3, 4, 3, 1);
        $m!($($x)* U3, U4, U3, U2, 3, 4, 3, 2);
        $m!($($x)* U3, U4, U3, U3, 3, 4, 3, 3);
        $m!($($x)* U3, U4, U3, U4, 3, 4, 3, 4);
        $m!($($x)* U3, U4, U4, U0, 3, 4, 4, 0);
        $m!($($x)* U3, U4, U4, U1, 3, 4, 4, 1);
        $m!($($x)* U3, U4, U4, U2, 3, 4, 4, 2);
        $m!($($x)* U3, U4, U4, U3, 3, 4, 4, 3);
        $m!($($x)* U3, U4, U4, U4, 3, 4, 4, 4);
        $m!($($x)* U4, U0, U0, U0, 4, 0, 0, 0);
        $m!($($x)* U4, U0, U0, U1, 4, 0, 0, 1);
        $m!($($x)* U4, U0, U0, U2, 4, 0, 0, 2);
        $m!($($x)* U4, U0, U0, U3, 4, 0, 0, 3);
        $m!($($x)* U4, U0, U0, U4, 4, 0, 0, 4);
        $m!($($x)* U4, U0, U1, U0, 4, 0, 1, 0);
        $m!($($x)* U4, U0, U1, U1, 4, 0, 1, 1);
        $m!($($x)* U4, U0, U1, U2, 4, 0, 1, 2);
        $m!($($x)* U4, U0, U1, U3, 4, 0, 1, 3);
        $m!($($x)* U4, U0, U1, U4, 4, 0, 1, 4);
        $m!($($x)* U4, U0, U2, U0, 4, 0, 2, 0);
        $m!($($x)* U4, U0, U2, U1, 4, 0, 2, 1);
        $m!($($x)* U4, U0, U2, U2, 4, 0, 2, 2);
        $m!($($x)* U4, U0, U2, U3, 4, 0, 2, 3);
        $m!($($x)* U4, U0, U2, U4, 4, 0, 2, 4);
        $m!($($x)* U4, U0, U3, U0, 4, 0, 3, 0);
        $m!($($x)* U4, U0, U3, U1, 4, 0, 3, 1);
        $m!($($x)* U4, U0, U3, U2, 4, 0, 3, 2);
        $m!($($x)* U4, U0, U3, U3, 4, 0, 3, 3);
        $m!($($x)* U4, U0, U3, U4, 4, 0, 3, 4);
        $m!($($x)* U4, U0, U4, U0, 4, 0, 4, 0);
        $m!($($x)* U4, U0, U4, U1, 4, 0, 4, 1);
        $m!($($x)* U4, U0, U4, U2, 4, 0, 4, 2);
        $m!($($x)* U4, U0, U4, U3, 4, 0, 4, 3);
        $m!($($x)* U4, U0, U4, U4, 4, 0, 4, 4);
        $m!($($x)* U4, U1, U0, U0, 4, 1, 0, 0);
        $m!($($x)* U4, U1, U0, U1, 4, 1, 0, 1);
        $m!($($x)* U4, U1, U0, U2, 4, 1, 0, 2);
        $m!($($x)* U4, U1, U0, U3, 4, 1, 0, 3);
        $m!($($x)* U4, U1, U0, U4, 4, 1, 0, 4);
        $m!($($x)* U4, U1, U1, U0, 4, 1, 1, 0);
        $m!($($x)* U4, U1, U1, U1, 4, 1, 1, 1);
        $m!($($x)* U4, U1, U1, U2, 4, 1, 1, 2);
        $m!($($x)* U4, U1, U1, U3, 4, 1, 1, 3);
        $m!($($x)* U4, U1, U1, U4, 4, 1, 1, 4);
        $m!($($x)* U4, U1, U2, U0, 4, 1, 2, 0);
        $m!($($x)* U4, U1, U2, U1, 4, 1, 2, 1);
        $m!($($x)* U4, U1, U2, U2, 4, 1, 2, 2);
        $m!($($x)* U4, U1, U2, U3, 4, 1, 2, 3);
        $m!($($x)* U4, U1, U2, U4, 4, 1, 2, 4);
        $m!($($x)* U4, U1, U3, U0, 4, 1, 3, 0);
        $m!($($x)* U4, U1, U3, U1, 4, 1, 3, 1);
        $m!($($x)* U4, U1, U3, U2, 4, 1, 3, 2);
        $m!($($x)* U4, U1, U3, U3, 4, 1, 3, 3);
        $m!($($x)* U4, U1, U3, U4, 4, 1, 3, 4);
        $m!($($x)* U4, U1, U4, U0, 4, 1, 4, 0);
        $m!($($x)* U4, U1, U4, U1, 4, 1, 4, 1);
        $m!($($x)* U4, U1, U4, U2, 4, 1, 4, 2);
        $m!($($x)* U4, U1, U4, U3, 4, 1, 4, 3);
        $m!($($x)* U4, U1, U4, U4, 4, 1, 4, 4);
        $m!($($x)* U4, U2, U0, U0, 4, 2, 0, 0);
        $m!($($x)* U4, U2, U0, U1, 4, 2, 0, 1);
        $m!($($x)* U4, U2, U0, U2, 4, 2, 0, 2);
        $m!($($x)* U4, U2, U0, U3, 4, 2, 0, 3);
        $m!($($x)* U4, U2, U0, U4, 4, 2, 0, 4);
        $m!($($x)* U4, U2, U1, U0, 4, 2, 1, 0);
        $m!($($x)* U4, U2, U1, U1, 4, 2, 1, 1);
        $m!($($x)* U4, U2, U1, U2, 4, 2, 1, 2);
        $m!($($x)* U4, U2, U1, U3, 4, 2, 1, 3);
        $m!($($x)* U4, U2, U1, U4, 4, 2, 1, 4);
        $m!($($x)* U4, U2, U2, U0, 4, 2, 2, 0);
        $m!($($x)* U4, U2, U2, U1, 4, 2, 2, 1);
        $m!($($x)* U4, U2, U2, U2, 4, 2, 2, 2);
        $m!($($x)* U4, U2, U2, U3, 4, 2, 2, 3);
        $m!($($x)* U4, U2, U2, U4, 4, 2, 2, 4);
        $m!($($x)* U4, U2, U3, U0, 4, 2, 3, 0);
        $m!($($x)* U4, U2, U3, U1, 4, 2, 3, 1);
        $m!($($x)* U4, U2, U3, U2, 4, 2, 3, 2);
        $m!($($x)* U4, U2, U3, U3, 4, 2, 3, 3);
        $m!($($x)* U4, U2, U3, U4, 4, 2, 3, 4);
        $m!($($x)* U4, U2, U4, U0, 4, 2, 4, 0);
        $m!($($x)* U4, U2, U4, U1, 4, 2, 4, 1);
        $m!($($x)* U4, U2, U4, U2, 4, 2, 4, 2);
        $m!($($x)* U4, U2, U4, U3, 4, 2, 4, 3);
        $m!($($x)* U4, U2, U4, U4, 4, 2, 4, 4);
        $m!($($x)* U4, U3, U0, U0, 4, 3, 0, 0);
        $m!($($x)* U4, U3, U0, U1, 4, 3, 0, 1);
        $m!($($x)* U4, U3, U0, U2, 4, 3, 0, 2);
        $m!($($x)* U4, U3, U0, U3, 4, 3, 0, 3);
        $m!($($x)* U4, U3, U0, U4, 4, 3, 0, 4);
        $m!($($x)* U4, U3, U1, U0, 4, 3, 1, 0);
        $m!($($x)* U4, U3, U1, U1, 4, 3, 1, 1);
        $m!($($x)* U4, U3, U1, U2, 4, 3, 1, 2);
        $m!($($x)* U4, U3, U1, U3, 4, 3, 1, 3);
        $m!($($x)* U4, U3, U1, U4, 4, 3, 1, 4);
        $m!($($x)* U4, U3, U2, U0, 4, 3, 2, 0);
        $m!($($x)* U4, U3, U2, U1, 4, 3, 2, 1);
        $m!($($x)* U4, U3, U2, U2, 4, 3, 2, 2);
        $m!($($x)* U4, U3, U2, U3, 4, 3, 2, 3);
        $m!($($x)* U4, U3, U2, U4, 4, 3, 2, 4);
        $m!($($x)* U4, U3, U3, U0, 4, 3, 3, 0);
        $m!($($x)* U4, U3, U3, U1, 4, 3, 3, 1);
        $m!($($x)* U4, U3, U3, U2, 4, 3, 3, 2);
        $m!($($x)* U4, U3, U3, U3, 4, 3, 3, 3);
        $m!($($x)* U4, U3, U3, U4, 4, 3, 3, 4);
        $m!($($x)* U4, U3, U4, U0, 4, 3, 4, 0);
        $m!($($x)* U4, U3, U4, U1, 4, 3, 4, 1);
        $m!($($x)* U4, U3, U4, U2, 4, 3, 4, 2);
        $m!($($x)* U4, U3, U4, U3, 4, 3, 4, 3);
        $m!($($x)* U4, U3, U4, U4, 4, 3, 4, 4);
        $m!($($x)* U4, U4, U0, U0, 4, 4, 0, 0);
        $m!($($x)* U4, U4, U0, U1, 4, 4, 0, 1);
        $m!($($x)* U4, U4, U0, U2, 4, 4, 0, 2);
        $m!($($x)* U4, U4, U0, U3, 4, 4, 0, 3);
        $m!($($x)* U4, U4, U0, U4, 4, 4, 0, 4);
        $m!($($x)* U4, U4, U1, U0, 4, 4, 1, 0);
        $m!($($x)* U4, U4, U1, U1, 4, 4, 1, 1);
        $m!($($x)* U4, U4, U1, U2, 4, 4, 1, 2);
        $m!($($x)* U4, U4, U1, U3, 4, 4, 1, 3);
        $m!($($x)* U4, U4, U1, U4, 4, 4, 1, 4);
        $m!($($x)* U4, U4, U2, U0, 4, 4, 2, 0);
        $m!($($x)* U4, U4, U2, U1, 4, 4, 2, 1);
        $m!($($x)* U4, U4, U2, U2, 4, 4, 2, 2);
        $m!($($x)* U4, U4, U2, U3, 4, 4, 2, 3);
        $m!($($x)* U4, U4, U2, U4, 4, 4, 2, 4);
        $m!($($x)* U4, U4, U3, U0, 4, 4, 3, 0);
        $m!($($x)* U4, U4, U3, U1, 4, 4, 3, 1);
        $m!($($x)* U4, U4, U3, U2, 4, 4, 3, 2);
        $m!($($x)* U4, U4, U3, U3, 4, 4, 3, 3);
        $m!($($x)* U4, U4, U3, U4, 4, 4, 3, 4);
        $m!($($x)* U4, U4, U4, U0, 4, 4, 4, 0);
        $m!($($x)* U4, U4, U4, U1, 4, 4, 4, 1);
        $m!($($x)* U4, U4, U4, U2, 4, 4, 4, 2);
        $m!($($x)* U4, U4, U4, U3, 4, 4, 4, 3);
        $m!($($x)* U4, U4, U4, U4, 4, 4, 4, 4);
        $m!($($x)* U32, U32, U32, U32, 32, 32, 32, 32);
        $m!($($x)* U32, U32, U31, U32, 32, 32, 31, 32);
        $m!($($x)* U32, U32, U32, U31, 32, 32, 32, 31);
        $m!($($x)* U7, U9, U7, U9, 7, 9, 7, 9);
        $m!($($x)* U7, U9, U9, U7, 7, 9, 9, 7);
        $m!($($x)* U7, U9, U6, U9, 7, 9, 6, 9);
        $m!($($x)* U7, U9, U7, U8, 7, 9, 7, 8);
        $m!($($x)* U7, U9, U8, U9, 7, 9, 8, 9);
        $m!($($x)* U7, U9, U7, U10, 7, 9, 7, 10);
        $m!($($x)* U7, U9, U7, U7, 7, 9, 7, 7);
        $m!($($x)* U7, U9, U9, U9, 7, 9, 9, 9);
        $m!($($x)* U8, U5, U8, U5, 8, 5, 8, 5);
        $m!($($x)* U8, U5, U5, U8, 8, 5, 5, 8);
        $m!($($x)* U8, U5, U7, U5, 8, 5, 7, 5);
        $m!($($x)* U8, U5, U8, U4, 8, 5, 8, 4);
        $m!($($x)* U8, U5, U9, U5, 8, 5, 9, 5);
        $m!($($x)* U8, U5, U8, U6, 8, 5, 8, 6);
        $m!($($x)* U8, U5, U8, U8, 8, 5, 8, 8);
        $m!($($x)* U8, U5, U5, U5, 8, 5, 5, 5);
        $m!($($x)* U1, U32, U1, U32, 1, 32, 1, 32);
        $m!($($x)* U1, U32, U32, U1, 1, 32, 32, 1);
        $m!($($x)* U1, U32, U0, U32, 1, 32, 0, 32);
        $m!($($x)* U1, U32, U1, U31, 1, 32, 1, 31);
        $m!($($x)* U1, U32, U2, U32, 1, 32, 2, 32);
        $m!($($x)* U1, U32, U1, U1, 1, 32, 1, 1);
        $m!($($x)* U1, U32, U32, U32, 1, 32, 32, 32);
        $m!($($x)* U17, U17, U17, U17, 17, 17, 17, 17);
        $m!($($x)* U17, U17, U16, U17, 17, 17, 16, 17);
        $m!($($x)* U17, U17, U17, U16, 17, 17, 17, 16);
        $m!($($x)* U17, U17, U18, U17, 17, 17, 18, 17);
        $m!($($x)* U17, U17, U17, U18, 17, 17, 17, 18);
        $m!($($x)* U16, U2, U16, U2, 16, 2, 16, 2);
        $m!($($x)* U16, U2, U2, U16, 16, 2, 2, 16);
        $m!($($x)* U16, U2, U15, U2, 16, 2, 15, 2);
        $m!($($x)* U16, U2, U16, U1, 16, 2, 16, 1);
        $m!($($x)* U16, U2, U17, U2, 16, 2, 17, 2);
        $m!($($x)* U16, U2, U16, U3, 16, 2, 16, 3);
        $m!($($x)* U16, U2, U16, U16, 16, 2, 16, 16);
        $m!($($x)* U16, U2, U2, U2, 16, 2, 2, 2);
    };
}
macro_rules! for_mshapes_all {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U0, 0, 0);
        $m!($($x)* U0, U1, 0, 1);
        $m!($($x)* U0, U2, 0, 2);
        $m!($($x)* U0, U3, 0, 3);
        $m!($($x)* U0, U4, 0, 4);
        $m!($($x)* U0, U5, 0, 5);
        $m!($($x)* U0, U6, 0, 6);
        $m!($($x)* U0, U7, 0, 7);
        $m!($($x)* U0, U10, 0, 10);
        $m!($($x)* U0, U15, 0, 15);
        $m!($($x)* U0, U20, 0, 20);
        $m!($($x)* U0, U25, 0, 25);
        $m!($($x)* U0, U30, 0, 30);
        $m!($($x)* U0, U32, 0, 32);
        $m!($($x)* U1, U0, 1, 0);
        $m!($($x)* U1, U1, 1, 1);
        $m!($($x)* U1, U2, 1, 2);
        $m!($($x)* U1, U3, 1, 3);
        $m!($($x)* U1, U4, 1, 4);
        $m!($($x)* U1, U5, 1, 5);
        $m!($($x)* U1, U6, 1, 6);
        $m!($($x)* U1, U7, 1, 7);
        $m!($($x)* U1, U10, 1, 10);
        $m!($($x)* U1, U15, 1, 15);
        $m!($($x)* U1, U20, 1, 20);
        $m!($($x)* U1, U25, 1, 25);
        $m!($($x)* U1, U30, 1, 30);
        $m!($($x)* U2, U0, 2, 0);
        $m!($($x)* U2, U1, 2, 1);
        $m!($($x)* U2, U2, 2, 2);
        $m!($($x)* U2, U3, 2, 3);
        $m!($($x)* U2, U4, 2, 4);
        $m!($($x)* U2, U5, 2, 5);
        $m!($($x)* U2, U6, 2, 6);
        $m!($($x)* U2, U7, 2, 7);
        $m!($($x)* U3, U0, 3, 0);
        $m!($($x)* U3, U1, 3, 1);
        $m!($($x)* U3, U2, 3, 2);
        $m!($($x)* U3, U3, 3, 3);
        $m!($($x)* U3, U4, 3, 4);
        $m!($($x)* U3, U5, 3, 5);
        $m!($($x)* U3, U6, 3, 6);
        $m!($($x)* U3, U7, 3, 7);
        $m!($($x)* U4, U0, 4, 0);
        $m!($($x)* U4, U1, 4, 1);
        $m!($($x)* U4, U2, 4, 2);
        $m!($($x)* U4, U3, 4, 3);
        $m!($($x)* U4, U4, 4, 4);
        $m!($($x)* U4, U5, 4, 5);
        $m!($($x)* U4, U6, 4, 6);
        $m!($($x)* U4, U7, 4, 7);
        $m!($($x)* U5, U0, 5, 0);
        $m!($($x)* U5, U1, 5, 1);
        $m!($($x)* U5, U2, 5, 2);
        $m!($($x)* U5, U3, 5, 3);
        $m!($($x)* U5, U4, 5, 4);
        $m!($($x)* U5, U5, 5, 5);
        $m!($($x)* U5, U6, 5, 6);
        $m!($($x)* U5, U7, 5, 7);
        $m!($($x)* U5, U32, 5, 32);
        $m!($($x)* U6, U0, 6, 0);
        $m!($($x)* U6, U1, 6, 1);
        $m!($($x)* U6, U2, 6, 2);
        $m!($($x)* U6, U3, 6, 3);
        $m!($($x)* U6, U4, 6, 4);
        $m!($($x)* U6, U5, 6, 5);
        $m!($($x)* U6, U6, 6, 6);
        $m!($($x)* U6, U7, 6, 7);
        $m!($($x)* U7, U0, 7, 0);
        $m!($($x)* U7, U1, 7, 1);
        $m!($($x)* U7, U2, 7, 2);
        $m!($($x)* U7, U3, 7, 3);
        $m!($($x)* U7, U4, 7, 4);
        $m!($($x)* U7, U5, 7, 5);
        $m!($($x)* U7, U6, 7, 6);
        $m!($($x)* U7, U7, 7, 7);
        $m!($($x)* U7, U8, 7, 8);
        $m!($($x)* U8, U7, 8, 7);
        $m!($($x)* U8, U8, 8, 8);
        $m!($($x)* U8, U9, 8, 9);
        $m!($($x)* U9, U9, 9, 9);
        $m!($($x)* U10, U0, 10, 0);
        $m!($($x)* U10, U1, 10, 1);
        $m!($($x)* U10, U10, 10, 10);
        $m!($($x)* U10, U32, 10, 32);
        $m!($($x)* U11, U10, 11, 10);
        $m!($($x)* U11, U11, 11, 11);
        $m!($($x)* U11, U12, 11, 12);
        $m!($($x)* U12, U11, 12, 11);
        $m!($($x)* U12, U12, 12, 12);
        $m!($($x)* U12, U13, 12, 13);
        $m!($($x)* U13, U13, 13, 13);
        $m!($($x)* U14, U14, 14, 14);
        $m!($($x)* U15, U0, 15, 0);
        $m!($($x)* U15, U1, 15, 1);
        $m!($($x)* U15, U14, 15, 14);
        $m!($($x)* U15, U15, 15, 15);
        $m!($($x)* U15, U16, 15, 16);
        $m!($($x)* U15, U32, 15, 32);
        $m!($($x)* U16, U15, 16, 15);
        $m!($($x)* U16, U16, 16, 16);
        $m!($($x)* U16, U17, 16, 17);
        $m!($($x)* U17, U17, 17, 17);
        $m!($($x)* U18, U18, 18, 18);
        $m!($($x)* U19, U18, 19, 18);
        $m!($($x)* U19, U19, 19, 19);
        $m!($($x)* U19, U20, 19, 20);
        $m!($($x)* U20, U0, 20, 0);
        $m!($($x)* U20, U1, 20, 1);
        $m!($($x)* U20, U19, 20, 19);
        $m!($($x)* U20, U20, 20, 20);
        $m!($($x)* U20, U21, 20, 21);
        $m!($($x)* U20, U32, 20, 32);
        $m!($($x)* U21, U21, 21, 21);
        $m!($($x)* U22, U22, 22, 22);
        $m!($($x)* U23, U22, 23, 22);
        $m!($($x)* U23, U23, 23, 23);
        $m!($($x)* U23, U24, 23, 24);
        $m!($($x)* U24, U23, 24, 23);
        $m!($($x)* U24, U24, 24, 24);
        $m!($($x)* U24, U25, 24, 25);
        $m!($($x)* U25, U0, 25, 0);
        $m!($($x)* U25, U1, 25, 1);
        $m!($($x)* U25, U25, 25, 25);
        $m!($($x)* U25, U32, 25, 32);
        $m!($($x)* U26, U26, 26, 26);
        $m!($($x)* U27, U26, 27, 26);
        $m!($($x)* U27, U27, 27, 27);
        $m!($($x)* U27, U28, 27, 28);
        $m!($($x)* U28, U27, 28, 27);
        $m!($($x)* U28, U28, 28, 28);
        $m!($($x)* U28, U29, 28, 29);
        $m!($($x)* U29, U29, 29, 29);
        $m!($($x)* U30, U0, 30, 0);
        $m!($($x)* U30, U1, 30, 1);
        $m!($($x)* U30, U30, 30, 30);
        $m!($($x)* U30, U32, 30, 32);
        $m!($($x)* U31, U30, 31, 30);
        $m!($($x)* U31, U31, 31, 31);
        $m!($($x)* U31, U32, 31, 32);
        $m!($($x)* U32, U0, 32, 0);
        $m!($($x)* U32, U5, 32, 5);
        $m!($($x)* U32, U10, 32, 10);
        $m!($($x)* U32, U15, 32, 15);
        $m!($($x)* U32, U20, 32, 20);
        $m!($($x)* U32, U25, 32, 25);
        $m!($($x)* U32, U30, 32, 30);
        $m!($($x)* U32, U31, 32, 31);
        $m!($($x)* U32, U32, 32, 32);
    };
}
macro_rules! for_flat_all {
    ($m:ident $($x:tt)*) => {
        $m!($($x)* U0, U1, U0, 0, 1, 0);
        $m!($($x)* U0, U1, U1, 0, 1, 1);
        $m!($($x)* U0, U1, U32, 0, 1, 32);
        $m!($($x)* U0, U2, U0, 0, 2, 0);
        $m!($($x)* U0, U2, U1, 0, 2, 1);
        $m!($($x)* U0, U2, U2, 0, 2, 2);
        $m!($($x)* U0, U2, U32, 0, 2, 32);
        $m!($($x)* U0, U3, U0, 0, 3, 0);
        $m!($($x)* U0, U3, U1, 0, 3, 1);
        $m!($($x)* U0, U3, U3, 0, 3, 3);
        $m!($($x)* U0, U3, U32, 0, 3, 32);
        $m!($($x)* U0, U4, U0, 0, 4, 0);
        $m!($($x)* U0, U4, U1, 0, 4, 1);
        $m!($($x)* U0, U4, U4, 0, 4, 4);
        $m!($($x)* U0, U4, U32, 0, 4, 32);
        $m!($($x)* U0, U5, U0, 0, 5, 0);
        $m!($($x)* U0, U5, U1, 0, 5, 1);
        $m!($($x)* U0, U5, U5, 0, 5, 5);
        $m!($($x)* U0, U5, U32, 0, 5, 32);
        $m!($($x)* U0, U6, U0, 0, 6, 0);
        $m!($($x)* U0, U6, U1, 0, 6, 1);
        $m!($($x)* U0, U6, U6, 0, 6, 6);
        $m!($($x)* U0, U6, U32, 0, 6, 32);
        $m!($($x)* U0, U7, U0, 0, 7, 0);
        $m!($($x)* U0, U7, U1, 0, 7, 1);
        $m!($($x)* U0, U7, U7, 0, 7, 7);
        $m!($($x)* U0, U7, U32, 0, 7, 32);
        $m!($($x)* U0, U8, U0, 0, 8, 0);
        $m!($($x)* U0, U8, U1, 0, 8, 1);
        $m!($($x)* U0, U8, U8, 0, 8, 8);
        $m!($($x)* U0, U8, U32, 0, 8, 32);
        $m!($($x)* U0, U9, U0, 0, 9, 0);
        $m!($($x)* U0, U9, U1, 0, 9, 1);
        $m!($($x)* U0, U9, U9, 0, 9, 9);
        $m!($($x)* U0, U9, U32, 0, 9, 32);
        $m!($($x)* U0, U10, U0, 0, 10, 0);
        $m!($($x)* U0, U10, U1, 0, 10, 1);
        $m!($($x)* U0, U10, U10, 0, 10, 10);
        $m!($($x)* U0, U10, U32, 0, 10, 32);
        $m!($($x)* U0, U11, U0, 0, 11, 0);
        $m!($($x)* U0, U11, U1, 0, 11, 1);
        $m!($($x)* U0, U11, U11, 0, 11, 11);
        $m!($($x)* U0, U11, U32, 0, 11, 32);
        $m!($($x)* U1, U1, U0, 1, 1, 0);
        $m!($($x)* U1, U1, U1, 1, 1, 1);
        $m!($($x)* U1, U1, U2, 1, 1, 2);
        $m!($($x)* U1, U1, U32, 1, 1, 32);
        $m!($($x)* U1, U2, U0, 1, 2, 0);
        $m!($($x)* U1, U2, U1, 1, 2, 1);
        $m!($($x)* U1, U2, U2, 1, 2, 2);
        $m!($($x)* U1, U2, U3, 1, 2, 3);
        $m!($($x)* U1, U2, U32, 1, 2, 32);
        $m!($($x)* U1, U3, U0, 1, 3, 0);
        $m!($($x)* U1, U3, U1, 1, 3, 1);
        $m!($($x)* U1, U3, U2, 1, 3, 2);
        $m!($($x)* U1, U3, U3, 1, 3, 3);
        $m!($($x)* U1, U3, U4, 1, 3, 4);
        $m!($($x)* U1, U3, U32, 1, 3, 32);
        $m!($($x)* U1, U4, U0, 1, 4, 0);
        $m!($($x)* U1, U4, U1, 1, 4, 1);
        $m!($($x)* U1, U4, U3, 1, 4, 3);
        $m!($($x)* U1, U4, U4, 1, 4, 4);
        $m!($($x)* U1, U4, U5, 1, 4, 5);
        $m!($($x)* U1, U4, U32, 1, 4, 32);
        $m!($($x)* U1, U5, U0, 1, 5, 0);
        $m!($($x)* U1, U5, U1, 1, 5, 1);
        $m!($($x)* U1, U5, U4, 1, 5, 4);
        $m!($($x)* U1, U5, U5, 1, 5, 5);
        $m!($($x)* U1, U5, U6, 1, 5, 6);
        $m!($($x)* U1, U5, U32, 1, 5, 32);
        $m!($($x)* U1, U6, U0, 1, 6, 0);
        $m!($($x)* U1, U6, U1, 1, 6, 1);
        $m!($($x)* U1, U6, U5, 1, 6, 5);
        $m!($($x)* U1, U6, U6, 1, 6, 6);
        $m!($($x)* U1, U6, U7, 1, 6, 7);
        $m!($($x)* U1, U6, U32, 1, 6, 32);
        $m!($($x)* U1, U7, U0, 1, 7, 0);
        $m!($($x)* U1, U7, U1, 1, 7, 1);
        $m!($($x)* U1, U7, U6, 1, 7, 6);
        $m!($($x)* U1, U7, U7, 1, 7, 7);
        $m!($($x)* U1, U7, U8, 1, 7, 8);
        $m!($($x)* U1, U7, U32, 1, 7, 32);
        $m!($($x)* U1, U8, U0, 1, 8, 0);
        $m!($($x)* U1, U8, U1, 1, 8, 1);
        $m!($($x)* U1, U8, U7, 1, 8, 7);
        $m!($($x)* U1, U8, U8, 1, 8, 8);
        $m!($($x)* U1, U8, U9, 1, 8, 9);
        $m!($($x)* U1, U8, U32, 1, 8, 32);
        $m!($($x)* U1, U9, U0, 1, 9, 0);
        $m!($($x)* U1, U9, U1, 1, 9, 1);
        $m!($($x)* U1, U9, U8, 1, 9, 8);
        $m!($($x)* U1, U9, U9, 1, 9, 9);
        $m!($($x)* U1, U9, U10, 1, 9, 10);
        $m!($($x)* U1, U9, U32, 1, 9, 32);
        $m!($($x)* U1, U10, U0, 1, 10, 0);
        $m!($($x)* U1, U10, U1, 1, 10, 1);
        $m!($($x)* U1, U10, U9, 1, 10, 9);
        $m!($($x)* U1, U10, U10, 1, 10, 10);
        $m!($($x)* U1, U10, U11, 1, 10, 11);
        $m!($($x)* U1, U10, U32, 1, 10, 32);
        $m!($($x)* U1, U11, U0, 1, 11, 0);
        $m!($($x)* U1, U11, U1, 1, 11, 1);
        $m!($($x)* U1, U11, U10, 1, 11, 10);
        $m!($($x)* U1, U11, U11, 1, 11, 11);
        $m!($($x)* U1, U11, U12, 1, 11, 12);
        $m!($($x)* U1, U11, U32, 1, 11, 32);
        $m!($($x)* U2, U1, U0, 2, 1, 0);
        $m!($($x)* U2, U1, U1, 2, 1, 1);
        $m!($($x)* U2, U1, U2, 2, 1, 2);
        $m!($($x)* U2, U1, U3, 2, 1, 3);
        $m!($($x)* U2, U1, U32, 2, 1, 32);
        $m!($($x)* U2, U2, U0, 2, 2, 0);
        $m!($($x)* U2, U2, U1, 2, 2, 1);
        $m!($($x)* U2, U2, U2, 2, 2, 2);
        $m!($($x)* U2, U2, U3, 2, 2, 3);
        $m!($($x)* U2, U2, U4, 2, 2, 4);
        $m!($($x)* U2, U2, U5, 2, 2, 5);
        $m!($($x)* U2, U2, U32, 2, 2, 32);
        $m!($($x)* U2, U3, U0, 2, 3, 0);
        $m!($($x)* U2, U3, U1, 2, 3, 1);
        $m!($($x)* U2, U3, U2, 2, 3, 2);
        $m!($($x)* U2, U3, U3, 2, 3, 3);
        $m!($($x)* U2, U3, U5, 2, 3, 5);
        $m!($($x)* U2, U3, U6, 2, 3, 6);
        $m!($($x)* U2, U3, U7, 2, 3, 7);
        $m!($($x)* U2, U3, U32, 2, 3, 32);
        $m!($($x)* U2, U4, U0, 2, 4, 0);
        $m!($($x)* U2, U4, U1, 2, 4, 1);
        $m!($($x)* U2, U4, U2, 2, 4, 2);
        $m!($($x)* U2, U4, U4, 2, 4, 4);
        $m!($($x)* U2, U4, U6, 2, 4, 6);
        $m!($($x)* U2, U4, U7, 2, 4, 7);
        $m!($($x)* U2, U4, U8, 2, 4, 8);
        $m!($($x)* U2, U4, U9, 2, 4, 9);
        $m!($($x)* U2, U4, U32, 2, 4, 32);
        $m!($($x)* U2, U5, U0, 2, 5, 0);
        $m!($($x)* U2, U5, U1, 2, 5, 1);
        $m!($($x)* U2, U5, U2, 2, 5, 2);
        $m!($($x)* U2, U5, U5, 2, 5, 5);
        $m!($($x)* U2, U5, U7, 2, 5, 7);
        $m!($($x)* U2, U5, U9, 2, 5, 9);
        $m!($($x)* U2, U5, U10, 2, 5, 10);
        $m!($($x)* U2, U5, U11, 2, 5, 11);
        $m!($($x)* U2, U5, U32, 2, 5, 32);
        $m!($($x)* U2, U6, U0, 2, 6, 0);
        $m!($($x)* U2, U6, U1, 2, 6, 1);
        $m!($($x)* U2, U6, U2, 2, 6, 2);
        $m!($($x)* U2, U6, U6, 2, 6, 6);
        $m!($($x)* U2, U6, U8, 2, 6, 8);
        $m!($($x)* U2, U6, U11, 2, 6, 11);
        $m!($($x)* U2, U6, U12, 2, 6, 12);
        $m!($($x)* U2, U6, U13, 2, 6, 13);
        $m!($($x)* U2, U6, U32, 2, 6, 32);
        $m!($($x)* U2, U7, U0, 2, 7, 0);
        $m!($($x)* U2, U7, U1, 2, 7, 1);
        $m!($($x)* U2, U7, U2, 2, 7, 2);
        $m!($($x)* U2, U7, U7, 2, 7, 7);
        $m!($($x)* U2, U7, U9, 2, 7, 9);
        $m!($($x)* U2, U7, U13, 2, 7, 13);
        $m!($($x)* U2, U7, U14, 2, 7, 14);
        $m!($($x)* U2, U7, U15, 2, 7, 15);
        $m!($($x)* U2, U7, U32, 2, 7, 32);
        $m!($($x)* U2, U8, U0, 2, 8, 0);
        $m!($($x)* U2, U8, U1, 2, 8, 1);
        $m!($($x)* U2, U8, U2, 2, 8, 2);
        $m!($($x)* U2, U8, U8, 2, 8, 8);
        $m!($($x)* U2, U8, U10, 2, 8, 10);
        $m!($($x)* U2, U8, U15, 2, 8, 15);
        $m!($($x)* U2, U8, U16, 2, 8, 16);
        $m!($($x)* U2, U8, U17, 2, 8, 17);
        $m!($($x)* U2, U8, U32, 2, 8, 32);
        $m!($($x)* U2, U9, U0, 2, 9, 0);
        $m!($($x)* U2, U9, U1, 2, 9, 1);
        $m!($($x)* U2, U9, U2, 2, 9, 2);
        $m!($($x)* U2, U9, U9, 2, 9, 9);
        $m!($($x)* U2, U9, U11, 2, 9, 11);
        $m!($($x)* U2, U9, U17, 2, 9, 17);
        $m!($($x)* U2, U9, U18, 2, 9, 18);
        $m!($($x)* U2, U9, U19, 2, 9, 19);
        $m!($($x)* U2, U9, U32, 2, 9, 32);
        $m!($($x)* U2, U10, U0, 2, 10, 0);
        $m!($($x)* U2, U10, U1, 2, 10, 1);
        $m!($($x)* U2, U10, U2, 2, 10, 2);
        $m!($($x)* U2, U10, U10, 2, 10, 10);
        $m!($($x)* U2, U10, U12, 2, 10, 12);
        $m!($($x)* U2, U10, U19, 2, 10, 19);
        $m!($($x)* U2, U10, U20, 2, 10, 20);
        $m!($($x)* U2, U10, U21, 2, 10, 21);
        $m!($($x)* U2, U10, U32, 2, 10, 32);
        $m!($($x)* U2, U11, U0, 2, 11, 0);
        $m!($($x)* U2, U11, U1, 2, 11, 1);
        $m!($($x)* U2, U11, U2, 2, 11, 2);
        $m!($($x)* U2, U11, U11, 2, 11, 11);
        $m!($($x)* U2, U11, U13, 2, 11, 13);
        $m!($($x)* U2, U11, U21, 2, 11, 21);
        $m!($($x)* U2, U11, U22, 2, 11, 22);
        $m!($($x)* U2, U11, U23, 2, 11, 23);
        $m!($($x)* U2, U11, U32, 2, 11, 32);
        $m!($($x)* U3, U1, U0, 3, 1, 0);
        $m!($($x)* U3, U1, U1, 3, 1, 1);
        $m!($($x)* U3, U1, U2, 3, 1, 2);
        $m!($($x)* U3, U1, U3, 3, 1, 3);
        $m!($($x)* U3, U1, U4, 3, 1, 4);
        $m!($($x)* U3, U1, U32, 3, 1, 32);
        $m!($($x)* U3, U2, U0, 3, 2, 0);
        $m!($($x)* U3, U2, U1, 3, 2, 1);
        $m!($($x)* U3, U2, U2, 3, 2, 2);
        $m!($($x)* U3, U2, U3, 3, 2, 3);
        $m!($($x)* U3, U2, U5, 3, 2, 5);
        $m!($($x)* U3, U2, U6, 3, 2, 6);
        $m!($($x)* U3, U2, U7, 3, 2, 7);
        $m!($($x)* U3, U2, U32, 3, 2, 32);
        $m!($($x)* U3, U3, U0, 3, 3, 0);
        $m!($($x)* U3, U3, U1, 3, 3, 1);
        $m!($($x)* U3, U3, U3, 3, 3, 3);
        $m!($($x)* U3, U3, U6, 3, 3, 6);
        $m!($($x)* U3, U3, U8, 3, 3, 8);
        $m!($($x)* U3, U3, U9, 3, 3, 9);
        $m!($($x)* U3, U3, U10, 3, 3, 10);
        $m!($($x)* U3, U3, U32, 3, 3, 32);
        $m!($($x)* U3, U4, U0, 3, 4, 0);
        $m!($($x)* U3, U4, U1, 3, 4, 1);
        $m!($($x)* U3, U4, U3, 3, 4, 3);
        $m!($($x)* U3, U4, U4, 3, 4, 4);
        $m!($($x)* U3, U4, U7, 3, 4, 7);
        $m!($($x)* U3, U4, U11, 3, 4, 11);
        $m!($($x)* U3, U4, U12, 3, 4, 12);
        $m!($($x)* U3, U4, U13, 3, 4, 13);
        $m!($($x)* U3, U4, U32, 3, 4, 32);
        $m!($($x)* U3, U5, U0, 3, 5, 0);
        $m!($($x)* U3, U5, U1, 3, 5, 1);
        $m!($($x)* U3, U5, U3, 3, 5, 3);
        $m!($($x)* U3, U5, U5, 3, 5, 5);
        $m!($($x)* U3, U5, U8, 3, 5, 8);
        $m!($($x)* U3, U5, U14, 3, 5, 14);
        $m!($($x)* U3, U5, U15, 3, 5, 15);
        $m!($($x)* U3, U5, U16, 3, 5, 16);
        $m!($($x)* U3, U5, U32, 3, 5, 32);
        $m!($($x)* U3, U6, U0, 3, 6, 0);
        $m!($($x)* U3, U6, U1, 3, 6, 1);
        $m!($($x)* U3, U6, U3, 3, 6, 3);
        $m!($($x)* U3, U6, U6, 3, 6, 6);
        $m!($($x)* U3, U6, U9, 3, 6, 9);
        $m!($($x)* U3, U6, U17, 3, 6, 17);
        $m!($($x)* U3, U6, U18, 3, 6, 18);
        $m!($($x)* U3, U6, U19, 3, 6, 19);
        $m!($($x)* U3, U6, U32, 3, 6, 32);
        $m!($($x)* U3, U7, U0, 3, 7, 0);
        $m!($($x)* U3, U7, U1, 3, 7, 1);
        $m!($($x)* U3, U7, U3, 3, 7, 3);
        $m!($($x)* U3, U7, U7, 3, 7, 7);
        $m!($($x)* U3, U7, U10, 3, 7, 10);
        $m!($($x)* U3, U7, U20, 3, 7, 20);
        $m!($($x)* U3, U7, U21, 3, 7, 21);
        $m!($($x)* U3, U7, U22, 3, 7, 22);
        $m!($($x)* U3, U7, U32, 3, 7, 32);
        $m!($($x)* U3, U8, U0, 3, 8, 0);
        $m!($($x)* U3, U8, U1, 3, 8, 1);
        $m!($($x)* U3, U8, U3, 3, 8, 3);
        $m!($($x)* U3, U8, U8, 3, 8, 8);
        $m!($($x)* U3, U8, U11, 3, 8, 11);
        $m!($($x)* U3, U8, U23, 3, 8, 23);
        $m!($($x)* U3, U8, U24, 3, 8, 24);
        $m!($($x)* U3, U8, U25, 3, 8, 25);
        $m!($($x)* U3, U8, U32, 3, 8, 32);
        $m!($($x)* U3, U9, U0, 3, 9, 0);
        $m!($($x)* U3, U9, U1, 3, 9, 1);
        $m!($($x)* U3, U9, U3, 3, 9, 3);
        $m!($($x)* U3, U9, U9, 3, 9, 9);
        $m!($($x)* U3, U9, U12, 3, 9, 12);
        $m!($($x)* U3, U9, U26, 3, 9, 26);
        $m!($($x)* U3, U9, U27, 3, 9, 27);
        $m!($($x)* U3, U9, U28, 3, 9, 28);
        $m!($($x)* U3, U9, U32, 3, 9, 32);
        $m!($($x)* U3, U10, U0, 3, 10, 0);
        $m!($($x)* U3, U10, U1, 3, 10, 1);
        $m!($($x)* U3, U10, U3, 3, 10, 3);
        $m!($($x)* U3, U10, U10, 3, 10, 10);
        $m!($($x)* U3, U10, U13, 3, 10, 13);
        $m!($($x)* U3, U10, U29, 3, 10, 29);
        $m!($($x)* U3, U10, U30, 3, 10, 30);
        $m!($($x)* U3, U10, U31, 3, 10, 31);
        $m!($($x)* U3, U10, U32, 3, 10, 32);
        $m!($($x)* U3, U11, U0, 3, 11, 0);
        $m!($($x)* U3, U11, U1, 3, 11, 1);
        $m!($($x)* U3, U11, U3, 3, 11, 3);
        $m!($($x)* U3, U11, U11, 3, 11, 11);
        $m!($($x)* U3, U11, U14, 3, 11, 14);
        $m!($($x)* U3, U11, U32, 3, 11, 32);
        $m!($($x)* U4, U1, U0, 4, 1, 0);
        $m!($($x)* U4, U1, U1, 4, 1, 1);
        $m!($($x)* U4, U1, U3, 4, 1, 3);
        $m!($($x)* U4, U1, U4, 4, 1, 4);
        $m!($($x)* U4, U1, U5, 4, 1, 5);
        $m!($($x)* U4, U1, U32, 4, 1, 32);
        $m!($($x)* U4, U2, U0, 4, 2, 0);
        $m!($($x)* U4, U2, U1, 4, 2, 1);
        $m!($($x)* U4, U2, U2, 4, 2, 2);
        $m!($($x)* U4, U2, U4, 4, 2, 4);
        $m!($($x)* U4, U2, U6, 4, 2, 6);
        $m!($($x)* U4, U2, U7, 4, 2, 7);
        $m!($($x)* U4, U2, U8, 4, 2, 8);
        $m!($($x)* U4, U2, U9, 4, 2, 9);
        $m!($($x)* U4, U2, U32, 4, 2, 32);
        $m!($($x)* U4, U3, U0, 4, 3, 0);
        $m!($($x)* U4, U3, U1, 4, 3, 1);
        $m!($($x)* U4, U3, U3, 4, 3, 3);
        $m!($($x)* U4, U3, U4, 4, 3, 4);
        $m!($($x)* U4, U3, U7, 4, 3, 7);
        $m!($($x)* U4, U3, U11, 4, 3, 11);
        $m!($($x)* U4, U3, U12, 4, 3, 12);
        $m!($($x)* U4, U3, U13, 4, 3, 13);
        $m!($($x)* U4, U3, U32, 4, 3, 32);
        $m!($($x)* U4, U4, U0, 4, 4, 0);
        $m!($($x)* U4, U4, U1, 4, 4, 1);
        $m!($($x)* U4, U4, U4, 4, 4, 4);
        $m!($($x)* U4, U4, U8, 4, 4, 8);
        $m!($($x)* U4, U4, U15, 4, 4, 15);
        $m!($($x)* U4, U4, U16, 4, 4, 16);
        $m!($($x)* U4, U4, U17, 4, 4, 17);
        $m!($($x)* U4, U4, U32, 4, 4, 32);
        $m!($($x)* U4, U5, U0, 4, 5, 0);
        $m!($($x)* U4, U5, U1, 4, 5, 1);
        $m!($($x)* U4, U5, U4, 4, 5, 4);
        $m!($($x)* U4, U5, U5, 4, 5, 5);
        $m!($($x)* U4, U5, U9, 4, 5, 9);
        $m!($($x)* U4, U5, U19, 4, 5, 19);
        $m!($($x)* U4, U5, U20, 4, 5, 20);
        $m!($($x)* U4, U5, U21, 4, 5, 21);
        $m!($($x)* U4, U5, U32, 4, 5, 32);
        $m!($($x)* U4, U6, U0, 4, 6, 0);
        $m!($($x)* U4, U6, U1, 4, 6, 1);
        $m!($($x)* U4, U6, U4, 4, 6, 4);
        $m!($($x)* U4, U6, U6, 4, 6, 6);
        $m!($($x)* U4, U6, U10, 4, 6, 10);
        $m!($($x)* U4, U6, U23, 4, 6, 23);
        $m!($($x)* U4, U6, U24, 4, 6, 24);
        $m!($($x)* U4, U6, U25, 4, 6, 25);
        $m!($($x)* U4, U6, U32, 4, 6, 32);
        $m!($($x)* U4, U7, U0, 4, 7, 0);
        $m!($($x)* U4, U7, U1, 4, 7, 1);
        $m!($($x)* U4, U7, U4, 4, 7, 4);
        $m!($($x)* U4, U7, U7, 4, 7, 7);
        $m!($($x)* U4, U7, U11, 4, 7, 11);
        $m!($($x)* U4, U7, U27, 4, 7, 27);
        $m!($($x)* U4, U7, U28, 4, 7, 28);
        $m!($($x)* U4, U7, U29, 4, 7, 29);
        $m!($($x)* U4, U7, U32, 4, 7, 32);
        $m!($($x)* U4, U8, U0, 4, 8, 0);
        $m!($($x)* U4, U8, U1, 4, 8, 1);
        $m!($($x)* U4, U8, U4, 4, 8, 4);
        $m!($($x)* U4, U8, U8, 4, 8, 8);
        $m!($($x)* U4, U8, U12, 4, 8, 12);
        $m!($($x)* U4, U8, U31, 4, 8, 31);
        $m!($($x)* U4, U8, U32, 4, 8, 32);
        $m!($($x)* U4, U9, U0, 4, 9, 0);
        $m!($($x)* U4, U9, U1, 4, 9, 1);
        $m!($($x)* U4, U9, U4, 4, 9, 4);
        $m!($($x)* U4, U9, U9, 4, 9, 9);
        $m!($($x)* U4, U9, U13, 4, 9, 13);
        $m!($($x)* U4, U9, U32, 4, 9, 32);
        $m!($($x)* U4, U10, U0, 4, 10, 0);
        $m!($($x)* U4, U10, U1, 4, 10, 1);
        $m!($($x)* U4, U10, U4, 4, 10, 4);
        $m!($($x)* U4, U10, U10, 4, 10, 10);
        $m!($($x)* U4, U10, U14, 4, 10, 14);
        $m!($($x)* U4, U10, U32, 4, 10, 32);
        $m!($($x)* U4, U11, U0, 4, 11, 0);
        $m!($($x)* U4, U11, U1, 4, 11, 1);
        $m!($($x)* U4, U11, U4, 4, 11, 4);
        $m!($($x)* U4, U11, U11, 4, 11, 11);
        $m!($($x)* U4, U11, U15, 4, 11, 15);
        $m!($($x)* U4, U11, U32, 4, 11, 32);
        $m!($($x)* U5, U1, U0, 5, 1, 0);
        $m!($($x)* U5, U1, U1, 5, 1, 1);
        $m!($($x)* U5, U1, U4, 5, 1, 4);
        $m!($($x)* U5, U1, U5, 5, 1, 5);
        $m!($($x)* U5, U1, U6, 5, 1, 6);
        $m!($($x)* U5, U1, U32, 5, 1, 32);
        $m!($($x)* U5, U2, U0, 5, 2, 0);
        $m!($($x)* U5, U2, U1, 5, 2, 1);
        $m!($($x)* U5, U2, U2, 5, 2, 2);
        $m!($($x)* U5, U2, U5, 5, 2, 5);
        $m!($($x)* U5, U2, U7, 5, 2, 7);
        $m!($($x)* U5, U2, U9, 5, 2, 9);
        $m!($($x)* U5, U2, U10, 5, 2, 10);
        $m!($($x)* U5, U2, U11, 5, 2, 11);
        $m!($($x)* U5, U2, U32, 5, 2, 32);
        $m!($($x)* U5, U3, U0, 5, 3, 0);
        $m!($($x)* U5, U3, U1, 5, 3, 1);
        $m!($($x)* U5, U3, U3, 5, 3, 3);
        $m!($($x)* U5, U3, U5, 5, 3, 5);
        $m!($($x)* U5, U3, U8, 5, 3, 8);
        $m!($($x)* U5, U3, U14, 5, 3, 14);
        $m!($($x)* U5, U3, U15, 5, 3, 15);
        $m!($($x)* U5, U3, U16, 5, 3, 16);
        $m!($($x)* U5, U3, U32, 5, 3, 32);
        $m!($($x)* U5, U4, U0, 5, 4, 0);
        $m!($($x)* U5, U4, U1, 5, 4, 1);
        $m!($($x)* U5, U4, U4, 5, 4, 4);
        $m!($($x)* U5, U4, U5, 5, 4, 5);
        $m!($($x)* U5, U4, U9, 5, 4, 9);
        $m!($($x)* U5, U4, U19, 5, 4, 19);
        $m!($($x)* U5, U4, U20, 5, 4, 20);
        $m!($($x)* U5, U4, U21, 5, 4, 21);
        $m!($($x)* U5, U4, U32, 5, 4, 32);
        $m!($($x)* U5, U5, U0, 5, 5, 0);
        $m!($($x)* U5, U5, U1, 5, 5, 1);
        $m!($($x)* U5, U5, U5, 5, 5, 5);
        $m!($($x)* U5, U5, U10, 5, 5, 10);
        $m!($($x)* U5, U5, U24, 5, 5, 24);
        $m!($($x)* U5, U5, U25, 5, 5, 25);
        $m!($($x)* U5, U5, U26, 5, 5, 26);
        $m!($($x)* U5, U5, U32, 5, 5, 32);
        $m!($($x)* U5, U6, U0, 5, 6, 0);
        $m!($($x)* U5, U6, U1, 5, 6, 1);
        $m!($($x)* U5, U6, U5, 5, 6, 5);
        $m!($($x)* U5, U6, U6, 5, 6, 6);
        $m!($($x)* U5, U6, U11, 5, 6, 11);
        $m!($($x)* U5, U6, U29, 5, 6, 29);
        $m!($($x)* U5, U6, U30, 5, 6, 30);
        $m!($($x)* U5, U6, U31, 5, 6, 31);
        $m!($($x)* U5, U6, U32, 5, 6, 32);
        $m!($($x)* U5, U7, U0, 5, 7, 0);
        $m!($($x)* U5, U7, U1, 5, 7, 1);
        $m!($($x)* U5, U7, U5, 5, 7, 5);
        $m!($($x)* U5, U7, U7, 5, 7, 7);
        $m!($($x)* U5, U7, U12, 5, 7, 12);
        $m!($($x)* U5, U7, U32, 5, 7, 32);
        $m!($($x)* U5, U8, U0, 5, 8, 0);
        $m!($($x)* U5, U8, U1, 5, 8, 1);
        $m!($($x)* U5, U8, U5, 5, 8, 5);
        $m!($($x)* U5, U8, U8, 5, 8, 8);
        $m!($($x)* U5, U8, U13, 5, 8, 13);
        $m!($($x)* U5, U8, U32, 5, 8, 32);
        $m!($($x)* U5, U9, U0, 5, 9, 0);
        $m!($($x)* U5, U9, U1, 5, 9, 1);
        $m!($($x)* U5, U9, U5, 5, 9, 5);
        $m!($($x)* U5, U9, U9, 5, 9, 9);
        $m!($($x)* U5, U9, U14, 5, 9, 14);
        $m!($($x)* U5, U9, U32, 5, 9, 32);
        $m!($($x)* U5, U10, U0, 5, 10, 0);
        $m!($($x)* U5, U10, U1, 5, 10, 1);
        $m!($($x)* U5, U10, U5, 5, 10, 5);
        $m!($($x)* U5, U10, U10, 5, 10, 10);
        $m!($($x)* U5, U10, U15, 5, 10, 15);
        $m!($($x)* U5, U10, U32, 5, 10, 32);
        $m!($($x)* U5, U11, U0, 5, 11, 0);
        $m!($($x)* U5, U11, U1, 5, 11, 1);
        $m!($($x)* U5, U11, U5, 5, 11, 5);
        $m!($($x)* U5, U11, U11, 5, 11, 11);
        $m!($($x)* U5, U11, U16, 5, 11, 16);
        $m!($($x)* U5, U11, U32, 5, 11, 32);
        $m!($($x)* U6, U1, U0, 6, 1, 0);
        $m!($($x)* U6, U1, U1, 6, 1, 1);
        $m!($($x)* U6, U1, U5, 6, 1, 5);
        $m!($($x)* U6, U1, U6, 6, 1, 6);
        $m!($($x)* U6, U1, U7, 6, 1, 7);
        $m!($($x)* U6, U1, U32, 6, 1, 32);
        $m!($($x)* U6, U2, U0, 6, 2, 0);
        $m!($($x)* U6, U2, U1, 6, 2, 1);
        $m!($($x)* U6, U2, U2, 6, 2, 2);
        $m!($($x)* U6, U2, U6, 6, 2, 6);
        $m!($($x)* U6, U2, U8, 6, 2, 8);
        $m!($($x)* U6, U2, U11, 6, 2, 11);
        $m!($($x)* U6, U2, U12, 6, 2, 12);
        $m!($($x)* U6, U2, U13, 6, 2, 13);
        $m!($($x)* U6, U2, U32, 6, 2, 32);
        $m!($($x)* U6, U3, U0, 6, 3, 0);
        $m!($($x)* U6, U3, U1, 6, 3, 1);
        $m!($($x)* U6, U3, U3, 6, 3, 3);
        $m!($($x)* U6, U3, U6, 6, 3, 6);
        $m!($($x)* U6, U3, U9, 6, 3, 9);
        $m!($($x)* U6, U3, U17, 6, 3, 17);
        $m!($($x)* U6, U3, U18, 6, 3, 18);
        $m!($($x)* U6, U3, U19, 6, 3, 19);
        $m!($($x)* U6, U3, U32, 6, 3, 32);
        $m!($($x)* U6, U4, U0, 6, 4, 0);
        $m!($($x)* U6, U4, U1, 6, 4, 1);
        $m!($($x)* U6, U4, U4, 6, 4, 4);
        $m!($($x)* U6, U4, U6, 6, 4, 6);
        $m!($($x)* U6, U4, U10, 6, 4, 10);
        $m!($($x)* U6, U4, U23, 6, 4, 23);
        $m!($($x)* U6, U4, U24, 6, 4, 24);
        $m!($($x)* U6, U4, U25, 6, 4, 25);
        $m!($($x)* U6, U4, U32, 6, 4, 32);
        $m!($($x)* U6, U5, U0, 6, 5, 0);
        $m!($($x)* U6, U5, U1, 6, 5, 1);
        $m!($($x)* U6, U5, U5, 6, 5, 5);
        $m!($($x)* U6, U5, U6, 6, 5, 6);
        $m!($($x)* U6, U5, U11, 6, 5, 11);
        $m!($($x)* U6, U5, U29, 6, 5, 29);
        $m!($($x)* U6, U5, U30, 6, 5, 30);
        $m!($($x)* U6, U5, U31, 6, 5, 31);
        $m!($($x)* U6, U5, U32, 6, 5, 32);
        $m!($($x)* U6, U6, U0, 6, 6, 0);
        $m!($($x)* U6, U6, U1, 6, 6, 1);
        $m!($($x)* U6, U6, U6, 6, 6, 6);
        $m!($($x)* U6, U6, U12, 6, 6, 12);
        $m!($($x)* U6, U6, U32, 6, 6, 32);
        $m!($($x)* U6, U7, U0, 6, 7, 0);
        $m!($($x)* U6, U7, U1, 6, 7, 1);
        $m!($($x)* U6, U7, U6, 6, 7, 6);
        $m!($($x)* U6, U7, U7, 6, 7, 7);
        $m!($($x)* U6, U7, U13, 6, 7, 13);
        $m!($($x)* U6, U7, U32, 6, 7, 32);
        $m!($($x)* U6, U8, U0, 6, 8, 0);
        $m!($($x)* U6, U8, U1, 6, 8, 1);
        $m!($($x)* U6, U8, U6, 6, 8, 6);
        $m!($($x)* U6, U8, U8, 6, 8, 8);
        $m!($($x)* U6, U8, U14, 6, 8, 14);
        $m!($($x)* U6, U8, U32, 6, 8, 32);
        $m!($($x)* U6, U9, U0, 6, 9, 0);
        $m!($($x)* U6, U9, U1, 6, 9, 1);
        $m!($($x)* U6, U9, U6, 6, 9, 6);
        $m!($($x)* U6, U9, U9, 6, 9, 9);
        $m!($($x)* U6, U9, U15, 6, 9, 15);
        $m!($($x)* U6, U9, U32, 6, 9, 32);
        $m!($($x)* U6, U10, U0, 6, 10, 0);
        $m!($($x)* U6, U10, U1, 6, 10, 1);
        $m!($($x)* U6, U10, U6, 6, 10, 6);
        $m!($($x)* U6, U10, U10, 6, 10, 10);
        $m!($($x)* U6, U10, U16, 6, 10, 16);
        $m!($($x)* U6, U10, U32, 6, 10, 32);
        $m!($($x)* U6, U11, U0, 6, 11, 0);
        $m!($($x)* U6, U11, U1, 6, 11, 1);
        $m!($($x)* U6, U11, U6, 6, 11, 6);
        $m!($($x)* U6, U11, U11, 6, 11, 11);
        $m!($($x)* U6, U11, U17, 6, 11, 17);
        $m!($($x)* U6, U11, U32, 6, 11, 32);
        $m!($($x)* U7, U1, U0, 7, 1, 0);
        $m!($($x)* U7, U1, U1, 7, 1, 1);
        $m!($($x)* U7, U1, U6, 7, 1, 6);
        $m!($($x)* U7, U1, U7, 7, 1, 7);
        $m!($($x)* U7, U1, U8, 7, 1, 8);
        $m!($($x)* U7, U1, U32, 7, 1, 32);
        $m!($($x)* U7, U2, U0, 7, 2, 0);
        $m!($($x)* U7, U2, U1, 7, 2, 1);
        $m!($($x)* U7, U2, U2, 7, 2, 2);
        $m!($($x)* U7, U2, U7, 7, 2, 7);
        $m!($($x)* U7, U2, U9, 7, 2, 9);
        $m!($($x)* U7, U2, U13, 7, 2, 13);
        $m!($($x)* U7, U2, U14, 7, 2, 14);
        $m!($($x)* U7, U2, U15, 7, 2, 15);
        $m!($($x)* U7, U2, U32, 7, 2, 32);
        $m!($($x)* U7, U3, U0, 7, 3, 0);
        $m!($($x)* U7, U3, U1, 7, 3, 1);
        $m!($($x)* U7, U3, U3, 7, 3, 3);
        $m!($($x)* U7, U3, U7, 7, 3, 7);
        $m!($($x)* U7, U3, U10, 7, 3, 10);
        $m!($($x)* U7, U3, U20, 7, 3, 20);
        $m!($($x)* U7, U3, U21, 7, 3, 21);
        $m!($($x)* U7, U3, U22, 7, 3, 22);
        $m!($($x)* U7, U3, U32, 7, 3, 32);
        $m!($($x)* U7, U4, U0, 7, 4, 0);
        $m!($($x)* U7, U4, U1, 7, 4, 1);
        $m!($($x)* U7, U4, U4, 7, 4, 4);
        $m!($($x)* U7, U4, U7, 7, 4, 7);
        $m!($($x)* U7, U4, U11, 7, 4, 11);
        $m!($($x)* U7, U4, U27, 7, 4, 27);
        $m!($($x)* U7, U4, U28, 7, 4, 28);
        $m!($($x)* U7, U4, U29, 7, 4, 29);
        $m!($($x)* U7, U4, U32, 7, 4, 32);
        $m!($($x)* U7, U5, U0, 7, 5, 0);
        $m!($($x)* U7, U5, U1, 7, 5, 1);
        $m!($($x)* U7, U5, U5, 7, 5, 5);
        $m!($($x)* U7, U5, U7, 7, 5, 7);
        $m!($($x)* U7, U5, U12, 7, 5, 12);
        $m!($($x)* U7, U5, U32, 7, 5, 32);
        $m!($($x)* U7, U6, U0, 7, 6, 0);
        $m!($($x)* U7, U6, U1, 7, 6, 1);
        $m!($($x)* U7, U6, U6, 7, 6, 6);
        $m!($($x)* U7, U6, U7, 7, 6, 7);
        $m!($($x)* U7, U6, U13, 7, 6, 13);
        $m!($($x)* U7, U6, U32, 7, 6, 32);
        $m!($($x)* U7, U7, U0, 7, 7, 0);
        $m!($($x)* U7, U7, U1, 7, 7, 1);
        $m!($($x)* U7, U7, U7, 7, 7, 7);
        $m!($($x)* U7, U7, U14, 7, 7, 14);
        $m!($($x)* U7, U7, U32, 7, 7, 32);
        $m!($($x)* U7, U8, U0, 7, 8, 0);
        $m!($($x)* U7, U8, U1, 7, 8, 1);
        $m!($($x)* U7, U8, U7, 7, 8, 7);
        $m!($($x)* U7, U8, U8, 7, 8, 8);
        $m!($($x)* U7, U8, U15, 7, 8, 15);
        $m!($($x)* U7, U8, U32, 7, 8, 32);
        $m!($($x)* U7, U9, U0, 7, 9, 0);
        $m!($($x)* U7, U9, U1, 7, 9, 1);
        $m!($($x)* U7, U9, U7, 7, 9, 7);
        $m!($($x)* U7, U9, U9, 7, 9, 9);
        $m!($($x)* U7, U9, U16, 7, 9, 16);
        $m!($($x)* U7, U9, U32, 7, 9, 32);
        $m!($($x)* U7, U10, U0, 7, 10, 0);
        $m!($($x)* U7, U10, U1, 7, 10, 1);
        $m!($($x)* U7, U10, U7, 7, 10, 7);
        $m!($($x)* U7, U10, U10, 7, 10, 10);
        $m!($($x)* U7, U10, U17, 7, 10, 17);
        $m!($($x)* U7, U10, U32, 7, 10, 32);
        $m!($($x)* U7, U11, U0, 7, 11, 0);
        $m!($($x)* U7, U11, U1, 7, 11, 1);
        $m!($($x)* U7, U11, U7, 7, 11, 7);
        $m!($($x)* U7, U11, U11, 7, 11, 11);
        $m!($($x)* U7, U11, U18, 7, 11, 18);
        $m!($($x)* U7, U11, U32, 7, 11, 32);
        $m!($($x)* U8, U1, U0, 8, 1, 0);
        $m!($($x)* U8, U1, U1, 8, 1, 1);
        $m!($($x)* U8, U1, U7, 8, 1, 7);
        $m!($($x)* U8, U1, U8, 8, 1, 8);
        $m!($($x)* U8, U1, U9, 8, 1, 9);
        $m!($($x)* U8, U1, U32, 8, 1, 32);
        $m!($($x)* U8, U2, U0, 8, 2, 0);
        $m!($($x)* U8, U2, U1, 8, 2, 1);
        $m!($($x)* U8, U2, U2, 8, 2, 2);
        $m!($($x)* U8, U2, U8, 8, 2, 8);
        $m!($($x)* U8, U2, U10, 8, 2, 10);
        $m!($($x)* U8, U2, U15, 8, 2, 15);
        $m!($($x)* U8, U2, U16, 8, 2, 16);
        $m!($($x)* U8, U2, U17, 8, 2, 17);
        $m!($($x)* U8, U2, U32, 8, 2, 32);
        $m!($($x)* U8, U3, U0, 8, 3, 0);
        $m!($($x)* U8, U3, U1, 8, 3, 1);
        $m!($($x)* U8, U3, U3, 8, 3, 3);
        $m!($($x)* U8, U3, U8, 8, 3, 8);
        $m!($($x)* U8, U3, U11, 8, 3, 11);
        $m!($($x)* U8, U3, U23, 8, 3, 23);
        $m!($($x)* U8, U3, U24, 8, 3, 24);
        $m!($($x)* U8, U3, U25, 8, 3, 25);
        $m!($($x)* U8, U3, U32, 8, 3, 32);
        $m!($($x)* U8, U4, U0, 8, 4, 0);
        $m!($($x)* U8, U4, U1, 8, 4, 1);
        $m!($($x)* U8, U4, U4, 8, 4, 4);
        $m!($($x)* U8, U4, U8, 8, 4, 8);
        $m!($($x)* U8, U4, U12, 8, 4, 12);
        $m!($($x)* U8, U4, U31, 8, 4, 31);
        $m!($($x)* U8, U4, U32, 8, 4, 32);
        $m!($($x)* U8, U5, U0, 8, 5, 0);
        $m!($($x)* U8, U5, U1, 8, 5, 1);
        $m!($($x)* U8, U5, U5, 8, 5, 5);
        $m!($($x)* U8, U5, U8, 8, 5, 8);
        $m!($($x)* U8, U5, U13, 8, 5, 13);
        $m!($($x)* U8, U5, U32, 8, 5, 32);
        $m!($($x)* U8, U6, U0, 8, 6, 0);
        $m!($($x)* U8, U6, U1, 8, 6, 1);
        $m!($($x)* U8, U6, U6, 8, 6, 6);
        $m!($($x)* U8, U6, U8, 8, 6, 8);
        $m!($($x)* U8, U6, U14, 8, 6, 14);
        $m!($($x)* U8, U6, U32, 8, 6, 32);
        $m!($($x)* U8, U7, U0, 8, 7, 0);
        $m!($($x)* U8, U7, U1, 8, 7, 1);
        $m!($($x)* U8, U7, U7, 8, 7, 7);
        $m!($($x)* U8, U7, U8, 8, 7, 8);
        $m!($($x)* U8, U7, U15, 8, 7, 15);
        $m!($($x)* U8, U7, U32, 8, 7, 32);
        $m!($($x)* U8, U8, U0, 8, 8, 0);
        $m!($($x)* U8, U8, U1, 8, 8, 1);
        $m!($($x)* U8, U8, U8, 8, 8, 8);
        $m!($($x)* U8, U8, U16, 8, 8, 16);
        $m!($($x)* U8, U8, U32, 8, 8, 32);
        $m!($($x)* U8, U9, U0, 8, 9, 0);
        $m!($($x)* U8, U9, U1, 8, 9, 1);
        $m!($($x)* U8, U9, U8, 8, 9, 8);
        $m!($($x)* U8, U9, U9, 8, 9, 9);
        $m!($($x)* U8, U9, U17, 8, 9, 17);
        $m!($($x)* U8, U9, U32, 8, 9, 32);
        $m!($($x)* U8, U10, U0, 8, 10, 0);
        $m!($($x)* U8, U10, U1, 8, 10, 1);
        $m!($($x)* U8, U10, U8, 8, 10, 8);
        $m!($($x)* U8, U10, U10, 8, 10, 10);
        $m!($($x)* U8, U10, U18, 8, 10, 18);
        $m!($($x)* U8, U10, U32, 8, 10, 32);
        $m!($($x)* U8, U11, U0, 8, 11, 0);
        $m!($($x)* U8, U11, U1, 8, 11, 1);
        $m!($($x)* U8, U11, U8, 8, 11, 8);
        $m!($($x)* U8, U11, U11, 8, 11, 11);
        $m!($($x)* U8, U11, U19, 8, 11, 19);
        $m!($($x)* U8, U11, U32, 8, 11, 32);
        $m!($($x)* U9, U1, U0, 9, 1, 0);
        $m!($($x)* U9, U1, U1, 9, 1, 1);
        $m!($($x)* U9, U1, U8, 9, 1, 8);
        $m!($($x)* U9, U1, U9, 9, 1, 9);
        $m!($($x)* U9, U1, U10, 9, 1, 10);
        $m!($($x)* U9, U1, U32, 9, 1, 32);
        $m!($($x)* U9, U2, U0, 9, 2, 0);
        $m!($($x)* U9, U2, U1, 9, 2, 1);
        $m!($($x)* U9, U2, U2, 9, 2, 2);
        $m!($($x)* U9, U2, U9, 9, 2, 9);
        $m!($($x)* U9, U2, U11, 9, 2, 11);
        $m!($($x)* U9, U2, U17, 9, 2, 17);
        $m!($($x)* U9, U2, U18, 9, 2, 18);
        $m!($($x)* U9, U2, U19, 9, 2, 19);
        $m!($($x)* U9, U2, U32, 9, 2, 32);
        $m!($($x)* U9, U3, U0, 9, 3, 0);
        $m!($($x)* U9, U3, U1, 9, 3, 1);
        $m!($($x)* U9, U3, U3, 9, 3, 3);
        $m!($($x)* U9, U3, U9, 9, 3, 9);
        $m!($($x)* U9, U3, U12, 9, 3, 12);
        $m!($($x)* U9, U3, U26, 9, 3, 26);
        $m!($($x)* U9, U3, U27, 9, 3, 27);
        $m!($($x)* U9, U3, U28, 9, 3, 28);
        $m!($($x)* U9, U3, U32, 9, 3, 32);
        $m!($($x)* U9, U4, U0, 9, 4, 0);
        $m!($($x)* U9, U4, U1, 9, 4, 1);
        $m!($($x)* U9, U4, U4, 9, 4, 4);
        $m!($($x)* U9, U4, U9, 9, 4, 9);
        $m!($($x)* U9, U4, U13, 9, 4, 13);
        $m!($($x)* U9, U4, U32, 9, 4, 32);
        $m!($($x)* U9, U5, U0, 9, 5, 0);
        $m!($($x)* U9, U5, U1, 9, 5, 1);
        $m!($($x)* U9, U5, U5, 9, 5, 5);
        $m!($($x)* U9, U5, U9, 9, 5, 9);
        $m!($($x)* U9, U5, U14, 9, 5, 14);
        $m!($($x)* U9, U5, U32, 9, 5, 32);
        $m!($($x)* U9, U6, U0, 9, 6, 0);
        $m!($($x)* U9, U6, U1, 9, 6, 1);
        $m!($($x)* U9, U6, U6, 9, 6, 6);
        $m!($($x)* U9, U6, U9, 9, 6, 9);
        $m!($($x)* U9, U6, U15, 9, 6, 15);
        $m!($($x)* U9, U6, U32, 9, 6, 32);
        $m!($($x)* U9, U7, U0, 9, 7, 0);
        $m!($($x)* U9, U7, U1, 9, 7, 1);
        $m!($($x)* U9, U7, U7, 9, 7, 7);
        $m!($($x)* U9, U7, U9, 9, 7, 9);
        $m!($($x)* U9, U7, U16, 9, 7, 16);
        $m!($($x)* U9, U7, U32, 9, 7, 32);
        $m!($($x)* U9, U8, U0, 9, 8, 0);
        $m!($($x)* U9, U8, U1, 9, 8, 1);
        $m!($($x)* U9, U8, U8, 9, 8, 8);
        $m!($($x)* U9, U8, U9, 9, 8, 9);
        $m!($($x)* U9, U8, U17, 9, 8, 17);
        $m!($($x)* U9, U8, U32, 9, 8, 32);
        $m!($($x)* U9, U9, U0, 9, 9, 0);
        $m!($($x)* U9, U9, U1, 9, 9, 1);
        $m!($($x)* U9, U9, U9, 9, 9, 9);
        $m!($($x)* U9, U9, U18, 9, 9, 18);
        $m!($($x)* U9, U9, U32, 9, 9, 32);
        $m!($($x)* U9, U10, U0, 9, 10, 0);
        $m!($($x)* U9, U10, U1, 9, 10, 1);
        $m!($($x)* U9, U10, U9, 9, 10, 9);
        $m!($($x)* U9, U10, U10, 9, 10, 10);
        $m!($($x)* U9, U10, U19, 9, 10, 19);
        $m!($($x)* U9, U10, U32, 9, 10, 32);
        $m!($($x)* U9, U11, U0, 9, 11, 0);
        $m!($($x)* U9, U11, U1, 9, 11, 1);
        $m!($($x)* U9, U11, U9, 9, 11, 9);
        $m!($($x)* U9, U11, U11, 9, 11, 11);
        $m!($($x)* U9, U11, U20, 9, 11, 20);
        $m!($($x)* U9, U11, U32, 9, 11, 32);
        $m!($($x)* U10, U1, U0, 10, 1, 0);
        $m!($($x)* U10, U1, U1, 10, 1, 1);
        $m!($($x)* U10, U1, U9, 10, 1, 9);
        $m!($($x)* U10, U1, U10, 10, 1, 10);
        $m!($($x)* U10, U1, U11, 10, 1, 11);
        $m!($($x)* U10, U1, U32, 10, 1, 32);
        $m!($($x)* U10, U2, U0, 10, 2, 0);
        $m!($($x)* U10, U2, U1, 10, 2, 1);
        $m!($($x)* U10, U2, U2, 10, 2, 2);
        $m!($($x)* U10, U2, U10, 10, 2, 10);
        $m!($($x)* U10, U2, U12, 10, 2, 12);
        $m!($($x)* U10, U2, U19, 10, 2, 19);
        $m!($($x)* U10, U2, U20, 10, 2, 20);
        $m!($($x)* U10, U2, U21, 10, 2, 21);
        $m!($($x)* U10, U2, U32, 10, 2, 32);
        $m!($($x)* U10, U3, U0, 10, 3, 0);
        $m!($($x)* U10, U3, U1, 10, 3, 1);
        $m!($($x)* U10, U3, U3, 10, 3, 3);
        $m!($($x)* U10, U3, U10, 10, 3, 10);
        $m!($($x)* U10, U3, U13, 10, 3, 13);
        $m!($($x)* U10, U3, U29, 10, 3, 29);
        $m!($($x)* U10, U3, U30, 10, 3, 30);
        $m!($($x)* U10, U3, U31, 10, 3, 31);
        $m!($($x)* U10, U3, U32, 10, 3, 32);
        $m!($($x)* U10, U4, U0, 10, 4, 0);
        $m!($($x)* U10, U4, U1, 10, 4, 1);
        $m!($($x)* U10, U4, U4, 10, 4, 4);
        $m!($($x)* U10, U4, U10, 10, 4, 10);
        $m!($($x)* U10, U4, U14, 10, 4, 14);
        $m!($($x)* U10, U4, U32, 10, 4, 32);
        $m!($($x)* U10, U5, U0, 10, 5, 0);
        $m!($($x)* U10, U5, U1, 10, 5, 1);
        $m!($($x)* U10, U5, U5, 10, 5, 5);
        $m!($($x)* U10, U5, U10, 10, 5, 10);
        $m!($($x)* U10, U5, U15, 10, 5, 15);
        $m!($($x)* U10, U5, U32, 10, 5, 32);
        $m!($($x)* U10, U6, U0, 10, 6, 0);
        $m!($($x)* U10, U6, U1, 10, 6, 1);
        $m!($($x)* U10, U6, U6, 10, 6, 6);
        $m!($($x)* U10, U6, U10, 10, 6, 10);
        $m!($($x)* U10, U6, U16, 10, 6, 16);
        $m!($($x)* U10, U6, U32, 10, 6, 32);
        $m!($($x)* U10, U7, U0, 10, 7, 0);
        $m!($($x)* U10, U7, U1, 10, 7, 1);
        $m!($($x)* U10, U7, U7, 10, 7, 7);
        $m!($($x)* U10, U7, U10, 10, 7, 10);
        $m!($($x)* U10, U7, U17, 10, 7, 17);
        $m!($($x)* U10, U7, U32, 10, 7, 32);
        $m!($($x)* U10, U8, U0, 10, 8, 0);
        $m!($($x)* U10, U8, U1, 10, 8, 1);
        $m!($($x)* U10, U8, U8, 10, 8, 8);
        $m!($($x)* U10, U8, U10, 10, 8, 10);
        $m!($($x)* U10, U8, U18, 10, 8, 18);
        $m!($($x)* U10, U8, U32, 10, 8, 32);
        $m!($($x)* U10, U9, U0, 10, 9, 0);
        $m!($($x)* U10, U9, U1, 10, 9, 1);
        $m!($($x)* U10, U9, U9, 10, 9, 9);
        $m!($($x)* U10, U9, U10, 10, 9, 10);
        $m!($($x)* U10, U9, U19, 10, 9, 19);
        $m!($($x)* U10, U9, U32, 10, 9, 32);
        $m!($($x)* U10, U10, U0, 10, 10, 0);
        $m!($($x)* U10, U10, U1, 10, 10, 1);
        $m!($($x)* U10, U10, U10, 10, 10, 10);
        $m!($($x)* U10, U10, U20, 10, 10, 20);
        $m!($($x)* U10, U10, U32, 10, 10, 32);
        $m!($($x)* U10, U11, U0, 10, 11, 0);
        $m!($($x)* U10, U11, U1, 10, 11, 1);
        $m!($($x)* U10, U11, U10, 10, 11, 10);
        $m!($($x)* U10, U11, U11, 10, 11, 11);
        $m!($($x)* U10, U11, U21, 10, 11, 21);
        $m!($($x)* U10, U11, U32, 10, 11, 32);
        $m!($($x)* U11, U1, U0, 11, 1, 0);
        $m!($($x)* U11, U1, U1, 11, 1, 1);
        $m!($($x)* U11, U1, U10, 11, 1, 10);
        $m!($($x)* U11, U1, U11, 11, 1, 11);
        $m!($($x)* U11, U1, U12, 11, 1, 12);
        $m!($($x)* U11, U1, U32, 11, 1, 32);
        $m!($($x)* U11, U2, U0, 11, 2, 0);
        $m!($($x)* U11, U2, U1, 11, 2, 1);
        $m!($($x)* U11, U2, U2, 11, 2, 2);
        $m!($($x)* U11, U2, U11, 11, 2, 11);
        $m!($($x)* U11, U2, U13, 11, 2, 13);
        $m!($($x)* U11, U2, U21, 11, 2, 21);
        $m!($($x)* U11, U2, U22, 11, 2, 22);
        $m!($($x)* U11, U2, U23, 11, 2, 23);
        $m!($($x)* U11, U2, U32, 11, 2, 32);
        $m!($($x)* U11, U3, U0, 11, 3, 0);
        $m!($($x)* U11, U3, U1, 11, 3, 1);
        $m!($($x)* U11, U3, U3, 11, 3, 3);
        $m!($($x)* U11, U3, U11, 11, 3, 11);
        $m!($($x)* U11, U3, U14, 11, 3, 14);
        $m!($($x)* U11, U3, U32, 11, 3, 32);
        $m!($($x)* U11, U4, U0, 11, 4, 0);
        $m!($($x)* U11, U4, U1, 11, 4, 1);
        $m!($($x)* U11, U4, U4, 11, 4, 4);
        $m!($($x)* U11, U4, U11, 11, 4, 11);
        $m!($($x)* U11, U4, U15, 11, 4, 15);
        $m!($($x)* U11, U4, U32, 11, 4, 32);
        $m!($($x)* U11, U5, U0, 11, 5, 0);
        $m!($($x)* U11, U5, U1, 11, 5, 1);
        $m!($($x)* U11, U5, U5, 11, 5, 5);
        $m!($($x)* U11, U5, U11, 11, 5, 11);
        $m!($($x)* U11, U5, U16, 11, 5, 16);
        $m!($($x)* U11, U5, U32, 11, 5, 32);
        $m!($($x)* U11, U6, U0, 11, 6, 0);
        $m!($($x)* U11, U6, U1, 11, 6, 1);
        $m!($($x)* U11, U6, U6, 11, 6, 6);
        $m!($($x)* U11, U6, U11, 11, 6, 11);
        $m!($($x)* U11, U6, U17, 11, 6, 17);
        $m!($($x)* U11, U6, U32, 11, 6, 32);
        $m!($($x)* U11, U7, U0, 11, 7, 0);
        $m!($($x)* U11, U7, U1, 11, 7, 1);
        $m!($($x)* U11, U7, U7, 11, 7, 7);
        $m!($($x)* U11, U7, U11, 11, 7, 11);
        $m!($($x)* U11, U7, U18, 11, 7, 18);
        $m!($($x)* U11, U7, U32, 11, 7, 32);
        $m!($($x)* U11, U8, U0, 11, 8, 0);
        $m!($($x)* U11, U8, U1, 11, 8, 1);
        $m!($($x)* U11, U8, U8, 11, 8, 8);
        $m!($($x)* U11, U8, U11, 11, 8, 11);
        $m!($($x)* U11, U8, U19, 11, 8, 19);
        $m!($($x)* U11, U8, U32, 11, 8, 32);
        $m!($($x)* U11, U9, U0, 11, 9, 0);
        $m!($($x)* U11, U9, U1, 11, 9, 1);
        $m!($($x)* U11, U9, U9, 11, 9, 9);
        $m!($($x)* U11, U9, U11, 11, 9, 11);
        $m!($($x)* U11, U9, U20, 11, 9, 20);
        $m!($($x)* U11, U9, U32, 11, 9, 32);
        $m!($($x)* U11, U10, U0, 11, 10, 0);
        $m!($($x)* U11, U10, U1, 11, 10, 1);
        $m!($($x)* U11, U10, U10, 11, 10, 10);
        $m!($($x)* U11, U10, U11, 11, 10, 11);
        $m!($($x)* U11, U10, U21, 11, 10, 21);
        $m!($($x)* U11, U10, U32, 11, 10, 32);
        $m!($($x)* U11, U11, U0, 11, 11, 0);
        $m!($($x)* U11, U11, U1, 11, 11, 1);
        $m!($($x)* U11, U11, U11, 11, 11, 11);
        $m!($($x)* U11, U11, U22, 11, 11, 22);
        $m!($($x)* U11, U11, U32, 11, 11, 32);
        $m!($($x)* U1, U32, U32, 1, 32, 32);
        $m!($($x)* U32, U1, U32, 32, 1, 32);
        $m!($($x)* U32, U1, U31, 32, 1, 31);
        $m!($($x)* U31, U1, U31, 31, 1, 31);
        $m!($($x)* U1, U31, U32, 1, 31, 32);
        $m!($($x)* U2, U16, U32, 2, 16, 32);
        $m!($($x)* U16, U2, U32, 16, 2, 32);
        $m!($($x)* U16, U2, U31, 16, 2, 31);
        $m!($($x)* U32, U2, U32, 32, 2, 32);
        $m!($($x)* U2, U32, U32, 2, 32, 32);
        $m!($($x)* U32, U32, U32, 32, 32, 32);
        $m!($($x)* U0, U32, U0, 0, 32, 0);
        $m!($($x)* U0, U32, U32, 0, 32, 32);
    };
}
