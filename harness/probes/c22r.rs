//! Generated by gen_probes.py: not run, only type-checked; each marked line must (not) be an error.
#![allow(unused)]
use rowcol::prelude::*;
use rowcol::vector::Vector;
use rowcol::matrix::ops::{Determinant, Cofactor, Inverse};
use num::{One, Zero};
use approx::ApproxEq;
fn v<N: rowcol::vector::ArrayLen<i64>>() -> Vector<i64, N> { loop {} }
fn m<R: rowcol::vector::ArrayLen<Vector<f64, C>>, C: rowcol::vector::ArrayLen<f64>>() -> Matrix<f64, R, C> { loop {} }
fn k<R: rowcol::vector::ArrayLen<Vector<i64, C>>, C: rowcol::vector::ArrayLen<i64>>() -> Matrix<i64, R, C> { loop {} }
fn main() {}
fn p1() { let _ = v::<U0>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 0 in chunks of 1
fn p2() { let _ = v::<U0>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 0 in chunks of 2
fn p3() { let _ = v::<U0>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 0 in chunks of 3
fn p4() { let _ = v::<U0>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 0 in chunks of 4
fn p5() { let _ = v::<U0>().into_chunks::<U5>(); } // ACCEPT	into_chunks	length 0 in chunks of 5
fn p6() { let _ = v::<U0>().into_chunks::<U6>(); } // ACCEPT	into_chunks	length 0 in chunks of 6
fn p7() { let _ = v::<U0>().into_chunks::<U7>(); } // ACCEPT	into_chunks	length 0 in chunks of 7
fn p8() { let _ = v::<U0>().into_chunks::<U8>(); } // ACCEPT	into_chunks	length 0 in chunks of 8
fn p9() { let _ = v::<U0>().into_chunks::<U9>(); } // ACCEPT	into_chunks	length 0 in chunks of 9
fn p10() { let _ = v::<U0>().into_chunks::<U10>(); } // ACCEPT	into_chunks	length 0 in chunks of 10
fn p11() { let _ = v::<U0>().into_chunks::<U11>(); } // ACCEPT	into_chunks	length 0 in chunks of 11
fn p12() { let _ = v::<U0>().into_chunks::<U12>(); } // ACCEPT	into_chunks	length 0 in chunks of 12
fn p13() { let _ = v::<U0>().into_chunks::<U13>(); } // ACCEPT	into_chunks	length 0 in chunks of 13
fn p14() { let _ = v::<U0>().into_chunks::<U14>(); } // ACCEPT	into_chunks	length 0 in chunks of 14
fn p15() { let _ = v::<U0>().into_chunks::<U15>(); } // ACCEPT	into_chunks	length 0 in chunks of 15
fn p16() { let _ = v::<U0>().into_chunks::<U16>(); } // ACCEPT	into_chunks	length 0 in chunks of 16
fn p17() { let _ = v::<U0>().into_chunks::<U17>(); } // ACCEPT	into_chunks	length 0 in chunks of 17
fn p18() { let _ = v::<U0>().into_chunks::<U18>(); } // ACCEPT	into_chunks	length 0 in chunks of 18
fn p19() { let _ = v::<U0>().into_chunks::<U19>(); } // ACCEPT	into_chunks	length 0 in chunks of 19
fn p20() { let _ = v::<U0>().into_chunks::<U20>(); } // ACCEPT	into_chunks	length 0 in chunks of 20
fn p21() { let _ = v::<U0>().into_chunks::<U21>(); } // ACCEPT	into_chunks	length 0 in chunks of 21
fn p22() { let _ = v::<U0>().into_chunks::<U22>(); } // ACCEPT	into_chunks	length 0 in chunks of 22
fn p23() { let _ = v::<U0>().into_chunks::<U23>(); } // ACCEPT	into_chunks	length 0 in chunks of 23
fn p24() { let _ = v::<U0>().into_chunks::<U24>(); } // ACCEPT	into_chunks	length 0 in chunks of 24
fn p25() { let _ = v::<U0>().into_chunks::<U25>(); } // ACCEPT	into_chunks	length 0 in chunks of 25
fn p26() { let _ = v::<U0>().into_chunks::<U26>(); } // ACCEPT	into_chunks	length 0 in chunks of 26
fn p27() { let _ = v::<U0>().into_chunks::<U27>(); } // ACCEPT	into_chunks	length 0 in chunks of 27
fn p28() { let _ = v::<U0>().into_chunks::<U28>(); } // ACCEPT	into_chunks	length 0 in chunks of 28
fn p29() { let _ = v::<U0>().into_chunks::<U29>(); } // ACCEPT	into_chunks	length 0 in chunks of 29
fn p30() { let _ = v::<U0>().into_chunks::<U30>(); } // ACCEPT	into_chunks	length 0 in chunks of 30
fn p31() { let _ = v::<U0>().into_chunks::<U31>(); } // ACCEPT	into_chunks	length 0 in chunks of 31
fn p32() { let _ = v::<U0>().into_chunks::<U32>(); } // ACCEPT	into_chunks	length 0 in chunks of 32
fn p33() { let _ = v::<U1>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 1 in chunks of 1
fn p34() { let _ = v::<U1>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 1 in chunks of 2
fn p35() { let _ = v::<U1>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 1 in chunks of 3
fn p36() { let _ = v::<U1>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 1 in chunks of 4
fn p37() { let _ = v::<U1>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 1 in chunks of 5
fn p38() { let _ = v::<U1>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 1 in chunks of 6
fn p39() { let _ = v::<U1>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 1 in chunks of 7
fn p40() { let _ = v::<U1>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 1 in chunks of 8
fn p41() { let _ = v::<U1>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 1 in chunks of 9
fn p42() { let _ = v::<U1>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 1 in chunks of 10
fn p43() { let _ = v::<U1>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 1 in chunks of 11
fn p44() { let _ = v::<U1>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 1 in chunks of 12
fn p45() { let _ = v::<U1>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 1 in chunks of 13
fn p46() { let _ = v::<U1>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 1 in chunks of 14
fn p47() { let _ = v::<U1>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 1 in chunks of 15
fn p48() { let _ = v::<U1>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 1 in chunks of 16
fn p49() { let _ = v::<U1>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 1 in chunks of 17
fn p50() { let _ = v::<U1>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 1 in chunks of 18
fn p51() { let _ = v::<U1>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 1 in chunks of 19
fn p52() { let _ = v::<U1>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 1 in chunks of 20
fn p53() { let _ = v::<U1>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 1 in chunks of 21
fn p54() { let _ = v::<U1>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 1 in chunks of 22
fn p55() { let _ = v::<U1>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 1 in chunks of 23
fn p56() { let _ = v::<U1>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 1 in chunks of 24
fn p57() { let _ = v::<U1>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 1 in chunks of 25
fn p58() { let _ = v::<U1>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 1 in chunks of 26
fn p59() { let _ = v::<U1>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 1 in chunks of 27
fn p60() { let _ = v::<U1>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 1 in chunks of 28
fn p61() { let _ = v::<U1>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 1 in chunks of 29
fn p62() { let _ = v::<U1>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 1 in chunks of 30
fn p63() { let _ = v::<U1>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 1 in chunks of 31
fn p64() { let _ = v::<U1>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 1 in chunks of 32
fn p65() { let _ = v::<U2>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 2 in chunks of 1
fn p66() { let _ = v::<U2>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 2 in chunks of 2
fn p67() { let _ = v::<U2>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 2 in chunks of 3
fn p68() { let _ = v::<U2>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 2 in chunks of 4
fn p69() { let _ = v::<U2>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 2 in chunks of 5
fn p70() { let _ = v::<U2>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 2 in chunks of 6
fn p71() { let _ = v::<U2>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 2 in chunks of 7
fn p72() { let _ = v::<U2>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 2 in chunks of 8
fn p73() { let _ = v::<U2>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 2 in chunks of 9
fn p74() { let _ = v::<U2>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 2 in chunks of 10
fn p75() { let _ = v::<U2>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 2 in chunks of 11
fn p76() { let _ = v::<U2>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 2 in chunks of 12
fn p77() { let _ = v::<U2>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 2 in chunks of 13
fn p78() { let _ = v::<U2>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 2 in chunks of 14
fn p79() { let _ = v::<U2>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 2 in chunks of 15
fn p80() { let _ = v::<U2>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 2 in chunks of 16
fn p81() { let _ = v::<U2>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 2 in chunks of 17
fn p82() { let _ = v::<U2>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 2 in chunks of 18
fn p83() { let _ = v::<U2>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 2 in chunks of 19
fn p84() { let _ = v::<U2>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 2 in chunks of 20
fn p85() { let _ = v::<U2>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 2 in chunks of 21
fn p86() { let _ = v::<U2>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 2 in chunks of 22
fn p87() { let _ = v::<U2>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 2 in chunks of 23
fn p88() { let _ = v::<U2>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 2 in chunks of 24
fn p89() { let _ = v::<U2>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 2 in chunks of 25
fn p90() { let _ = v::<U2>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 2 in chunks of 26
fn p91() { let _ = v::<U2>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 2 in chunks of 27
fn p92() { let _ = v::<U2>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 2 in chunks of 28
fn p93() { let _ = v::<U2>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 2 in chunks of 29
fn p94() { let _ = v::<U2>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 2 in chunks of 30
fn p95() { let _ = v::<U2>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 2 in chunks of 31
fn p96() { let _ = v::<U2>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 2 in chunks of 32
fn p97() { let _ = v::<U3>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 3 in chunks of 1
fn p98() { let _ = v::<U3>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 3 in chunks of 2
fn p99() { let _ = v::<U3>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 3 in chunks of 3
fn p100() { let _ = v::<U3>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 3 in chunks of 4
fn p101() { let _ = v::<U3>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 3 in chunks of 5
fn p102() { let _ = v::<U3>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 3 in chunks of 6
fn p103() { let _ = v::<U3>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 3 in chunks of 7
fn p104() { let _ = v::<U3>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 3 in chunks of 8
fn p105() { let _ = v::<U3>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 3 in chunks of 9
fn p106() { let _ = v::<U3>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 3 in chunks of 10
fn p107() { let _ = v::<U3>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 3 in chunks of 11
fn p108() { let _ = v::<U3>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 3 in chunks of 12
fn p109() { let _ = v::<U3>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 3 in chunks of 13
fn p110() { let _ = v::<U3>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 3 in chunks of 14
fn p111() { let _ = v::<U3>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 3 in chunks of 15
fn p112() { let _ = v::<U3>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 3 in chunks of 16
fn p113() { let _ = v::<U3>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 3 in chunks of 17
fn p114() { let _ = v::<U3>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 3 in chunks of 18
fn p115() { let _ = v::<U3>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 3 in chunks of 19
fn p116() { let _ = v::<U3>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 3 in chunks of 20
fn p117() { let _ = v::<U3>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 3 in chunks of 21
fn p118() { let _ = v::<U3>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 3 in chunks of 22
fn p119() { let _ = v::<U3>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 3 in chunks of 23
fn p120() { let _ = v::<U3>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 3 in chunks of 24
fn p121() { let _ = v::<U3>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 3 in chunks of 25
fn p122() { let _ = v::<U3>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 3 in chunks of 26
fn p123() { let _ = v::<U3>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 3 in chunks of 27
fn p124() { let _ = v::<U3>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 3 in chunks of 28
fn p125() { let _ = v::<U3>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 3 in chunks of 29
fn p126() { let _ = v::<U3>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 3 in chunks of 30
fn p127() { let _ = v::<U3>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 3 in chunks of 31
fn p128() { let _ = v::<U3>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 3 in chunks of 32
fn p129() { let _ = v::<U4>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 4 in chunks of 1
fn p130() { let _ = v::<U4>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 4 in chunks of 2
fn p131() { let _ = v::<U4>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 4 in chunks of 3
fn p132() { let _ = v::<U4>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 4 in chunks of 4
fn p133() { let _ = v::<U4>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 4 in chunks of 5
fn p134() { let _ = v::<U4>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 4 in chunks of 6
fn p135() { let _ = v::<U4>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 4 in chunks of 7
fn p136() { let _ = v::<U4>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 4 in chunks of 8
fn p137() { let _ = v::<U4>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 4 in chunks of 9
fn p138() { let _ = v::<U4>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 4 in chunks of 10
fn p139() { let _ = v::<U4>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 4 in chunks of 11
fn p140() { let _ = v::<U4>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 4 in chunks of 12
fn p141() { let _ = v::<U4>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 4 in chunks of 13
fn p142() { let _ = v::<U4>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 4 in chunks of 14
fn p143() { let _ = v::<U4>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 4 in chunks of 15
fn p144() { let _ = v::<U4>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 4 in chunks of 16
fn p145() { let _ = v::<U4>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 4 in chunks of 17
fn p146() { let _ = v::<U4>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 4 in chunks of 18
fn p147() { let _ = v::<U4>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 4 in chunks of 19
fn p148() { let _ = v::<U4>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 4 in chunks of 20
fn p149() { let _ = v::<U4>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 4 in chunks of 21
fn p150() { let _ = v::<U4>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 4 in chunks of 22
fn p151() { let _ = v::<U4>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 4 in chunks of 23
fn p152() { let _ = v::<U4>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 4 in chunks of 24
fn p153() { let _ = v::<U4>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 4 in chunks of 25
fn p154() { let _ = v::<U4>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 4 in chunks of 26
fn p155() { let _ = v::<U4>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 4 in chunks of 27
fn p156() { let _ = v::<U4>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 4 in chunks of 28
fn p157() { let _ = v::<U4>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 4 in chunks of 29
fn p158() { let _ = v::<U4>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 4 in chunks of 30
fn p159() { let _ = v::<U4>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 4 in chunks of 31
fn p160() { let _ = v::<U4>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 4 in chunks of 32
fn p161() { let _ = v::<U5>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 5 in chunks of 1
fn p162() { let _ = v::<U5>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 5 in chunks of 2
fn p163() { let _ = v::<U5>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 5 in chunks of 3
fn p164() { let _ = v::<U5>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 5 in chunks of 4
fn p165() { let _ = v::<U5>().into_chunks::<U5>(); } // ACCEPT	into_chunks	length 5 in chunks of 5
fn p166() { let _ = v::<U5>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 5 in chunks of 6
fn p167() { let _ = v::<U5>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 5 in chunks of 7
fn p168() { let _ = v::<U5>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 5 in chunks of 8
fn p169() { let _ = v::<U5>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 5 in chunks of 9
fn p170() { let _ = v::<U5>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 5 in chunks of 10
fn p171() { let _ = v::<U5>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 5 in chunks of 11
fn p172() { let _ = v::<U5>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 5 in chunks of 12
fn p173() { let _ = v::<U5>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 5 in chunks of 13
fn p174() { let _ = v::<U5>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 5 in chunks of 14
fn p175() { let _ = v::<U5>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 5 in chunks of 15
fn p176() { let _ = v::<U5>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 5 in chunks of 16
fn p177() { let _ = v::<U5>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 5 in chunks of 17
fn p178() { let _ = v::<U5>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 5 in chunks of 18
fn p179() { let _ = v::<U5>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 5 in chunks of 19
fn p180() { let _ = v::<U5>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 5 in chunks of 20
fn p181() { let _ = v::<U5>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 5 in chunks of 21
fn p182() { let _ = v::<U5>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 5 in chunks of 22
fn p183() { let _ = v::<U5>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 5 in chunks of 23
fn p184() { let _ = v::<U5>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 5 in chunks of 24
fn p185() { let _ = v::<U5>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 5 in chunks of 25
fn p186() { let _ = v::<U5>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 5 in chunks of 26
fn p187() { let _ = v::<U5>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 5 in chunks of 27
fn p188() { let _ = v::<U5>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 5 in chunks of 28
fn p189() { let _ = v::<U5>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 5 in chunks of 29
fn p190() { let _ = v::<U5>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 5 in chunks of 30
fn p191() { let _ = v::<U5>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 5 in chunks of 31
fn p192() { let _ = v::<U5>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 5 in chunks of 32
fn p193() { let _ = v::<U6>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 6 in chunks of 1
fn p194() { let _ = v::<U6>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 6 in chunks of 2
fn p195() { let _ = v::<U6>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 6 in chunks of 3
fn p196() { let _ = v::<U6>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 6 in chunks of 4
fn p197() { let _ = v::<U6>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 6 in chunks of 5
fn p198() { let _ = v::<U6>().into_chunks::<U6>(); } // ACCEPT	into_chunks	length 6 in chunks of 6
fn p199() { let _ = v::<U6>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 6 in chunks of 7
fn p200() { let _ = v::<U6>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 6 in chunks of 8
fn p201() { let _ = v::<U6>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 6 in chunks of 9
fn p202() { let _ = v::<U6>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 6 in chunks of 10
fn p203() { let _ = v::<U6>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 6 in chunks of 11
fn p204() { let _ = v::<U6>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 6 in chunks of 12
fn p205() { let _ = v::<U6>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 6 in chunks of 13
fn p206() { let _ = v::<U6>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 6 in chunks of 14
fn p207() { let _ = v::<U6>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 6 in chunks of 15
fn p208() { let _ = v::<U6>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 6 in chunks of 16
fn p209() { let _ = v::<U6>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 6 in chunks of 17
fn p210() { let _ = v::<U6>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 6 in chunks of 18
fn p211() { let _ = v::<U6>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 6 in chunks of 19
fn p212() { let _ = v::<U6>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 6 in chunks of 20
fn p213() { let _ = v::<U6>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 6 in chunks of 21
fn p214() { let _ = v::<U6>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 6 in chunks of 22
fn p215() { let _ = v::<U6>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 6 in chunks of 23
fn p216() { let _ = v::<U6>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 6 in chunks of 24
fn p217() { let _ = v::<U6>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 6 in chunks of 25
fn p218() { let _ = v::<U6>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 6 in chunks of 26
fn p219() { let _ = v::<U6>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 6 in chunks of 27
fn p220() { let _ = v::<U6>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 6 in chunks of 28
fn p221() { let _ = v::<U6>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 6 in chunks of 29
fn p222() { let _ = v::<U6>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 6 in chunks of 30
fn p223() { let _ = v::<U6>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 6 in chunks of 31
fn p224() { let _ = v::<U6>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 6 in chunks of 32
fn p225() { let _ = v::<U7>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 7 in chunks of 1
fn p226() { let _ = v::<U7>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 7 in chunks of 2
fn p227() { let _ = v::<U7>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 7 in chunks of 3
fn p228() { let _ = v::<U7>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 7 in chunks of 4
fn p229() { let _ = v::<U7>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 7 in chunks of 5
fn p230() { let _ = v::<U7>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 7 in chunks of 6
fn p231() { let _ = v::<U7>().into_chunks::<U7>(); } // ACCEPT	into_chunks	length 7 in chunks of 7
fn p232() { let _ = v::<U7>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 7 in chunks of 8
fn p233() { let _ = v::<U7>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 7 in chunks of 9
fn p234() { let _ = v::<U7>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 7 in chunks of 10
fn p235() { let _ = v::<U7>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 7 in chunks of 11
fn p236() { let _ = v::<U7>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 7 in chunks of 12
fn p237() { let _ = v::<U7>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 7 in chunks of 13
fn p238() { let _ = v::<U7>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 7 in chunks of 14
fn p239() { let _ = v::<U7>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 7 in chunks of 15
fn p240() { let _ = v::<U7>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 7 in chunks of 16
fn p241() { let _ = v::<U7>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 7 in chunks of 17
fn p242() { let _ = v::<U7>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 7 in chunks of 18
fn p243() { let _ = v::<U7>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 7 in chunks of 19
fn p244() { let _ = v::<U7>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 7 in chunks of 20
fn p245() { let _ = v::<U7>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 7 in chunks of 21
fn p246() { let _ = v::<U7>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 7 in chunks of 22
fn p247() { let _ = v::<U7>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 7 in chunks of 23
fn p248() { let _ = v::<U7>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 7 in chunks of 24
fn p249() { let _ = v::<U7>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 7 in chunks of 25
fn p250() { let _ = v::<U7>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 7 in chunks of 26
fn p251() { let _ = v::<U7>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 7 in chunks of 27
fn p252() { let _ = v::<U7>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 7 in chunks of 28
fn p253() { let _ = v::<U7>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 7 in chunks of 29
fn p254() { let _ = v::<U7>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 7 in chunks of 30
fn p255() { let _ = v::<U7>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 7 in chunks of 31
fn p256() { let _ = v::<U7>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 7 in chunks of 32
fn p257() { let _ = v::<U8>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 8 in chunks of 1
fn p258() { let _ = v::<U8>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 8 in chunks of 2
fn p259() { let _ = v::<U8>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 8 in chunks of 3
fn p260() { let _ = v::<U8>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 8 in chunks of 4
fn p261() { let _ = v::<U8>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 8 in chunks of 5
fn p262() { let _ = v::<U8>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 8 in chunks of 6
fn p263() { let _ = v::<U8>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 8 in chunks of 7
fn p264() { let _ = v::<U8>().into_chunks::<U8>(); } // ACCEPT	into_chunks	length 8 in chunks of 8
fn p265() { let _ = v::<U8>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 8 in chunks of 9
fn p266() { let _ = v::<U8>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 8 in chunks of 10
fn p267() { let _ = v::<U8>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 8 in chunks of 11
fn p268() { let _ = v::<U8>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 8 in chunks of 12
fn p269() { let _ = v::<U8>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 8 in chunks of 13
fn p270() { let _ = v::<U8>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 8 in chunks of 14
fn p271() { let _ = v::<U8>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 8 in chunks of 15
fn p272() { let _ = v::<U8>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 8 in chunks of 16
fn p273() { let _ = v::<U8>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 8 in chunks of 17
fn p274() { let _ = v::<U8>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 8 in chunks of 18
fn p275() { let _ = v::<U8>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 8 in chunks of 19
fn p276() { let _ = v::<U8>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 8 in chunks of 20
fn p277() { let _ = v::<U8>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 8 in chunks of 21
fn p278() { let _ = v::<U8>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 8 in chunks of 22
fn p279() { let _ = v::<U8>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 8 in chunks of 23
fn p280() { let _ = v::<U8>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 8 in chunks of 24
fn p281() { let _ = v::<U8>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 8 in chunks of 25
fn p282() { let _ = v::<U8>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 8 in chunks of 26
fn p283() { let _ = v::<U8>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 8 in chunks of 27
fn p284() { let _ = v::<U8>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 8 in chunks of 28
fn p285() { let _ = v::<U8>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 8 in chunks of 29
fn p286() { let _ = v::<U8>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 8 in chunks of 30
fn p287() { let _ = v::<U8>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 8 in chunks of 31
fn p288() { let _ = v::<U8>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 8 in chunks of 32
fn p289() { let _ = v::<U9>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 9 in chunks of 1
fn p290() { let _ = v::<U9>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 9 in chunks of 2
fn p291() { let _ = v::<U9>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 9 in chunks of 3
fn p292() { let _ = v::<U9>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 9 in chunks of 4
fn p293() { let _ = v::<U9>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 9 in chunks of 5
fn p294() { let _ = v::<U9>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 9 in chunks of 6
fn p295() { let _ = v::<U9>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 9 in chunks of 7
fn p296() { let _ = v::<U9>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 9 in chunks of 8
fn p297() { let _ = v::<U9>().into_chunks::<U9>(); } // ACCEPT	into_chunks	length 9 in chunks of 9
fn p298() { let _ = v::<U9>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 9 in chunks of 10
fn p299() { let _ = v::<U9>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 9 in chunks of 11
fn p300() { let _ = v::<U9>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 9 in chunks of 12
fn p301() { let _ = v::<U9>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 9 in chunks of 13
fn p302() { let _ = v::<U9>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 9 in chunks of 14
fn p303() { let _ = v::<U9>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 9 in chunks of 15
fn p304() { let _ = v::<U9>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 9 in chunks of 16
fn p305() { let _ = v::<U9>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 9 in chunks of 17
fn p306() { let _ = v::<U9>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 9 in chunks of 18
fn p307() { let _ = v::<U9>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 9 in chunks of 19
fn p308() { let _ = v::<U9>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 9 in chunks of 20
fn p309() { let _ = v::<U9>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 9 in chunks of 21
fn p310() { let _ = v::<U9>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 9 in chunks of 22
fn p311() { let _ = v::<U9>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 9 in chunks of 23
fn p312() { let _ = v::<U9>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 9 in chunks of 24
fn p313() { let _ = v::<U9>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 9 in chunks of 25
fn p314() { let _ = v::<U9>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 9 in chunks of 26
fn p315() { let _ = v::<U9>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 9 in chunks of 27
fn p316() { let _ = v::<U9>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 9 in chunks of 28
fn p317() { let _ = v::<U9>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 9 in chunks of 29
fn p318() { let _ = v::<U9>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 9 in chunks of 30
fn p319() { let _ = v::<U9>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 9 in chunks of 31
fn p320() { let _ = v::<U9>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 9 in chunks of 32
fn p321() { let _ = v::<U10>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 10 in chunks of 1
fn p322() { let _ = v::<U10>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 10 in chunks of 2
fn p323() { let _ = v::<U10>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 10 in chunks of 3
fn p324() { let _ = v::<U10>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 10 in chunks of 4
fn p325() { let _ = v::<U10>().into_chunks::<U5>(); } // ACCEPT	into_chunks	length 10 in chunks of 5
fn p326() { let _ = v::<U10>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 10 in chunks of 6
fn p327() { let _ = v::<U10>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 10 in chunks of 7
fn p328() { let _ = v::<U10>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 10 in chunks of 8
fn p329() { let _ = v::<U10>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 10 in chunks of 9
fn p330() { let _ = v::<U10>().into_chunks::<U10>(); } // ACCEPT	into_chunks	length 10 in chunks of 10
fn p331() { let _ = v::<U10>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 10 in chunks of 11
fn p332() { let _ = v::<U10>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 10 in chunks of 12
fn p333() { let _ = v::<U10>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 10 in chunks of 13
fn p334() { let _ = v::<U10>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 10 in chunks of 14
fn p335() { let _ = v::<U10>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 10 in chunks of 15
fn p336() { let _ = v::<U10>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 10 in chunks of 16
fn p337() { let _ = v::<U10>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 10 in chunks of 17
fn p338() { let _ = v::<U10>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 10 in chunks of 18
fn p339() { let _ = v::<U10>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 10 in chunks of 19
fn p340() { let _ = v::<U10>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 10 in chunks of 20
fn p341() { let _ = v::<U10>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 10 in chunks of 21
fn p342() { let _ = v::<U10>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 10 in chunks of 22
fn p343() { let _ = v::<U10>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 10 in chunks of 23
fn p344() { let _ = v::<U10>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 10 in chunks of 24
fn p345() { let _ = v::<U10>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 10 in chunks of 25
fn p346() { let _ = v::<U10>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 10 in chunks of 26
fn p347() { let _ = v::<U10>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 10 in chunks of 27
fn p348() { let _ = v::<U10>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 10 in chunks of 28
fn p349() { let _ = v::<U10>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 10 in chunks of 29
fn p350() { let _ = v::<U10>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 10 in chunks of 30
fn p351() { let _ = v::<U10>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 10 in chunks of 31
fn p352() { let _ = v::<U10>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 10 in chunks of 32
fn p353() { let _ = v::<U11>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 11 in chunks of 1
fn p354() { let _ = v::<U11>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 11 in chunks of 2
fn p355() { let _ = v::<U11>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 11 in chunks of 3
fn p356() { let _ = v::<U11>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 11 in chunks of 4
fn p357() { let _ = v::<U11>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 11 in chunks of 5
fn p358() { let _ = v::<U11>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 11 in chunks of 6
fn p359() { let _ = v::<U11>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 11 in chunks of 7
fn p360() { let _ = v::<U11>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 11 in chunks of 8
fn p361() { let _ = v::<U11>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 11 in chunks of 9
fn p362() { let _ = v::<U11>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 11 in chunks of 10
fn p363() { let _ = v::<U11>().into_chunks::<U11>(); } // ACCEPT	into_chunks	length 11 in chunks of 11
fn p364() { let _ = v::<U11>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 11 in chunks of 12
fn p365() { let _ = v::<U11>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 11 in chunks of 13
fn p366() { let _ = v::<U11>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 11 in chunks of 14
fn p367() { let _ = v::<U11>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 11 in chunks of 15
fn p368() { let _ = v::<U11>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 11 in chunks of 16
fn p369() { let _ = v::<U11>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 11 in chunks of 17
fn p370() { let _ = v::<U11>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 11 in chunks of 18
fn p371() { let _ = v::<U11>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 11 in chunks of 19
fn p372() { let _ = v::<U11>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 11 in chunks of 20
fn p373() { let _ = v::<U11>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 11 in chunks of 21
fn p374() { let _ = v::<U11>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 11 in chunks of 22
fn p375() { let _ = v::<U11>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 11 in chunks of 23
fn p376() { let _ = v::<U11>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 11 in chunks of 24
fn p377() { let _ = v::<U11>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 11 in chunks of 25
fn p378() { let _ = v::<U11>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 11 in chunks of 26
fn p379() { let _ = v::<U11>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 11 in chunks of 27
fn p380() { let _ = v::<U11>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 11 in chunks of 28
fn p381() { let _ = v::<U11>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 11 in chunks of 29
fn p382() { let _ = v::<U11>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 11 in chunks of 30
fn p383() { let _ = v::<U11>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 11 in chunks of 31
fn p384() { let _ = v::<U11>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 11 in chunks of 32
fn p385() { let _ = v::<U12>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 12 in chunks of 1
fn p386() { let _ = v::<U12>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 12 in chunks of 2
fn p387() { let _ = v::<U12>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 12 in chunks of 3
fn p388() { let _ = v::<U12>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 12 in chunks of 4
fn p389() { let _ = v::<U12>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 12 in chunks of 5
fn p390() { let _ = v::<U12>().into_chunks::<U6>(); } // ACCEPT	into_chunks	length 12 in chunks of 6
fn p391() { let _ = v::<U12>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 12 in chunks of 7
fn p392() { let _ = v::<U12>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 12 in chunks of 8
fn p393() { let _ = v::<U12>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 12 in chunks of 9
fn p394() { let _ = v::<U12>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 12 in chunks of 10
fn p395() { let _ = v::<U12>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 12 in chunks of 11
fn p396() { let _ = v::<U12>().into_chunks::<U12>(); } // ACCEPT	into_chunks	length 12 in chunks of 12
fn p397() { let _ = v::<U12>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 12 in chunks of 13
fn p398() { let _ = v::<U12>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 12 in chunks of 14
fn p399() { let _ = v::<U12>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 12 in chunks of 15
fn p400() { let _ = v::<U12>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 12 in chunks of 16
fn p401() { let _ = v::<U12>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 12 in chunks of 17
fn p402() { let _ = v::<U12>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 12 in chunks of 18
fn p403() { let _ = v::<U12>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 12 in chunks of 19
fn p404() { let _ = v::<U12>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 12 in chunks of 20
fn p405() { let _ = v::<U12>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 12 in chunks of 21
fn p406() { let _ = v::<U12>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 12 in chunks of 22
fn p407() { let _ = v::<U12>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 12 in chunks of 23
fn p408() { let _ = v::<U12>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 12 in chunks of 24
fn p409() { let _ = v::<U12>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 12 in chunks of 25
fn p410() { let _ = v::<U12>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 12 in chunks of 26
fn p411() { let _ = v::<U12>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 12 in chunks of 27
fn p412() { let _ = v::<U12>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 12 in chunks of 28
fn p413() { let _ = v::<U12>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 12 in chunks of 29
fn p414() { let _ = v::<U12>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 12 in chunks of 30
fn p415() { let _ = v::<U12>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 12 in chunks of 31
fn p416() { let _ = v::<U12>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 12 in chunks of 32
fn p417() { let _ = v::<U13>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 13 in chunks of 1
fn p418() { let _ = v::<U13>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 13 in chunks of 2
fn p419() { let _ = v::<U13>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 13 in chunks of 3
fn p420() { let _ = v::<U13>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 13 in chunks of 4
fn p421() { let _ = v::<U13>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 13 in chunks of 5
fn p422() { let _ = v::<U13>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 13 in chunks of 6
fn p423() { let _ = v::<U13>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 13 in chunks of 7
fn p424() { let _ = v::<U13>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 13 in chunks of 8
fn p425() { let _ = v::<U13>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 13 in chunks of 9
fn p426() { let _ = v::<U13>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 13 in chunks of 10
fn p427() { let _ = v::<U13>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 13 in chunks of 11
fn p428() { let _ = v::<U13>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 13 in chunks of 12
fn p429() { let _ = v::<U13>().into_chunks::<U13>(); } // ACCEPT	into_chunks	length 13 in chunks of 13
fn p430() { let _ = v::<U13>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 13 in chunks of 14
fn p431() { let _ = v::<U13>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 13 in chunks of 15
fn p432() { let _ = v::<U13>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 13 in chunks of 16
fn p433() { let _ = v::<U13>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 13 in chunks of 17
fn p434() { let _ = v::<U13>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 13 in chunks of 18
fn p435() { let _ = v::<U13>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 13 in chunks of 19
fn p436() { let _ = v::<U13>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 13 in chunks of 20
fn p437() { let _ = v::<U13>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 13 in chunks of 21
fn p438() { let _ = v::<U13>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 13 in chunks of 22
fn p439() { let _ = v::<U13>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 13 in chunks of 23
fn p440() { let _ = v::<U13>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 13 in chunks of 24
fn p441() { let _ = v::<U13>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 13 in chunks of 25
fn p442() { let _ = v::<U13>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 13 in chunks of 26
fn p443() { let _ = v::<U13>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 13 in chunks of 27
fn p444() { let _ = v::<U13>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 13 in chunks of 28
fn p445() { let _ = v::<U13>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 13 in chunks of 29
fn p446() { let _ = v::<U13>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 13 in chunks of 30
fn p447() { let _ = v::<U13>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 13 in chunks of 31
fn p448() { let _ = v::<U13>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 13 in chunks of 32
fn p449() { let _ = v::<U14>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 14 in chunks of 1
fn p450() { let _ = v::<U14>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 14 in chunks of 2
fn p451() { let _ = v::<U14>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 14 in chunks of 3
fn p452() { let _ = v::<U14>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 14 in chunks of 4
fn p453() { let _ = v::<U14>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 14 in chunks of 5
fn p454() { let _ = v::<U14>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 14 in chunks of 6
fn p455() { let _ = v::<U14>().into_chunks::<U7>(); } // ACCEPT	into_chunks	length 14 in chunks of 7
fn p456() { let _ = v::<U14>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 14 in chunks of 8
fn p457() { let _ = v::<U14>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 14 in chunks of 9
fn p458() { let _ = v::<U14>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 14 in chunks of 10
fn p459() { let _ = v::<U14>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 14 in chunks of 11
fn p460() { let _ = v::<U14>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 14 in chunks of 12
fn p461() { let _ = v::<U14>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 14 in chunks of 13
fn p462() { let _ = v::<U14>().into_chunks::<U14>(); } // ACCEPT	into_chunks	length 14 in chunks of 14
fn p463() { let _ = v::<U14>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 14 in chunks of 15
fn p464() { let _ = v::<U14>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 14 in chunks of 16
fn p465() { let _ = v::<U14>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 14 in chunks of 17
fn p466() { let _ = v::<U14>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 14 in chunks of 18
fn p467() { let _ = v::<U14>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 14 in chunks of 19
fn p468() { let _ = v::<U14>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 14 in chunks of 20
fn p469() { let _ = v::<U14>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 14 in chunks of 21
fn p470() { let _ = v::<U14>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 14 in chunks of 22
fn p471() { let _ = v::<U14>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 14 in chunks of 23
fn p472() { let _ = v::<U14>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 14 in chunks of 24
fn p473() { let _ = v::<U14>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 14 in chunks of 25
fn p474() { let _ = v::<U14>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 14 in chunks of 26
fn p475() { let _ = v::<U14>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 14 in chunks of 27
fn p476() { let _ = v::<U14>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 14 in chunks of 28
fn p477() { let _ = v::<U14>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 14 in chunks of 29
fn p478() { let _ = v::<U14>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 14 in chunks of 30
fn p479() { let _ = v::<U14>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 14 in chunks of 31
fn p480() { let _ = v::<U14>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 14 in chunks of 32
fn p481() { let _ = v::<U15>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 15 in chunks of 1
fn p482() { let _ = v::<U15>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 15 in chunks of 2
fn p483() { let _ = v::<U15>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 15 in chunks of 3
fn p484() { let _ = v::<U15>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 15 in chunks of 4
fn p485() { let _ = v::<U15>().into_chunks::<U5>(); } // ACCEPT	into_chunks	length 15 in chunks of 5
fn p486() { let _ = v::<U15>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 15 in chunks of 6
fn p487() { let _ = v::<U15>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 15 in chunks of 7
fn p488() { let _ = v::<U15>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 15 in chunks of 8
fn p489() { let _ = v::<U15>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 15 in chunks of 9
fn p490() { let _ = v::<U15>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 15 in chunks of 10
fn p491() { let _ = v::<U15>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 15 in chunks of 11
fn p492() { let _ = v::<U15>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 15 in chunks of 12
fn p493() { let _ = v::<U15>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 15 in chunks of 13
fn p494() { let _ = v::<U15>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 15 in chunks of 14
fn p495() { let _ = v::<U15>().into_chunks::<U15>(); } // ACCEPT	into_chunks	length 15 in chunks of 15
fn p496() { let _ = v::<U15>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 15 in chunks of 16
fn p497() { let _ = v::<U15>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 15 in chunks of 17
fn p498() { let _ = v::<U15>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 15 in chunks of 18
fn p499() { let _ = v::<U15>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 15 in chunks of 19
fn p500() { let _ = v::<U15>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 15 in chunks of 20
fn p501() { let _ = v::<U15>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 15 in chunks of 21
fn p502() { let _ = v::<U15>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 15 in chunks of 22
fn p503() { let _ = v::<U15>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 15 in chunks of 23
fn p504() { let _ = v::<U15>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 15 in chunks of 24
fn p505() { let _ = v::<U15>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 15 in chunks of 25
fn p506() { let _ = v::<U15>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 15 in chunks of 26
fn p507() { let _ = v::<U15>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 15 in chunks of 27
fn p508() { let _ = v::<U15>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 15 in chunks of 28
fn p509() { let _ = v::<U15>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 15 in chunks of 29
fn p510() { let _ = v::<U15>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 15 in chunks of 30
fn p511() { let _ = v::<U15>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 15 in chunks of 31
fn p512() { let _ = v::<U15>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 15 in chunks of 32
fn p513() { let _ = v::<U16>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 16 in chunks of 1
fn p514() { let _ = v::<U16>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 16 in chunks of 2
fn p515() { let _ = v::<U16>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 16 in chunks of 3
fn p516() { let _ = v::<U16>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 16 in chunks of 4
fn p517() { let _ = v::<U16>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 16 in chunks of 5
fn p518() { let _ = v::<U16>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 16 in chunks of 6
fn p519() { let _ = v::<U16>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 16 in chunks of 7
fn p520() { let _ = v::<U16>().into_chunks::<U8>(); } // ACCEPT	into_chunks	length 16 in chunks of 8
fn p521() { let _ = v::<U16>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 16 in chunks of 9
fn p522() { let _ = v::<U16>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 16 in chunks of 10
fn p523() { let _ = v::<U16>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 16 in chunks of 11
fn p524() { let _ = v::<U16>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 16 in chunks of 12
fn p525() { let _ = v::<U16>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 16 in chunks of 13
fn p526() { let _ = v::<U16>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 16 in chunks of 14
fn p527() { let _ = v::<U16>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 16 in chunks of 15
fn p528() { let _ = v::<U16>().into_chunks::<U16>(); } // ACCEPT	into_chunks	length 16 in chunks of 16
fn p529() { let _ = v::<U16>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 16 in chunks of 17
fn p530() { let _ = v::<U16>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 16 in chunks of 18
fn p531() { let _ = v::<U16>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 16 in chunks of 19
fn p532() { let _ = v::<U16>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 16 in chunks of 20
fn p533() { let _ = v::<U16>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 16 in chunks of 21
fn p534() { let _ = v::<U16>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 16 in chunks of 22
fn p535() { let _ = v::<U16>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 16 in chunks of 23
fn p536() { let _ = v::<U16>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 16 in chunks of 24
fn p537() { let _ = v::<U16>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 16 in chunks of 25
fn p538() { let _ = v::<U16>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 16 in chunks of 26
fn p539() { let _ = v::<U16>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 16 in chunks of 27
fn p540() { let _ = v::<U16>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 16 in chunks of 28
fn p541() { let _ = v::<U16>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 16 in chunks of 29
fn p542() { let _ = v::<U16>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 16 in chunks of 30
fn p543() { let _ = v::<U16>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 16 in chunks of 31
fn p544() { let _ = v::<U16>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 16 in chunks of 32
fn p545() { let _ = v::<U17>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 17 in chunks of 1
fn p546() { let _ = v::<U17>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 17 in chunks of 2
fn p547() { let _ = v::<U17>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 17 in chunks of 3
fn p548() { let _ = v::<U17>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 17 in chunks of 4
fn p549() { let _ = v::<U17>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 17 in chunks of 5
fn p550() { let _ = v::<U17>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 17 in chunks of 6
fn p551() { let _ = v::<U17>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 17 in chunks of 7
fn p552() { let _ = v::<U17>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 17 in chunks of 8
fn p553() { let _ = v::<U17>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 17 in chunks of 9
fn p554() { let _ = v::<U17>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 17 in chunks of 10
fn p555() { let _ = v::<U17>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 17 in chunks of 11
fn p556() { let _ = v::<U17>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 17 in chunks of 12
fn p557() { let _ = v::<U17>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 17 in chunks of 13
fn p558() { let _ = v::<U17>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 17 in chunks of 14
fn p559() { let _ = v::<U17>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 17 in chunks of 15
fn p560() { let _ = v::<U17>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 17 in chunks of 16
fn p561() { let _ = v::<U17>().into_chunks::<U17>(); } // ACCEPT	into_chunks	length 17 in chunks of 17
fn p562() { let _ = v::<U17>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 17 in chunks of 18
fn p563() { let _ = v::<U17>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 17 in chunks of 19
fn p564() { let _ = v::<U17>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 17 in chunks of 20
fn p565() { let _ = v::<U17>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 17 in chunks of 21
fn p566() { let _ = v::<U17>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 17 in chunks of 22
fn p567() { let _ = v::<U17>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 17 in chunks of 23
fn p568() { let _ = v::<U17>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 17 in chunks of 24
fn p569() { let _ = v::<U17>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 17 in chunks of 25
fn p570() { let _ = v::<U17>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 17 in chunks of 26
fn p571() { let _ = v::<U17>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 17 in chunks of 27
fn p572() { let _ = v::<U17>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 17 in chunks of 28
fn p573() { let _ = v::<U17>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 17 in chunks of 29
fn p574() { let _ = v::<U17>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 17 in chunks of 30
fn p575() { let _ = v::<U17>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 17 in chunks of 31
fn p576() { let _ = v::<U17>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 17 in chunks of 32
fn p577() { let _ = v::<U18>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 18 in chunks of 1
fn p578() { let _ = v::<U18>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 18 in chunks of 2
fn p579() { let _ = v::<U18>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 18 in chunks of 3
fn p580() { let _ = v::<U18>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 18 in chunks of 4
fn p581() { let _ = v::<U18>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 18 in chunks of 5
fn p582() { let _ = v::<U18>().into_chunks::<U6>(); } // ACCEPT	into_chunks	length 18 in chunks of 6
fn p583() { let _ = v::<U18>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 18 in chunks of 7
fn p584() { let _ = v::<U18>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 18 in chunks of 8
fn p585() { let _ = v::<U18>().into_chunks::<U9>(); } // ACCEPT	into_chunks	length 18 in chunks of 9
fn p586() { let _ = v::<U18>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 18 in chunks of 10
fn p587() { let _ = v::<U18>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 18 in chunks of 11
fn p588() { let _ = v::<U18>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 18 in chunks of 12
fn p589() { let _ = v::<U18>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 18 in chunks of 13
fn p590() { let _ = v::<U18>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 18 in chunks of 14
fn p591() { let _ = v::<U18>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 18 in chunks of 15
fn p592() { let _ = v::<U18>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 18 in chunks of 16
fn p593() { let _ = v::<U18>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 18 in chunks of 17
fn p594() { let _ = v::<U18>().into_chunks::<U18>(); } // ACCEPT	into_chunks	length 18 in chunks of 18
fn p595() { let _ = v::<U18>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 18 in chunks of 19
fn p596() { let _ = v::<U18>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 18 in chunks of 20
fn p597() { let _ = v::<U18>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 18 in chunks of 21
fn p598() { let _ = v::<U18>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 18 in chunks of 22
fn p599() { let _ = v::<U18>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 18 in chunks of 23
fn p600() { let _ = v::<U18>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 18 in chunks of 24
fn p601() { let _ = v::<U18>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 18 in chunks of 25
fn p602() { let _ = v::<U18>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 18 in chunks of 26
fn p603() { let _ = v::<U18>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 18 in chunks of 27
fn p604() { let _ = v::<U18>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 18 in chunks of 28
fn p605() { let _ = v::<U18>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 18 in chunks of 29
fn p606() { let _ = v::<U18>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 18 in chunks of 30
fn p607() { let _ = v::<U18>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 18 in chunks of 31
fn p608() { let _ = v::<U18>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 18 in chunks of 32
fn p609() { let _ = v::<U19>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 19 in chunks of 1
fn p610() { let _ = v::<U19>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 19 in chunks of 2
fn p611() { let _ = v::<U19>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 19 in chunks of 3
fn p612() { let _ = v::<U19>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 19 in chunks of 4
fn p613() { let _ = v::<U19>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 19 in chunks of 5
fn p614() { let _ = v::<U19>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 19 in chunks of 6
fn p615() { let _ = v::<U19>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 19 in chunks of 7
fn p616() { let _ = v::<U19>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 19 in chunks of 8
fn p617() { let _ = v::<U19>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 19 in chunks of 9
fn p618() { let _ = v::<U19>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 19 in chunks of 10
fn p619() { let _ = v::<U19>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 19 in chunks of 11
fn p620() { let _ = v::<U19>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 19 in chunks of 12
fn p621() { let _ = v::<U19>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 19 in chunks of 13
fn p622() { let _ = v::<U19>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 19 in chunks of 14
fn p623() { let _ = v::<U19>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 19 in chunks of 15
fn p624() { let _ = v::<U19>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 19 in chunks of 16
fn p625() { let _ = v::<U19>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 19 in chunks of 17
fn p626() { let _ = v::<U19>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 19 in chunks of 18
fn p627() { let _ = v::<U19>().into_chunks::<U19>(); } // ACCEPT	into_chunks	length 19 in chunks of 19
fn p628() { let _ = v::<U19>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 19 in chunks of 20
fn p629() { let _ = v::<U19>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 19 in chunks of 21
fn p630() { let _ = v::<U19>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 19 in chunks of 22
fn p631() { let _ = v::<U19>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 19 in chunks of 23
fn p632() { let _ = v::<U19>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 19 in chunks of 24
fn p633() { let _ = v::<U19>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 19 in chunks of 25
fn p634() { let _ = v::<U19>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 19 in chunks of 26
fn p635() { let _ = v::<U19>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 19 in chunks of 27
fn p636() { let _ = v::<U19>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 19 in chunks of 28
fn p637() { let _ = v::<U19>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 19 in chunks of 29
fn p638() { let _ = v::<U19>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 19 in chunks of 30
fn p639() { let _ = v::<U19>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 19 in chunks of 31
fn p640() { let _ = v::<U19>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 19 in chunks of 32
fn p641() { let _ = v::<U20>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 20 in chunks of 1
fn p642() { let _ = v::<U20>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 20 in chunks of 2
fn p643() { let _ = v::<U20>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 20 in chunks of 3
fn p644() { let _ = v::<U20>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 20 in chunks of 4
fn p645() { let _ = v::<U20>().into_chunks::<U5>(); } // ACCEPT	into_chunks	length 20 in chunks of 5
fn p646() { let _ = v::<U20>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 20 in chunks of 6
fn p647() { let _ = v::<U20>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 20 in chunks of 7
fn p648() { let _ = v::<U20>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 20 in chunks of 8
fn p649() { let _ = v::<U20>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 20 in chunks of 9
fn p650() { let _ = v::<U20>().into_chunks::<U10>(); } // ACCEPT	into_chunks	length 20 in chunks of 10
fn p651() { let _ = v::<U20>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 20 in chunks of 11
fn p652() { let _ = v::<U20>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 20 in chunks of 12
fn p653() { let _ = v::<U20>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 20 in chunks of 13
fn p654() { let _ = v::<U20>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 20 in chunks of 14
fn p655() { let _ = v::<U20>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 20 in chunks of 15
fn p656() { let _ = v::<U20>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 20 in chunks of 16
fn p657() { let _ = v::<U20>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 20 in chunks of 17
fn p658() { let _ = v::<U20>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 20 in chunks of 18
fn p659() { let _ = v::<U20>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 20 in chunks of 19
fn p660() { let _ = v::<U20>().into_chunks::<U20>(); } // ACCEPT	into_chunks	length 20 in chunks of 20
fn p661() { let _ = v::<U20>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 20 in chunks of 21
fn p662() { let _ = v::<U20>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 20 in chunks of 22
fn p663() { let _ = v::<U20>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 20 in chunks of 23
fn p664() { let _ = v::<U20>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 20 in chunks of 24
fn p665() { let _ = v::<U20>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 20 in chunks of 25
fn p666() { let _ = v::<U20>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 20 in chunks of 26
fn p667() { let _ = v::<U20>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 20 in chunks of 27
fn p668() { let _ = v::<U20>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 20 in chunks of 28
fn p669() { let _ = v::<U20>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 20 in chunks of 29
fn p670() { let _ = v::<U20>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 20 in chunks of 30
fn p671() { let _ = v::<U20>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 20 in chunks of 31
fn p672() { let _ = v::<U20>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 20 in chunks of 32
fn p673() { let _ = v::<U21>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 21 in chunks of 1
fn p674() { let _ = v::<U21>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 21 in chunks of 2
fn p675() { let _ = v::<U21>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 21 in chunks of 3
fn p676() { let _ = v::<U21>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 21 in chunks of 4
fn p677() { let _ = v::<U21>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 21 in chunks of 5
fn p678() { let _ = v::<U21>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 21 in chunks of 6
fn p679() { let _ = v::<U21>().into_chunks::<U7>(); } // ACCEPT	into_chunks	length 21 in chunks of 7
fn p680() { let _ = v::<U21>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 21 in chunks of 8
fn p681() { let _ = v::<U21>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 21 in chunks of 9
fn p682() { let _ = v::<U21>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 21 in chunks of 10
fn p683() { let _ = v::<U21>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 21 in chunks of 11
fn p684() { let _ = v::<U21>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 21 in chunks of 12
fn p685() { let _ = v::<U21>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 21 in chunks of 13
fn p686() { let _ = v::<U21>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 21 in chunks of 14
fn p687() { let _ = v::<U21>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 21 in chunks of 15
fn p688() { let _ = v::<U21>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 21 in chunks of 16
fn p689() { let _ = v::<U21>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 21 in chunks of 17
fn p690() { let _ = v::<U21>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 21 in chunks of 18
fn p691() { let _ = v::<U21>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 21 in chunks of 19
fn p692() { let _ = v::<U21>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 21 in chunks of 20
fn p693() { let _ = v::<U21>().into_chunks::<U21>(); } // ACCEPT	into_chunks	length 21 in chunks of 21
fn p694() { let _ = v::<U21>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 21 in chunks of 22
fn p695() { let _ = v::<U21>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 21 in chunks of 23
fn p696() { let _ = v::<U21>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 21 in chunks of 24
fn p697() { let _ = v::<U21>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 21 in chunks of 25
fn p698() { let _ = v::<U21>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 21 in chunks of 26
fn p699() { let _ = v::<U21>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 21 in chunks of 27
fn p700() { let _ = v::<U21>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 21 in chunks of 28
fn p701() { let _ = v::<U21>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 21 in chunks of 29
fn p702() { let _ = v::<U21>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 21 in chunks of 30
fn p703() { let _ = v::<U21>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 21 in chunks of 31
fn p704() { let _ = v::<U21>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 21 in chunks of 32
fn p705() { let _ = v::<U22>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 22 in chunks of 1
fn p706() { let _ = v::<U22>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 22 in chunks of 2
fn p707() { let _ = v::<U22>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 22 in chunks of 3
fn p708() { let _ = v::<U22>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 22 in chunks of 4
fn p709() { let _ = v::<U22>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 22 in chunks of 5
fn p710() { let _ = v::<U22>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 22 in chunks of 6
fn p711() { let _ = v::<U22>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 22 in chunks of 7
fn p712() { let _ = v::<U22>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 22 in chunks of 8
fn p713() { let _ = v::<U22>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 22 in chunks of 9
fn p714() { let _ = v::<U22>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 22 in chunks of 10
fn p715() { let _ = v::<U22>().into_chunks::<U11>(); } // ACCEPT	into_chunks	length 22 in chunks of 11
fn p716() { let _ = v::<U22>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 22 in chunks of 12
fn p717() { let _ = v::<U22>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 22 in chunks of 13
fn p718() { let _ = v::<U22>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 22 in chunks of 14
fn p719() { let _ = v::<U22>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 22 in chunks of 15
fn p720() { let _ = v::<U22>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 22 in chunks of 16
fn p721() { let _ = v::<U22>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 22 in chunks of 17
fn p722() { let _ = v::<U22>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 22 in chunks of 18
fn p723() { let _ = v::<U22>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 22 in chunks of 19
fn p724() { let _ = v::<U22>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 22 in chunks of 20
fn p725() { let _ = v::<U22>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 22 in chunks of 21
fn p726() { let _ = v::<U22>().into_chunks::<U22>(); } // ACCEPT	into_chunks	length 22 in chunks of 22
fn p727() { let _ = v::<U22>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 22 in chunks of 23
fn p728() { let _ = v::<U22>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 22 in chunks of 24
fn p729() { let _ = v::<U22>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 22 in chunks of 25
fn p730() { let _ = v::<U22>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 22 in chunks of 26
fn p731() { let _ = v::<U22>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 22 in chunks of 27
fn p732() { let _ = v::<U22>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 22 in chunks of 28
fn p733() { let _ = v::<U22>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 22 in chunks of 29
fn p734() { let _ = v::<U22>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 22 in chunks of 30
fn p735() { let _ = v::<U22>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 22 in chunks of 31
fn p736() { let _ = v::<U22>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 22 in chunks of 32
fn p737() { let _ = v::<U23>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 23 in chunks of 1
fn p738() { let _ = v::<U23>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 23 in chunks of 2
fn p739() { let _ = v::<U23>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 23 in chunks of 3
fn p740() { let _ = v::<U23>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 23 in chunks of 4
fn p741() { let _ = v::<U23>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 23 in chunks of 5
fn p742() { let _ = v::<U23>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 23 in chunks of 6
fn p743() { let _ = v::<U23>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 23 in chunks of 7
fn p744() { let _ = v::<U23>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 23 in chunks of 8
fn p745() { let _ = v::<U23>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 23 in chunks of 9
fn p746() { let _ = v::<U23>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 23 in chunks of 10
fn p747() { let _ = v::<U23>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 23 in chunks of 11
fn p748() { let _ = v::<U23>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 23 in chunks of 12
fn p749() { let _ = v::<U23>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 23 in chunks of 13
fn p750() { let _ = v::<U23>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 23 in chunks of 14
fn p751() { let _ = v::<U23>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 23 in chunks of 15
fn p752() { let _ = v::<U23>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 23 in chunks of 16
fn p753() { let _ = v::<U23>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 23 in chunks of 17
fn p754() { let _ = v::<U23>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 23 in chunks of 18
fn p755() { let _ = v::<U23>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 23 in chunks of 19
fn p756() { let _ = v::<U23>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 23 in chunks of 20
fn p757() { let _ = v::<U23>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 23 in chunks of 21
fn p758() { let _ = v::<U23>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 23 in chunks of 22
fn p759() { let _ = v::<U23>().into_chunks::<U23>(); } // ACCEPT	into_chunks	length 23 in chunks of 23
fn p760() { let _ = v::<U23>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 23 in chunks of 24
fn p761() { let _ = v::<U23>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 23 in chunks of 25
fn p762() { let _ = v::<U23>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 23 in chunks of 26
fn p763() { let _ = v::<U23>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 23 in chunks of 27
fn p764() { let _ = v::<U23>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 23 in chunks of 28
fn p765() { let _ = v::<U23>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 23 in chunks of 29
fn p766() { let _ = v::<U23>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 23 in chunks of 30
fn p767() { let _ = v::<U23>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 23 in chunks of 31
fn p768() { let _ = v::<U23>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 23 in chunks of 32
fn p769() { let _ = v::<U24>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 24 in chunks of 1
fn p770() { let _ = v::<U24>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 24 in chunks of 2
fn p771() { let _ = v::<U24>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 24 in chunks of 3
fn p772() { let _ = v::<U24>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 24 in chunks of 4
fn p773() { let _ = v::<U24>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 24 in chunks of 5
fn p774() { let _ = v::<U24>().into_chunks::<U6>(); } // ACCEPT	into_chunks	length 24 in chunks of 6
fn p775() { let _ = v::<U24>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 24 in chunks of 7
fn p776() { let _ = v::<U24>().into_chunks::<U8>(); } // ACCEPT	into_chunks	length 24 in chunks of 8
fn p777() { let _ = v::<U24>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 24 in chunks of 9
fn p778() { let _ = v::<U24>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 24 in chunks of 10
fn p779() { let _ = v::<U24>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 24 in chunks of 11
fn p780() { let _ = v::<U24>().into_chunks::<U12>(); } // ACCEPT	into_chunks	length 24 in chunks of 12
fn p781() { let _ = v::<U24>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 24 in chunks of 13
fn p782() { let _ = v::<U24>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 24 in chunks of 14
fn p783() { let _ = v::<U24>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 24 in chunks of 15
fn p784() { let _ = v::<U24>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 24 in chunks of 16
fn p785() { let _ = v::<U24>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 24 in chunks of 17
fn p786() { let _ = v::<U24>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 24 in chunks of 18
fn p787() { let _ = v::<U24>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 24 in chunks of 19
fn p788() { let _ = v::<U24>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 24 in chunks of 20
fn p789() { let _ = v::<U24>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 24 in chunks of 21
fn p790() { let _ = v::<U24>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 24 in chunks of 22
fn p791() { let _ = v::<U24>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 24 in chunks of 23
fn p792() { let _ = v::<U24>().into_chunks::<U24>(); } // ACCEPT	into_chunks	length 24 in chunks of 24
fn p793() { let _ = v::<U24>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 24 in chunks of 25
fn p794() { let _ = v::<U24>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 24 in chunks of 26
fn p795() { let _ = v::<U24>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 24 in chunks of 27
fn p796() { let _ = v::<U24>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 24 in chunks of 28
fn p797() { let _ = v::<U24>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 24 in chunks of 29
fn p798() { let _ = v::<U24>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 24 in chunks of 30
fn p799() { let _ = v::<U24>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 24 in chunks of 31
fn p800() { let _ = v::<U24>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 24 in chunks of 32
fn p801() { let _ = v::<U25>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 25 in chunks of 1
fn p802() { let _ = v::<U25>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 25 in chunks of 2
fn p803() { let _ = v::<U25>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 25 in chunks of 3
fn p804() { let _ = v::<U25>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 25 in chunks of 4
fn p805() { let _ = v::<U25>().into_chunks::<U5>(); } // ACCEPT	into_chunks	length 25 in chunks of 5
fn p806() { let _ = v::<U25>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 25 in chunks of 6
fn p807() { let _ = v::<U25>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 25 in chunks of 7
fn p808() { let _ = v::<U25>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 25 in chunks of 8
fn p809() { let _ = v::<U25>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 25 in chunks of 9
fn p810() { let _ = v::<U25>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 25 in chunks of 10
fn p811() { let _ = v::<U25>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 25 in chunks of 11
fn p812() { let _ = v::<U25>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 25 in chunks of 12
fn p813() { let _ = v::<U25>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 25 in chunks of 13
fn p814() { let _ = v::<U25>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 25 in chunks of 14
fn p815() { let _ = v::<U25>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 25 in chunks of 15
fn p816() { let _ = v::<U25>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 25 in chunks of 16
fn p817() { let _ = v::<U25>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 25 in chunks of 17
fn p818() { let _ = v::<U25>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 25 in chunks of 18
fn p819() { let _ = v::<U25>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 25 in chunks of 19
fn p820() { let _ = v::<U25>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 25 in chunks of 20
fn p821() { let _ = v::<U25>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 25 in chunks of 21
fn p822() { let _ = v::<U25>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 25 in chunks of 22
fn p823() { let _ = v::<U25>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 25 in chunks of 23
fn p824() { let _ = v::<U25>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 25 in chunks of 24
fn p825() { let _ = v::<U25>().into_chunks::<U25>(); } // ACCEPT	into_chunks	length 25 in chunks of 25
fn p826() { let _ = v::<U25>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 25 in chunks of 26
fn p827() { let _ = v::<U25>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 25 in chunks of 27
fn p828() { let _ = v::<U25>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 25 in chunks of 28
fn p829() { let _ = v::<U25>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 25 in chunks of 29
fn p830() { let _ = v::<U25>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 25 in chunks of 30
fn p831() { let _ = v::<U25>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 25 in chunks of 31
fn p832() { let _ = v::<U25>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 25 in chunks of 32
fn p833() { let _ = v::<U26>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 26 in chunks of 1
fn p834() { let _ = v::<U26>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 26 in chunks of 2
fn p835() { let _ = v::<U26>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 26 in chunks of 3
fn p836() { let _ = v::<U26>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 26 in chunks of 4
fn p837() { let _ = v::<U26>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 26 in chunks of 5
fn p838() { let _ = v::<U26>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 26 in chunks of 6
fn p839() { let _ = v::<U26>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 26 in chunks of 7
fn p840() { let _ = v::<U26>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 26 in chunks of 8
fn p841() { let _ = v::<U26>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 26 in chunks of 9
fn p842() { let _ = v::<U26>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 26 in chunks of 10
fn p843() { let _ = v::<U26>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 26 in chunks of 11
fn p844() { let _ = v::<U26>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 26 in chunks of 12
fn p845() { let _ = v::<U26>().into_chunks::<U13>(); } // ACCEPT	into_chunks	length 26 in chunks of 13
fn p846() { let _ = v::<U26>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 26 in chunks of 14
fn p847() { let _ = v::<U26>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 26 in chunks of 15
fn p848() { let _ = v::<U26>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 26 in chunks of 16
fn p849() { let _ = v::<U26>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 26 in chunks of 17
fn p850() { let _ = v::<U26>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 26 in chunks of 18
fn p851() { let _ = v::<U26>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 26 in chunks of 19
fn p852() { let _ = v::<U26>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 26 in chunks of 20
fn p853() { let _ = v::<U26>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 26 in chunks of 21
fn p854() { let _ = v::<U26>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 26 in chunks of 22
fn p855() { let _ = v::<U26>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 26 in chunks of 23
fn p856() { let _ = v::<U26>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 26 in chunks of 24
fn p857() { let _ = v::<U26>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 26 in chunks of 25
fn p858() { let _ = v::<U26>().into_chunks::<U26>(); } // ACCEPT	into_chunks	length 26 in chunks of 26
fn p859() { let _ = v::<U26>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 26 in chunks of 27
fn p860() { let _ = v::<U26>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 26 in chunks of 28
fn p861() { let _ = v::<U26>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 26 in chunks of 29
fn p862() { let _ = v::<U26>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 26 in chunks of 30
fn p863() { let _ = v::<U26>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 26 in chunks of 31
fn p864() { let _ = v::<U26>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 26 in chunks of 32
fn p865() { let _ = v::<U27>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 27 in chunks of 1
fn p866() { let _ = v::<U27>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 27 in chunks of 2
fn p867() { let _ = v::<U27>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 27 in chunks of 3
fn p868() { let _ = v::<U27>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 27 in chunks of 4
fn p869() { let _ = v::<U27>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 27 in chunks of 5
fn p870() { let _ = v::<U27>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 27 in chunks of 6
fn p871() { let _ = v::<U27>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 27 in chunks of 7
fn p872() { let _ = v::<U27>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 27 in chunks of 8
fn p873() { let _ = v::<U27>().into_chunks::<U9>(); } // ACCEPT	into_chunks	length 27 in chunks of 9
fn p874() { let _ = v::<U27>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 27 in chunks of 10
fn p875() { let _ = v::<U27>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 27 in chunks of 11
fn p876() { let _ = v::<U27>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 27 in chunks of 12
fn p877() { let _ = v::<U27>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 27 in chunks of 13
fn p878() { let _ = v::<U27>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 27 in chunks of 14
fn p879() { let _ = v::<U27>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 27 in chunks of 15
fn p880() { let _ = v::<U27>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 27 in chunks of 16
fn p881() { let _ = v::<U27>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 27 in chunks of 17
fn p882() { let _ = v::<U27>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 27 in chunks of 18
fn p883() { let _ = v::<U27>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 27 in chunks of 19
fn p884() { let _ = v::<U27>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 27 in chunks of 20
fn p885() { let _ = v::<U27>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 27 in chunks of 21
fn p886() { let _ = v::<U27>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 27 in chunks of 22
fn p887() { let _ = v::<U27>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 27 in chunks of 23
fn p888() { let _ = v::<U27>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 27 in chunks of 24
fn p889() { let _ = v::<U27>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 27 in chunks of 25
fn p890() { let _ = v::<U27>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 27 in chunks of 26
fn p891() { let _ = v::<U27>().into_chunks::<U27>(); } // ACCEPT	into_chunks	length 27 in chunks of 27
fn p892() { let _ = v::<U27>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 27 in chunks of 28
fn p893() { let _ = v::<U27>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 27 in chunks of 29
fn p894() { let _ = v::<U27>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 27 in chunks of 30
fn p895() { let _ = v::<U27>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 27 in chunks of 31
fn p896() { let _ = v::<U27>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 27 in chunks of 32
fn p897() { let _ = v::<U28>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 28 in chunks of 1
fn p898() { let _ = v::<U28>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 28 in chunks of 2
fn p899() { let _ = v::<U28>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 28 in chunks of 3
fn p900() { let _ = v::<U28>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 28 in chunks of 4
fn p901() { let _ = v::<U28>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 28 in chunks of 5
fn p902() { let _ = v::<U28>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 28 in chunks of 6
fn p903() { let _ = v::<U28>().into_chunks::<U7>(); } // ACCEPT	into_chunks	length 28 in chunks of 7
fn p904() { let _ = v::<U28>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 28 in chunks of 8
fn p905() { let _ = v::<U28>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 28 in chunks of 9
fn p906() { let _ = v::<U28>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 28 in chunks of 10
fn p907() { let _ = v::<U28>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 28 in chunks of 11
fn p908() { let _ = v::<U28>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 28 in chunks of 12
fn p909() { let _ = v::<U28>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 28 in chunks of 13
fn p910() { let _ = v::<U28>().into_chunks::<U14>(); } // ACCEPT	into_chunks	length 28 in chunks of 14
fn p911() { let _ = v::<U28>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 28 in chunks of 15
fn p912() { let _ = v::<U28>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 28 in chunks of 16
fn p913() { let _ = v::<U28>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 28 in chunks of 17
fn p914() { let _ = v::<U28>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 28 in chunks of 18
fn p915() { let _ = v::<U28>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 28 in chunks of 19
fn p916() { let _ = v::<U28>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 28 in chunks of 20
fn p917() { let _ = v::<U28>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 28 in chunks of 21
fn p918() { let _ = v::<U28>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 28 in chunks of 22
fn p919() { let _ = v::<U28>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 28 in chunks of 23
fn p920() { let _ = v::<U28>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 28 in chunks of 24
fn p921() { let _ = v::<U28>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 28 in chunks of 25
fn p922() { let _ = v::<U28>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 28 in chunks of 26
fn p923() { let _ = v::<U28>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 28 in chunks of 27
fn p924() { let _ = v::<U28>().into_chunks::<U28>(); } // ACCEPT	into_chunks	length 28 in chunks of 28
fn p925() { let _ = v::<U28>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 28 in chunks of 29
fn p926() { let _ = v::<U28>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 28 in chunks of 30
fn p927() { let _ = v::<U28>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 28 in chunks of 31
fn p928() { let _ = v::<U28>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 28 in chunks of 32
fn p929() { let _ = v::<U29>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 29 in chunks of 1
fn p930() { let _ = v::<U29>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 29 in chunks of 2
fn p931() { let _ = v::<U29>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 29 in chunks of 3
fn p932() { let _ = v::<U29>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 29 in chunks of 4
fn p933() { let _ = v::<U29>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 29 in chunks of 5
fn p934() { let _ = v::<U29>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 29 in chunks of 6
fn p935() { let _ = v::<U29>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 29 in chunks of 7
fn p936() { let _ = v::<U29>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 29 in chunks of 8
fn p937() { let _ = v::<U29>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 29 in chunks of 9
fn p938() { let _ = v::<U29>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 29 in chunks of 10
fn p939() { let _ = v::<U29>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 29 in chunks of 11
fn p940() { let _ = v::<U29>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 29 in chunks of 12
fn p941() { let _ = v::<U29>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 29 in chunks of 13
fn p942() { let _ = v::<U29>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 29 in chunks of 14
fn p943() { let _ = v::<U29>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 29 in chunks of 15
fn p944() { let _ = v::<U29>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 29 in chunks of 16
fn p945() { let _ = v::<U29>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 29 in chunks of 17
fn p946() { let _ = v::<U29>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 29 in chunks of 18
fn p947() { let _ = v::<U29>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 29 in chunks of 19
fn p948() { let _ = v::<U29>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 29 in chunks of 20
fn p949() { let _ = v::<U29>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 29 in chunks of 21
fn p950() { let _ = v::<U29>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 29 in chunks of 22
fn p951() { let _ = v::<U29>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 29 in chunks of 23
fn p952() { let _ = v::<U29>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 29 in chunks of 24
fn p953() { let _ = v::<U29>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 29 in chunks of 25
fn p954() { let _ = v::<U29>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 29 in chunks of 26
fn p955() { let _ = v::<U29>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 29 in chunks of 27
fn p956() { let _ = v::<U29>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 29 in chunks of 28
fn p957() { let _ = v::<U29>().into_chunks::<U29>(); } // ACCEPT	into_chunks	length 29 in chunks of 29
fn p958() { let _ = v::<U29>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 29 in chunks of 30
fn p959() { let _ = v::<U29>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 29 in chunks of 31
fn p960() { let _ = v::<U29>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 29 in chunks of 32
fn p961() { let _ = v::<U30>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 30 in chunks of 1
fn p962() { let _ = v::<U30>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 30 in chunks of 2
fn p963() { let _ = v::<U30>().into_chunks::<U3>(); } // ACCEPT	into_chunks	length 30 in chunks of 3
fn p964() { let _ = v::<U30>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 30 in chunks of 4
fn p965() { let _ = v::<U30>().into_chunks::<U5>(); } // ACCEPT	into_chunks	length 30 in chunks of 5
fn p966() { let _ = v::<U30>().into_chunks::<U6>(); } // ACCEPT	into_chunks	length 30 in chunks of 6
fn p967() { let _ = v::<U30>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 30 in chunks of 7
fn p968() { let _ = v::<U30>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 30 in chunks of 8
fn p969() { let _ = v::<U30>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 30 in chunks of 9
fn p970() { let _ = v::<U30>().into_chunks::<U10>(); } // ACCEPT	into_chunks	length 30 in chunks of 10
fn p971() { let _ = v::<U30>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 30 in chunks of 11
fn p972() { let _ = v::<U30>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 30 in chunks of 12
fn p973() { let _ = v::<U30>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 30 in chunks of 13
fn p974() { let _ = v::<U30>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 30 in chunks of 14
fn p975() { let _ = v::<U30>().into_chunks::<U15>(); } // ACCEPT	into_chunks	length 30 in chunks of 15
fn p976() { let _ = v::<U30>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 30 in chunks of 16
fn p977() { let _ = v::<U30>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 30 in chunks of 17
fn p978() { let _ = v::<U30>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 30 in chunks of 18
fn p979() { let _ = v::<U30>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 30 in chunks of 19
fn p980() { let _ = v::<U30>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 30 in chunks of 20
fn p981() { let _ = v::<U30>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 30 in chunks of 21
fn p982() { let _ = v::<U30>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 30 in chunks of 22
fn p983() { let _ = v::<U30>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 30 in chunks of 23
fn p984() { let _ = v::<U30>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 30 in chunks of 24
fn p985() { let _ = v::<U30>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 30 in chunks of 25
fn p986() { let _ = v::<U30>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 30 in chunks of 26
fn p987() { let _ = v::<U30>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 30 in chunks of 27
fn p988() { let _ = v::<U30>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 30 in chunks of 28
fn p989() { let _ = v::<U30>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 30 in chunks of 29
fn p990() { let _ = v::<U30>().into_chunks::<U30>(); } // ACCEPT	into_chunks	length 30 in chunks of 30
fn p991() { let _ = v::<U30>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 30 in chunks of 31
fn p992() { let _ = v::<U30>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 30 in chunks of 32
fn p993() { let _ = v::<U31>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 31 in chunks of 1
fn p994() { let _ = v::<U31>().into_chunks::<U2>(); } // REFUSE	into_chunks	length 31 in chunks of 2
fn p995() { let _ = v::<U31>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 31 in chunks of 3
fn p996() { let _ = v::<U31>().into_chunks::<U4>(); } // REFUSE	into_chunks	length 31 in chunks of 4
fn p997() { let _ = v::<U31>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 31 in chunks of 5
fn p998() { let _ = v::<U31>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 31 in chunks of 6
fn p999() { let _ = v::<U31>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 31 in chunks of 7
fn p1000() { let _ = v::<U31>().into_chunks::<U8>(); } // REFUSE	into_chunks	length 31 in chunks of 8
fn p1001() { let _ = v::<U31>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 31 in chunks of 9
fn p1002() { let _ = v::<U31>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 31 in chunks of 10
fn p1003() { let _ = v::<U31>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 31 in chunks of 11
fn p1004() { let _ = v::<U31>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 31 in chunks of 12
fn p1005() { let _ = v::<U31>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 31 in chunks of 13
fn p1006() { let _ = v::<U31>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 31 in chunks of 14
fn p1007() { let _ = v::<U31>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 31 in chunks of 15
fn p1008() { let _ = v::<U31>().into_chunks::<U16>(); } // REFUSE	into_chunks	length 31 in chunks of 16
fn p1009() { let _ = v::<U31>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 31 in chunks of 17
fn p1010() { let _ = v::<U31>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 31 in chunks of 18
fn p1011() { let _ = v::<U31>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 31 in chunks of 19
fn p1012() { let _ = v::<U31>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 31 in chunks of 20
fn p1013() { let _ = v::<U31>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 31 in chunks of 21
fn p1014() { let _ = v::<U31>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 31 in chunks of 22
fn p1015() { let _ = v::<U31>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 31 in chunks of 23
fn p1016() { let _ = v::<U31>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 31 in chunks of 24
fn p1017() { let _ = v::<U31>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 31 in chunks of 25
fn p1018() { let _ = v::<U31>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 31 in chunks of 26
fn p1019() { let _ = v::<U31>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 31 in chunks of 27
fn p1020() { let _ = v::<U31>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 31 in chunks of 28
fn p1021() { let _ = v::<U31>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 31 in chunks of 29
fn p1022() { let _ = v::<U31>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 31 in chunks of 30
fn p1023() { let _ = v::<U31>().into_chunks::<U31>(); } // ACCEPT	into_chunks	length 31 in chunks of 31
fn p1024() { let _ = v::<U31>().into_chunks::<U32>(); } // REFUSE	into_chunks	length 31 in chunks of 32
fn p1025() { let _ = v::<U32>().into_chunks::<U1>(); } // ACCEPT	into_chunks	length 32 in chunks of 1
fn p1026() { let _ = v::<U32>().into_chunks::<U2>(); } // ACCEPT	into_chunks	length 32 in chunks of 2
fn p1027() { let _ = v::<U32>().into_chunks::<U3>(); } // REFUSE	into_chunks	length 32 in chunks of 3
fn p1028() { let _ = v::<U32>().into_chunks::<U4>(); } // ACCEPT	into_chunks	length 32 in chunks of 4
fn p1029() { let _ = v::<U32>().into_chunks::<U5>(); } // REFUSE	into_chunks	length 32 in chunks of 5
fn p1030() { let _ = v::<U32>().into_chunks::<U6>(); } // REFUSE	into_chunks	length 32 in chunks of 6
fn p1031() { let _ = v::<U32>().into_chunks::<U7>(); } // REFUSE	into_chunks	length 32 in chunks of 7
fn p1032() { let _ = v::<U32>().into_chunks::<U8>(); } // ACCEPT	into_chunks	length 32 in chunks of 8
fn p1033() { let _ = v::<U32>().into_chunks::<U9>(); } // REFUSE	into_chunks	length 32 in chunks of 9
fn p1034() { let _ = v::<U32>().into_chunks::<U10>(); } // REFUSE	into_chunks	length 32 in chunks of 10
fn p1035() { let _ = v::<U32>().into_chunks::<U11>(); } // REFUSE	into_chunks	length 32 in chunks of 11
fn p1036() { let _ = v::<U32>().into_chunks::<U12>(); } // REFUSE	into_chunks	length 32 in chunks of 12
fn p1037() { let _ = v::<U32>().into_chunks::<U13>(); } // REFUSE	into_chunks	length 32 in chunks of 13
fn p1038() { let _ = v::<U32>().into_chunks::<U14>(); } // REFUSE	into_chunks	length 32 in chunks of 14
fn p1039() { let _ = v::<U32>().into_chunks::<U15>(); } // REFUSE	into_chunks	length 32 in chunks of 15
fn p1040() { let _ = v::<U32>().into_chunks::<U16>(); } // ACCEPT	into_chunks	length 32 in chunks of 16
fn p1041() { let _ = v::<U32>().into_chunks::<U17>(); } // REFUSE	into_chunks	length 32 in chunks of 17
fn p1042() { let _ = v::<U32>().into_chunks::<U18>(); } // REFUSE	into_chunks	length 32 in chunks of 18
fn p1043() { let _ = v::<U32>().into_chunks::<U19>(); } // REFUSE	into_chunks	length 32 in chunks of 19
fn p1044() { let _ = v::<U32>().into_chunks::<U20>(); } // REFUSE	into_chunks	length 32 in chunks of 20
fn p1045() { let _ = v::<U32>().into_chunks::<U21>(); } // REFUSE	into_chunks	length 32 in chunks of 21
fn p1046() { let _ = v::<U32>().into_chunks::<U22>(); } // REFUSE	into_chunks	length 32 in chunks of 22
fn p1047() { let _ = v::<U32>().into_chunks::<U23>(); } // REFUSE	into_chunks	length 32 in chunks of 23
fn p1048() { let _ = v::<U32>().into_chunks::<U24>(); } // REFUSE	into_chunks	length 32 in chunks of 24
fn p1049() { let _ = v::<U32>().into_chunks::<U25>(); } // REFUSE	into_chunks	length 32 in chunks of 25
fn p1050() { let _ = v::<U32>().into_chunks::<U26>(); } // REFUSE	into_chunks	length 32 in chunks of 26
fn p1051() { let _ = v::<U32>().into_chunks::<U27>(); } // REFUSE	into_chunks	length 32 in chunks of 27
fn p1052() { let _ = v::<U32>().into_chunks::<U28>(); } // REFUSE	into_chunks	length 32 in chunks of 28
fn p1053() { let _ = v::<U32>().into_chunks::<U29>(); } // REFUSE	into_chunks	length 32 in chunks of 29
fn p1054() { let _ = v::<U32>().into_chunks::<U30>(); } // REFUSE	into_chunks	length 32 in chunks of 30
fn p1055() { let _ = v::<U32>().into_chunks::<U31>(); } // REFUSE	into_chunks	length 32 in chunks of 31
fn p1056() { let _ = v::<U32>().into_chunks::<U32>(); } // ACCEPT	into_chunks	length 32 in chunks of 32
fn p1057() { v::<U0>().dot(&v::<U0>()); } // ACCEPT	dot	lengths 0 and 0
fn p1058() { let _ = v::<U0>() == v::<U0>(); } // ACCEPT	==	lengths 0 and 0
fn p1059() { let _ = v::<U0>() + v::<U0>(); } // ACCEPT	+	lengths 0 and 0
fn p1060() { v::<U0>().dot(&v::<U1>()); } // REFUSE	dot	lengths 0 and 1
fn p1061() { let _ = v::<U0>() == v::<U1>(); } // REFUSE	==	lengths 0 and 1
fn p1062() { let _ = v::<U0>() + v::<U1>(); } // REFUSE	+	lengths 0 and 1
fn p1063() { v::<U0>().dot(&v::<U2>()); } // REFUSE	dot	lengths 0 and 2
fn p1064() { let _ = v::<U0>() == v::<U2>(); } // REFUSE	==	lengths 0 and 2
fn p1065() { let _ = v::<U0>() + v::<U2>(); } // REFUSE	+	lengths 0 and 2
fn p1066() { v::<U0>().dot(&v::<U3>()); } // REFUSE	dot	lengths 0 and 3
fn p1067() { let _ = v::<U0>() == v::<U3>(); } // REFUSE	==	lengths 0 and 3
fn p1068() { let _ = v::<U0>() + v::<U3>(); } // REFUSE	+	lengths 0 and 3
fn p1069() { v::<U0>().dot(&v::<U4>()); } // REFUSE	dot	lengths 0 and 4
fn p1070() { let _ = v::<U0>() == v::<U4>(); } // REFUSE	==	lengths 0 and 4
fn p1071() { let _ = v::<U0>() + v::<U4>(); } // REFUSE	+	lengths 0 and 4
fn p1072() { v::<U0>().dot(&v::<U5>()); } // REFUSE	dot	lengths 0 and 5
fn p1073() { let _ = v::<U0>() == v::<U5>(); } // REFUSE	==	lengths 0 and 5
fn p1074() { let _ = v::<U0>() + v::<U5>(); } // REFUSE	+	lengths 0 and 5
fn p1075() { v::<U0>().dot(&v::<U6>()); } // REFUSE	dot	lengths 0 and 6
fn p1076() { let _ = v::<U0>() == v::<U6>(); } // REFUSE	==	lengths 0 and 6
fn p1077() { let _ = v::<U0>() + v::<U6>(); } // REFUSE	+	lengths 0 and 6
fn p1078() { v::<U0>().dot(&v::<U7>()); } // REFUSE	dot	lengths 0 and 7
fn p1079() { let _ = v::<U0>() == v::<U7>(); } // REFUSE	==	lengths 0 and 7
fn p1080() { let _ = v::<U0>() + v::<U7>(); } // REFUSE	+	lengths 0 and 7
fn p1081() { v::<U0>().dot(&v::<U8>()); } // REFUSE	dot	lengths 0 and 8
fn p1082() { let _ = v::<U0>() == v::<U8>(); } // REFUSE	==	lengths 0 and 8
fn p1083() { let _ = v::<U0>() + v::<U8>(); } // REFUSE	+	lengths 0 and 8
fn p1084() { v::<U0>().dot(&v::<U9>()); } // REFUSE	dot	lengths 0 and 9
fn p1085() { let _ = v::<U0>() == v::<U9>(); } // REFUSE	==	lengths 0 and 9
fn p1086() { let _ = v::<U0>() + v::<U9>(); } // REFUSE	+	lengths 0 and 9
fn p1087() { v::<U0>().dot(&v::<U10>()); } // REFUSE	dot	lengths 0 and 10
fn p1088() { let _ = v::<U0>() == v::<U10>(); } // REFUSE	==	lengths 0 and 10
fn p1089() { let _ = v::<U0>() + v::<U10>(); } // REFUSE	+	lengths 0 and 10
fn p1090() { v::<U0>().dot(&v::<U11>()); } // REFUSE	dot	lengths 0 and 11
fn p1091() { let _ = v::<U0>() == v::<U11>(); } // REFUSE	==	lengths 0 and 11
fn p1092() { let _ = v::<U0>() + v::<U11>(); } // REFUSE	+	lengths 0 and 11
fn p1093() { v::<U0>().dot(&v::<U12>()); } // REFUSE	dot	lengths 0 and 12
fn p1094() { let _ = v::<U0>() == v::<U12>(); } // REFUSE	==	lengths 0 and 12
fn p1095() { let _ = v::<U0>() + v::<U12>(); } // REFUSE	+	lengths 0 and 12
fn p1096() { v::<U0>().dot(&v::<U13>()); } // REFUSE	dot	lengths 0 and 13
fn p1097() { let _ = v::<U0>() == v::<U13>(); } // REFUSE	==	lengths 0 and 13
fn p1098() { let _ = v::<U0>() + v::<U13>(); } // REFUSE	+	lengths 0 and 13
fn p1099() { v::<U0>().dot(&v::<U14>()); } // REFUSE	dot	lengths 0 and 14
fn p1100() { let _ = v::<U0>() == v::<U14>(); } // REFUSE	==	lengths 0 and 14
fn p1101() { let _ = v::<U0>() + v::<U14>(); } // REFUSE	+	lengths 0 and 14
fn p1102() { v::<U0>().dot(&v::<U15>()); } // REFUSE	dot	lengths 0 and 15
fn p1103() { let _ = v::<U0>() == v::<U15>(); } // REFUSE	==	lengths 0 and 15
fn p1104() { let _ = v::<U0>() + v::<U15>(); } // REFUSE	+	lengths 0 and 15
fn p1105() { v::<U0>().dot(&v::<U16>()); } // REFUSE	dot	lengths 0 and 16
fn p1106() { let _ = v::<U0>() == v::<U16>(); } // REFUSE	==	lengths 0 and 16
fn p1107() { let _ = v::<U0>() + v::<U16>(); } // REFUSE	+	lengths 0 and 16
fn p1108() { v::<U0>().dot(&v::<U17>()); } // REFUSE	dot	lengths 0 and 17
fn p1109() { let _ = v::<U0>() == v::<U17>(); } // REFUSE	==	lengths 0 and 17
fn p1110() { let _ = v::<U0>() + v::<U17>(); } // REFUSE	+	lengths 0 and 17
fn p1111() { v::<U0>().dot(&v::<U18>()); } // REFUSE	dot	lengths 0 and 18
fn p1112() { let _ = v::<U0>() == v::<U18>(); } // REFUSE	==	lengths 0 and 18
fn p1113() { let _ = v::<U0>() + v::<U18>(); } // REFUSE	+	lengths 0 and 18
fn p1114() { v::<U0>().dot(&v::<U19>()); } // REFUSE	dot	lengths 0 and 19
fn p1115() { let _ = v::<U0>() == v::<U19>(); } // REFUSE	==	lengths 0 and 19
fn p1116() { let _ = v::<U0>() + v::<U19>(); } // REFUSE	+	lengths 0 and 19
fn p1117() { v::<U0>().dot(&v::<U20>()); } // REFUSE	dot	lengths 0 and 20
fn p1118() { let _ = v::<U0>() == v::<U20>(); } // REFUSE	==	lengths 0 and 20
fn p1119() { let _ = v::<U0>() + v::<U20>(); } // REFUSE	+	lengths 0 and 20
fn p1120() { v::<U0>().dot(&v::<U21>()); } // REFUSE	dot	lengths 0 and 21
fn p1121() { let _ = v::<U0>() == v::<U21>(); } // REFUSE	==	lengths 0 and 21
fn p1122() { let _ = v::<U0>() + v::<U21>(); } // REFUSE	+	lengths 0 and 21
fn p1123() { v::<U0>().dot(&v::<U22>()); } // REFUSE	dot	lengths 0 and 22
fn p1124() { let _ = v::<U0>() == v::<U22>(); } // REFUSE	==	lengths 0 and 22
fn p1125() { let _ = v::<U0>() + v::<U22>(); } // REFUSE	+	lengths 0 and 22
fn p1126() { v::<U0>().dot(&v::<U23>()); } // REFUSE	dot	lengths 0 and 23
fn p1127() { let _ = v::<U0>() == v::<U23>(); } // REFUSE	==	lengths 0 and 23
fn p1128() { let _ = v::<U0>() + v::<U23>(); } // REFUSE	+	lengths 0 and 23
fn p1129() { v::<U0>().dot(&v::<U24>()); } // REFUSE	dot	lengths 0 and 24
fn p1130() { let _ = v::<U0>() == v::<U24>(); } // REFUSE	==	lengths 0 and 24
fn p1131() { let _ = v::<U0>() + v::<U24>(); } // REFUSE	+	lengths 0 and 24
fn p1132() { v::<U0>().dot(&v::<U25>()); } // REFUSE	dot	lengths 0 and 25
fn p1133() { let _ = v::<U0>() == v::<U25>(); } // REFUSE	==	lengths 0 and 25
fn p1134() { let _ = v::<U0>() + v::<U25>(); } // REFUSE	+	lengths 0 and 25
fn p1135() { v::<U0>().dot(&v::<U26>()); } // REFUSE	dot	lengths 0 and 26
fn p1136() { let _ = v::<U0>() == v::<U26>(); } // REFUSE	==	lengths 0 and 26
fn p1137() { let _ = v::<U0>() + v::<U26>(); } // REFUSE	+	lengths 0 and 26
fn p1138() { v::<U0>().dot(&v::<U27>()); } // REFUSE	dot	lengths 0 and 27
fn p1139() { let _ = v::<U0>() == v::<U27>(); } // REFUSE	==	lengths 0 and 27
fn p1140() { let _ = v::<U0>() + v::<U27>(); } // REFUSE	+	lengths 0 and 27
fn p1141() { v::<U0>().dot(&v::<U28>()); } // REFUSE	dot	lengths 0 and 28
fn p1142() { let _ = v::<U0>() == v::<U28>(); } // REFUSE	==	lengths 0 and 28
fn p1143() { let _ = v::<U0>() + v::<U28>(); } // REFUSE	+	lengths 0 and 28
fn p1144() { v::<U0>().dot(&v::<U29>()); } // REFUSE	dot	lengths 0 and 29
fn p1145() { let _ = v::<U0>() == v::<U29>(); } // REFUSE	==	lengths 0 and 29
fn p1146() { let _ = v::<U0>() + v::<U29>(); } // REFUSE	+	lengths 0 and 29
fn p1147() { v::<U0>().dot(&v::<U30>()); } // REFUSE	dot	lengths 0 and 30
fn p1148() { let _ = v::<U0>() == v::<U30>(); } // REFUSE	==	lengths 0 and 30
fn p1149() { let _ = v::<U0>() + v::<U30>(); } // REFUSE	+	lengths 0 and 30
fn p1150() { v::<U0>().dot(&v::<U31>()); } // REFUSE	dot	lengths 0 and 31
fn p1151() { let _ = v::<U0>() == v::<U31>(); } // REFUSE	==	lengths 0 and 31
fn p1152() { let _ = v::<U0>() + v::<U31>(); } // REFUSE	+	lengths 0 and 31
fn p1153() { v::<U0>().dot(&v::<U32>()); } // REFUSE	dot	lengths 0 and 32
fn p1154() { let _ = v::<U0>() == v::<U32>(); } // REFUSE	==	lengths 0 and 32
fn p1155() { let _ = v::<U0>() + v::<U32>(); } // REFUSE	+	lengths 0 and 32
fn p1156() { v::<U1>().dot(&v::<U0>()); } // REFUSE	dot	lengths 1 and 0
fn p1157() { let _ = v::<U1>() == v::<U0>(); } // REFUSE	==	lengths 1 and 0
fn p1158() { let _ = v::<U1>() + v::<U0>(); } // REFUSE	+	lengths 1 and 0
fn p1159() { v::<U1>().dot(&v::<U1>()); } // ACCEPT	dot	lengths 1 and 1
fn p1160() { let _ = v::<U1>() == v::<U1>(); } // ACCEPT	==	lengths 1 and 1
fn p1161() { let _ = v::<U1>() + v::<U1>(); } // ACCEPT	+	lengths 1 and 1
fn p1162() { v::<U1>().dot(&v::<U2>()); } // REFUSE	dot	lengths 1 and 2
fn p1163() { let _ = v::<U1>() == v::<U2>(); } // REFUSE	==	lengths 1 and 2
fn p1164() { let _ = v::<U1>() + v::<U2>(); } // REFUSE	+	lengths 1 and 2
fn p1165() { v::<U1>().dot(&v::<U3>()); } // REFUSE	dot	lengths 1 and 3
fn p1166() { let _ = v::<U1>() == v::<U3>(); } // REFUSE	==	lengths 1 and 3
fn p1167() { let _ = v::<U1>() + v::<U3>(); } // REFUSE	+	lengths 1 and 3
fn p1168() { v::<U1>().dot(&v::<U4>()); } // REFUSE	dot	lengths 1 and 4
fn p1169() { let _ = v::<U1>() == v::<U4>(); } // REFUSE	==	lengths 1 and 4
fn p1170() { let _ = v::<U1>() + v::<U4>(); } // REFUSE	+	lengths 1 and 4
fn p1171() { v::<U1>().dot(&v::<U5>()); } // REFUSE	dot	lengths 1 and 5
fn p1172() { let _ = v::<U1>() == v::<U5>(); } // REFUSE	==	lengths 1 and 5
fn p1173() { let _ = v::<U1>() + v::<U5>(); } // REFUSE	+	lengths 1 and 5
fn p1174() { v::<U1>().dot(&v::<U6>()); } // REFUSE	dot	lengths 1 and 6
fn p1175() { let _ = v::<U1>() == v::<U6>(); } // REFUSE	==	lengths 1 and 6
fn p1176() { let _ = v::<U1>() + v::<U6>(); } // REFUSE	+	lengths 1 and 6
fn p1177() { v::<U1>().dot(&v::<U7>()); } // REFUSE	dot	lengths 1 and 7
fn p1178() { let _ = v::<U1>() == v::<U7>(); } // REFUSE	==	lengths 1 and 7
fn p1179() { let _ = v::<U1>() + v::<U7>(); } // REFUSE	+	lengths 1 and 7
fn p1180() { v::<U1>().dot(&v::<U8>()); } // REFUSE	dot	lengths 1 and 8
fn p1181() { let _ = v::<U1>() == v::<U8>(); } // REFUSE	==	lengths 1 and 8
fn p1182() { let _ = v::<U1>() + v::<U8>(); } // REFUSE	+	lengths 1 and 8
fn p1183() { v::<U1>().dot(&v::<U9>()); } // REFUSE	dot	lengths 1 and 9
fn p1184() { let _ = v::<U1>() == v::<U9>(); } // REFUSE	==	lengths 1 and 9
fn p1185() { let _ = v::<U1>() + v::<U9>(); } // REFUSE	+	lengths 1 and 9
fn p1186() { v::<U1>().dot(&v::<U10>()); } // REFUSE	dot	lengths 1 and 10
fn p1187() { let _ = v::<U1>() == v::<U10>(); } // REFUSE	==	lengths 1 and 10
fn p1188() { let _ = v::<U1>() + v::<U10>(); } // REFUSE	+	lengths 1 and 10
fn p1189() { v::<U1>().dot(&v::<U11>()); } // REFUSE	dot	lengths 1 and 11
fn p1190() { let _ = v::<U1>() == v::<U11>(); } // REFUSE	==	lengths 1 and 11
fn p1191() { let _ = v::<U1>() + v::<U11>(); } // REFUSE	+	lengths 1 and 11
fn p1192() { v::<U1>().dot(&v::<U12>()); } // REFUSE	dot	lengths 1 and 12
fn p1193() { let _ = v::<U1>() == v::<U12>(); } // REFUSE	==	lengths 1 and 12
fn p1194() { let _ = v::<U1>() + v::<U12>(); } // REFUSE	+	lengths 1 and 12
fn p1195() { v::<U1>().dot(&v::<U13>()); } // REFUSE	dot	lengths 1 and 13
fn p1196() { let _ = v::<U1>() == v::<U13>(); } // REFUSE	==	lengths 1 and 13
fn p1197() { let _ = v::<U1>() + v::<U13>(); } // REFUSE	+	lengths 1 and 13
fn p1198() { v::<U1>().dot(&v::<U14>()); } // REFUSE	dot	lengths 1 and 14
fn p1199() { let _ = v::<U1>() == v::<U14>(); } // REFUSE	==	lengths 1 and 14
fn p1200() { let _ = v::<U1>() + v::<U14>(); } // REFUSE	+	lengths 1 and 14
fn p1201() { v::<U1>().dot(&v::<U15>()); } // REFUSE	dot	lengths 1 and 15
fn p1202() { let _ = v::<U1>() == v::<U15>(); } // REFUSE	==	lengths 1 and 15
fn p1203() { let _ = v::<U1>() + v::<U15>(); } // REFUSE	+	lengths 1 and 15
fn p1204() { v::<U1>().dot(&v::<U16>()); } // REFUSE	dot	lengths 1 and 16
fn p1205() { let _ = v::<U1>() == v::<U16>(); } // REFUSE	==	lengths 1 and 16
fn p1206() { let _ = v::<U1>() + v::<U16>(); } // REFUSE	+	lengths 1 and 16
fn p1207() { v::<U1>().dot(&v::<U17>()); } // REFUSE	dot	lengths 1 and 17
fn p1208() { let _ = v::<U1>() == v::<U17>(); } // REFUSE	==	lengths 1 and 17
fn p1209() { let _ = v::<U1>() + v::<U17>(); } // REFUSE	+	lengths 1 and 17
fn p1210() { v::<U1>().dot(&v::<U18>()); } // REFUSE	dot	lengths 1 and 18
fn p1211() { let _ = v::<U1>() == v::<U18>(); } // REFUSE	==	lengths 1 and 18
fn p1212() { let _ = v::<U1>() + v::<U18>(); } // REFUSE	+	lengths 1 and 18
fn p1213() { v::<U1>().dot(&v::<U19>()); } // REFUSE	dot	lengths 1 and 19
fn p1214() { let _ = v::<U1>() == v::<U19>(); } // REFUSE	==	lengths 1 and 19
fn p1215() { let _ = v::<U1>() + v::<U19>(); } // REFUSE	+	lengths 1 and 19
fn p1216() { v::<U1>().dot(&v::<U20>()); } // REFUSE	dot	lengths 1 and 20
fn p1217() { let _ = v::<U1>() == v::<U20>(); } // REFUSE	==	lengths 1 and 20
fn p1218() { let _ = v::<U1>() + v::<U20>(); } // REFUSE	+	lengths 1 and 20
fn p1219() { v::<U1>().dot(&v::<U21>()); } // REFUSE	dot	lengths 1 and 21
fn p1220() { let _ = v::<U1>() == v::<U21>(); } // REFUSE	==	lengths 1 and 21
fn p1221() { let _ = v::<U1>() + v::<U21>(); } // REFUSE	+	lengths 1 and 21
fn p1222() { v::<U1>().dot(&v::<U22>()); } // REFUSE	dot	lengths 1 and 22
fn p1223() { let _ = v::<U1>() == v::<U22>(); } // REFUSE	==	lengths 1 and 22
fn p1224() { let _ = v::<U1>() + v::<U22>(); } // REFUSE	+	lengths 1 and 22
fn p1225() { v::<U1>().dot(&v::<U23>()); } // REFUSE	dot	lengths 1 and 23
fn p1226() { let _ = v::<U1>() == v::<U23>(); } // REFUSE	==	lengths 1 and 23
fn p1227() { let _ = v::<U1>() + v::<U23>(); } // REFUSE	+	lengths 1 and 23
fn p1228() { v::<U1>().dot(&v::<U24>()); } // REFUSE	dot	lengths 1 and 24
fn p1229() { let _ = v::<U1>() == v::<U24>(); } // REFUSE	==	lengths 1 and 24
fn p1230() { let _ = v::<U1>() + v::<U24>(); } // REFUSE	+	lengths 1 and 24
fn p1231() { v::<U1>().dot(&v::<U25>()); } // REFUSE	dot	lengths 1 and 25
fn p1232() { let _ = v::<U1>() == v::<U25>(); } // REFUSE	==	lengths 1 and 25
fn p1233() { let _ = v::<U1>() + v::<U25>(); } // REFUSE	+	lengths 1 and 25
fn p1234() { v::<U1>().dot(&v::<U26>()); } // REFUSE	dot	lengths 1 and 26
fn p1235() { let _ = v::<U1>() == v::<U26>(); } // REFUSE	==	lengths 1 and 26
fn p1236() { let _ = v::<U1>() + v::<U26>(); } // REFUSE	+	lengths 1 and 26
fn p1237() { v::<U1>().dot(&v::<U27>()); } // REFUSE	dot	lengths 1 and 27
fn p1238() { let _ = v::<U1>() == v::<U27>(); } // REFUSE	==	lengths 1 and 27
fn p1239() { let _ = v::<U1>() + v::<U27>(); } // REFUSE	+	lengths 1 and 27
fn p1240() { v::<U1>().dot(&v::<U28>()); } // REFUSE	dot	lengths 1 and 28
fn p1241() { let _ = v::<U1>() == v::<U28>(); } // REFUSE	==	lengths 1 and 28
fn p1242() { let _ = v::<U1>() + v::<U28>(); } // REFUSE	+	lengths 1 and 28
fn p1243() { v::<U1>().dot(&v::<U29>()); } // REFUSE	dot	lengths 1 and 29
fn p1244() { let _ = v::<U1>() == v::<U29>(); } // REFUSE	==	lengths 1 and 29
fn p1245() { let _ = v::<U1>() + v::<U29>(); } // REFUSE	+	lengths 1 and 29
fn p1246() { v::<U1>().dot(&v::<U30>()); } // REFUSE	dot	lengths 1 and 30
fn p1247() { let _ = v::<U1>() == v::<U30>(); } // REFUSE	==	lengths 1 and 30
fn p1248() { let _ = v::<U1>() + v::<U30>(); } // REFUSE	+	lengths 1 and 30
fn p1249() { v::<U1>().dot(&v::<U31>()); } // REFUSE	dot	lengths 1 and 31
fn p1250() { let _ = v::<U1>() == v::<U31>(); } // REFUSE	==	lengths 1 and 31
fn p1251() { let _ = v::<U1>() + v::<U31>(); } // REFUSE	+	lengths 1 and 31
fn p1252() { v::<U1>().dot(&v::<U32>()); } // REFUSE	dot	lengths 1 and 32
fn p1253() { let _ = v::<U1>() == v::<U32>(); } // REFUSE	==	lengths 1 and 32
fn p1254() { let _ = v::<U1>() + v::<U32>(); } // REFUSE	+	lengths 1 and 32
fn p1255() { v::<U2>().dot(&v::<U0>()); } // REFUSE	dot	lengths 2 and 0
fn p1256() { let _ = v::<U2>() == v::<U0>(); } // REFUSE	==	lengths 2 and 0
fn p1257() { let _ = v::<U2>() + v::<U0>(); } // REFUSE	+	lengths 2 and 0
fn p1258() { v::<U2>().dot(&v::<U1>()); } // REFUSE	dot	lengths 2 and 1
fn p1259() { let _ = v::<U2>() == v::<U1>(); } // REFUSE	==	lengths 2 and 1
fn p1260() { let _ = v::<U2>() + v::<U1>(); } // REFUSE	+	lengths 2 and 1
fn p1261() { v::<U2>().dot(&v::<U2>()); } // ACCEPT	dot	lengths 2 and 2
fn p1262() { let _ = v::<U2>() == v::<U2>(); } // ACCEPT	==	lengths 2 and 2
fn p1263() { let _ = v::<U2>() + v::<U2>(); } // ACCEPT	+	lengths 2 and 2
fn p1264() { v::<U2>().dot(&v::<U3>()); } // REFUSE	dot	lengths 2 and 3
fn p1265() { let _ = v::<U2>() == v::<U3>(); } // REFUSE	==	lengths 2 and 3
fn p1266() { let _ = v::<U2>() + v::<U3>(); } // REFUSE	+	lengths 2 and 3
fn p1267() { v::<U2>().dot(&v::<U4>()); } // REFUSE	dot	lengths 2 and 4
fn p1268() { let _ = v::<U2>() == v::<U4>(); } // REFUSE	==	lengths 2 and 4
fn p1269() { let _ = v::<U2>() + v::<U4>(); } // REFUSE	+	lengths 2 and 4
fn p1270() { v::<U2>().dot(&v::<U10>()); } // REFUSE	dot	lengths 2 and 10
fn p1271() { let _ = v::<U2>() == v::<U10>(); } // REFUSE	==	lengths 2 and 10
fn p1272() { let _ = v::<U2>() + v::<U10>(); } // REFUSE	+	lengths 2 and 10
fn p1273() { v::<U2>().dot(&v::<U18>()); } // REFUSE	dot	lengths 2 and 18
fn p1274() { let _ = v::<U2>() == v::<U18>(); } // REFUSE	==	lengths 2 and 18
fn p1275() { let _ = v::<U2>() + v::<U18>(); } // REFUSE	+	lengths 2 and 18
fn p1276() { v::<U2>().dot(&v::<U26>()); } // REFUSE	dot	lengths 2 and 26
fn p1277() { let _ = v::<U2>() == v::<U26>(); } // REFUSE	==	lengths 2 and 26
fn p1278() { let _ = v::<U2>() + v::<U26>(); } // REFUSE	+	lengths 2 and 26
fn p1279() { v::<U2>().dot(&v::<U32>()); } // REFUSE	dot	lengths 2 and 32
fn p1280() { let _ = v::<U2>() == v::<U32>(); } // REFUSE	==	lengths 2 and 32
fn p1281() { let _ = v::<U2>() + v::<U32>(); } // REFUSE	+	lengths 2 and 32
fn p1282() { v::<U3>().dot(&v::<U0>()); } // REFUSE	dot	lengths 3 and 0
fn p1283() { let _ = v::<U3>() == v::<U0>(); } // REFUSE	==	lengths 3 and 0
fn p1284() { let _ = v::<U3>() + v::<U0>(); } // REFUSE	+	lengths 3 and 0
fn p1285() { v::<U3>().dot(&v::<U1>()); } // REFUSE	dot	lengths 3 and 1
fn p1286() { let _ = v::<U3>() == v::<U1>(); } // REFUSE	==	lengths 3 and 1
fn p1287() { let _ = v::<U3>() + v::<U1>(); } // REFUSE	+	lengths 3 and 1
fn p1288() { v::<U3>().dot(&v::<U2>()); } // REFUSE	dot	lengths 3 and 2
fn p1289() { let _ = v::<U3>() == v::<U2>(); } // REFUSE	==	lengths 3 and 2
fn p1290() { let _ = v::<U3>() + v::<U2>(); } // REFUSE	+	lengths 3 and 2
fn p1291() { v::<U3>().dot(&v::<U3>()); } // ACCEPT	dot	lengths 3 and 3
fn p1292() { let _ = v::<U3>() == v::<U3>(); } // ACCEPT	==	lengths 3 and 3
fn p1293() { let _ = v::<U3>() + v::<U3>(); } // ACCEPT	+	lengths 3 and 3
fn p1294() { v::<U3>().dot(&v::<U4>()); } // REFUSE	dot	lengths 3 and 4
fn p1295() { let _ = v::<U3>() == v::<U4>(); } // REFUSE	==	lengths 3 and 4
fn p1296() { let _ = v::<U3>() + v::<U4>(); } // REFUSE	+	lengths 3 and 4
fn p1297() { v::<U3>().dot(&v::<U5>()); } // REFUSE	dot	lengths 3 and 5
fn p1298() { let _ = v::<U3>() == v::<U5>(); } // REFUSE	==	lengths 3 and 5
fn p1299() { let _ = v::<U3>() + v::<U5>(); } // REFUSE	+	lengths 3 and 5
fn p1300() { v::<U3>().dot(&v::<U6>()); } // REFUSE	dot	lengths 3 and 6
fn p1301() { let _ = v::<U3>() == v::<U6>(); } // REFUSE	==	lengths 3 and 6
fn p1302() { let _ = v::<U3>() + v::<U6>(); } // REFUSE	+	lengths 3 and 6
fn p1303() { v::<U3>().dot(&v::<U11>()); } // REFUSE	dot	lengths 3 and 11
fn p1304() { let _ = v::<U3>() == v::<U11>(); } // REFUSE	==	lengths 3 and 11
fn p1305() { let _ = v::<U3>() + v::<U11>(); } // REFUSE	+	lengths 3 and 11
fn p1306() { v::<U3>().dot(&v::<U19>()); } // REFUSE	dot	lengths 3 and 19
fn p1307() { let _ = v::<U3>() == v::<U19>(); } // REFUSE	==	lengths 3 and 19
fn p1308() { let _ = v::<U3>() + v::<U19>(); } // REFUSE	+	lengths 3 and 19
fn p1309() { v::<U3>().dot(&v::<U27>()); } // REFUSE	dot	lengths 3 and 27
fn p1310() { let _ = v::<U3>() == v::<U27>(); } // REFUSE	==	lengths 3 and 27
fn p1311() { let _ = v::<U3>() + v::<U27>(); } // REFUSE	+	lengths 3 and 27
fn p1312() { v::<U3>().dot(&v::<U32>()); } // REFUSE	dot	lengths 3 and 32
fn p1313() { let _ = v::<U3>() == v::<U32>(); } // REFUSE	==	lengths 3 and 32
fn p1314() { let _ = v::<U3>() + v::<U32>(); } // REFUSE	+	lengths 3 and 32
fn p1315() { v::<U4>().dot(&v::<U0>()); } // REFUSE	dot	lengths 4 and 0
fn p1316() { let _ = v::<U4>() == v::<U0>(); } // REFUSE	==	lengths 4 and 0
fn p1317() { let _ = v::<U4>() + v::<U0>(); } // REFUSE	+	lengths 4 and 0
fn p1318() { v::<U4>().dot(&v::<U1>()); } // REFUSE	dot	lengths 4 and 1
fn p1319() { let _ = v::<U4>() == v::<U1>(); } // REFUSE	==	lengths 4 and 1
fn p1320() { let _ = v::<U4>() + v::<U1>(); } // REFUSE	+	lengths 4 and 1
fn p1321() { v::<U4>().dot(&v::<U2>()); } // REFUSE	dot	lengths 4 and 2
fn p1322() { let _ = v::<U4>() == v::<U2>(); } // REFUSE	==	lengths 4 and 2
fn p1323() { let _ = v::<U4>() + v::<U2>(); } // REFUSE	+	lengths 4 and 2
fn p1324() { v::<U4>().dot(&v::<U3>()); } // REFUSE	dot	lengths 4 and 3
fn p1325() { let _ = v::<U4>() == v::<U3>(); } // REFUSE	==	lengths 4 and 3
fn p1326() { let _ = v::<U4>() + v::<U3>(); } // REFUSE	+	lengths 4 and 3
fn p1327() { v::<U4>().dot(&v::<U4>()); } // ACCEPT	dot	lengths 4 and 4
fn p1328() { let _ = v::<U4>() == v::<U4>(); } // ACCEPT	==	lengths 4 and 4
fn p1329() { let _ = v::<U4>() + v::<U4>(); } // ACCEPT	+	lengths 4 and 4
fn p1330() { v::<U4>().dot(&v::<U5>()); } // REFUSE	dot	lengths 4 and 5
fn p1331() { let _ = v::<U4>() == v::<U5>(); } // REFUSE	==	lengths 4 and 5
fn p1332() { let _ = v::<U4>() + v::<U5>(); } // REFUSE	+	lengths 4 and 5
fn p1333() { v::<U4>().dot(&v::<U6>()); } // REFUSE	dot	lengths 4 and 6
fn p1334() { let _ = v::<U4>() == v::<U6>(); } // REFUSE	==	lengths 4 and 6
fn p1335() { let _ = v::<U4>() + v::<U6>(); } // REFUSE	+	lengths 4 and 6
fn p1336() { v::<U4>().dot(&v::<U8>()); } // REFUSE	dot	lengths 4 and 8
fn p1337() { let _ = v::<U4>() == v::<U8>(); } // REFUSE	==	lengths 4 and 8
fn p1338() { let _ = v::<U4>() + v::<U8>(); } // REFUSE	+	lengths 4 and 8
fn p1339() { v::<U4>().dot(&v::<U12>()); } // REFUSE	dot	lengths 4 and 12
fn p1340() { let _ = v::<U4>() == v::<U12>(); } // REFUSE	==	lengths 4 and 12
fn p1341() { let _ = v::<U4>() + v::<U12>(); } // REFUSE	+	lengths 4 and 12
fn p1342() { v::<U4>().dot(&v::<U20>()); } // REFUSE	dot	lengths 4 and 20
fn p1343() { let _ = v::<U4>() == v::<U20>(); } // REFUSE	==	lengths 4 and 20
fn p1344() { let _ = v::<U4>() + v::<U20>(); } // REFUSE	+	lengths 4 and 20
fn p1345() { v::<U4>().dot(&v::<U28>()); } // REFUSE	dot	lengths 4 and 28
fn p1346() { let _ = v::<U4>() == v::<U28>(); } // REFUSE	==	lengths 4 and 28
fn p1347() { let _ = v::<U4>() + v::<U28>(); } // REFUSE	+	lengths 4 and 28
fn p1348() { v::<U4>().dot(&v::<U32>()); } // REFUSE	dot	lengths 4 and 32
fn p1349() { let _ = v::<U4>() == v::<U32>(); } // REFUSE	==	lengths 4 and 32
fn p1350() { let _ = v::<U4>() + v::<U32>(); } // REFUSE	+	lengths 4 and 32
fn p1351() { v::<U5>().dot(&v::<U0>()); } // REFUSE	dot	lengths 5 and 0
fn p1352() { let _ = v::<U5>() == v::<U0>(); } // REFUSE	==	lengths 5 and 0
fn p1353() { let _ = v::<U5>() + v::<U0>(); } // REFUSE	+	lengths 5 and 0
fn p1354() { v::<U5>().dot(&v::<U1>()); } // REFUSE	dot	lengths 5 and 1
fn p1355() { let _ = v::<U5>() == v::<U1>(); } // REFUSE	==	lengths 5 and 1
fn p1356() { let _ = v::<U5>() + v::<U1>(); } // REFUSE	+	lengths 5 and 1
fn p1357() { v::<U5>().dot(&v::<U3>()); } // REFUSE	dot	lengths 5 and 3
fn p1358() { let _ = v::<U5>() == v::<U3>(); } // REFUSE	==	lengths 5 and 3
fn p1359() { let _ = v::<U5>() + v::<U3>(); } // REFUSE	+	lengths 5 and 3
fn p1360() { v::<U5>().dot(&v::<U4>()); } // REFUSE	dot	lengths 5 and 4
fn p1361() { let _ = v::<U5>() == v::<U4>(); } // REFUSE	==	lengths 5 and 4
fn p1362() { let _ = v::<U5>() + v::<U4>(); } // REFUSE	+	lengths 5 and 4
fn p1363() { v::<U5>().dot(&v::<U5>()); } // ACCEPT	dot	lengths 5 and 5
fn p1364() { let _ = v::<U5>() == v::<U5>(); } // ACCEPT	==	lengths 5 and 5
fn p1365() { let _ = v::<U5>() + v::<U5>(); } // ACCEPT	+	lengths 5 and 5
fn p1366() { v::<U5>().dot(&v::<U6>()); } // REFUSE	dot	lengths 5 and 6
fn p1367() { let _ = v::<U5>() == v::<U6>(); } // REFUSE	==	lengths 5 and 6
fn p1368() { let _ = v::<U5>() + v::<U6>(); } // REFUSE	+	lengths 5 and 6
fn p1369() { v::<U5>().dot(&v::<U7>()); } // REFUSE	dot	lengths 5 and 7
fn p1370() { let _ = v::<U5>() == v::<U7>(); } // REFUSE	==	lengths 5 and 7
fn p1371() { let _ = v::<U5>() + v::<U7>(); } // REFUSE	+	lengths 5 and 7
fn p1372() { v::<U5>().dot(&v::<U10>()); } // REFUSE	dot	lengths 5 and 10
fn p1373() { let _ = v::<U5>() == v::<U10>(); } // REFUSE	==	lengths 5 and 10
fn p1374() { let _ = v::<U5>() + v::<U10>(); } // REFUSE	+	lengths 5 and 10
fn p1375() { v::<U5>().dot(&v::<U13>()); } // REFUSE	dot	lengths 5 and 13
fn p1376() { let _ = v::<U5>() == v::<U13>(); } // REFUSE	==	lengths 5 and 13
fn p1377() { let _ = v::<U5>() + v::<U13>(); } // REFUSE	+	lengths 5 and 13
fn p1378() { v::<U5>().dot(&v::<U21>()); } // REFUSE	dot	lengths 5 and 21
fn p1379() { let _ = v::<U5>() == v::<U21>(); } // REFUSE	==	lengths 5 and 21
fn p1380() { let _ = v::<U5>() + v::<U21>(); } // REFUSE	+	lengths 5 and 21
fn p1381() { v::<U5>().dot(&v::<U29>()); } // REFUSE	dot	lengths 5 and 29
fn p1382() { let _ = v::<U5>() == v::<U29>(); } // REFUSE	==	lengths 5 and 29
fn p1383() { let _ = v::<U5>() + v::<U29>(); } // REFUSE	+	lengths 5 and 29
fn p1384() { v::<U5>().dot(&v::<U32>()); } // REFUSE	dot	lengths 5 and 32
fn p1385() { let _ = v::<U5>() == v::<U32>(); } // REFUSE	==	lengths 5 and 32
fn p1386() { let _ = v::<U5>() + v::<U32>(); } // REFUSE	+	lengths 5 and 32
fn p1387() { v::<U6>().dot(&v::<U0>()); } // REFUSE	dot	lengths 6 and 0
fn p1388() { let _ = v::<U6>() == v::<U0>(); } // REFUSE	==	lengths 6 and 0
fn p1389() { let _ = v::<U6>() + v::<U0>(); } // REFUSE	+	lengths 6 and 0
fn p1390() { v::<U6>().dot(&v::<U1>()); } // REFUSE	dot	lengths 6 and 1
fn p1391() { let _ = v::<U6>() == v::<U1>(); } // REFUSE	==	lengths 6 and 1
fn p1392() { let _ = v::<U6>() + v::<U1>(); } // REFUSE	+	lengths 6 and 1
fn p1393() { v::<U6>().dot(&v::<U3>()); } // REFUSE	dot	lengths 6 and 3
fn p1394() { let _ = v::<U6>() == v::<U3>(); } // REFUSE	==	lengths 6 and 3
fn p1395() { let _ = v::<U6>() + v::<U3>(); } // REFUSE	+	lengths 6 and 3
fn p1396() { v::<U6>().dot(&v::<U4>()); } // REFUSE	dot	lengths 6 and 4
fn p1397() { let _ = v::<U6>() == v::<U4>(); } // REFUSE	==	lengths 6 and 4
fn p1398() { let _ = v::<U6>() + v::<U4>(); } // REFUSE	+	lengths 6 and 4
fn p1399() { v::<U6>().dot(&v::<U5>()); } // REFUSE	dot	lengths 6 and 5
fn p1400() { let _ = v::<U6>() == v::<U5>(); } // REFUSE	==	lengths 6 and 5
fn p1401() { let _ = v::<U6>() + v::<U5>(); } // REFUSE	+	lengths 6 and 5
fn p1402() { v::<U6>().dot(&v::<U6>()); } // ACCEPT	dot	lengths 6 and 6
fn p1403() { let _ = v::<U6>() == v::<U6>(); } // ACCEPT	==	lengths 6 and 6
fn p1404() { let _ = v::<U6>() + v::<U6>(); } // ACCEPT	+	lengths 6 and 6
fn p1405() { v::<U6>().dot(&v::<U7>()); } // REFUSE	dot	lengths 6 and 7
fn p1406() { let _ = v::<U6>() == v::<U7>(); } // REFUSE	==	lengths 6 and 7
fn p1407() { let _ = v::<U6>() + v::<U7>(); } // REFUSE	+	lengths 6 and 7
fn p1408() { v::<U6>().dot(&v::<U8>()); } // REFUSE	dot	lengths 6 and 8
fn p1409() { let _ = v::<U6>() == v::<U8>(); } // REFUSE	==	lengths 6 and 8
fn p1410() { let _ = v::<U6>() + v::<U8>(); } // REFUSE	+	lengths 6 and 8
fn p1411() { v::<U6>().dot(&v::<U12>()); } // REFUSE	dot	lengths 6 and 12
fn p1412() { let _ = v::<U6>() == v::<U12>(); } // REFUSE	==	lengths 6 and 12
fn p1413() { let _ = v::<U6>() + v::<U12>(); } // REFUSE	+	lengths 6 and 12
fn p1414() { v::<U6>().dot(&v::<U14>()); } // REFUSE	dot	lengths 6 and 14
fn p1415() { let _ = v::<U6>() == v::<U14>(); } // REFUSE	==	lengths 6 and 14
fn p1416() { let _ = v::<U6>() + v::<U14>(); } // REFUSE	+	lengths 6 and 14
fn p1417() { v::<U6>().dot(&v::<U22>()); } // REFUSE	dot	lengths 6 and 22
fn p1418() { let _ = v::<U6>() == v::<U22>(); } // REFUSE	==	lengths 6 and 22
fn p1419() { let _ = v::<U6>() + v::<U22>(); } // REFUSE	+	lengths 6 and 22
fn p1420() { v::<U6>().dot(&v::<U30>()); } // REFUSE	dot	lengths 6 and 30
fn p1421() { let _ = v::<U6>() == v::<U30>(); } // REFUSE	==	lengths 6 and 30
fn p1422() { let _ = v::<U6>() + v::<U30>(); } // REFUSE	+	lengths 6 and 30
fn p1423() { v::<U6>().dot(&v::<U32>()); } // REFUSE	dot	lengths 6 and 32
fn p1424() { let _ = v::<U6>() == v::<U32>(); } // REFUSE	==	lengths 6 and 32
fn p1425() { let _ = v::<U6>() + v::<U32>(); } // REFUSE	+	lengths 6 and 32
fn p1426() { v::<U7>().dot(&v::<U0>()); } // REFUSE	dot	lengths 7 and 0
fn p1427() { let _ = v::<U7>() == v::<U0>(); } // REFUSE	==	lengths 7 and 0
fn p1428() { let _ = v::<U7>() + v::<U0>(); } // REFUSE	+	lengths 7 and 0
fn p1429() { v::<U7>().dot(&v::<U1>()); } // REFUSE	dot	lengths 7 and 1
fn p1430() { let _ = v::<U7>() == v::<U1>(); } // REFUSE	==	lengths 7 and 1
fn p1431() { let _ = v::<U7>() + v::<U1>(); } // REFUSE	+	lengths 7 and 1
fn p1432() { v::<U7>().dot(&v::<U5>()); } // REFUSE	dot	lengths 7 and 5
fn p1433() { let _ = v::<U7>() == v::<U5>(); } // REFUSE	==	lengths 7 and 5
fn p1434() { let _ = v::<U7>() + v::<U5>(); } // REFUSE	+	lengths 7 and 5
fn p1435() { v::<U7>().dot(&v::<U6>()); } // REFUSE	dot	lengths 7 and 6
fn p1436() { let _ = v::<U7>() == v::<U6>(); } // REFUSE	==	lengths 7 and 6
fn p1437() { let _ = v::<U7>() + v::<U6>(); } // REFUSE	+	lengths 7 and 6
fn p1438() { v::<U7>().dot(&v::<U7>()); } // ACCEPT	dot	lengths 7 and 7
fn p1439() { let _ = v::<U7>() == v::<U7>(); } // ACCEPT	==	lengths 7 and 7
fn p1440() { let _ = v::<U7>() + v::<U7>(); } // ACCEPT	+	lengths 7 and 7
fn p1441() { v::<U7>().dot(&v::<U8>()); } // REFUSE	dot	lengths 7 and 8
fn p1442() { let _ = v::<U7>() == v::<U8>(); } // REFUSE	==	lengths 7 and 8
fn p1443() { let _ = v::<U7>() + v::<U8>(); } // REFUSE	+	lengths 7 and 8
fn p1444() { v::<U7>().dot(&v::<U9>()); } // REFUSE	dot	lengths 7 and 9
fn p1445() { let _ = v::<U7>() == v::<U9>(); } // REFUSE	==	lengths 7 and 9
fn p1446() { let _ = v::<U7>() + v::<U9>(); } // REFUSE	+	lengths 7 and 9
fn p1447() { v::<U7>().dot(&v::<U14>()); } // REFUSE	dot	lengths 7 and 14
fn p1448() { let _ = v::<U7>() == v::<U14>(); } // REFUSE	==	lengths 7 and 14
fn p1449() { let _ = v::<U7>() + v::<U14>(); } // REFUSE	+	lengths 7 and 14
fn p1450() { v::<U7>().dot(&v::<U15>()); } // REFUSE	dot	lengths 7 and 15
fn p1451() { let _ = v::<U7>() == v::<U15>(); } // REFUSE	==	lengths 7 and 15
fn p1452() { let _ = v::<U7>() + v::<U15>(); } // REFUSE	+	lengths 7 and 15
fn p1453() { v::<U7>().dot(&v::<U23>()); } // REFUSE	dot	lengths 7 and 23
fn p1454() { let _ = v::<U7>() == v::<U23>(); } // REFUSE	==	lengths 7 and 23
fn p1455() { let _ = v::<U7>() + v::<U23>(); } // REFUSE	+	lengths 7 and 23
fn p1456() { v::<U7>().dot(&v::<U31>()); } // REFUSE	dot	lengths 7 and 31
fn p1457() { let _ = v::<U7>() == v::<U31>(); } // REFUSE	==	lengths 7 and 31
fn p1458() { let _ = v::<U7>() + v::<U31>(); } // REFUSE	+	lengths 7 and 31
fn p1459() { v::<U7>().dot(&v::<U32>()); } // REFUSE	dot	lengths 7 and 32
fn p1460() { let _ = v::<U7>() == v::<U32>(); } // REFUSE	==	lengths 7 and 32
fn p1461() { let _ = v::<U7>() + v::<U32>(); } // REFUSE	+	lengths 7 and 32
fn p1462() { v::<U8>().dot(&v::<U0>()); } // REFUSE	dot	lengths 8 and 0
fn p1463() { let _ = v::<U8>() == v::<U0>(); } // REFUSE	==	lengths 8 and 0
fn p1464() { let _ = v::<U8>() + v::<U0>(); } // REFUSE	+	lengths 8 and 0
fn p1465() { v::<U8>().dot(&v::<U1>()); } // REFUSE	dot	lengths 8 and 1
fn p1466() { let _ = v::<U8>() == v::<U1>(); } // REFUSE	==	lengths 8 and 1
fn p1467() { let _ = v::<U8>() + v::<U1>(); } // REFUSE	+	lengths 8 and 1
fn p1468() { v::<U8>().dot(&v::<U4>()); } // REFUSE	dot	lengths 8 and 4
fn p1469() { let _ = v::<U8>() == v::<U4>(); } // REFUSE	==	lengths 8 and 4
fn p1470() { let _ = v::<U8>() + v::<U4>(); } // REFUSE	+	lengths 8 and 4
fn p1471() { v::<U8>().dot(&v::<U6>()); } // REFUSE	dot	lengths 8 and 6
fn p1472() { let _ = v::<U8>() == v::<U6>(); } // REFUSE	==	lengths 8 and 6
fn p1473() { let _ = v::<U8>() + v::<U6>(); } // REFUSE	+	lengths 8 and 6
fn p1474() { v::<U8>().dot(&v::<U7>()); } // REFUSE	dot	lengths 8 and 7
fn p1475() { let _ = v::<U8>() == v::<U7>(); } // REFUSE	==	lengths 8 and 7
fn p1476() { let _ = v::<U8>() + v::<U7>(); } // REFUSE	+	lengths 8 and 7
fn p1477() { v::<U8>().dot(&v::<U8>()); } // ACCEPT	dot	lengths 8 and 8
fn p1478() { let _ = v::<U8>() == v::<U8>(); } // ACCEPT	==	lengths 8 and 8
fn p1479() { let _ = v::<U8>() + v::<U8>(); } // ACCEPT	+	lengths 8 and 8
fn p1480() { v::<U8>().dot(&v::<U9>()); } // REFUSE	dot	lengths 8 and 9
fn p1481() { let _ = v::<U8>() == v::<U9>(); } // REFUSE	==	lengths 8 and 9
fn p1482() { let _ = v::<U8>() + v::<U9>(); } // REFUSE	+	lengths 8 and 9
fn p1483() { v::<U8>().dot(&v::<U10>()); } // REFUSE	dot	lengths 8 and 10
fn p1484() { let _ = v::<U8>() == v::<U10>(); } // REFUSE	==	lengths 8 and 10
fn p1485() { let _ = v::<U8>() + v::<U10>(); } // REFUSE	+	lengths 8 and 10
fn p1486() { v::<U8>().dot(&v::<U16>()); } // REFUSE	dot	lengths 8 and 16
fn p1487() { let _ = v::<U8>() == v::<U16>(); } // REFUSE	==	lengths 8 and 16
fn p1488() { let _ = v::<U8>() + v::<U16>(); } // REFUSE	+	lengths 8 and 16
fn p1489() { v::<U8>().dot(&v::<U24>()); } // REFUSE	dot	lengths 8 and 24
fn p1490() { let _ = v::<U8>() == v::<U24>(); } // REFUSE	==	lengths 8 and 24
fn p1491() { let _ = v::<U8>() + v::<U24>(); } // REFUSE	+	lengths 8 and 24
fn p1492() { v::<U8>().dot(&v::<U32>()); } // REFUSE	dot	lengths 8 and 32
fn p1493() { let _ = v::<U8>() == v::<U32>(); } // REFUSE	==	lengths 8 and 32
fn p1494() { let _ = v::<U8>() + v::<U32>(); } // REFUSE	+	lengths 8 and 32
fn p1495() { v::<U9>().dot(&v::<U0>()); } // REFUSE	dot	lengths 9 and 0
fn p1496() { let _ = v::<U9>() == v::<U0>(); } // REFUSE	==	lengths 9 and 0
fn p1497() { let _ = v::<U9>() + v::<U0>(); } // REFUSE	+	lengths 9 and 0
fn p1498() { v::<U9>().dot(&v::<U1>()); } // REFUSE	dot	lengths 9 and 1
fn p1499() { let _ = v::<U9>() == v::<U1>(); } // REFUSE	==	lengths 9 and 1
fn p1500() { let _ = v::<U9>() + v::<U1>(); } // REFUSE	+	lengths 9 and 1
fn p1501() { v::<U9>().dot(&v::<U7>()); } // REFUSE	dot	lengths 9 and 7
fn p1502() { let _ = v::<U9>() == v::<U7>(); } // REFUSE	==	lengths 9 and 7
fn p1503() { let _ = v::<U9>() + v::<U7>(); } // REFUSE	+	lengths 9 and 7
fn p1504() { v::<U9>().dot(&v::<U8>()); } // REFUSE	dot	lengths 9 and 8
fn p1505() { let _ = v::<U9>() == v::<U8>(); } // REFUSE	==	lengths 9 and 8
fn p1506() { let _ = v::<U9>() + v::<U8>(); } // REFUSE	+	lengths 9 and 8
fn p1507() { v::<U9>().dot(&v::<U9>()); } // ACCEPT	dot	lengths 9 and 9
fn p1508() { let _ = v::<U9>() == v::<U9>(); } // ACCEPT	==	lengths 9 and 9
fn p1509() { let _ = v::<U9>() + v::<U9>(); } // ACCEPT	+	lengths 9 and 9
fn p1510() { v::<U9>().dot(&v::<U10>()); } // REFUSE	dot	lengths 9 and 10
fn p1511() { let _ = v::<U9>() == v::<U10>(); } // REFUSE	==	lengths 9 and 10
fn p1512() { let _ = v::<U9>() + v::<U10>(); } // REFUSE	+	lengths 9 and 10
fn p1513() { v::<U9>().dot(&v::<U11>()); } // REFUSE	dot	lengths 9 and 11
fn p1514() { let _ = v::<U9>() == v::<U11>(); } // REFUSE	==	lengths 9 and 11
fn p1515() { let _ = v::<U9>() + v::<U11>(); } // REFUSE	+	lengths 9 and 11
fn p1516() { v::<U9>().dot(&v::<U17>()); } // REFUSE	dot	lengths 9 and 17
fn p1517() { let _ = v::<U9>() == v::<U17>(); } // REFUSE	==	lengths 9 and 17
fn p1518() { let _ = v::<U9>() + v::<U17>(); } // REFUSE	+	lengths 9 and 17
fn p1519() { v::<U9>().dot(&v::<U18>()); } // REFUSE	dot	lengths 9 and 18
fn p1520() { let _ = v::<U9>() == v::<U18>(); } // REFUSE	==	lengths 9 and 18
fn p1521() { let _ = v::<U9>() + v::<U18>(); } // REFUSE	+	lengths 9 and 18
fn p1522() { v::<U9>().dot(&v::<U25>()); } // REFUSE	dot	lengths 9 and 25
fn p1523() { let _ = v::<U9>() == v::<U25>(); } // REFUSE	==	lengths 9 and 25
fn p1524() { let _ = v::<U9>() + v::<U25>(); } // REFUSE	+	lengths 9 and 25
fn p1525() { v::<U9>().dot(&v::<U32>()); } // REFUSE	dot	lengths 9 and 32
fn p1526() { let _ = v::<U9>() == v::<U32>(); } // REFUSE	==	lengths 9 and 32
fn p1527() { let _ = v::<U9>() + v::<U32>(); } // REFUSE	+	lengths 9 and 32
fn p1528() { v::<U10>().dot(&v::<U0>()); } // REFUSE	dot	lengths 10 and 0
fn p1529() { let _ = v::<U10>() == v::<U0>(); } // REFUSE	==	lengths 10 and 0
fn p1530() { let _ = v::<U10>() + v::<U0>(); } // REFUSE	+	lengths 10 and 0
fn p1531() { v::<U10>().dot(&v::<U1>()); } // REFUSE	dot	lengths 10 and 1
fn p1532() { let _ = v::<U10>() == v::<U1>(); } // REFUSE	==	lengths 10 and 1
fn p1533() { let _ = v::<U10>() + v::<U1>(); } // REFUSE	+	lengths 10 and 1
fn p1534() { v::<U10>().dot(&v::<U2>()); } // REFUSE	dot	lengths 10 and 2
fn p1535() { let _ = v::<U10>() == v::<U2>(); } // REFUSE	==	lengths 10 and 2
fn p1536() { let _ = v::<U10>() + v::<U2>(); } // REFUSE	+	lengths 10 and 2
fn p1537() { v::<U10>().dot(&v::<U5>()); } // REFUSE	dot	lengths 10 and 5
fn p1538() { let _ = v::<U10>() == v::<U5>(); } // REFUSE	==	lengths 10 and 5
fn p1539() { let _ = v::<U10>() + v::<U5>(); } // REFUSE	+	lengths 10 and 5
fn p1540() { v::<U10>().dot(&v::<U8>()); } // REFUSE	dot	lengths 10 and 8
fn p1541() { let _ = v::<U10>() == v::<U8>(); } // REFUSE	==	lengths 10 and 8
fn p1542() { let _ = v::<U10>() + v::<U8>(); } // REFUSE	+	lengths 10 and 8
fn p1543() { v::<U10>().dot(&v::<U9>()); } // REFUSE	dot	lengths 10 and 9
fn p1544() { let _ = v::<U10>() == v::<U9>(); } // REFUSE	==	lengths 10 and 9
fn p1545() { let _ = v::<U10>() + v::<U9>(); } // REFUSE	+	lengths 10 and 9
fn p1546() { v::<U10>().dot(&v::<U10>()); } // ACCEPT	dot	lengths 10 and 10
fn p1547() { let _ = v::<U10>() == v::<U10>(); } // ACCEPT	==	lengths 10 and 10
fn p1548() { let _ = v::<U10>() + v::<U10>(); } // ACCEPT	+	lengths 10 and 10
fn p1549() { v::<U10>().dot(&v::<U11>()); } // REFUSE	dot	lengths 10 and 11
fn p1550() { let _ = v::<U10>() == v::<U11>(); } // REFUSE	==	lengths 10 and 11
fn p1551() { let _ = v::<U10>() + v::<U11>(); } // REFUSE	+	lengths 10 and 11
fn p1552() { v::<U10>().dot(&v::<U12>()); } // REFUSE	dot	lengths 10 and 12
fn p1553() { let _ = v::<U10>() == v::<U12>(); } // REFUSE	==	lengths 10 and 12
fn p1554() { let _ = v::<U10>() + v::<U12>(); } // REFUSE	+	lengths 10 and 12
fn p1555() { v::<U10>().dot(&v::<U18>()); } // REFUSE	dot	lengths 10 and 18
fn p1556() { let _ = v::<U10>() == v::<U18>(); } // REFUSE	==	lengths 10 and 18
fn p1557() { let _ = v::<U10>() + v::<U18>(); } // REFUSE	+	lengths 10 and 18
fn p1558() { v::<U10>().dot(&v::<U20>()); } // REFUSE	dot	lengths 10 and 20
fn p1559() { let _ = v::<U10>() == v::<U20>(); } // REFUSE	==	lengths 10 and 20
fn p1560() { let _ = v::<U10>() + v::<U20>(); } // REFUSE	+	lengths 10 and 20
fn p1561() { v::<U10>().dot(&v::<U26>()); } // REFUSE	dot	lengths 10 and 26
fn p1562() { let _ = v::<U10>() == v::<U26>(); } // REFUSE	==	lengths 10 and 26
fn p1563() { let _ = v::<U10>() + v::<U26>(); } // REFUSE	+	lengths 10 and 26
fn p1564() { v::<U10>().dot(&v::<U32>()); } // REFUSE	dot	lengths 10 and 32
fn p1565() { let _ = v::<U10>() == v::<U32>(); } // REFUSE	==	lengths 10 and 32
fn p1566() { let _ = v::<U10>() + v::<U32>(); } // REFUSE	+	lengths 10 and 32
fn p1567() { v::<U11>().dot(&v::<U0>()); } // REFUSE	dot	lengths 11 and 0
fn p1568() { let _ = v::<U11>() == v::<U0>(); } // REFUSE	==	lengths 11 and 0
fn p1569() { let _ = v::<U11>() + v::<U0>(); } // REFUSE	+	lengths 11 and 0
fn p1570() { v::<U11>().dot(&v::<U1>()); } // REFUSE	dot	lengths 11 and 1
fn p1571() { let _ = v::<U11>() == v::<U1>(); } // REFUSE	==	lengths 11 and 1
fn p1572() { let _ = v::<U11>() + v::<U1>(); } // REFUSE	+	lengths 11 and 1
fn p1573() { v::<U11>().dot(&v::<U3>()); } // REFUSE	dot	lengths 11 and 3
fn p1574() { let _ = v::<U11>() == v::<U3>(); } // REFUSE	==	lengths 11 and 3
fn p1575() { let _ = v::<U11>() + v::<U3>(); } // REFUSE	+	lengths 11 and 3
fn p1576() { v::<U11>().dot(&v::<U9>()); } // REFUSE	dot	lengths 11 and 9
fn p1577() { let _ = v::<U11>() == v::<U9>(); } // REFUSE	==	lengths 11 and 9
fn p1578() { let _ = v::<U11>() + v::<U9>(); } // REFUSE	+	lengths 11 and 9
fn p1579() { v::<U11>().dot(&v::<U10>()); } // REFUSE	dot	lengths 11 and 10
fn p1580() { let _ = v::<U11>() == v::<U10>(); } // REFUSE	==	lengths 11 and 10
fn p1581() { let _ = v::<U11>() + v::<U10>(); } // REFUSE	+	lengths 11 and 10
fn p1582() { v::<U11>().dot(&v::<U11>()); } // ACCEPT	dot	lengths 11 and 11
fn p1583() { let _ = v::<U11>() == v::<U11>(); } // ACCEPT	==	lengths 11 and 11
fn p1584() { let _ = v::<U11>() + v::<U11>(); } // ACCEPT	+	lengths 11 and 11
fn p1585() { v::<U11>().dot(&v::<U12>()); } // REFUSE	dot	lengths 11 and 12
fn p1586() { let _ = v::<U11>() == v::<U12>(); } // REFUSE	==	lengths 11 and 12
fn p1587() { let _ = v::<U11>() + v::<U12>(); } // REFUSE	+	lengths 11 and 12
fn p1588() { v::<U11>().dot(&v::<U13>()); } // REFUSE	dot	lengths 11 and 13
fn p1589() { let _ = v::<U11>() == v::<U13>(); } // REFUSE	==	lengths 11 and 13
fn p1590() { let _ = v::<U11>() + v::<U13>(); } // REFUSE	+	lengths 11 and 13
fn p1591() { v::<U11>().dot(&v::<U19>()); } // REFUSE	dot	lengths 11 and 19
fn p1592() { let _ = v::<U11>() == v::<U19>(); } // REFUSE	==	lengths 11 and 19
fn p1593() { let _ = v::<U11>() + v::<U19>(); } // REFUSE	+	lengths 11 and 19
fn p1594() { v::<U11>().dot(&v::<U22>()); } // REFUSE	dot	lengths 11 and 22
fn p1595() { let _ = v::<U11>() == v::<U22>(); } // REFUSE	==	lengths 11 and 22
fn p1596() { let _ = v::<U11>() + v::<U22>(); } // REFUSE	+	lengths 11 and 22
fn p1597() { v::<U11>().dot(&v::<U27>()); } // REFUSE	dot	lengths 11 and 27
fn p1598() { let _ = v::<U11>() == v::<U27>(); } // REFUSE	==	lengths 11 and 27
fn p1599() { let _ = v::<U11>() + v::<U27>(); } // REFUSE	+	lengths 11 and 27
fn p1600() { v::<U11>().dot(&v::<U32>()); } // REFUSE	dot	lengths 11 and 32
fn p1601() { let _ = v::<U11>() == v::<U32>(); } // REFUSE	==	lengths 11 and 32
fn p1602() { let _ = v::<U11>() + v::<U32>(); } // REFUSE	+	lengths 11 and 32
fn p1603() { v::<U12>().dot(&v::<U0>()); } // REFUSE	dot	lengths 12 and 0
fn p1604() { let _ = v::<U12>() == v::<U0>(); } // REFUSE	==	lengths 12 and 0
fn p1605() { let _ = v::<U12>() + v::<U0>(); } // REFUSE	+	lengths 12 and 0
fn p1606() { v::<U12>().dot(&v::<U1>()); } // REFUSE	dot	lengths 12 and 1
fn p1607() { let _ = v::<U12>() == v::<U1>(); } // REFUSE	==	lengths 12 and 1
fn p1608() { let _ = v::<U12>() + v::<U1>(); } // REFUSE	+	lengths 12 and 1
fn p1609() { v::<U12>().dot(&v::<U4>()); } // REFUSE	dot	lengths 12 and 4
fn p1610() { let _ = v::<U12>() == v::<U4>(); } // REFUSE	==	lengths 12 and 4
fn p1611() { let _ = v::<U12>() + v::<U4>(); } // REFUSE	+	lengths 12 and 4
fn p1612() { v::<U12>().dot(&v::<U6>()); } // REFUSE	dot	lengths 12 and 6
fn p1613() { let _ = v::<U12>() == v::<U6>(); } // REFUSE	==	lengths 12 and 6
fn p1614() { let _ = v::<U12>() + v::<U6>(); } // REFUSE	+	lengths 12 and 6
fn p1615() { v::<U12>().dot(&v::<U10>()); } // REFUSE	dot	lengths 12 and 10
fn p1616() { let _ = v::<U12>() == v::<U10>(); } // REFUSE	==	lengths 12 and 10
fn p1617() { let _ = v::<U12>() + v::<U10>(); } // REFUSE	+	lengths 12 and 10
fn p1618() { v::<U12>().dot(&v::<U11>()); } // REFUSE	dot	lengths 12 and 11
fn p1619() { let _ = v::<U12>() == v::<U11>(); } // REFUSE	==	lengths 12 and 11
fn p1620() { let _ = v::<U12>() + v::<U11>(); } // REFUSE	+	lengths 12 and 11
fn p1621() { v::<U12>().dot(&v::<U12>()); } // ACCEPT	dot	lengths 12 and 12
fn p1622() { let _ = v::<U12>() == v::<U12>(); } // ACCEPT	==	lengths 12 and 12
fn p1623() { let _ = v::<U12>() + v::<U12>(); } // ACCEPT	+	lengths 12 and 12
fn p1624() { v::<U12>().dot(&v::<U13>()); } // REFUSE	dot	lengths 12 and 13
fn p1625() { let _ = v::<U12>() == v::<U13>(); } // REFUSE	==	lengths 12 and 13
fn p1626() { let _ = v::<U12>() + v::<U13>(); } // REFUSE	+	lengths 12 and 13
fn p1627() { v::<U12>().dot(&v::<U14>()); } // REFUSE	dot	lengths 12 and 14
fn p1628() { let _ = v::<U12>() == v::<U14>(); } // REFUSE	==	lengths 12 and 14
fn p1629() { let _ = v::<U12>() + v::<U14>(); } // REFUSE	+	lengths 12 and 14
fn p1630() { v::<U12>().dot(&v::<U20>()); } // REFUSE	dot	lengths 12 and 20
fn p1631() { let _ = v::<U12>() == v::<U20>(); } // REFUSE	==	lengths 12 and 20
fn p1632() { let _ = v::<U12>() + v::<U20>(); } // REFUSE	+	lengths 12 and 20
fn p1633() { v::<U12>().dot(&v::<U24>()); } // REFUSE	dot	lengths 12 and 24
fn p1634() { let _ = v::<U12>() == v::<U24>(); } // REFUSE	==	lengths 12 and 24
fn p1635() { let _ = v::<U12>() + v::<U24>(); } // REFUSE	+	lengths 12 and 24
fn p1636() { v::<U12>().dot(&v::<U28>()); } // REFUSE	dot	lengths 12 and 28
fn p1637() { let _ = v::<U12>() == v::<U28>(); } // REFUSE	==	lengths 12 and 28
fn p1638() { let _ = v::<U12>() + v::<U28>(); } // REFUSE	+	lengths 12 and 28
fn p1639() { v::<U12>().dot(&v::<U32>()); } // REFUSE	dot	lengths 12 and 32
fn p1640() { let _ = v::<U12>() == v::<U32>(); } // REFUSE	==	lengths 12 and 32
fn p1641() { let _ = v::<U12>() + v::<U32>(); } // REFUSE	+	lengths 12 and 32
fn p1642() { v::<U13>().dot(&v::<U0>()); } // REFUSE	dot	lengths 13 and 0
fn p1643() { let _ = v::<U13>() == v::<U0>(); } // REFUSE	==	lengths 13 and 0
fn p1644() { let _ = v::<U13>() + v::<U0>(); } // REFUSE	+	lengths 13 and 0
fn p1645() { v::<U13>().dot(&v::<U1>()); } // REFUSE	dot	lengths 13 and 1
fn p1646() { let _ = v::<U13>() == v::<U1>(); } // REFUSE	==	lengths 13 and 1
fn p1647() { let _ = v::<U13>() + v::<U1>(); } // REFUSE	+	lengths 13 and 1
fn p1648() { v::<U13>().dot(&v::<U5>()); } // REFUSE	dot	lengths 13 and 5
fn p1649() { let _ = v::<U13>() == v::<U5>(); } // REFUSE	==	lengths 13 and 5
fn p1650() { let _ = v::<U13>() + v::<U5>(); } // REFUSE	+	lengths 13 and 5
fn p1651() { v::<U13>().dot(&v::<U11>()); } // REFUSE	dot	lengths 13 and 11
fn p1652() { let _ = v::<U13>() == v::<U11>(); } // REFUSE	==	lengths 13 and 11
fn p1653() { let _ = v::<U13>() + v::<U11>(); } // REFUSE	+	lengths 13 and 11
fn p1654() { v::<U13>().dot(&v::<U12>()); } // REFUSE	dot	lengths 13 and 12
fn p1655() { let _ = v::<U13>() == v::<U12>(); } // REFUSE	==	lengths 13 and 12
fn p1656() { let _ = v::<U13>() + v::<U12>(); } // REFUSE	+	lengths 13 and 12
fn p1657() { v::<U13>().dot(&v::<U13>()); } // ACCEPT	dot	lengths 13 and 13
fn p1658() { let _ = v::<U13>() == v::<U13>(); } // ACCEPT	==	lengths 13 and 13
fn p1659() { let _ = v::<U13>() + v::<U13>(); } // ACCEPT	+	lengths 13 and 13
fn p1660() { v::<U13>().dot(&v::<U14>()); } // REFUSE	dot	lengths 13 and 14
fn p1661() { let _ = v::<U13>() == v::<U14>(); } // REFUSE	==	lengths 13 and 14
fn p1662() { let _ = v::<U13>() + v::<U14>(); } // REFUSE	+	lengths 13 and 14
fn p1663() { v::<U13>().dot(&v::<U15>()); } // REFUSE	dot	lengths 13 and 15
fn p1664() { let _ = v::<U13>() == v::<U15>(); } // REFUSE	==	lengths 13 and 15
fn p1665() { let _ = v::<U13>() + v::<U15>(); } // REFUSE	+	lengths 13 and 15
fn p1666() { v::<U13>().dot(&v::<U21>()); } // REFUSE	dot	lengths 13 and 21
fn p1667() { let _ = v::<U13>() == v::<U21>(); } // REFUSE	==	lengths 13 and 21
fn p1668() { let _ = v::<U13>() + v::<U21>(); } // REFUSE	+	lengths 13 and 21
fn p1669() { v::<U13>().dot(&v::<U26>()); } // REFUSE	dot	lengths 13 and 26
fn p1670() { let _ = v::<U13>() == v::<U26>(); } // REFUSE	==	lengths 13 and 26
fn p1671() { let _ = v::<U13>() + v::<U26>(); } // REFUSE	+	lengths 13 and 26
fn p1672() { v::<U13>().dot(&v::<U29>()); } // REFUSE	dot	lengths 13 and 29
fn p1673() { let _ = v::<U13>() == v::<U29>(); } // REFUSE	==	lengths 13 and 29
fn p1674() { let _ = v::<U13>() + v::<U29>(); } // REFUSE	+	lengths 13 and 29
fn p1675() { v::<U13>().dot(&v::<U32>()); } // REFUSE	dot	lengths 13 and 32
fn p1676() { let _ = v::<U13>() == v::<U32>(); } // REFUSE	==	lengths 13 and 32
fn p1677() { let _ = v::<U13>() + v::<U32>(); } // REFUSE	+	lengths 13 and 32
fn p1678() { v::<U14>().dot(&v::<U0>()); } // REFUSE	dot	lengths 14 and 0
fn p1679() { let _ = v::<U14>() == v::<U0>(); } // REFUSE	==	lengths 14 and 0
fn p1680() { let _ = v::<U14>() + v::<U0>(); } // REFUSE	+	lengths 14 and 0
fn p1681() { v::<U14>().dot(&v::<U1>()); } // REFUSE	dot	lengths 14 and 1
fn p1682() { let _ = v::<U14>() == v::<U1>(); } // REFUSE	==	lengths 14 and 1
fn p1683() { let _ = v::<U14>() + v::<U1>(); } // REFUSE	+	lengths 14 and 1
fn p1684() { v::<U14>().dot(&v::<U6>()); } // REFUSE	dot	lengths 14 and 6
fn p1685() { let _ = v::<U14>() == v::<U6>(); } // REFUSE	==	lengths 14 and 6
fn p1686() { let _ = v::<U14>() + v::<U6>(); } // REFUSE	+	lengths 14 and 6
fn p1687() { v::<U14>().dot(&v::<U7>()); } // REFUSE	dot	lengths 14 and 7
fn p1688() { let _ = v::<U14>() == v::<U7>(); } // REFUSE	==	lengths 14 and 7
fn p1689() { let _ = v::<U14>() + v::<U7>(); } // REFUSE	+	lengths 14 and 7
fn p1690() { v::<U14>().dot(&v::<U12>()); } // REFUSE	dot	lengths 14 and 12
fn p1691() { let _ = v::<U14>() == v::<U12>(); } // REFUSE	==	lengths 14 and 12
fn p1692() { let _ = v::<U14>() + v::<U12>(); } // REFUSE	+	lengths 14 and 12
fn p1693() { v::<U14>().dot(&v::<U13>()); } // REFUSE	dot	lengths 14 and 13
fn p1694() { let _ = v::<U14>() == v::<U13>(); } // REFUSE	==	lengths 14 and 13
fn p1695() { let _ = v::<U14>() + v::<U13>(); } // REFUSE	+	lengths 14 and 13
fn p1696() { v::<U14>().dot(&v::<U14>()); } // ACCEPT	dot	lengths 14 and 14
fn p1697() { let _ = v::<U14>() == v::<U14>(); } // ACCEPT	==	lengths 14 and 14
fn p1698() { let _ = v::<U14>() + v::<U14>(); } // ACCEPT	+	lengths 14 and 14
fn p1699() { v::<U14>().dot(&v::<U15>()); } // REFUSE	dot	lengths 14 and 15
fn p1700() { let _ = v::<U14>() == v::<U15>(); } // REFUSE	==	lengths 14 and 15
fn p1701() { let _ = v::<U14>() + v::<U15>(); } // REFUSE	+	lengths 14 and 15
fn p1702() { v::<U14>().dot(&v::<U16>()); } // REFUSE	dot	lengths 14 and 16
fn p1703() { let _ = v::<U14>() == v::<U16>(); } // REFUSE	==	lengths 14 and 16
fn p1704() { let _ = v::<U14>() + v::<U16>(); } // REFUSE	+	lengths 14 and 16
fn p1705() { v::<U14>().dot(&v::<U22>()); } // REFUSE	dot	lengths 14 and 22
fn p1706() { let _ = v::<U14>() == v::<U22>(); } // REFUSE	==	lengths 14 and 22
fn p1707() { let _ = v::<U14>() + v::<U22>(); } // REFUSE	+	lengths 14 and 22
fn p1708() { v::<U14>().dot(&v::<U28>()); } // REFUSE	dot	lengths 14 and 28
fn p1709() { let _ = v::<U14>() == v::<U28>(); } // REFUSE	==	lengths 14 and 28
fn p1710() { let _ = v::<U14>() + v::<U28>(); } // REFUSE	+	lengths 14 and 28
fn p1711() { v::<U14>().dot(&v::<U30>()); } // REFUSE	dot	lengths 14 and 30
fn p1712() { let _ = v::<U14>() == v::<U30>(); } // REFUSE	==	lengths 14 and 30
fn p1713() { let _ = v::<U14>() + v::<U30>(); } // REFUSE	+	lengths 14 and 30
fn p1714() { v::<U14>().dot(&v::<U32>()); } // REFUSE	dot	lengths 14 and 32
fn p1715() { let _ = v::<U14>() == v::<U32>(); } // REFUSE	==	lengths 14 and 32
fn p1716() { let _ = v::<U14>() + v::<U32>(); } // REFUSE	+	lengths 14 and 32
fn p1717() { v::<U15>().dot(&v::<U0>()); } // REFUSE	dot	lengths 15 and 0
fn p1718() { let _ = v::<U15>() == v::<U0>(); } // REFUSE	==	lengths 15 and 0
fn p1719() { let _ = v::<U15>() + v::<U0>(); } // REFUSE	+	lengths 15 and 0
fn p1720() { v::<U15>().dot(&v::<U1>()); } // REFUSE	dot	lengths 15 and 1
fn p1721() { let _ = v::<U15>() == v::<U1>(); } // REFUSE	==	lengths 15 and 1
fn p1722() { let _ = v::<U15>() + v::<U1>(); } // REFUSE	+	lengths 15 and 1
fn p1723() { v::<U15>().dot(&v::<U7>()); } // REFUSE	dot	lengths 15 and 7
fn p1724() { let _ = v::<U15>() == v::<U7>(); } // REFUSE	==	lengths 15 and 7
fn p1725() { let _ = v::<U15>() + v::<U7>(); } // REFUSE	+	lengths 15 and 7
fn p1726() { v::<U15>().dot(&v::<U13>()); } // REFUSE	dot	lengths 15 and 13
fn p1727() { let _ = v::<U15>() == v::<U13>(); } // REFUSE	==	lengths 15 and 13
fn p1728() { let _ = v::<U15>() + v::<U13>(); } // REFUSE	+	lengths 15 and 13
fn p1729() { v::<U15>().dot(&v::<U14>()); } // REFUSE	dot	lengths 15 and 14
fn p1730() { let _ = v::<U15>() == v::<U14>(); } // REFUSE	==	lengths 15 and 14
fn p1731() { let _ = v::<U15>() + v::<U14>(); } // REFUSE	+	lengths 15 and 14
fn p1732() { v::<U15>().dot(&v::<U15>()); } // ACCEPT	dot	lengths 15 and 15
fn p1733() { let _ = v::<U15>() == v::<U15>(); } // ACCEPT	==	lengths 15 and 15
fn p1734() { let _ = v::<U15>() + v::<U15>(); } // ACCEPT	+	lengths 15 and 15
fn p1735() { v::<U15>().dot(&v::<U16>()); } // REFUSE	dot	lengths 15 and 16
fn p1736() { let _ = v::<U15>() == v::<U16>(); } // REFUSE	==	lengths 15 and 16
fn p1737() { let _ = v::<U15>() + v::<U16>(); } // REFUSE	+	lengths 15 and 16
fn p1738() { v::<U15>().dot(&v::<U17>()); } // REFUSE	dot	lengths 15 and 17
fn p1739() { let _ = v::<U15>() == v::<U17>(); } // REFUSE	==	lengths 15 and 17
fn p1740() { let _ = v::<U15>() + v::<U17>(); } // REFUSE	+	lengths 15 and 17
fn p1741() { v::<U15>().dot(&v::<U23>()); } // REFUSE	dot	lengths 15 and 23
fn p1742() { let _ = v::<U15>() == v::<U23>(); } // REFUSE	==	lengths 15 and 23
fn p1743() { let _ = v::<U15>() + v::<U23>(); } // REFUSE	+	lengths 15 and 23
fn p1744() { v::<U15>().dot(&v::<U30>()); } // REFUSE	dot	lengths 15 and 30
fn p1745() { let _ = v::<U15>() == v::<U30>(); } // REFUSE	==	lengths 15 and 30
fn p1746() { let _ = v::<U15>() + v::<U30>(); } // REFUSE	+	lengths 15 and 30
fn p1747() { v::<U15>().dot(&v::<U31>()); } // REFUSE	dot	lengths 15 and 31
fn p1748() { let _ = v::<U15>() == v::<U31>(); } // REFUSE	==	lengths 15 and 31
fn p1749() { let _ = v::<U15>() + v::<U31>(); } // REFUSE	+	lengths 15 and 31
fn p1750() { v::<U15>().dot(&v::<U32>()); } // REFUSE	dot	lengths 15 and 32
fn p1751() { let _ = v::<U15>() == v::<U32>(); } // REFUSE	==	lengths 15 and 32
fn p1752() { let _ = v::<U15>() + v::<U32>(); } // REFUSE	+	lengths 15 and 32
fn p1753() { v::<U16>().dot(&v::<U0>()); } // REFUSE	dot	lengths 16 and 0
fn p1754() { let _ = v::<U16>() == v::<U0>(); } // REFUSE	==	lengths 16 and 0
fn p1755() { let _ = v::<U16>() + v::<U0>(); } // REFUSE	+	lengths 16 and 0
fn p1756() { v::<U16>().dot(&v::<U1>()); } // REFUSE	dot	lengths 16 and 1
fn p1757() { let _ = v::<U16>() == v::<U1>(); } // REFUSE	==	lengths 16 and 1
fn p1758() { let _ = v::<U16>() + v::<U1>(); } // REFUSE	+	lengths 16 and 1
fn p1759() { v::<U16>().dot(&v::<U8>()); } // REFUSE	dot	lengths 16 and 8
fn p1760() { let _ = v::<U16>() == v::<U8>(); } // REFUSE	==	lengths 16 and 8
fn p1761() { let _ = v::<U16>() + v::<U8>(); } // REFUSE	+	lengths 16 and 8
fn p1762() { v::<U16>().dot(&v::<U14>()); } // REFUSE	dot	lengths 16 and 14
fn p1763() { let _ = v::<U16>() == v::<U14>(); } // REFUSE	==	lengths 16 and 14
fn p1764() { let _ = v::<U16>() + v::<U14>(); } // REFUSE	+	lengths 16 and 14
fn p1765() { v::<U16>().dot(&v::<U15>()); } // REFUSE	dot	lengths 16 and 15
fn p1766() { let _ = v::<U16>() == v::<U15>(); } // REFUSE	==	lengths 16 and 15
fn p1767() { let _ = v::<U16>() + v::<U15>(); } // REFUSE	+	lengths 16 and 15
fn p1768() { v::<U16>().dot(&v::<U16>()); } // ACCEPT	dot	lengths 16 and 16
fn p1769() { let _ = v::<U16>() == v::<U16>(); } // ACCEPT	==	lengths 16 and 16
fn p1770() { let _ = v::<U16>() + v::<U16>(); } // ACCEPT	+	lengths 16 and 16
fn p1771() { v::<U16>().dot(&v::<U17>()); } // REFUSE	dot	lengths 16 and 17
fn p1772() { let _ = v::<U16>() == v::<U17>(); } // REFUSE	==	lengths 16 and 17
fn p1773() { let _ = v::<U16>() + v::<U17>(); } // REFUSE	+	lengths 16 and 17
fn p1774() { v::<U16>().dot(&v::<U18>()); } // REFUSE	dot	lengths 16 and 18
fn p1775() { let _ = v::<U16>() == v::<U18>(); } // REFUSE	==	lengths 16 and 18
fn p1776() { let _ = v::<U16>() + v::<U18>(); } // REFUSE	+	lengths 16 and 18
fn p1777() { v::<U16>().dot(&v::<U24>()); } // REFUSE	dot	lengths 16 and 24
fn p1778() { let _ = v::<U16>() == v::<U24>(); } // REFUSE	==	lengths 16 and 24
fn p1779() { let _ = v::<U16>() + v::<U24>(); } // REFUSE	+	lengths 16 and 24
fn p1780() { v::<U16>().dot(&v::<U32>()); } // REFUSE	dot	lengths 16 and 32
fn p1781() { let _ = v::<U16>() == v::<U32>(); } // REFUSE	==	lengths 16 and 32
fn p1782() { let _ = v::<U16>() + v::<U32>(); } // REFUSE	+	lengths 16 and 32
fn p1783() { v::<U17>().dot(&v::<U0>()); } // REFUSE	dot	lengths 17 and 0
fn p1784() { let _ = v::<U17>() == v::<U0>(); } // REFUSE	==	lengths 17 and 0
fn p1785() { let _ = v::<U17>() + v::<U0>(); } // REFUSE	+	lengths 17 and 0
fn p1786() { v::<U17>().dot(&v::<U1>()); } // REFUSE	dot	lengths 17 and 1
fn p1787() { let _ = v::<U17>() == v::<U1>(); } // REFUSE	==	lengths 17 and 1
fn p1788() { let _ = v::<U17>() + v::<U1>(); } // REFUSE	+	lengths 17 and 1
fn p1789() { v::<U17>().dot(&v::<U9>()); } // REFUSE	dot	lengths 17 and 9
fn p1790() { let _ = v::<U17>() == v::<U9>(); } // REFUSE	==	lengths 17 and 9
fn p1791() { let _ = v::<U17>() + v::<U9>(); } // REFUSE	+	lengths 17 and 9
fn p1792() { v::<U17>().dot(&v::<U15>()); } // REFUSE	dot	lengths 17 and 15
fn p1793() { let _ = v::<U17>() == v::<U15>(); } // REFUSE	==	lengths 17 and 15
fn p1794() { let _ = v::<U17>() + v::<U15>(); } // REFUSE	+	lengths 17 and 15
fn p1795() { v::<U17>().dot(&v::<U16>()); } // REFUSE	dot	lengths 17 and 16
fn p1796() { let _ = v::<U17>() == v::<U16>(); } // REFUSE	==	lengths 17 and 16
fn p1797() { let _ = v::<U17>() + v::<U16>(); } // REFUSE	+	lengths 17 and 16
fn p1798() { v::<U17>().dot(&v::<U17>()); } // ACCEPT	dot	lengths 17 and 17
fn p1799() { let _ = v::<U17>() == v::<U17>(); } // ACCEPT	==	lengths 17 and 17
fn p1800() { let _ = v::<U17>() + v::<U17>(); } // ACCEPT	+	lengths 17 and 17
fn p1801() { v::<U17>().dot(&v::<U18>()); } // REFUSE	dot	lengths 17 and 18
fn p1802() { let _ = v::<U17>() == v::<U18>(); } // REFUSE	==	lengths 17 and 18
fn p1803() { let _ = v::<U17>() + v::<U18>(); } // REFUSE	+	lengths 17 and 18
fn p1804() { v::<U17>().dot(&v::<U19>()); } // REFUSE	dot	lengths 17 and 19
fn p1805() { let _ = v::<U17>() == v::<U19>(); } // REFUSE	==	lengths 17 and 19
fn p1806() { let _ = v::<U17>() + v::<U19>(); } // REFUSE	+	lengths 17 and 19
fn p1807() { v::<U17>().dot(&v::<U25>()); } // REFUSE	dot	lengths 17 and 25
fn p1808() { let _ = v::<U17>() == v::<U25>(); } // REFUSE	==	lengths 17 and 25
fn p1809() { let _ = v::<U17>() + v::<U25>(); } // REFUSE	+	lengths 17 and 25
fn p1810() { v::<U17>().dot(&v::<U32>()); } // REFUSE	dot	lengths 17 and 32
fn p1811() { let _ = v::<U17>() == v::<U32>(); } // REFUSE	==	lengths 17 and 32
fn p1812() { let _ = v::<U17>() + v::<U32>(); } // REFUSE	+	lengths 17 and 32
fn p1813() { v::<U18>().dot(&v::<U0>()); } // REFUSE	dot	lengths 18 and 0
fn p1814() { let _ = v::<U18>() == v::<U0>(); } // REFUSE	==	lengths 18 and 0
fn p1815() { let _ = v::<U18>() + v::<U0>(); } // REFUSE	+	lengths 18 and 0
fn p1816() { v::<U18>().dot(&v::<U1>()); } // REFUSE	dot	lengths 18 and 1
fn p1817() { let _ = v::<U18>() == v::<U1>(); } // REFUSE	==	lengths 18 and 1
fn p1818() { let _ = v::<U18>() + v::<U1>(); } // REFUSE	+	lengths 18 and 1
fn p1819() { v::<U18>().dot(&v::<U2>()); } // REFUSE	dot	lengths 18 and 2
fn p1820() { let _ = v::<U18>() == v::<U2>(); } // REFUSE	==	lengths 18 and 2
fn p1821() { let _ = v::<U18>() + v::<U2>(); } // REFUSE	+	lengths 18 and 2
fn p1822() { v::<U18>().dot(&v::<U9>()); } // REFUSE	dot	lengths 18 and 9
fn p1823() { let _ = v::<U18>() == v::<U9>(); } // REFUSE	==	lengths 18 and 9
fn p1824() { let _ = v::<U18>() + v::<U9>(); } // REFUSE	+	lengths 18 and 9
fn p1825() { v::<U18>().dot(&v::<U10>()); } // REFUSE	dot	lengths 18 and 10
fn p1826() { let _ = v::<U18>() == v::<U10>(); } // REFUSE	==	lengths 18 and 10
fn p1827() { let _ = v::<U18>() + v::<U10>(); } // REFUSE	+	lengths 18 and 10
fn p1828() { v::<U18>().dot(&v::<U16>()); } // REFUSE	dot	lengths 18 and 16
fn p1829() { let _ = v::<U18>() == v::<U16>(); } // REFUSE	==	lengths 18 and 16
fn p1830() { let _ = v::<U18>() + v::<U16>(); } // REFUSE	+	lengths 18 and 16
fn p1831() { v::<U18>().dot(&v::<U17>()); } // REFUSE	dot	lengths 18 and 17
fn p1832() { let _ = v::<U18>() == v::<U17>(); } // REFUSE	==	lengths 18 and 17
fn p1833() { let _ = v::<U18>() + v::<U17>(); } // REFUSE	+	lengths 18 and 17
fn p1834() { v::<U18>().dot(&v::<U18>()); } // ACCEPT	dot	lengths 18 and 18
fn p1835() { let _ = v::<U18>() == v::<U18>(); } // ACCEPT	==	lengths 18 and 18
fn p1836() { let _ = v::<U18>() + v::<U18>(); } // ACCEPT	+	lengths 18 and 18
fn p1837() { v::<U18>().dot(&v::<U19>()); } // REFUSE	dot	lengths 18 and 19
fn p1838() { let _ = v::<U18>() == v::<U19>(); } // REFUSE	==	lengths 18 and 19
fn p1839() { let _ = v::<U18>() + v::<U19>(); } // REFUSE	+	lengths 18 and 19
fn p1840() { v::<U18>().dot(&v::<U20>()); } // REFUSE	dot	lengths 18 and 20
fn p1841() { let _ = v::<U18>() == v::<U20>(); } // REFUSE	==	lengths 18 and 20
fn p1842() { let _ = v::<U18>() + v::<U20>(); } // REFUSE	+	lengths 18 and 20
fn p1843() { v::<U18>().dot(&v::<U26>()); } // REFUSE	dot	lengths 18 and 26
fn p1844() { let _ = v::<U18>() == v::<U26>(); } // REFUSE	==	lengths 18 and 26
fn p1845() { let _ = v::<U18>() + v::<U26>(); } // REFUSE	+	lengths 18 and 26
fn p1846() { v::<U18>().dot(&v::<U32>()); } // REFUSE	dot	lengths 18 and 32
fn p1847() { let _ = v::<U18>() == v::<U32>(); } // REFUSE	==	lengths 18 and 32
fn p1848() { let _ = v::<U18>() + v::<U32>(); } // REFUSE	+	lengths 18 and 32
fn p1849() { v::<U19>().dot(&v::<U0>()); } // REFUSE	dot	lengths 19 and 0
fn p1850() { let _ = v::<U19>() == v::<U0>(); } // REFUSE	==	lengths 19 and 0
fn p1851() { let _ = v::<U19>() + v::<U0>(); } // REFUSE	+	lengths 19 and 0
fn p1852() { v::<U19>().dot(&v::<U1>()); } // REFUSE	dot	lengths 19 and 1
fn p1853() { let _ = v::<U19>() == v::<U1>(); } // REFUSE	==	lengths 19 and 1
fn p1854() { let _ = v::<U19>() + v::<U1>(); } // REFUSE	+	lengths 19 and 1
fn p1855() { v::<U19>().dot(&v::<U3>()); } // REFUSE	dot	lengths 19 and 3
fn p1856() { let _ = v::<U19>() == v::<U3>(); } // REFUSE	==	lengths 19 and 3
fn p1857() { let _ = v::<U19>() + v::<U3>(); } // REFUSE	+	lengths 19 and 3
fn p1858() { v::<U19>().dot(&v::<U11>()); } // REFUSE	dot	lengths 19 and 11
fn p1859() { let _ = v::<U19>() == v::<U11>(); } // REFUSE	==	lengths 19 and 11
fn p1860() { let _ = v::<U19>() + v::<U11>(); } // REFUSE	+	lengths 19 and 11
fn p1861() { v::<U19>().dot(&v::<U17>()); } // REFUSE	dot	lengths 19 and 17
fn p1862() { let _ = v::<U19>() == v::<U17>(); } // REFUSE	==	lengths 19 and 17
fn p1863() { let _ = v::<U19>() + v::<U17>(); } // REFUSE	+	lengths 19 and 17
fn p1864() { v::<U19>().dot(&v::<U18>()); } // REFUSE	dot	lengths 19 and 18
fn p1865() { let _ = v::<U19>() == v::<U18>(); } // REFUSE	==	lengths 19 and 18
fn p1866() { let _ = v::<U19>() + v::<U18>(); } // REFUSE	+	lengths 19 and 18
fn p1867() { v::<U19>().dot(&v::<U19>()); } // ACCEPT	dot	lengths 19 and 19
fn p1868() { let _ = v::<U19>() == v::<U19>(); } // ACCEPT	==	lengths 19 and 19
fn p1869() { let _ = v::<U19>() + v::<U19>(); } // ACCEPT	+	lengths 19 and 19
fn p1870() { v::<U19>().dot(&v::<U20>()); } // REFUSE	dot	lengths 19 and 20
fn p1871() { let _ = v::<U19>() == v::<U20>(); } // REFUSE	==	lengths 19 and 20
fn p1872() { let _ = v::<U19>() + v::<U20>(); } // REFUSE	+	lengths 19 and 20
fn p1873() { v::<U19>().dot(&v::<U21>()); } // REFUSE	dot	lengths 19 and 21
fn p1874() { let _ = v::<U19>() == v::<U21>(); } // REFUSE	==	lengths 19 and 21
fn p1875() { let _ = v::<U19>() + v::<U21>(); } // REFUSE	+	lengths 19 and 21
fn p1876() { v::<U19>().dot(&v::<U27>()); } // REFUSE	dot	lengths 19 and 27
fn p1877() { let _ = v::<U19>() == v::<U27>(); } // REFUSE	==	lengths 19 and 27
fn p1878() { let _ = v::<U19>() + v::<U27>(); } // REFUSE	+	lengths 19 and 27
fn p1879() { v::<U19>().dot(&v::<U32>()); } // REFUSE	dot	lengths 19 and 32
fn p1880() { let _ = v::<U19>() == v::<U32>(); } // REFUSE	==	lengths 19 and 32
fn p1881() { let _ = v::<U19>() + v::<U32>(); } // REFUSE	+	lengths 19 and 32
fn p1882() { v::<U20>().dot(&v::<U0>()); } // REFUSE	dot	lengths 20 and 0
fn p1883() { let _ = v::<U20>() == v::<U0>(); } // REFUSE	==	lengths 20 and 0
fn p1884() { let _ = v::<U20>() + v::<U0>(); } // REFUSE	+	lengths 20 and 0
fn p1885() { v::<U20>().dot(&v::<U1>()); } // REFUSE	dot	lengths 20 and 1
fn p1886() { let _ = v::<U20>() == v::<U1>(); } // REFUSE	==	lengths 20 and 1
fn p1887() { let _ = v::<U20>() + v::<U1>(); } // REFUSE	+	lengths 20 and 1
fn p1888() { v::<U20>().dot(&v::<U4>()); } // REFUSE	dot	lengths 20 and 4
fn p1889() { let _ = v::<U20>() == v::<U4>(); } // REFUSE	==	lengths 20 and 4
fn p1890() { let _ = v::<U20>() + v::<U4>(); } // REFUSE	+	lengths 20 and 4
fn p1891() { v::<U20>().dot(&v::<U10>()); } // REFUSE	dot	lengths 20 and 10
fn p1892() { let _ = v::<U20>() == v::<U10>(); } // REFUSE	==	lengths 20 and 10
fn p1893() { let _ = v::<U20>() + v::<U10>(); } // REFUSE	+	lengths 20 and 10
fn p1894() { v::<U20>().dot(&v::<U12>()); } // REFUSE	dot	lengths 20 and 12
fn p1895() { let _ = v::<U20>() == v::<U12>(); } // REFUSE	==	lengths 20 and 12
fn p1896() { let _ = v::<U20>() + v::<U12>(); } // REFUSE	+	lengths 20 and 12
fn p1897() { v::<U20>().dot(&v::<U18>()); } // REFUSE	dot	lengths 20 and 18
fn p1898() { let _ = v::<U20>() == v::<U18>(); } // REFUSE	==	lengths 20 and 18
fn p1899() { let _ = v::<U20>() + v::<U18>(); } // REFUSE	+	lengths 20 and 18
fn p1900() { v::<U20>().dot(&v::<U19>()); } // REFUSE	dot	lengths 20 and 19
fn p1901() { let _ = v::<U20>() == v::<U19>(); } // REFUSE	==	lengths 20 and 19
fn p1902() { let _ = v::<U20>() + v::<U19>(); } // REFUSE	+	lengths 20 and 19
fn p1903() { v::<U20>().dot(&v::<U20>()); } // ACCEPT	dot	lengths 20 and 20
fn p1904() { let _ = v::<U20>() == v::<U20>(); } // ACCEPT	==	lengths 20 and 20
fn p1905() { let _ = v::<U20>() + v::<U20>(); } // ACCEPT	+	lengths 20 and 20
fn p1906() { v::<U20>().dot(&v::<U21>()); } // REFUSE	dot	lengths 20 and 21
fn p1907() { let _ = v::<U20>() == v::<U21>(); } // REFUSE	==	lengths 20 and 21
fn p1908() { let _ = v::<U20>() + v::<U21>(); } // REFUSE	+	lengths 20 and 21
fn p1909() { v::<U20>().dot(&v::<U22>()); } // REFUSE	dot	lengths 20 and 22
fn p1910() { let _ = v::<U20>() == v::<U22>(); } // REFUSE	==	lengths 20 and 22
fn p1911() { let _ = v::<U20>() + v::<U22>(); } // REFUSE	+	lengths 20 and 22
fn p1912() { v::<U20>().dot(&v::<U28>()); } // REFUSE	dot	lengths 20 and 28
fn p1913() { let _ = v::<U20>() == v::<U28>(); } // REFUSE	==	lengths 20 and 28
fn p1914() { let _ = v::<U20>() + v::<U28>(); } // REFUSE	+	lengths 20 and 28
fn p1915() { v::<U20>().dot(&v::<U32>()); } // REFUSE	dot	lengths 20 and 32
fn p1916() { let _ = v::<U20>() == v::<U32>(); } // REFUSE	==	lengths 20 and 32
fn p1917() { let _ = v::<U20>() + v::<U32>(); } // REFUSE	+	lengths 20 and 32
fn p1918() { v::<U21>().dot(&v::<U0>()); } // REFUSE	dot	lengths 21 and 0
fn p1919() { let _ = v::<U21>() == v::<U0>(); } // REFUSE	==	lengths 21 and 0
fn p1920() { let _ = v::<U21>() + v::<U0>(); } // REFUSE	+	lengths 21 and 0
fn p1921() { v::<U21>().dot(&v::<U1>()); } // REFUSE	dot	lengths 21 and 1
fn p1922() { let _ = v::<U21>() == v::<U1>(); } // REFUSE	==	lengths 21 and 1
fn p1923() { let _ = v::<U21>() + v::<U1>(); } // REFUSE	+	lengths 21 and 1
fn p1924() { v::<U21>().dot(&v::<U5>()); } // REFUSE	dot	lengths 21 and 5
fn p1925() { let _ = v::<U21>() == v::<U5>(); } // REFUSE	==	lengths 21 and 5
fn p1926() { let _ = v::<U21>() + v::<U5>(); } // REFUSE	+	lengths 21 and 5
fn p1927() { v::<U21>().dot(&v::<U13>()); } // REFUSE	dot	lengths 21 and 13
fn p1928() { let _ = v::<U21>() == v::<U13>(); } // REFUSE	==	lengths 21 and 13
fn p1929() { let _ = v::<U21>() + v::<U13>(); } // REFUSE	+	lengths 21 and 13
fn p1930() { v::<U21>().dot(&v::<U19>()); } // REFUSE	dot	lengths 21 and 19
fn p1931() { let _ = v::<U21>() == v::<U19>(); } // REFUSE	==	lengths 21 and 19
fn p1932() { let _ = v::<U21>() + v::<U19>(); } // REFUSE	+	lengths 21 and 19
fn p1933() { v::<U21>().dot(&v::<U20>()); } // REFUSE	dot	lengths 21 and 20
fn p1934() { let _ = v::<U21>() == v::<U20>(); } // REFUSE	==	lengths 21 and 20
fn p1935() { let _ = v::<U21>() + v::<U20>(); } // REFUSE	+	lengths 21 and 20
fn p1936() { v::<U21>().dot(&v::<U21>()); } // ACCEPT	dot	lengths 21 and 21
fn p1937() { let _ = v::<U21>() == v::<U21>(); } // ACCEPT	==	lengths 21 and 21
fn p1938() { let _ = v::<U21>() + v::<U21>(); } // ACCEPT	+	lengths 21 and 21
fn p1939() { v::<U21>().dot(&v::<U22>()); } // REFUSE	dot	lengths 21 and 22
fn p1940() { let _ = v::<U21>() == v::<U22>(); } // REFUSE	==	lengths 21 and 22
fn p1941() { let _ = v::<U21>() + v::<U22>(); } // REFUSE	+	lengths 21 and 22
fn p1942() { v::<U21>().dot(&v::<U23>()); } // REFUSE	dot	lengths 21 and 23
fn p1943() { let _ = v::<U21>() == v::<U23>(); } // REFUSE	==	lengths 21 and 23
fn p1944() { let _ = v::<U21>() + v::<U23>(); } // REFUSE	+	lengths 21 and 23
fn p1945() { v::<U21>().dot(&v::<U29>()); } // REFUSE	dot	lengths 21 and 29
fn p1946() { let _ = v::<U21>() == v::<U29>(); } // REFUSE	==	lengths 21 and 29
fn p1947() { let _ = v::<U21>() + v::<U29>(); } // REFUSE	+	lengths 21 and 29
fn p1948() { v::<U21>().dot(&v::<U32>()); } // REFUSE	dot	lengths 21 and 32
fn p1949() { let _ = v::<U21>() == v::<U32>(); } // REFUSE	==	lengths 21 and 32
fn p1950() { let _ = v::<U21>() + v::<U32>(); } // REFUSE	+	lengths 21 and 32
fn p1951() { v::<U22>().dot(&v::<U0>()); } // REFUSE	dot	lengths 22 and 0
fn p1952() { let _ = v::<U22>() == v::<U0>(); } // REFUSE	==	lengths 22 and 0
fn p1953() { let _ = v::<U22>() + v::<U0>(); } // REFUSE	+	lengths 22 and 0
fn p1954() { v::<U22>().dot(&v::<U1>()); } // REFUSE	dot	lengths 22 and 1
fn p1955() { let _ = v::<U22>() == v::<U1>(); } // REFUSE	==	lengths 22 and 1
fn p1956() { let _ = v::<U22>() + v::<U1>(); } // REFUSE	+	lengths 22 and 1
fn p1957() { v::<U22>().dot(&v::<U6>()); } // REFUSE	dot	lengths 22 and 6
fn p1958() { let _ = v::<U22>() == v::<U6>(); } // REFUSE	==	lengths 22 and 6
fn p1959() { let _ = v::<U22>() + v::<U6>(); } // REFUSE	+	lengths 22 and 6
fn p1960() { v::<U22>().dot(&v::<U11>()); } // REFUSE	dot	lengths 22 and 11
fn p1961() { let _ = v::<U22>() == v::<U11>(); } // REFUSE	==	lengths 22 and 11
fn p1962() { let _ = v::<U22>() + v::<U11>(); } // REFUSE	+	lengths 22 and 11
fn p1963() { v::<U22>().dot(&v::<U14>()); } // REFUSE	dot	lengths 22 and 14
fn p1964() { let _ = v::<U22>() == v::<U14>(); } // REFUSE	==	lengths 22 and 14
fn p1965() { let _ = v::<U22>() + v::<U14>(); } // REFUSE	+	lengths 22 and 14
fn p1966() { v::<U22>().dot(&v::<U20>()); } // REFUSE	dot	lengths 22 and 20
fn p1967() { let _ = v::<U22>() == v::<U20>(); } // REFUSE	==	lengths 22 and 20
fn p1968() { let _ = v::<U22>() + v::<U20>(); } // REFUSE	+	lengths 22 and 20
fn p1969() { v::<U22>().dot(&v::<U21>()); } // REFUSE	dot	lengths 22 and 21
fn p1970() { let _ = v::<U22>() == v::<U21>(); } // REFUSE	==	lengths 22 and 21
fn p1971() { let _ = v::<U22>() + v::<U21>(); } // REFUSE	+	lengths 22 and 21
fn p1972() { v::<U22>().dot(&v::<U22>()); } // ACCEPT	dot	lengths 22 and 22
fn p1973() { let _ = v::<U22>() == v::<U22>(); } // ACCEPT	==	lengths 22 and 22
fn p1974() { let _ = v::<U22>() + v::<U22>(); } // ACCEPT	+	lengths 22 and 22
fn p1975() { v::<U22>().dot(&v::<U23>()); } // REFUSE	dot	lengths 22 and 23
fn p1976() { let _ = v::<U22>() == v::<U23>(); } // REFUSE	==	lengths 22 and 23
fn p1977() { let _ = v::<U22>() + v::<U23>(); } // REFUSE	+	lengths 22 and 23
fn p1978() { v::<U22>().dot(&v::<U24>()); } // REFUSE	dot	lengths 22 and 24
fn p1979() { let _ = v::<U22>() == v::<U24>(); } // REFUSE	==	lengths 22 and 24
fn p1980() { let _ = v::<U22>() + v::<U24>(); } // REFUSE	+	lengths 22 and 24
fn p1981() { v::<U22>().dot(&v::<U30>()); } // REFUSE	dot	lengths 22 and 30
fn p1982() { let _ = v::<U22>() == v::<U30>(); } // REFUSE	==	lengths 22 and 30
fn p1983() { let _ = v::<U22>() + v::<U30>(); } // REFUSE	+	lengths 22 and 30
fn p1984() { v::<U22>().dot(&v::<U32>()); } // REFUSE	dot	lengths 22 and 32
fn p1985() { let _ = v::<U22>() == v::<U32>(); } // REFUSE	==	lengths 22 and 32
fn p1986() { let _ = v::<U22>() + v::<U32>(); } // REFUSE	+	lengths 22 and 32
fn p1987() { v::<U23>().dot(&v::<U0>()); } // REFUSE	dot	lengths 23 and 0
fn p1988() { let _ = v::<U23>() == v::<U0>(); } // REFUSE	==	lengths 23 and 0
fn p1989() { let _ = v::<U23>() + v::<U0>(); } // REFUSE	+	lengths 23 and 0
fn p1990() { v::<U23>().dot(&v::<U1>()); } // REFUSE	dot	lengths 23 and 1
fn p1991() { let _ = v::<U23>() == v::<U1>(); } // REFUSE	==	lengths 23 and 1
fn p1992() { let _ = v::<U23>() + v::<U1>(); } // REFUSE	+	lengths 23 and 1
fn p1993() { v::<U23>().dot(&v::<U7>()); } // REFUSE	dot	lengths 23 and 7
fn p1994() { let _ = v::<U23>() == v::<U7>(); } // REFUSE	==	lengths 23 and 7
fn p1995() { let _ = v::<U23>() + v::<U7>(); } // REFUSE	+	lengths 23 and 7
fn p1996() { v::<U23>().dot(&v::<U15>()); } // REFUSE	dot	lengths 23 and 15
fn p1997() { let _ = v::<U23>() == v::<U15>(); } // REFUSE	==	lengths 23 and 15
fn p1998() { let _ = v::<U23>() + v::<U15>(); } // REFUSE	+	lengths 23 and 15
fn p1999() { v::<U23>().dot(&v::<U21>()); } // REFUSE	dot	lengths 23 and 21
fn p2000() { let _ = v::<U23>() == v::<U21>(); } // REFUSE	==	lengths 23 and 21
fn p2001() { let _ = v::<U23>() + v::<U21>(); } // REFUSE	+	lengths 23 and 21
fn p2002() { v::<U23>().dot(&v::<U22>()); } // REFUSE	dot	lengths 23 and 22
fn p2003() { let _ = v::<U23>() == v::<U22>(); } // REFUSE	==	lengths 23 and 22
fn p2004() { let _ = v::<U23>() + v::<U22>(); } // REFUSE	+	lengths 23 and 22
fn p2005() { v::<U23>().dot(&v::<U23>()); } // ACCEPT	dot	lengths 23 and 23
fn p2006() { let _ = v::<U23>() == v::<U23>(); } // ACCEPT	==	lengths 23 and 23
fn p2007() { let _ = v::<U23>() + v::<U23>(); } // ACCEPT	+	lengths 23 and 23
fn p2008() { v::<U23>().dot(&v::<U24>()); } // REFUSE	dot	lengths 23 and 24
fn p2009() { let _ = v::<U23>() == v::<U24>(); } // REFUSE	==	lengths 23 and 24
fn p2010() { let _ = v::<U23>() + v::<U24>(); } // REFUSE	+	lengths 23 and 24
fn p2011() { v::<U23>().dot(&v::<U25>()); } // REFUSE	dot	lengths 23 and 25
fn p2012() { let _ = v::<U23>() == v::<U25>(); } // REFUSE	==	lengths 23 and 25
fn p2013() { let _ = v::<U23>() + v::<U25>(); } // REFUSE	+	lengths 23 and 25
fn p2014() { v::<U23>().dot(&v::<U31>()); } // REFUSE	dot	lengths 23 and 31
fn p2015() { let _ = v::<U23>() == v::<U31>(); } // REFUSE	==	lengths 23 and 31
fn p2016() { let _ = v::<U23>() + v::<U31>(); } // REFUSE	+	lengths 23 and 31
fn p2017() { v::<U23>().dot(&v::<U32>()); } // REFUSE	dot	lengths 23 and 32
fn p2018() { let _ = v::<U23>() == v::<U32>(); } // REFUSE	==	lengths 23 and 32
fn p2019() { let _ = v::<U23>() + v::<U32>(); } // REFUSE	+	lengths 23 and 32
fn p2020() { v::<U24>().dot(&v::<U0>()); } // REFUSE	dot	lengths 24 and 0
fn p2021() { let _ = v::<U24>() == v::<U0>(); } // REFUSE	==	lengths 24 and 0
fn p2022() { let _ = v::<U24>() + v::<U0>(); } // REFUSE	+	lengths 24 and 0
fn p2023() { v::<U24>().dot(&v::<U1>()); } // REFUSE	dot	lengths 24 and 1
fn p2024() { let _ = v::<U24>() == v::<U1>(); } // REFUSE	==	lengths 24 and 1
fn p2025() { let _ = v::<U24>() + v::<U1>(); } // REFUSE	+	lengths 24 and 1
fn p2026() { v::<U24>().dot(&v::<U8>()); } // REFUSE	dot	lengths 24 and 8
fn p2027() { let _ = v::<U24>() == v::<U8>(); } // REFUSE	==	lengths 24 and 8
fn p2028() { let _ = v::<U24>() + v::<U8>(); } // REFUSE	+	lengths 24 and 8
fn p2029() { v::<U24>().dot(&v::<U12>()); } // REFUSE	dot	lengths 24 and 12
fn p2030() { let _ = v::<U24>() == v::<U12>(); } // REFUSE	==	lengths 24 and 12
fn p2031() { let _ = v::<U24>() + v::<U12>(); } // REFUSE	+	lengths 24 and 12
fn p2032() { v::<U24>().dot(&v::<U16>()); } // REFUSE	dot	lengths 24 and 16
fn p2033() { let _ = v::<U24>() == v::<U16>(); } // REFUSE	==	lengths 24 and 16
fn p2034() { let _ = v::<U24>() + v::<U16>(); } // REFUSE	+	lengths 24 and 16
fn p2035() { v::<U24>().dot(&v::<U22>()); } // REFUSE	dot	lengths 24 and 22
fn p2036() { let _ = v::<U24>() == v::<U22>(); } // REFUSE	==	lengths 24 and 22
fn p2037() { let _ = v::<U24>() + v::<U22>(); } // REFUSE	+	lengths 24 and 22
fn p2038() { v::<U24>().dot(&v::<U23>()); } // REFUSE	dot	lengths 24 and 23
fn p2039() { let _ = v::<U24>() == v::<U23>(); } // REFUSE	==	lengths 24 and 23
fn p2040() { let _ = v::<U24>() + v::<U23>(); } // REFUSE	+	lengths 24 and 23
fn p2041() { v::<U24>().dot(&v::<U24>()); } // ACCEPT	dot	lengths 24 and 24
fn p2042() { let _ = v::<U24>() == v::<U24>(); } // ACCEPT	==	lengths 24 and 24
fn p2043() { let _ = v::<U24>() + v::<U24>(); } // ACCEPT	+	lengths 24 and 24
fn p2044() { v::<U24>().dot(&v::<U25>()); } // REFUSE	dot	lengths 24 and 25
fn p2045() { let _ = v::<U24>() == v::<U25>(); } // REFUSE	==	lengths 24 and 25
fn p2046() { let _ = v::<U24>() + v::<U25>(); } // REFUSE	+	lengths 24 and 25
fn p2047() { v::<U24>().dot(&v::<U26>()); } // REFUSE	dot	lengths 24 and 26
fn p2048() { let _ = v::<U24>() == v::<U26>(); } // REFUSE	==	lengths 24 and 26
fn p2049() { let _ = v::<U24>() + v::<U26>(); } // REFUSE	+	lengths 24 and 26
fn p2050() { v::<U24>().dot(&v::<U32>()); } // REFUSE	dot	lengths 24 and 32
fn p2051() { let _ = v::<U24>() == v::<U32>(); } // REFUSE	==	lengths 24 and 32
fn p2052() { let _ = v::<U24>() + v::<U32>(); } // REFUSE	+	lengths 24 and 32
fn p2053() { v::<U25>().dot(&v::<U0>()); } // REFUSE	dot	lengths 25 and 0
fn p2054() { let _ = v::<U25>() == v::<U0>(); } // REFUSE	==	lengths 25 and 0
fn p2055() { let _ = v::<U25>() + v::<U0>(); } // REFUSE	+	lengths 25 and 0
fn p2056() { v::<U25>().dot(&v::<U1>()); } // REFUSE	dot	lengths 25 and 1
fn p2057() { let _ = v::<U25>() == v::<U1>(); } // REFUSE	==	lengths 25 and 1
fn p2058() { let _ = v::<U25>() + v::<U1>(); } // REFUSE	+	lengths 25 and 1
fn p2059() { v::<U25>().dot(&v::<U9>()); } // REFUSE	dot	lengths 25 and 9
fn p2060() { let _ = v::<U25>() == v::<U9>(); } // REFUSE	==	lengths 25 and 9
fn p2061() { let _ = v::<U25>() + v::<U9>(); } // REFUSE	+	lengths 25 and 9
fn p2062() { v::<U25>().dot(&v::<U17>()); } // REFUSE	dot	lengths 25 and 17
fn p2063() { let _ = v::<U25>() == v::<U17>(); } // REFUSE	==	lengths 25 and 17
fn p2064() { let _ = v::<U25>() + v::<U17>(); } // REFUSE	+	lengths 25 and 17
fn p2065() { v::<U25>().dot(&v::<U23>()); } // REFUSE	dot	lengths 25 and 23
fn p2066() { let _ = v::<U25>() == v::<U23>(); } // REFUSE	==	lengths 25 and 23
fn p2067() { let _ = v::<U25>() + v::<U23>(); } // REFUSE	+	lengths 25 and 23
fn p2068() { v::<U25>().dot(&v::<U24>()); } // REFUSE	dot	lengths 25 and 24
fn p2069() { let _ = v::<U25>() == v::<U24>(); } // REFUSE	==	lengths 25 and 24
fn p2070() { let _ = v::<U25>() + v::<U24>(); } // REFUSE	+	lengths 25 and 24
fn p2071() { v::<U25>().dot(&v::<U25>()); } // ACCEPT	dot	lengths 25 and 25
fn p2072() { let _ = v::<U25>() == v::<U25>(); } // ACCEPT	==	lengths 25 and 25
fn p2073() { let _ = v::<U25>() + v::<U25>(); } // ACCEPT	+	lengths 25 and 25
fn p2074() { v::<U25>().dot(&v::<U26>()); } // REFUSE	dot	lengths 25 and 26
fn p2075() { let _ = v::<U25>() == v::<U26>(); } // REFUSE	==	lengths 25 and 26
fn p2076() { let _ = v::<U25>() + v::<U26>(); } // REFUSE	+	lengths 25 and 26
fn p2077() { v::<U25>().dot(&v::<U27>()); } // REFUSE	dot	lengths 25 and 27
fn p2078() { let _ = v::<U25>() == v::<U27>(); } // REFUSE	==	lengths 25 and 27
fn p2079() { let _ = v::<U25>() + v::<U27>(); } // REFUSE	+	lengths 25 and 27
fn p2080() { v::<U25>().dot(&v::<U32>()); } // REFUSE	dot	lengths 25 and 32
fn p2081() { let _ = v::<U25>() == v::<U32>(); } // REFUSE	==	lengths 25 and 32
fn p2082() { let _ = v::<U25>() + v::<U32>(); } // REFUSE	+	lengths 25 and 32
fn p2083() { v::<U26>().dot(&v::<U0>()); } // REFUSE	dot	lengths 26 and 0
fn p2084() { let _ = v::<U26>() == v::<U0>(); } // REFUSE	==	lengths 26 and 0
fn p2085() { let _ = v::<U26>() + v::<U0>(); } // REFUSE	+	lengths 26 and 0
fn p2086() { v::<U26>().dot(&v::<U1>()); } // REFUSE	dot	lengths 26 and 1
fn p2087() { let _ = v::<U26>() == v::<U1>(); } // REFUSE	==	lengths 26 and 1
fn p2088() { let _ = v::<U26>() + v::<U1>(); } // REFUSE	+	lengths 26 and 1
fn p2089() { v::<U26>().dot(&v::<U2>()); } // REFUSE	dot	lengths 26 and 2
fn p2090() { let _ = v::<U26>() == v::<U2>(); } // REFUSE	==	lengths 26 and 2
fn p2091() { let _ = v::<U26>() + v::<U2>(); } // REFUSE	+	lengths 26 and 2
fn p2092() { v::<U26>().dot(&v::<U10>()); } // REFUSE	dot	lengths 26 and 10
fn p2093() { let _ = v::<U26>() == v::<U10>(); } // REFUSE	==	lengths 26 and 10
fn p2094() { let _ = v::<U26>() + v::<U10>(); } // REFUSE	+	lengths 26 and 10
fn p2095() { v::<U26>().dot(&v::<U13>()); } // REFUSE	dot	lengths 26 and 13
fn p2096() { let _ = v::<U26>() == v::<U13>(); } // REFUSE	==	lengths 26 and 13
fn p2097() { let _ = v::<U26>() + v::<U13>(); } // REFUSE	+	lengths 26 and 13
fn p2098() { v::<U26>().dot(&v::<U18>()); } // REFUSE	dot	lengths 26 and 18
fn p2099() { let _ = v::<U26>() == v::<U18>(); } // REFUSE	==	lengths 26 and 18
fn p2100() { let _ = v::<U26>() + v::<U18>(); } // REFUSE	+	lengths 26 and 18
fn p2101() { v::<U26>().dot(&v::<U24>()); } // REFUSE	dot	lengths 26 and 24
fn p2102() { let _ = v::<U26>() == v::<U24>(); } // REFUSE	==	lengths 26 and 24
fn p2103() { let _ = v::<U26>() + v::<U24>(); } // REFUSE	+	lengths 26 and 24
fn p2104() { v::<U26>().dot(&v::<U25>()); } // REFUSE	dot	lengths 26 and 25
fn p2105() { let _ = v::<U26>() == v::<U25>(); } // REFUSE	==	lengths 26 and 25
fn p2106() { let _ = v::<U26>() + v::<U25>(); } // REFUSE	+	lengths 26 and 25
fn p2107() { v::<U26>().dot(&v::<U26>()); } // ACCEPT	dot	lengths 26 and 26
fn p2108() { let _ = v::<U26>() == v::<U26>(); } // ACCEPT	==	lengths 26 and 26
fn p2109() { let _ = v::<U26>() + v::<U26>(); } // ACCEPT	+	lengths 26 and 26
fn p2110() { v::<U26>().dot(&v::<U27>()); } // REFUSE	dot	lengths 26 and 27
fn p2111() { let _ = v::<U26>() == v::<U27>(); } // REFUSE	==	lengths 26 and 27
fn p2112() { let _ = v::<U26>() + v::<U27>(); } // REFUSE	+	lengths 26 and 27
fn p2113() { v::<U26>().dot(&v::<U28>()); } // REFUSE	dot	lengths 26 and 28
fn p2114() { let _ = v::<U26>() == v::<U28>(); } // REFUSE	==	lengths 26 and 28
fn p2115() { let _ = v::<U26>() + v::<U28>(); } // REFUSE	+	lengths 26 and 28
fn p2116() { v::<U26>().dot(&v::<U32>()); } // REFUSE	dot	lengths 26 and 32
fn p2117() { let _ = v::<U26>() == v::<U32>(); } // REFUSE	==	lengths 26 and 32
fn p2118() { let _ = v::<U26>() + v::<U32>(); } // REFUSE	+	lengths 26 and 32
fn p2119() { v::<U27>().dot(&v::<U0>()); } // REFUSE	dot	lengths 27 and 0
fn p2120() { let _ = v::<U27>() == v::<U0>(); } // REFUSE	==	lengths 27 and 0
fn p2121() { let _ = v::<U27>() + v::<U0>(); } // REFUSE	+	lengths 27 and 0
fn p2122() { v::<U27>().dot(&v::<U1>()); } // REFUSE	dot	lengths 27 and 1
fn p2123() { let _ = v::<U27>() == v::<U1>(); } // REFUSE	==	lengths 27 and 1
fn p2124() { let _ = v::<U27>() + v::<U1>(); } // REFUSE	+	lengths 27 and 1
fn p2125() { v::<U27>().dot(&v::<U3>()); } // REFUSE	dot	lengths 27 and 3
fn p2126() { let _ = v::<U27>() == v::<U3>(); } // REFUSE	==	lengths 27 and 3
fn p2127() { let _ = v::<U27>() + v::<U3>(); } // REFUSE	+	lengths 27 and 3
fn p2128() { v::<U27>().dot(&v::<U11>()); } // REFUSE	dot	lengths 27 and 11
fn p2129() { let _ = v::<U27>() == v::<U11>(); } // REFUSE	==	lengths 27 and 11
fn p2130() { let _ = v::<U27>() + v::<U11>(); } // REFUSE	+	lengths 27 and 11
fn p2131() { v::<U27>().dot(&v::<U19>()); } // REFUSE	dot	lengths 27 and 19
fn p2132() { let _ = v::<U27>() == v::<U19>(); } // REFUSE	==	lengths 27 and 19
fn p2133() { let _ = v::<U27>() + v::<U19>(); } // REFUSE	+	lengths 27 and 19
fn p2134() { v::<U27>().dot(&v::<U25>()); } // REFUSE	dot	lengths 27 and 25
fn p2135() { let _ = v::<U27>() == v::<U25>(); } // REFUSE	==	lengths 27 and 25
fn p2136() { let _ = v::<U27>() + v::<U25>(); } // REFUSE	+	lengths 27 and 25
fn p2137() { v::<U27>().dot(&v::<U26>()); } // REFUSE	dot	lengths 27 and 26
fn p2138() { let _ = v::<U27>() == v::<U26>(); } // REFUSE	==	lengths 27 and 26
fn p2139() { let _ = v::<U27>() + v::<U26>(); } // REFUSE	+	lengths 27 and 26
fn p2140() { v::<U27>().dot(&v::<U27>()); } // ACCEPT	dot	lengths 27 and 27
fn p2141() { let _ = v::<U27>() == v::<U27>(); } // ACCEPT	==	lengths 27 and 27
fn p2142() { let _ = v::<U27>() + v::<U27>(); } // ACCEPT	+	lengths 27 and 27
fn p2143() { v::<U27>().dot(&v::<U28>()); } // REFUSE	dot	lengths 27 and 28
fn p2144() { let _ = v::<U27>() == v::<U28>(); } // REFUSE	==	lengths 27 and 28
fn p2145() { let _ = v::<U27>() + v::<U28>(); } // REFUSE	+	lengths 27 and 28
fn p2146() { v::<U27>().dot(&v::<U29>()); } // REFUSE	dot	lengths 27 and 29
fn p2147() { let _ = v::<U27>() == v::<U29>(); } // REFUSE	==	lengths 27 and 29
fn p2148() { let _ = v::<U27>() + v::<U29>(); } // REFUSE	+	lengths 27 and 29
fn p2149() { v::<U27>().dot(&v::<U32>()); } // REFUSE	dot	lengths 27 and 32
fn p2150() { let _ = v::<U27>() == v::<U32>(); } // REFUSE	==	lengths 27 and 32
fn p2151() { let _ = v::<U27>() + v::<U32>(); } // REFUSE	+	lengths 27 and 32
fn p2152() { v::<U28>().dot(&v::<U0>()); } // REFUSE	dot	lengths 28 and 0
fn p2153() { let _ = v::<U28>() == v::<U0>(); } // REFUSE	==	lengths 28 and 0
fn p2154() { let _ = v::<U28>() + v::<U0>(); } // REFUSE	+	lengths 28 and 0
fn p2155() { v::<U28>().dot(&v::<U1>()); } // REFUSE	dot	lengths 28 and 1
fn p2156() { let _ = v::<U28>() == v::<U1>(); } // REFUSE	==	lengths 28 and 1
fn p2157() { let _ = v::<U28>() + v::<U1>(); } // REFUSE	+	lengths 28 and 1
fn p2158() { v::<U28>().dot(&v::<U4>()); } // REFUSE	dot	lengths 28 and 4
fn p2159() { let _ = v::<U28>() == v::<U4>(); } // REFUSE	==	lengths 28 and 4
fn p2160() { let _ = v::<U28>() + v::<U4>(); } // REFUSE	+	lengths 28 and 4
fn p2161() { v::<U28>().dot(&v::<U12>()); } // REFUSE	dot	lengths 28 and 12
fn p2162() { let _ = v::<U28>() == v::<U12>(); } // REFUSE	==	lengths 28 and 12
fn p2163() { let _ = v::<U28>() + v::<U12>(); } // REFUSE	+	lengths 28 and 12
fn p2164() { v::<U28>().dot(&v::<U14>()); } // REFUSE	dot	lengths 28 and 14
fn p2165() { let _ = v::<U28>() == v::<U14>(); } // REFUSE	==	lengths 28 and 14
fn p2166() { let _ = v::<U28>() + v::<U14>(); } // REFUSE	+	lengths 28 and 14
fn p2167() { v::<U28>().dot(&v::<U20>()); } // REFUSE	dot	lengths 28 and 20
fn p2168() { let _ = v::<U28>() == v::<U20>(); } // REFUSE	==	lengths 28 and 20
fn p2169() { let _ = v::<U28>() + v::<U20>(); } // REFUSE	+	lengths 28 and 20
fn p2170() { v::<U28>().dot(&v::<U26>()); } // REFUSE	dot	lengths 28 and 26
fn p2171() { let _ = v::<U28>() == v::<U26>(); } // REFUSE	==	lengths 28 and 26
fn p2172() { let _ = v::<U28>() + v::<U26>(); } // REFUSE	+	lengths 28 and 26
fn p2173() { v::<U28>().dot(&v::<U27>()); } // REFUSE	dot	lengths 28 and 27
fn p2174() { let _ = v::<U28>() == v::<U27>(); } // REFUSE	==	lengths 28 and 27
fn p2175() { let _ = v::<U28>() + v::<U27>(); } // REFUSE	+	lengths 28 and 27
fn p2176() { v::<U28>().dot(&v::<U28>()); } // ACCEPT	dot	lengths 28 and 28
fn p2177() { let _ = v::<U28>() == v::<U28>(); } // ACCEPT	==	lengths 28 and 28
fn p2178() { let _ = v::<U28>() + v::<U28>(); } // ACCEPT	+	lengths 28 and 28
fn p2179() { v::<U28>().dot(&v::<U29>()); } // REFUSE	dot	lengths 28 and 29
fn p2180() { let _ = v::<U28>() == v::<U29>(); } // REFUSE	==	lengths 28 and 29
fn p2181() { let _ = v::<U28>() + v::<U29>(); } // REFUSE	+	lengths 28 and 29
fn p2182() { v::<U28>().dot(&v::<U30>()); } // REFUSE	dot	lengths 28 and 30
fn p2183() { let _ = v::<U28>() == v::<U30>(); } // REFUSE	==	lengths 28 and 30
fn p2184() { let _ = v::<U28>() + v::<U30>(); } // REFUSE	+	lengths 28 and 30
fn p2185() { v::<U28>().dot(&v::<U32>()); } // REFUSE	dot	lengths 28 and 32
fn p2186() { let _ = v::<U28>() == v::<U32>(); } // REFUSE	==	lengths 28 and 32
fn p2187() { let _ = v::<U28>() + v::<U32>(); } // REFUSE	+	lengths 28 and 32
fn p2188() { v::<U29>().dot(&v::<U0>()); } // REFUSE	dot	lengths 29 and 0
fn p2189() { let _ = v::<U29>() == v::<U0>(); } // REFUSE	==	lengths 29 and 0
fn p2190() { let _ = v::<U29>() + v::<U0>(); } // REFUSE	+	lengths 29 and 0
fn p2191() { v::<U29>().dot(&v::<U1>()); } // REFUSE	dot	lengths 29 and 1
fn p2192() { let _ = v::<U29>() == v::<U1>(); } // REFUSE	==	lengths 29 and 1
fn p2193() { let _ = v::<U29>() + v::<U1>(); } // REFUSE	+	lengths 29 and 1
fn p2194() { v::<U29>().dot(&v::<U5>()); } // REFUSE	dot	lengths 29 and 5
fn p2195() { let _ = v::<U29>() == v::<U5>(); } // REFUSE	==	lengths 29 and 5
fn p2196() { let _ = v::<U29>() + v::<U5>(); } // REFUSE	+	lengths 29 and 5
fn p2197() { v::<U29>().dot(&v::<U13>()); } // REFUSE	dot	lengths 29 and 13
fn p2198() { let _ = v::<U29>() == v::<U13>(); } // REFUSE	==	lengths 29 and 13
fn p2199() { let _ = v::<U29>() + v::<U13>(); } // REFUSE	+	lengths 29 and 13
fn p2200() { v::<U29>().dot(&v::<U21>()); } // REFUSE	dot	lengths 29 and 21
fn p2201() { let _ = v::<U29>() == v::<U21>(); } // REFUSE	==	lengths 29 and 21
fn p2202() { let _ = v::<U29>() + v::<U21>(); } // REFUSE	+	lengths 29 and 21
fn p2203() { v::<U29>().dot(&v::<U27>()); } // REFUSE	dot	lengths 29 and 27
fn p2204() { let _ = v::<U29>() == v::<U27>(); } // REFUSE	==	lengths 29 and 27
fn p2205() { let _ = v::<U29>() + v::<U27>(); } // REFUSE	+	lengths 29 and 27
fn p2206() { v::<U29>().dot(&v::<U28>()); } // REFUSE	dot	lengths 29 and 28
fn p2207() { let _ = v::<U29>() == v::<U28>(); } // REFUSE	==	lengths 29 and 28
fn p2208() { let _ = v::<U29>() + v::<U28>(); } // REFUSE	+	lengths 29 and 28
fn p2209() { v::<U29>().dot(&v::<U29>()); } // ACCEPT	dot	lengths 29 and 29
fn p2210() { let _ = v::<U29>() == v::<U29>(); } // ACCEPT	==	lengths 29 and 29
fn p2211() { let _ = v::<U29>() + v::<U29>(); } // ACCEPT	+	lengths 29 and 29
fn p2212() { v::<U29>().dot(&v::<U30>()); } // REFUSE	dot	lengths 29 and 30
fn p2213() { let _ = v::<U29>() == v::<U30>(); } // REFUSE	==	lengths 29 and 30
fn p2214() { let _ = v::<U29>() + v::<U30>(); } // REFUSE	+	lengths 29 and 30
fn p2215() { v::<U29>().dot(&v::<U31>()); } // REFUSE	dot	lengths 29 and 31
fn p2216() { let _ = v::<U29>() == v::<U31>(); } // REFUSE	==	lengths 29 and 31
fn p2217() { let _ = v::<U29>() + v::<U31>(); } // REFUSE	+	lengths 29 and 31
fn p2218() { v::<U29>().dot(&v::<U32>()); } // REFUSE	dot	lengths 29 and 32
fn p2219() { let _ = v::<U29>() == v::<U32>(); } // REFUSE	==	lengths 29 and 32
fn p2220() { let _ = v::<U29>() + v::<U32>(); } // REFUSE	+	lengths 29 and 32
fn p2221() { v::<U30>().dot(&v::<U0>()); } // REFUSE	dot	lengths 30 and 0
fn p2222() { let _ = v::<U30>() == v::<U0>(); } // REFUSE	==	lengths 30 and 0
fn p2223() { let _ = v::<U30>() + v::<U0>(); } // REFUSE	+	lengths 30 and 0
fn p2224() { v::<U30>().dot(&v::<U1>()); } // REFUSE	dot	lengths 30 and 1
fn p2225() { let _ = v::<U30>() == v::<U1>(); } // REFUSE	==	lengths 30 and 1
fn p2226() { let _ = v::<U30>() + v::<U1>(); } // REFUSE	+	lengths 30 and 1
fn p2227() { v::<U30>().dot(&v::<U6>()); } // REFUSE	dot	lengths 30 and 6
fn p2228() { let _ = v::<U30>() == v::<U6>(); } // REFUSE	==	lengths 30 and 6
fn p2229() { let _ = v::<U30>() + v::<U6>(); } // REFUSE	+	lengths 30 and 6
fn p2230() { v::<U30>().dot(&v::<U14>()); } // REFUSE	dot	lengths 30 and 14
fn p2231() { let _ = v::<U30>() == v::<U14>(); } // REFUSE	==	lengths 30 and 14
fn p2232() { let _ = v::<U30>() + v::<U14>(); } // REFUSE	+	lengths 30 and 14
fn p2233() { v::<U30>().dot(&v::<U15>()); } // REFUSE	dot	lengths 30 and 15
fn p2234() { let _ = v::<U30>() == v::<U15>(); } // REFUSE	==	lengths 30 and 15
fn p2235() { let _ = v::<U30>() + v::<U15>(); } // REFUSE	+	lengths 30 and 15
fn p2236() { v::<U30>().dot(&v::<U22>()); } // REFUSE	dot	lengths 30 and 22
fn p2237() { let _ = v::<U30>() == v::<U22>(); } // REFUSE	==	lengths 30 and 22
fn p2238() { let _ = v::<U30>() + v::<U22>(); } // REFUSE	+	lengths 30 and 22
fn p2239() { v::<U30>().dot(&v::<U28>()); } // REFUSE	dot	lengths 30 and 28
fn p2240() { let _ = v::<U30>() == v::<U28>(); } // REFUSE	==	lengths 30 and 28
fn p2241() { let _ = v::<U30>() + v::<U28>(); } // REFUSE	+	lengths 30 and 28
fn p2242() { v::<U30>().dot(&v::<U29>()); } // REFUSE	dot	lengths 30 and 29
fn p2243() { let _ = v::<U30>() == v::<U29>(); } // REFUSE	==	lengths 30 and 29
fn p2244() { let _ = v::<U30>() + v::<U29>(); } // REFUSE	+	lengths 30 and 29
fn p2245() { v::<U30>().dot(&v::<U30>()); } // ACCEPT	dot	lengths 30 and 30
fn p2246() { let _ = v::<U30>() == v::<U30>(); } // ACCEPT	==	lengths 30 and 30
fn p2247() { let _ = v::<U30>() + v::<U30>(); } // ACCEPT	+	lengths 30 and 30
fn p2248() { v::<U30>().dot(&v::<U31>()); } // REFUSE	dot	lengths 30 and 31
fn p2249() { let _ = v::<U30>() == v::<U31>(); } // REFUSE	==	lengths 30 and 31
fn p2250() { let _ = v::<U30>() + v::<U31>(); } // REFUSE	+	lengths 30 and 31
fn p2251() { v::<U30>().dot(&v::<U32>()); } // REFUSE	dot	lengths 30 and 32
fn p2252() { let _ = v::<U30>() == v::<U32>(); } // REFUSE	==	lengths 30 and 32
fn p2253() { let _ = v::<U30>() + v::<U32>(); } // REFUSE	+	lengths 30 and 32
fn p2254() { v::<U31>().dot(&v::<U0>()); } // REFUSE	dot	lengths 31 and 0
fn p2255() { let _ = v::<U31>() == v::<U0>(); } // REFUSE	==	lengths 31 and 0
fn p2256() { let _ = v::<U31>() + v::<U0>(); } // REFUSE	+	lengths 31 and 0
fn p2257() { v::<U31>().dot(&v::<U1>()); } // REFUSE	dot	lengths 31 and 1
fn p2258() { let _ = v::<U31>() == v::<U1>(); } // REFUSE	==	lengths 31 and 1
fn p2259() { let _ = v::<U31>() + v::<U1>(); } // REFUSE	+	lengths 31 and 1
fn p2260() { v::<U31>().dot(&v::<U7>()); } // REFUSE	dot	lengths 31 and 7
fn p2261() { let _ = v::<U31>() == v::<U7>(); } // REFUSE	==	lengths 31 and 7
fn p2262() { let _ = v::<U31>() + v::<U7>(); } // REFUSE	+	lengths 31 and 7
fn p2263() { v::<U31>().dot(&v::<U15>()); } // REFUSE	dot	lengths 31 and 15
fn p2264() { let _ = v::<U31>() == v::<U15>(); } // REFUSE	==	lengths 31 and 15
fn p2265() { let _ = v::<U31>() + v::<U15>(); } // REFUSE	+	lengths 31 and 15
fn p2266() { v::<U31>().dot(&v::<U23>()); } // REFUSE	dot	lengths 31 and 23
fn p2267() { let _ = v::<U31>() == v::<U23>(); } // REFUSE	==	lengths 31 and 23
fn p2268() { let _ = v::<U31>() + v::<U23>(); } // REFUSE	+	lengths 31 and 23
fn p2269() { v::<U31>().dot(&v::<U29>()); } // REFUSE	dot	lengths 31 and 29
fn p2270() { let _ = v::<U31>() == v::<U29>(); } // REFUSE	==	lengths 31 and 29
fn p2271() { let _ = v::<U31>() + v::<U29>(); } // REFUSE	+	lengths 31 and 29
fn p2272() { v::<U31>().dot(&v::<U30>()); } // REFUSE	dot	lengths 31 and 30
fn p2273() { let _ = v::<U31>() == v::<U30>(); } // REFUSE	==	lengths 31 and 30
fn p2274() { let _ = v::<U31>() + v::<U30>(); } // REFUSE	+	lengths 31 and 30
fn p2275() { v::<U31>().dot(&v::<U31>()); } // ACCEPT	dot	lengths 31 and 31
fn p2276() { let _ = v::<U31>() == v::<U31>(); } // ACCEPT	==	lengths 31 and 31
fn p2277() { let _ = v::<U31>() + v::<U31>(); } // ACCEPT	+	lengths 31 and 31
fn p2278() { v::<U31>().dot(&v::<U32>()); } // REFUSE	dot	lengths 31 and 32
fn p2279() { let _ = v::<U31>() == v::<U32>(); } // REFUSE	==	lengths 31 and 32
fn p2280() { let _ = v::<U31>() + v::<U32>(); } // REFUSE	+	lengths 31 and 32
fn p2281() { v::<U32>().dot(&v::<U0>()); } // REFUSE	dot	lengths 32 and 0
fn p2282() { let _ = v::<U32>() == v::<U0>(); } // REFUSE	==	lengths 32 and 0
fn p2283() { let _ = v::<U32>() + v::<U0>(); } // REFUSE	+	lengths 32 and 0
fn p2284() { v::<U32>().dot(&v::<U1>()); } // REFUSE	dot	lengths 32 and 1
fn p2285() { let _ = v::<U32>() == v::<U1>(); } // REFUSE	==	lengths 32 and 1
fn p2286() { let _ = v::<U32>() + v::<U1>(); } // REFUSE	+	lengths 32 and 1
fn p2287() { v::<U32>().dot(&v::<U2>()); } // REFUSE	dot	lengths 32 and 2
fn p2288() { let _ = v::<U32>() == v::<U2>(); } // REFUSE	==	lengths 32 and 2
fn p2289() { let _ = v::<U32>() + v::<U2>(); } // REFUSE	+	lengths 32 and 2
fn p2290() { v::<U32>().dot(&v::<U3>()); } // REFUSE	dot	lengths 32 and 3
fn p2291() { let _ = v::<U32>() == v::<U3>(); } // REFUSE	==	lengths 32 and 3
fn p2292() { let _ = v::<U32>() + v::<U3>(); } // REFUSE	+	lengths 32 and 3
fn p2293() { v::<U32>().dot(&v::<U4>()); } // REFUSE	dot	lengths 32 and 4
fn p2294() { let _ = v::<U32>() == v::<U4>(); } // REFUSE	==	lengths 32 and 4
fn p2295() { let _ = v::<U32>() + v::<U4>(); } // REFUSE	+	lengths 32 and 4
fn p2296() { v::<U32>().dot(&v::<U5>()); } // REFUSE	dot	lengths 32 and 5
fn p2297() { let _ = v::<U32>() == v::<U5>(); } // REFUSE	==	lengths 32 and 5
fn p2298() { let _ = v::<U32>() + v::<U5>(); } // REFUSE	+	lengths 32 and 5
fn p2299() { v::<U32>().dot(&v::<U6>()); } // REFUSE	dot	lengths 32 and 6
fn p2300() { let _ = v::<U32>() == v::<U6>(); } // REFUSE	==	lengths 32 and 6
fn p2301() { let _ = v::<U32>() + v::<U6>(); } // REFUSE	+	lengths 32 and 6
fn p2302() { v::<U32>().dot(&v::<U7>()); } // REFUSE	dot	lengths 32 and 7
fn p2303() { let _ = v::<U32>() == v::<U7>(); } // REFUSE	==	lengths 32 and 7
fn p2304() { let _ = v::<U32>() + v::<U7>(); } // REFUSE	+	lengths 32 and 7
fn p2305() { v::<U32>().dot(&v::<U8>()); } // REFUSE	dot	lengths 32 and 8
fn p2306() { let _ = v::<U32>() == v::<U8>(); } // REFUSE	==	lengths 32 and 8
fn p2307() { let _ = v::<U32>() + v::<U8>(); } // REFUSE	+	lengths 32 and 8
fn p2308() { v::<U32>().dot(&v::<U9>()); } // REFUSE	dot	lengths 32 and 9
fn p2309() { let _ = v::<U32>() == v::<U9>(); } // REFUSE	==	lengths 32 and 9
fn p2310() { let _ = v::<U32>() + v::<U9>(); } // REFUSE	+	lengths 32 and 9
fn p2311() { v::<U32>().dot(&v::<U10>()); } // REFUSE	dot	lengths 32 and 10
fn p2312() { let _ = v::<U32>() == v::<U10>(); } // REFUSE	==	lengths 32 and 10
fn p2313() { let _ = v::<U32>() + v::<U10>(); } // REFUSE	+	lengths 32 and 10
fn p2314() { v::<U32>().dot(&v::<U11>()); } // REFUSE	dot	lengths 32 and 11
fn p2315() { let _ = v::<U32>() == v::<U11>(); } // REFUSE	==	lengths 32 and 11
fn p2316() { let _ = v::<U32>() + v::<U11>(); } // REFUSE	+	lengths 32 and 11
fn p2317() { v::<U32>().dot(&v::<U12>()); } // REFUSE	dot	lengths 32 and 12
fn p2318() { let _ = v::<U32>() == v::<U12>(); } // REFUSE	==	lengths 32 and 12
fn p2319() { let _ = v::<U32>() + v::<U12>(); } // REFUSE	+	lengths 32 and 12
fn p2320() { v::<U32>().dot(&v::<U13>()); } // REFUSE	dot	lengths 32 and 13
fn p2321() { let _ = v::<U32>() == v::<U13>(); } // REFUSE	==	lengths 32 and 13
fn p2322() { let _ = v::<U32>() + v::<U13>(); } // REFUSE	+	lengths 32 and 13
fn p2323() { v::<U32>().dot(&v::<U14>()); } // REFUSE	dot	lengths 32 and 14
fn p2324() { let _ = v::<U32>() == v::<U14>(); } // REFUSE	==	lengths 32 and 14
fn p2325() { let _ = v::<U32>() + v::<U14>(); } // REFUSE	+	lengths 32 and 14
fn p2326() { v::<U32>().dot(&v::<U15>()); } // REFUSE	dot	lengths 32 and 15
fn p2327() { let _ = v::<U32>() == v::<U15>(); } // REFUSE	==	lengths 32 and 15
fn p2328() { let _ = v::<U32>() + v::<U15>(); } // REFUSE	+	lengths 32 and 15
fn p2329() { v::<U32>().dot(&v::<U16>()); } // REFUSE	dot	lengths 32 and 16
fn p2330() { let _ = v::<U32>() == v::<U16>(); } // REFUSE	==	lengths 32 and 16
fn p2331() { let _ = v::<U32>() + v::<U16>(); } // REFUSE	+	lengths 32 and 16
fn p2332() { v::<U32>().dot(&v::<U17>()); } // REFUSE	dot	lengths 32 and 17
fn p2333() { let _ = v::<U32>() == v::<U17>(); } // REFUSE	==	lengths 32 and 17
fn p2334() { let _ = v::<U32>() + v::<U17>(); } // REFUSE	+	lengths 32 and 17
fn p2335() { v::<U32>().dot(&v::<U18>()); } // REFUSE	dot	lengths 32 and 18
fn p2336() { let _ = v::<U32>() == v::<U18>(); } // REFUSE	==	lengths 32 and 18
fn p2337() { let _ = v::<U32>() + v::<U18>(); } // REFUSE	+	lengths 32 and 18
fn p2338() { v::<U32>().dot(&v::<U19>()); } // REFUSE	dot	lengths 32 and 19
fn p2339() { let _ = v::<U32>() == v::<U19>(); } // REFUSE	==	lengths 32 and 19
fn p2340() { let _ = v::<U32>() + v::<U19>(); } // REFUSE	+	lengths 32 and 19
fn p2341() { v::<U32>().dot(&v::<U20>()); } // REFUSE	dot	lengths 32 and 20
fn p2342() { let _ = v::<U32>() == v::<U20>(); } // REFUSE	==	lengths 32 and 20
fn p2343() { let _ = v::<U32>() + v::<U20>(); } // REFUSE	+	lengths 32 and 20
fn p2344() { v::<U32>().dot(&v::<U21>()); } // REFUSE	dot	lengths 32 and 21
fn p2345() { let _ = v::<U32>() == v::<U21>(); } // REFUSE	==	lengths 32 and 21
fn p2346() { let _ = v::<U32>() + v::<U21>(); } // REFUSE	+	lengths 32 and 21
fn p2347() { v::<U32>().dot(&v::<U22>()); } // REFUSE	dot	lengths 32 and 22
fn p2348() { let _ = v::<U32>() == v::<U22>(); } // REFUSE	==	lengths 32 and 22
fn p2349() { let _ = v::<U32>() + v::<U22>(); } // REFUSE	+	lengths 32 and 22
fn p2350() { v::<U32>().dot(&v::<U23>()); } // REFUSE	dot	lengths 32 and 23
fn p2351() { let _ = v::<U32>() == v::<U23>(); } // REFUSE	==	lengths 32 and 23
fn p2352() { let _ = v::<U32>() + v::<U23>(); } // REFUSE	+	lengths 32 and 23
fn p2353() { v::<U32>().dot(&v::<U24>()); } // REFUSE	dot	lengths 32 and 24
fn p2354() { let _ = v::<U32>() == v::<U24>(); } // REFUSE	==	lengths 32 and 24
fn p2355() { let _ = v::<U32>() + v::<U24>(); } // REFUSE	+	lengths 32 and 24
fn p2356() { v::<U32>().dot(&v::<U25>()); } // REFUSE	dot	lengths 32 and 25
fn p2357() { let _ = v::<U32>() == v::<U25>(); } // REFUSE	==	lengths 32 and 25
fn p2358() { let _ = v::<U32>() + v::<U25>(); } // REFUSE	+	lengths 32 and 25
fn p2359() { v::<U32>().dot(&v::<U26>()); } // REFUSE	dot	lengths 32 and 26
fn p2360() { let _ = v::<U32>() == v::<U26>(); } // REFUSE	==	lengths 32 and 26
fn p2361() { let _ = v::<U32>() + v::<U26>(); } // REFUSE	+	lengths 32 and 26
fn p2362() { v::<U32>().dot(&v::<U27>()); } // REFUSE	dot	lengths 32 and 27
fn p2363() { let _ = v::<U32>() == v::<U27>(); } // REFUSE	==	lengths 32 and 27
fn p2364() { let _ = v::<U32>() + v::<U27>(); } // REFUSE	+	lengths 32 and 27
fn p2365() { v::<U32>().dot(&v::<U28>()); } // REFUSE	dot	lengths 32 and 28
fn p2366() { let _ = v::<U32>() == v::<U28>(); } // REFUSE	==	lengths 32 and 28
fn p2367() { let _ = v::<U32>() + v::<U28>(); } // REFUSE	+	lengths 32 and 28
fn p2368() { v::<U32>().dot(&v::<U29>()); } // REFUSE	dot	lengths 32 and 29
fn p2369() { let _ = v::<U32>() == v::<U29>(); } // REFUSE	==	lengths 32 and 29
fn p2370() { let _ = v::<U32>() + v::<U29>(); } // REFUSE	+	lengths 32 and 29
fn p2371() { v::<U32>().dot(&v::<U30>()); } // REFUSE	dot	lengths 32 and 30
fn p2372() { let _ = v::<U32>() == v::<U30>(); } // REFUSE	==	lengths 32 and 30
fn p2373() { let _ = v::<U32>() + v::<U30>(); } // REFUSE	+	lengths 32 and 30
fn p2374() { v::<U32>().dot(&v::<U31>()); } // REFUSE	dot	lengths 32 and 31
fn p2375() { let _ = v::<U32>() == v::<U31>(); } // REFUSE	==	lengths 32 and 31
fn p2376() { let _ = v::<U32>() + v::<U31>(); } // REFUSE	+	lengths 32 and 31
fn p2377() { v::<U32>().dot(&v::<U32>()); } // ACCEPT	dot	lengths 32 and 32
fn p2378() { let _ = v::<U32>() == v::<U32>(); } // ACCEPT	==	lengths 32 and 32
fn p2379() { let _ = v::<U32>() + v::<U32>(); } // ACCEPT	+	lengths 32 and 32
fn p2380() { let _ = v::<U0>().max(); } // REFUSE	extrema	length 0 max
fn p2381() { let _ = k::<U0, U0>().max(); } // REFUSE	extrema	0x0 max
fn p2382() { let _ = v::<U0>().min(); } // REFUSE	extrema	length 0 min
fn p2383() { let _ = k::<U0, U0>().min(); } // REFUSE	extrema	0x0 min
fn p2384() { let _ = v::<U0>().max_by(|a, b| a.cmp(b)); } // REFUSE	extrema	length 0 max_by
fn p2385() { let _ = k::<U0, U0>().max_by(|a, b| a.cmp(b)); } // REFUSE	extrema	0x0 max_by
fn p2386() { let _ = v::<U0>().min_by(|a, b| a.cmp(b)); } // REFUSE	extrema	length 0 min_by
fn p2387() { let _ = k::<U0, U0>().min_by(|a, b| a.cmp(b)); } // REFUSE	extrema	0x0 min_by
fn p2388() { let _ = v::<U0>().cross(&v::<U0>()); } // REFUSE	cross	length 0
fn p2389() { let _ = v::<U3>().cross(&v::<U0>()); } // REFUSE	cross	lengths 3 and 0
fn p2390() { let _ = Vector::<i64, U0>::new([0; 0]); } // ACCEPT	Vector::new	length 0 from an array of 0
fn p2391() { let _ = Vector::<i64, U0>::new([0; 1]); } // REFUSE	Vector::new	length 0 from an array of 1
fn p2392() { let _ = Vector::<i64, U0>::new([0; 32]); } // REFUSE	Vector::new	length 0 from an array of 32
fn p2393() { let _ = v::<U1>().max(); } // ACCEPT	extrema	length 1 max
fn p2394() { let _ = k::<U1, U1>().max(); } // ACCEPT	extrema	1x1 max
fn p2395() { let _ = v::<U1>().min(); } // ACCEPT	extrema	length 1 min
fn p2396() { let _ = k::<U1, U1>().min(); } // ACCEPT	extrema	1x1 min
fn p2397() { let _ = v::<U1>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 1 max_by
fn p2398() { let _ = k::<U1, U1>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	1x1 max_by
fn p2399() { let _ = v::<U1>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 1 min_by
fn p2400() { let _ = k::<U1, U1>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	1x1 min_by
fn p2401() { let _ = v::<U1>().cross(&v::<U1>()); } // REFUSE	cross	length 1
fn p2402() { let _ = v::<U3>().cross(&v::<U1>()); } // REFUSE	cross	lengths 3 and 1
fn p2403() { let _ = Vector::<i64, U1>::new([0; 0]); } // REFUSE	Vector::new	length 1 from an array of 0
fn p2404() { let _ = Vector::<i64, U1>::new([0; 1]); } // ACCEPT	Vector::new	length 1 from an array of 1
fn p2405() { let _ = Vector::<i64, U1>::new([0; 2]); } // REFUSE	Vector::new	length 1 from an array of 2
fn p2406() { let _ = Vector::<i64, U1>::new([0; 32]); } // REFUSE	Vector::new	length 1 from an array of 32
fn p2407() { let _ = v::<U2>().max(); } // ACCEPT	extrema	length 2 max
fn p2408() { let _ = k::<U2, U2>().max(); } // ACCEPT	extrema	2x2 max
fn p2409() { let _ = v::<U2>().min(); } // ACCEPT	extrema	length 2 min
fn p2410() { let _ = k::<U2, U2>().min(); } // ACCEPT	extrema	2x2 min
fn p2411() { let _ = v::<U2>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 2 max_by
fn p2412() { let _ = k::<U2, U2>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	2x2 max_by
fn p2413() { let _ = v::<U2>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 2 min_by
fn p2414() { let _ = k::<U2, U2>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	2x2 min_by
fn p2415() { let _ = v::<U2>().cross(&v::<U2>()); } // REFUSE	cross	length 2
fn p2416() { let _ = v::<U3>().cross(&v::<U2>()); } // REFUSE	cross	lengths 3 and 2
fn p2417() { let _ = Vector::<i64, U2>::new([0; 0]); } // REFUSE	Vector::new	length 2 from an array of 0
fn p2418() { let _ = Vector::<i64, U2>::new([0; 1]); } // REFUSE	Vector::new	length 2 from an array of 1
fn p2419() { let _ = Vector::<i64, U2>::new([0; 2]); } // ACCEPT	Vector::new	length 2 from an array of 2
fn p2420() { let _ = Vector::<i64, U2>::new([0; 3]); } // REFUSE	Vector::new	length 2 from an array of 3
fn p2421() { let _ = Vector::<i64, U2>::new([0; 32]); } // REFUSE	Vector::new	length 2 from an array of 32
fn p2422() { let _ = v::<U3>().max(); } // ACCEPT	extrema	length 3 max
fn p2423() { let _ = k::<U3, U3>().max(); } // ACCEPT	extrema	3x3 max
fn p2424() { let _ = v::<U3>().min(); } // ACCEPT	extrema	length 3 min
fn p2425() { let _ = k::<U3, U3>().min(); } // ACCEPT	extrema	3x3 min
fn p2426() { let _ = v::<U3>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 3 max_by
fn p2427() { let _ = k::<U3, U3>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	3x3 max_by
fn p2428() { let _ = v::<U3>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 3 min_by
fn p2429() { let _ = k::<U3, U3>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	3x3 min_by
fn p2430() { let _ = v::<U3>().cross(&v::<U3>()); } // ACCEPT	cross	length 3
fn p2431() { let _ = Vector::<i64, U3>::new([0; 0]); } // REFUSE	Vector::new	length 3 from an array of 0
fn p2432() { let _ = Vector::<i64, U3>::new([0; 2]); } // REFUSE	Vector::new	length 3 from an array of 2
fn p2433() { let _ = Vector::<i64, U3>::new([0; 3]); } // ACCEPT	Vector::new	length 3 from an array of 3
fn p2434() { let _ = Vector::<i64, U3>::new([0; 4]); } // REFUSE	Vector::new	length 3 from an array of 4
fn p2435() { let _ = Vector::<i64, U3>::new([0; 32]); } // REFUSE	Vector::new	length 3 from an array of 32
fn p2436() { let _ = v::<U4>().max(); } // ACCEPT	extrema	length 4 max
fn p2437() { let _ = k::<U4, U4>().max(); } // ACCEPT	extrema	4x4 max
fn p2438() { let _ = v::<U4>().min(); } // ACCEPT	extrema	length 4 min
fn p2439() { let _ = k::<U4, U4>().min(); } // ACCEPT	extrema	4x4 min
fn p2440() { let _ = v::<U4>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 4 max_by
fn p2441() { let _ = k::<U4, U4>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	4x4 max_by
fn p2442() { let _ = v::<U4>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 4 min_by
fn p2443() { let _ = k::<U4, U4>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	4x4 min_by
fn p2444() { let _ = v::<U4>().cross(&v::<U4>()); } // REFUSE	cross	length 4
fn p2445() { let _ = v::<U3>().cross(&v::<U4>()); } // REFUSE	cross	lengths 3 and 4
fn p2446() { let _ = Vector::<i64, U4>::new([0; 0]); } // REFUSE	Vector::new	length 4 from an array of 0
fn p2447() { let _ = Vector::<i64, U4>::new([0; 3]); } // REFUSE	Vector::new	length 4 from an array of 3
fn p2448() { let _ = Vector::<i64, U4>::new([0; 4]); } // ACCEPT	Vector::new	length 4 from an array of 4
fn p2449() { let _ = Vector::<i64, U4>::new([0; 5]); } // REFUSE	Vector::new	length 4 from an array of 5
fn p2450() { let _ = Vector::<i64, U4>::new([0; 32]); } // REFUSE	Vector::new	length 4 from an array of 32
fn p2451() { let _ = v::<U5>().max(); } // ACCEPT	extrema	length 5 max
fn p2452() { let _ = v::<U5>().min(); } // ACCEPT	extrema	length 5 min
fn p2453() { let _ = v::<U5>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 5 max_by
fn p2454() { let _ = v::<U5>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 5 min_by
fn p2455() { let _ = v::<U5>().cross(&v::<U5>()); } // REFUSE	cross	length 5
fn p2456() { let _ = v::<U3>().cross(&v::<U5>()); } // REFUSE	cross	lengths 3 and 5
fn p2457() { let _ = Vector::<i64, U5>::new([0; 0]); } // REFUSE	Vector::new	length 5 from an array of 0
fn p2458() { let _ = Vector::<i64, U5>::new([0; 4]); } // REFUSE	Vector::new	length 5 from an array of 4
fn p2459() { let _ = Vector::<i64, U5>::new([0; 5]); } // ACCEPT	Vector::new	length 5 from an array of 5
fn p2460() { let _ = Vector::<i64, U5>::new([0; 6]); } // REFUSE	Vector::new	length 5 from an array of 6
fn p2461() { let _ = Vector::<i64, U5>::new([0; 32]); } // REFUSE	Vector::new	length 5 from an array of 32
fn p2462() { let _ = v::<U6>().max(); } // ACCEPT	extrema	length 6 max
fn p2463() { let _ = v::<U6>().min(); } // ACCEPT	extrema	length 6 min
fn p2464() { let _ = v::<U6>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 6 max_by
fn p2465() { let _ = v::<U6>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 6 min_by
fn p2466() { let _ = v::<U6>().cross(&v::<U6>()); } // REFUSE	cross	length 6
fn p2467() { let _ = v::<U3>().cross(&v::<U6>()); } // REFUSE	cross	lengths 3 and 6
fn p2468() { let _ = Vector::<i64, U6>::new([0; 0]); } // REFUSE	Vector::new	length 6 from an array of 0
fn p2469() { let _ = Vector::<i64, U6>::new([0; 5]); } // REFUSE	Vector::new	length 6 from an array of 5
fn p2470() { let _ = Vector::<i64, U6>::new([0; 6]); } // ACCEPT	Vector::new	length 6 from an array of 6
fn p2471() { let _ = Vector::<i64, U6>::new([0; 7]); } // REFUSE	Vector::new	length 6 from an array of 7
fn p2472() { let _ = Vector::<i64, U6>::new([0; 32]); } // REFUSE	Vector::new	length 6 from an array of 32
fn p2473() { let _ = v::<U7>().max(); } // ACCEPT	extrema	length 7 max
fn p2474() { let _ = v::<U7>().min(); } // ACCEPT	extrema	length 7 min
fn p2475() { let _ = v::<U7>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 7 max_by
fn p2476() { let _ = v::<U7>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 7 min_by
fn p2477() { let _ = v::<U7>().cross(&v::<U7>()); } // REFUSE	cross	length 7
fn p2478() { let _ = v::<U3>().cross(&v::<U7>()); } // REFUSE	cross	lengths 3 and 7
fn p2479() { let _ = Vector::<i64, U7>::new([0; 0]); } // REFUSE	Vector::new	length 7 from an array of 0
fn p2480() { let _ = Vector::<i64, U7>::new([0; 6]); } // REFUSE	Vector::new	length 7 from an array of 6
fn p2481() { let _ = Vector::<i64, U7>::new([0; 7]); } // ACCEPT	Vector::new	length 7 from an array of 7
fn p2482() { let _ = Vector::<i64, U7>::new([0; 8]); } // REFUSE	Vector::new	length 7 from an array of 8
fn p2483() { let _ = Vector::<i64, U7>::new([0; 32]); } // REFUSE	Vector::new	length 7 from an array of 32
fn p2484() { let _ = v::<U8>().max(); } // ACCEPT	extrema	length 8 max
fn p2485() { let _ = v::<U8>().min(); } // ACCEPT	extrema	length 8 min
fn p2486() { let _ = v::<U8>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 8 max_by
fn p2487() { let _ = v::<U8>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 8 min_by
fn p2488() { let _ = v::<U8>().cross(&v::<U8>()); } // REFUSE	cross	length 8
fn p2489() { let _ = v::<U3>().cross(&v::<U8>()); } // REFUSE	cross	lengths 3 and 8
fn p2490() { let _ = Vector::<i64, U8>::new([0; 0]); } // REFUSE	Vector::new	length 8 from an array of 0
fn p2491() { let _ = Vector::<i64, U8>::new([0; 7]); } // REFUSE	Vector::new	length 8 from an array of 7
fn p2492() { let _ = Vector::<i64, U8>::new([0; 8]); } // ACCEPT	Vector::new	length 8 from an array of 8
fn p2493() { let _ = Vector::<i64, U8>::new([0; 9]); } // REFUSE	Vector::new	length 8 from an array of 9
fn p2494() { let _ = Vector::<i64, U8>::new([0; 32]); } // REFUSE	Vector::new	length 8 from an array of 32
fn p2495() { let _ = v::<U9>().max(); } // ACCEPT	extrema	length 9 max
fn p2496() { let _ = k::<U9, U9>().max(); } // ACCEPT	extrema	9x9 max
fn p2497() { let _ = v::<U9>().min(); } // ACCEPT	extrema	length 9 min
fn p2498() { let _ = k::<U9, U9>().min(); } // ACCEPT	extrema	9x9 min
fn p2499() { let _ = v::<U9>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 9 max_by
fn p2500() { let _ = k::<U9, U9>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	9x9 max_by
fn p2501() { let _ = v::<U9>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 9 min_by
fn p2502() { let _ = k::<U9, U9>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	9x9 min_by
fn p2503() { let _ = v::<U9>().cross(&v::<U9>()); } // REFUSE	cross	length 9
fn p2504() { let _ = v::<U3>().cross(&v::<U9>()); } // REFUSE	cross	lengths 3 and 9
fn p2505() { let _ = Vector::<i64, U9>::new([0; 0]); } // REFUSE	Vector::new	length 9 from an array of 0
fn p2506() { let _ = Vector::<i64, U9>::new([0; 8]); } // REFUSE	Vector::new	length 9 from an array of 8
fn p2507() { let _ = Vector::<i64, U9>::new([0; 9]); } // ACCEPT	Vector::new	length 9 from an array of 9
fn p2508() { let _ = Vector::<i64, U9>::new([0; 10]); } // REFUSE	Vector::new	length 9 from an array of 10
fn p2509() { let _ = Vector::<i64, U9>::new([0; 32]); } // REFUSE	Vector::new	length 9 from an array of 32
fn p2510() { let _ = v::<U10>().max(); } // ACCEPT	extrema	length 10 max
fn p2511() { let _ = v::<U10>().min(); } // ACCEPT	extrema	length 10 min
fn p2512() { let _ = v::<U10>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 10 max_by
fn p2513() { let _ = v::<U10>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 10 min_by
fn p2514() { let _ = v::<U10>().cross(&v::<U10>()); } // REFUSE	cross	length 10
fn p2515() { let _ = v::<U3>().cross(&v::<U10>()); } // REFUSE	cross	lengths 3 and 10
fn p2516() { let _ = Vector::<i64, U10>::new([0; 0]); } // REFUSE	Vector::new	length 10 from an array of 0
fn p2517() { let _ = Vector::<i64, U10>::new([0; 9]); } // REFUSE	Vector::new	length 10 from an array of 9
fn p2518() { let _ = Vector::<i64, U10>::new([0; 10]); } // ACCEPT	Vector::new	length 10 from an array of 10
fn p2519() { let _ = Vector::<i64, U10>::new([0; 11]); } // REFUSE	Vector::new	length 10 from an array of 11
fn p2520() { let _ = Vector::<i64, U10>::new([0; 32]); } // REFUSE	Vector::new	length 10 from an array of 32
fn p2521() { let _ = v::<U11>().max(); } // ACCEPT	extrema	length 11 max
fn p2522() { let _ = v::<U11>().min(); } // ACCEPT	extrema	length 11 min
fn p2523() { let _ = v::<U11>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 11 max_by
fn p2524() { let _ = v::<U11>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 11 min_by
fn p2525() { let _ = v::<U11>().cross(&v::<U11>()); } // REFUSE	cross	length 11
fn p2526() { let _ = v::<U3>().cross(&v::<U11>()); } // REFUSE	cross	lengths 3 and 11
fn p2527() { let _ = Vector::<i64, U11>::new([0; 0]); } // REFUSE	Vector::new	length 11 from an array of 0
fn p2528() { let _ = Vector::<i64, U11>::new([0; 10]); } // REFUSE	Vector::new	length 11 from an array of 10
fn p2529() { let _ = Vector::<i64, U11>::new([0; 11]); } // ACCEPT	Vector::new	length 11 from an array of 11
fn p2530() { let _ = Vector::<i64, U11>::new([0; 12]); } // REFUSE	Vector::new	length 11 from an array of 12
fn p2531() { let _ = Vector::<i64, U11>::new([0; 32]); } // REFUSE	Vector::new	length 11 from an array of 32
fn p2532() { let _ = v::<U12>().max(); } // ACCEPT	extrema	length 12 max
fn p2533() { let _ = v::<U12>().min(); } // ACCEPT	extrema	length 12 min
fn p2534() { let _ = v::<U12>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 12 max_by
fn p2535() { let _ = v::<U12>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 12 min_by
fn p2536() { let _ = v::<U12>().cross(&v::<U12>()); } // REFUSE	cross	length 12
fn p2537() { let _ = v::<U3>().cross(&v::<U12>()); } // REFUSE	cross	lengths 3 and 12
fn p2538() { let _ = Vector::<i64, U12>::new([0; 0]); } // REFUSE	Vector::new	length 12 from an array of 0
fn p2539() { let _ = Vector::<i64, U12>::new([0; 11]); } // REFUSE	Vector::new	length 12 from an array of 11
fn p2540() { let _ = Vector::<i64, U12>::new([0; 12]); } // ACCEPT	Vector::new	length 12 from an array of 12
fn p2541() { let _ = Vector::<i64, U12>::new([0; 13]); } // REFUSE	Vector::new	length 12 from an array of 13
fn p2542() { let _ = Vector::<i64, U12>::new([0; 32]); } // REFUSE	Vector::new	length 12 from an array of 32
fn p2543() { let _ = v::<U13>().max(); } // ACCEPT	extrema	length 13 max
fn p2544() { let _ = v::<U13>().min(); } // ACCEPT	extrema	length 13 min
fn p2545() { let _ = v::<U13>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 13 max_by
fn p2546() { let _ = v::<U13>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 13 min_by
fn p2547() { let _ = v::<U13>().cross(&v::<U13>()); } // REFUSE	cross	length 13
fn p2548() { let _ = v::<U3>().cross(&v::<U13>()); } // REFUSE	cross	lengths 3 and 13
fn p2549() { let _ = Vector::<i64, U13>::new([0; 0]); } // REFUSE	Vector::new	length 13 from an array of 0
fn p2550() { let _ = Vector::<i64, U13>::new([0; 12]); } // REFUSE	Vector::new	length 13 from an array of 12
fn p2551() { let _ = Vector::<i64, U13>::new([0; 13]); } // ACCEPT	Vector::new	length 13 from an array of 13
fn p2552() { let _ = Vector::<i64, U13>::new([0; 14]); } // REFUSE	Vector::new	length 13 from an array of 14
fn p2553() { let _ = Vector::<i64, U13>::new([0; 32]); } // REFUSE	Vector::new	length 13 from an array of 32
fn p2554() { let _ = v::<U14>().max(); } // ACCEPT	extrema	length 14 max
fn p2555() { let _ = v::<U14>().min(); } // ACCEPT	extrema	length 14 min
fn p2556() { let _ = v::<U14>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 14 max_by
fn p2557() { let _ = v::<U14>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 14 min_by
fn p2558() { let _ = v::<U14>().cross(&v::<U14>()); } // REFUSE	cross	length 14
fn p2559() { let _ = v::<U3>().cross(&v::<U14>()); } // REFUSE	cross	lengths 3 and 14
fn p2560() { let _ = Vector::<i64, U14>::new([0; 0]); } // REFUSE	Vector::new	length 14 from an array of 0
fn p2561() { let _ = Vector::<i64, U14>::new([0; 13]); } // REFUSE	Vector::new	length 14 from an array of 13
fn p2562() { let _ = Vector::<i64, U14>::new([0; 14]); } // ACCEPT	Vector::new	length 14 from an array of 14
fn p2563() { let _ = Vector::<i64, U14>::new([0; 15]); } // REFUSE	Vector::new	length 14 from an array of 15
fn p2564() { let _ = Vector::<i64, U14>::new([0; 32]); } // REFUSE	Vector::new	length 14 from an array of 32
fn p2565() { let _ = v::<U15>().max(); } // ACCEPT	extrema	length 15 max
fn p2566() { let _ = v::<U15>().min(); } // ACCEPT	extrema	length 15 min
fn p2567() { let _ = v::<U15>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 15 max_by
fn p2568() { let _ = v::<U15>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 15 min_by
fn p2569() { let _ = v::<U15>().cross(&v::<U15>()); } // REFUSE	cross	length 15
fn p2570() { let _ = v::<U3>().cross(&v::<U15>()); } // REFUSE	cross	lengths 3 and 15
fn p2571() { let _ = Vector::<i64, U15>::new([0; 0]); } // REFUSE	Vector::new	length 15 from an array of 0
fn p2572() { let _ = Vector::<i64, U15>::new([0; 14]); } // REFUSE	Vector::new	length 15 from an array of 14
fn p2573() { let _ = Vector::<i64, U15>::new([0; 15]); } // ACCEPT	Vector::new	length 15 from an array of 15
fn p2574() { let _ = Vector::<i64, U15>::new([0; 16]); } // REFUSE	Vector::new	length 15 from an array of 16
fn p2575() { let _ = Vector::<i64, U15>::new([0; 32]); } // REFUSE	Vector::new	length 15 from an array of 32
fn p2576() { let _ = v::<U16>().max(); } // ACCEPT	extrema	length 16 max
fn p2577() { let _ = v::<U16>().min(); } // ACCEPT	extrema	length 16 min
fn p2578() { let _ = v::<U16>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 16 max_by
fn p2579() { let _ = v::<U16>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 16 min_by
fn p2580() { let _ = v::<U16>().cross(&v::<U16>()); } // REFUSE	cross	length 16
fn p2581() { let _ = v::<U3>().cross(&v::<U16>()); } // REFUSE	cross	lengths 3 and 16
fn p2582() { let _ = Vector::<i64, U16>::new([0; 0]); } // REFUSE	Vector::new	length 16 from an array of 0
fn p2583() { let _ = Vector::<i64, U16>::new([0; 15]); } // REFUSE	Vector::new	length 16 from an array of 15
fn p2584() { let _ = Vector::<i64, U16>::new([0; 16]); } // ACCEPT	Vector::new	length 16 from an array of 16
fn p2585() { let _ = Vector::<i64, U16>::new([0; 17]); } // REFUSE	Vector::new	length 16 from an array of 17
fn p2586() { let _ = Vector::<i64, U16>::new([0; 32]); } // REFUSE	Vector::new	length 16 from an array of 32
fn p2587() { let _ = v::<U17>().max(); } // ACCEPT	extrema	length 17 max
fn p2588() { let _ = v::<U17>().min(); } // ACCEPT	extrema	length 17 min
fn p2589() { let _ = v::<U17>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 17 max_by
fn p2590() { let _ = v::<U17>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 17 min_by
fn p2591() { let _ = v::<U17>().cross(&v::<U17>()); } // REFUSE	cross	length 17
fn p2592() { let _ = v::<U3>().cross(&v::<U17>()); } // REFUSE	cross	lengths 3 and 17
fn p2593() { let _ = Vector::<i64, U17>::new([0; 0]); } // REFUSE	Vector::new	length 17 from an array of 0
fn p2594() { let _ = Vector::<i64, U17>::new([0; 16]); } // REFUSE	Vector::new	length 17 from an array of 16
fn p2595() { let _ = Vector::<i64, U17>::new([0; 17]); } // ACCEPT	Vector::new	length 17 from an array of 17
fn p2596() { let _ = Vector::<i64, U17>::new([0; 18]); } // REFUSE	Vector::new	length 17 from an array of 18
fn p2597() { let _ = Vector::<i64, U17>::new([0; 32]); } // REFUSE	Vector::new	length 17 from an array of 32
fn p2598() { let _ = v::<U18>().max(); } // ACCEPT	extrema	length 18 max
fn p2599() { let _ = v::<U18>().min(); } // ACCEPT	extrema	length 18 min
fn p2600() { let _ = v::<U18>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 18 max_by
fn p2601() { let _ = v::<U18>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 18 min_by
fn p2602() { let _ = v::<U18>().cross(&v::<U18>()); } // REFUSE	cross	length 18
fn p2603() { let _ = v::<U3>().cross(&v::<U18>()); } // REFUSE	cross	lengths 3 and 18
fn p2604() { let _ = Vector::<i64, U18>::new([0; 0]); } // REFUSE	Vector::new	length 18 from an array of 0
fn p2605() { let _ = Vector::<i64, U18>::new([0; 17]); } // REFUSE	Vector::new	length 18 from an array of 17
fn p2606() { let _ = Vector::<i64, U18>::new([0; 18]); } // ACCEPT	Vector::new	length 18 from an array of 18
fn p2607() { let _ = Vector::<i64, U18>::new([0; 19]); } // REFUSE	Vector::new	length 18 from an array of 19
fn p2608() { let _ = Vector::<i64, U18>::new([0; 32]); } // REFUSE	Vector::new	length 18 from an array of 32
fn p2609() { let _ = v::<U19>().max(); } // ACCEPT	extrema	length 19 max
fn p2610() { let _ = v::<U19>().min(); } // ACCEPT	extrema	length 19 min
fn p2611() { let _ = v::<U19>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 19 max_by
fn p2612() { let _ = v::<U19>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 19 min_by
fn p2613() { let _ = v::<U19>().cross(&v::<U19>()); } // REFUSE	cross	length 19
fn p2614() { let _ = v::<U3>().cross(&v::<U19>()); } // REFUSE	cross	lengths 3 and 19
fn p2615() { let _ = Vector::<i64, U19>::new([0; 0]); } // REFUSE	Vector::new	length 19 from an array of 0
fn p2616() { let _ = Vector::<i64, U19>::new([0; 18]); } // REFUSE	Vector::new	length 19 from an array of 18
fn p2617() { let _ = Vector::<i64, U19>::new([0; 19]); } // ACCEPT	Vector::new	length 19 from an array of 19
fn p2618() { let _ = Vector::<i64, U19>::new([0; 20]); } // REFUSE	Vector::new	length 19 from an array of 20
fn p2619() { let _ = Vector::<i64, U19>::new([0; 32]); } // REFUSE	Vector::new	length 19 from an array of 32
fn p2620() { let _ = v::<U20>().max(); } // ACCEPT	extrema	length 20 max
fn p2621() { let _ = v::<U20>().min(); } // ACCEPT	extrema	length 20 min
fn p2622() { let _ = v::<U20>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 20 max_by
fn p2623() { let _ = v::<U20>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 20 min_by
fn p2624() { let _ = v::<U20>().cross(&v::<U20>()); } // REFUSE	cross	length 20
fn p2625() { let _ = v::<U3>().cross(&v::<U20>()); } // REFUSE	cross	lengths 3 and 20
fn p2626() { let _ = Vector::<i64, U20>::new([0; 0]); } // REFUSE	Vector::new	length 20 from an array of 0
fn p2627() { let _ = Vector::<i64, U20>::new([0; 19]); } // REFUSE	Vector::new	length 20 from an array of 19
fn p2628() { let _ = Vector::<i64, U20>::new([0; 20]); } // ACCEPT	Vector::new	length 20 from an array of 20
fn p2629() { let _ = Vector::<i64, U20>::new([0; 21]); } // REFUSE	Vector::new	length 20 from an array of 21
fn p2630() { let _ = Vector::<i64, U20>::new([0; 32]); } // REFUSE	Vector::new	length 20 from an array of 32
fn p2631() { let _ = v::<U21>().max(); } // ACCEPT	extrema	length 21 max
fn p2632() { let _ = v::<U21>().min(); } // ACCEPT	extrema	length 21 min
fn p2633() { let _ = v::<U21>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 21 max_by
fn p2634() { let _ = v::<U21>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 21 min_by
fn p2635() { let _ = v::<U21>().cross(&v::<U21>()); } // REFUSE	cross	length 21
fn p2636() { let _ = v::<U3>().cross(&v::<U21>()); } // REFUSE	cross	lengths 3 and 21
fn p2637() { let _ = Vector::<i64, U21>::new([0; 0]); } // REFUSE	Vector::new	length 21 from an array of 0
fn p2638() { let _ = Vector::<i64, U21>::new([0; 20]); } // REFUSE	Vector::new	length 21 from an array of 20
fn p2639() { let _ = Vector::<i64, U21>::new([0; 21]); } // ACCEPT	Vector::new	length 21 from an array of 21
fn p2640() { let _ = Vector::<i64, U21>::new([0; 22]); } // REFUSE	Vector::new	length 21 from an array of 22
fn p2641() { let _ = Vector::<i64, U21>::new([0; 32]); } // REFUSE	Vector::new	length 21 from an array of 32
fn p2642() { let _ = v::<U22>().max(); } // ACCEPT	extrema	length 22 max
fn p2643() { let _ = v::<U22>().min(); } // ACCEPT	extrema	length 22 min
fn p2644() { let _ = v::<U22>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 22 max_by
fn p2645() { let _ = v::<U22>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 22 min_by
fn p2646() { let _ = v::<U22>().cross(&v::<U22>()); } // REFUSE	cross	length 22
fn p2647() { let _ = v::<U3>().cross(&v::<U22>()); } // REFUSE	cross	lengths 3 and 22
fn p2648() { let _ = Vector::<i64, U22>::new([0; 0]); } // REFUSE	Vector::new	length 22 from an array of 0
fn p2649() { let _ = Vector::<i64, U22>::new([0; 21]); } // REFUSE	Vector::new	length 22 from an array of 21
fn p2650() { let _ = Vector::<i64, U22>::new([0; 22]); } // ACCEPT	Vector::new	length 22 from an array of 22
fn p2651() { let _ = Vector::<i64, U22>::new([0; 23]); } // REFUSE	Vector::new	length 22 from an array of 23
fn p2652() { let _ = Vector::<i64, U22>::new([0; 32]); } // REFUSE	Vector::new	length 22 from an array of 32
fn p2653() { let _ = v::<U23>().max(); } // ACCEPT	extrema	length 23 max
fn p2654() { let _ = v::<U23>().min(); } // ACCEPT	extrema	length 23 min
fn p2655() { let _ = v::<U23>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 23 max_by
fn p2656() { let _ = v::<U23>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 23 min_by
fn p2657() { let _ = v::<U23>().cross(&v::<U23>()); } // REFUSE	cross	length 23
fn p2658() { let _ = v::<U3>().cross(&v::<U23>()); } // REFUSE	cross	lengths 3 and 23
fn p2659() { let _ = Vector::<i64, U23>::new([0; 0]); } // REFUSE	Vector::new	length 23 from an array of 0
fn p2660() { let _ = Vector::<i64, U23>::new([0; 22]); } // REFUSE	Vector::new	length 23 from an array of 22
fn p2661() { let _ = Vector::<i64, U23>::new([0; 23]); } // ACCEPT	Vector::new	length 23 from an array of 23
fn p2662() { let _ = Vector::<i64, U23>::new([0; 24]); } // REFUSE	Vector::new	length 23 from an array of 24
fn p2663() { let _ = Vector::<i64, U23>::new([0; 32]); } // REFUSE	Vector::new	length 23 from an array of 32
fn p2664() { let _ = v::<U24>().max(); } // ACCEPT	extrema	length 24 max
fn p2665() { let _ = v::<U24>().min(); } // ACCEPT	extrema	length 24 min
fn p2666() { let _ = v::<U24>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 24 max_by
fn p2667() { let _ = v::<U24>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 24 min_by
fn p2668() { let _ = v::<U24>().cross(&v::<U24>()); } // REFUSE	cross	length 24
fn p2669() { let _ = v::<U3>().cross(&v::<U24>()); } // REFUSE	cross	lengths 3 and 24
fn p2670() { let _ = Vector::<i64, U24>::new([0; 0]); } // REFUSE	Vector::new	length 24 from an array of 0
fn p2671() { let _ = Vector::<i64, U24>::new([0; 23]); } // REFUSE	Vector::new	length 24 from an array of 23
fn p2672() { let _ = Vector::<i64, U24>::new([0; 24]); } // ACCEPT	Vector::new	length 24 from an array of 24
fn p2673() { let _ = Vector::<i64, U24>::new([0; 25]); } // REFUSE	Vector::new	length 24 from an array of 25
fn p2674() { let _ = Vector::<i64, U24>::new([0; 32]); } // REFUSE	Vector::new	length 24 from an array of 32
fn p2675() { let _ = v::<U25>().max(); } // ACCEPT	extrema	length 25 max
fn p2676() { let _ = v::<U25>().min(); } // ACCEPT	extrema	length 25 min
fn p2677() { let _ = v::<U25>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 25 max_by
fn p2678() { let _ = v::<U25>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 25 min_by
fn p2679() { let _ = v::<U25>().cross(&v::<U25>()); } // REFUSE	cross	length 25
fn p2680() { let _ = v::<U3>().cross(&v::<U25>()); } // REFUSE	cross	lengths 3 and 25
fn p2681() { let _ = Vector::<i64, U25>::new([0; 0]); } // REFUSE	Vector::new	length 25 from an array of 0
fn p2682() { let _ = Vector::<i64, U25>::new([0; 24]); } // REFUSE	Vector::new	length 25 from an array of 24
fn p2683() { let _ = Vector::<i64, U25>::new([0; 25]); } // ACCEPT	Vector::new	length 25 from an array of 25
fn p2684() { let _ = Vector::<i64, U25>::new([0; 26]); } // REFUSE	Vector::new	length 25 from an array of 26
fn p2685() { let _ = Vector::<i64, U25>::new([0; 32]); } // REFUSE	Vector::new	length 25 from an array of 32
fn p2686() { let _ = v::<U26>().max(); } // ACCEPT	extrema	length 26 max
fn p2687() { let _ = v::<U26>().min(); } // ACCEPT	extrema	length 26 min
fn p2688() { let _ = v::<U26>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 26 max_by
fn p2689() { let _ = v::<U26>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 26 min_by
fn p2690() { let _ = v::<U26>().cross(&v::<U26>()); } // REFUSE	cross	length 26
fn p2691() { let _ = v::<U3>().cross(&v::<U26>()); } // REFUSE	cross	lengths 3 and 26
fn p2692() { let _ = Vector::<i64, U26>::new([0; 0]); } // REFUSE	Vector::new	length 26 from an array of 0
fn p2693() { let _ = Vector::<i64, U26>::new([0; 25]); } // REFUSE	Vector::new	length 26 from an array of 25
fn p2694() { let _ = Vector::<i64, U26>::new([0; 26]); } // ACCEPT	Vector::new	length 26 from an array of 26
fn p2695() { let _ = Vector::<i64, U26>::new([0; 27]); } // REFUSE	Vector::new	length 26 from an array of 27
fn p2696() { let _ = Vector::<i64, U26>::new([0; 32]); } // REFUSE	Vector::new	length 26 from an array of 32
fn p2697() { let _ = v::<U27>().max(); } // ACCEPT	extrema	length 27 max
fn p2698() { let _ = v::<U27>().min(); } // ACCEPT	extrema	length 27 min
fn p2699() { let _ = v::<U27>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 27 max_by
fn p2700() { let _ = v::<U27>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 27 min_by
fn p2701() { let _ = v::<U27>().cross(&v::<U27>()); } // REFUSE	cross	length 27
fn p2702() { let _ = v::<U3>().cross(&v::<U27>()); } // REFUSE	cross	lengths 3 and 27
fn p2703() { let _ = Vector::<i64, U27>::new([0; 0]); } // REFUSE	Vector::new	length 27 from an array of 0
fn p2704() { let _ = Vector::<i64, U27>::new([0; 26]); } // REFUSE	Vector::new	length 27 from an array of 26
fn p2705() { let _ = Vector::<i64, U27>::new([0; 27]); } // ACCEPT	Vector::new	length 27 from an array of 27
fn p2706() { let _ = Vector::<i64, U27>::new([0; 28]); } // REFUSE	Vector::new	length 27 from an array of 28
fn p2707() { let _ = Vector::<i64, U27>::new([0; 32]); } // REFUSE	Vector::new	length 27 from an array of 32
fn p2708() { let _ = v::<U28>().max(); } // ACCEPT	extrema	length 28 max
fn p2709() { let _ = v::<U28>().min(); } // ACCEPT	extrema	length 28 min
fn p2710() { let _ = v::<U28>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 28 max_by
fn p2711() { let _ = v::<U28>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 28 min_by
fn p2712() { let _ = v::<U28>().cross(&v::<U28>()); } // REFUSE	cross	length 28
fn p2713() { let _ = v::<U3>().cross(&v::<U28>()); } // REFUSE	cross	lengths 3 and 28
fn p2714() { let _ = Vector::<i64, U28>::new([0; 0]); } // REFUSE	Vector::new	length 28 from an array of 0
fn p2715() { let _ = Vector::<i64, U28>::new([0; 27]); } // REFUSE	Vector::new	length 28 from an array of 27
fn p2716() { let _ = Vector::<i64, U28>::new([0; 28]); } // ACCEPT	Vector::new	length 28 from an array of 28
fn p2717() { let _ = Vector::<i64, U28>::new([0; 29]); } // REFUSE	Vector::new	length 28 from an array of 29
fn p2718() { let _ = Vector::<i64, U28>::new([0; 32]); } // REFUSE	Vector::new	length 28 from an array of 32
fn p2719() { let _ = v::<U29>().max(); } // ACCEPT	extrema	length 29 max
fn p2720() { let _ = v::<U29>().min(); } // ACCEPT	extrema	length 29 min
fn p2721() { let _ = v::<U29>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 29 max_by
fn p2722() { let _ = v::<U29>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 29 min_by
fn p2723() { let _ = v::<U29>().cross(&v::<U29>()); } // REFUSE	cross	length 29
fn p2724() { let _ = v::<U3>().cross(&v::<U29>()); } // REFUSE	cross	lengths 3 and 29
fn p2725() { let _ = Vector::<i64, U29>::new([0; 0]); } // REFUSE	Vector::new	length 29 from an array of 0
fn p2726() { let _ = Vector::<i64, U29>::new([0; 28]); } // REFUSE	Vector::new	length 29 from an array of 28
fn p2727() { let _ = Vector::<i64, U29>::new([0; 29]); } // ACCEPT	Vector::new	length 29 from an array of 29
fn p2728() { let _ = Vector::<i64, U29>::new([0; 30]); } // REFUSE	Vector::new	length 29 from an array of 30
fn p2729() { let _ = Vector::<i64, U29>::new([0; 32]); } // REFUSE	Vector::new	length 29 from an array of 32
fn p2730() { let _ = v::<U30>().max(); } // ACCEPT	extrema	length 30 max
fn p2731() { let _ = v::<U30>().min(); } // ACCEPT	extrema	length 30 min
fn p2732() { let _ = v::<U30>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 30 max_by
fn p2733() { let _ = v::<U30>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 30 min_by
fn p2734() { let _ = v::<U30>().cross(&v::<U30>()); } // REFUSE	cross	length 30
fn p2735() { let _ = v::<U3>().cross(&v::<U30>()); } // REFUSE	cross	lengths 3 and 30
fn p2736() { let _ = Vector::<i64, U30>::new([0; 0]); } // REFUSE	Vector::new	length 30 from an array of 0
fn p2737() { let _ = Vector::<i64, U30>::new([0; 29]); } // REFUSE	Vector::new	length 30 from an array of 29
fn p2738() { let _ = Vector::<i64, U30>::new([0; 30]); } // ACCEPT	Vector::new	length 30 from an array of 30
fn p2739() { let _ = Vector::<i64, U30>::new([0; 31]); } // REFUSE	Vector::new	length 30 from an array of 31
fn p2740() { let _ = Vector::<i64, U30>::new([0; 32]); } // REFUSE	Vector::new	length 30 from an array of 32
fn p2741() { let _ = v::<U31>().max(); } // ACCEPT	extrema	length 31 max
fn p2742() { let _ = v::<U31>().min(); } // ACCEPT	extrema	length 31 min
fn p2743() { let _ = v::<U31>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 31 max_by
fn p2744() { let _ = v::<U31>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 31 min_by
fn p2745() { let _ = v::<U31>().cross(&v::<U31>()); } // REFUSE	cross	length 31
fn p2746() { let _ = v::<U3>().cross(&v::<U31>()); } // REFUSE	cross	lengths 3 and 31
fn p2747() { let _ = Vector::<i64, U31>::new([0; 0]); } // REFUSE	Vector::new	length 31 from an array of 0
fn p2748() { let _ = Vector::<i64, U31>::new([0; 30]); } // REFUSE	Vector::new	length 31 from an array of 30
fn p2749() { let _ = Vector::<i64, U31>::new([0; 31]); } // ACCEPT	Vector::new	length 31 from an array of 31
fn p2750() { let _ = Vector::<i64, U31>::new([0; 32]); } // REFUSE	Vector::new	length 31 from an array of 32
fn p2751() { let _ = v::<U32>().max(); } // ACCEPT	extrema	length 32 max
fn p2752() { let _ = k::<U32, U32>().max(); } // ACCEPT	extrema	32x32 max
fn p2753() { let _ = v::<U32>().min(); } // ACCEPT	extrema	length 32 min
fn p2754() { let _ = k::<U32, U32>().min(); } // ACCEPT	extrema	32x32 min
fn p2755() { let _ = v::<U32>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 32 max_by
fn p2756() { let _ = k::<U32, U32>().max_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	32x32 max_by
fn p2757() { let _ = v::<U32>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	length 32 min_by
fn p2758() { let _ = k::<U32, U32>().min_by(|a, b| a.cmp(b)); } // ACCEPT	extrema	32x32 min_by
fn p2759() { let _ = v::<U32>().cross(&v::<U32>()); } // REFUSE	cross	length 32
fn p2760() { let _ = v::<U3>().cross(&v::<U32>()); } // REFUSE	cross	lengths 3 and 32
fn p2761() { let _ = Vector::<i64, U32>::new([0; 0]); } // REFUSE	Vector::new	length 32 from an array of 0
fn p2762() { let _ = Vector::<i64, U32>::new([0; 31]); } // REFUSE	Vector::new	length 32 from an array of 31
fn p2763() { let _ = Vector::<i64, U32>::new([0; 32]); } // ACCEPT	Vector::new	length 32 from an array of 32
fn p2764() { let _ = Vector::<i64, U32>::new([0; 33]); } // REFUSE	Vector::new	length 32 from an array of 33
fn p2765() { let _ = Matrix::<f64, U0, U0>::identity(); } // ACCEPT	identity	0x0
fn p2766() { let _ = <Matrix::<f64, U0, U0> as One>::one(); } // ACCEPT	one	0x0
fn p2767() { m::<U0, U0>().transpose(); } // ACCEPT	transpose	0x0
fn p2768() { let _ = m::<U0, U0>().pow(2); } // ACCEPT	pow	0x0
fn p2769() { let _: Matrix<f64, U0, U0> = m::<U0, U0>().transposed(); } // ACCEPT	transposed	0x0
fn p2770() { let _ = Matrix::<f64, U0, U0>::diag([0.0; 0]); } // ACCEPT	diag	0x0 from 0
fn p2771() { let _ = Matrix::<f64, U0, U0>::diag([0.0; 1]); } // REFUSE	diag	0x0 from 1
fn p2772() { let _ = Matrix::<f64, U0, U0>::new([[0.0; 0]; 0]); } // ACCEPT	Matrix::new	0x0 from 0x0
fn p2773() { let _ = m::<U0, U0>().relative_eq(&m::<U0, U0>(), 0.0, 0.0); } // ACCEPT	relative_eq	0x0 and 0x0
fn p2774() { let _ = m::<U0, U0>().ulps_eq(&m::<U0, U0>(), 0.0, 4); } // ACCEPT	ulps_eq	0x0 and 0x0
fn p2775() { let _ = m::<U0, U0>() == m::<U0, U0>(); } // ACCEPT	==	0x0 and 0x0
fn p2776() { let _ = m::<U0, U0>() + m::<U0, U0>(); } // ACCEPT	+	0x0 and 0x0
fn p2777() { let mut x = m::<U0, U0>(); x -= m::<U0, U0>(); } // ACCEPT	-=	0x0 and 0x0
fn p2778() { let _ = m::<U0, U0>() * m::<U0, U0>(); } // ACCEPT	*	0x0 and 0x0
fn p2779() { let _ = &m::<U0, U0>() * &m::<U0, U0>(); } // ACCEPT	&*&	0x0 and 0x0
fn p2780() { let _ = Matrix::<f64, U0, U0>::new([[0.0; 1]; 0]); } // REFUSE	Matrix::new	0x0 from 0x1
fn p2781() { let _ = m::<U0, U0>().relative_eq(&m::<U0, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	0x0 and 0x1
fn p2782() { let _ = m::<U0, U0>().ulps_eq(&m::<U0, U1>(), 0.0, 4); } // REFUSE	ulps_eq	0x0 and 0x1
fn p2783() { let _ = m::<U0, U0>() == m::<U0, U1>(); } // REFUSE	==	0x0 and 0x1
fn p2784() { let _ = m::<U0, U0>() + m::<U0, U1>(); } // REFUSE	+	0x0 and 0x1
fn p2785() { let mut x = m::<U0, U0>(); x -= m::<U0, U1>(); } // REFUSE	-=	0x0 and 0x1
fn p2786() { let _ = m::<U0, U0>() * m::<U0, U1>(); } // ACCEPT	*	0x0 and 0x1
fn p2787() { let _ = &m::<U0, U0>() * &m::<U0, U1>(); } // ACCEPT	&*&	0x0 and 0x1
fn p2788() { let _ = m::<U0, U0>() * Vector::<f64, U0>::default(); } // ACCEPT	matrix * vector	0x0 and 0
fn p2789() { let _ = Matrix::<f64, U0, U0>::new([[0.0; 0]; 1]); } // REFUSE	Matrix::new	0x0 from 1x0
fn p2790() { let _ = m::<U0, U0>().relative_eq(&m::<U1, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	0x0 and 1x0
fn p2791() { let _ = m::<U0, U0>().ulps_eq(&m::<U1, U0>(), 0.0, 4); } // REFUSE	ulps_eq	0x0 and 1x0
fn p2792() { let _ = m::<U0, U0>() == m::<U1, U0>(); } // REFUSE	==	0x0 and 1x0
fn p2793() { let _ = m::<U0, U0>() + m::<U1, U0>(); } // REFUSE	+	0x0 and 1x0
fn p2794() { let mut x = m::<U0, U0>(); x -= m::<U1, U0>(); } // REFUSE	-=	0x0 and 1x0
fn p2795() { let _ = m::<U0, U0>() * m::<U1, U0>(); } // REFUSE	*	0x0 and 1x0
fn p2796() { let _ = &m::<U0, U0>() * &m::<U1, U0>(); } // REFUSE	&*&	0x0 and 1x0
fn p2797() { let _ = m::<U0, U0>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	0x0 and 1
fn p2798() { let _ = Matrix::<f64, U0, U1>::identity(); } // REFUSE	identity	0x1
fn p2799() { let _ = <Matrix::<f64, U0, U1> as One>::one(); } // REFUSE	one	0x1
fn p2800() { m::<U0, U1>().transpose(); } // REFUSE	transpose	0x1
fn p2801() { let _ = m::<U0, U1>().pow(2); } // REFUSE	pow	0x1
fn p2802() { let _ = m::<U0, U1>().determinant(); } // REFUSE	determinant	0x1
fn p2803() { let _ = m::<U0, U1>().inverse(); } // REFUSE	inverse	0x1
fn p2804() { let _ = m::<U0, U1>().cofactor((0, 0)); } // REFUSE	cofactor	0x1
fn p2805() { let _: Matrix<f64, U1, U0> = m::<U0, U1>().transposed(); } // ACCEPT	transposed	0x1
fn p2806() { let _: Matrix<f64, U0, U1> = m::<U0, U1>().transposed(); } // REFUSE	transposed	0x1
fn p2807() { let _ = Matrix::<f64, U0, U1>::diag([0.0; 0]); } // ACCEPT	diag	0x1 from 0
fn p2808() { let _ = Matrix::<f64, U0, U1>::diag([0.0; 1]); } // REFUSE	diag	0x1 from 1
fn p2809() { let _ = Matrix::<f64, U0, U1>::new([[0.0; 0]; 0]); } // REFUSE	Matrix::new	0x1 from 0x0
fn p2810() { let _ = m::<U0, U1>().relative_eq(&m::<U0, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	0x1 and 0x0
fn p2811() { let _ = m::<U0, U1>().ulps_eq(&m::<U0, U0>(), 0.0, 4); } // REFUSE	ulps_eq	0x1 and 0x0
fn p2812() { let _ = m::<U0, U1>() == m::<U0, U0>(); } // REFUSE	==	0x1 and 0x0
fn p2813() { let _ = m::<U0, U1>() + m::<U0, U0>(); } // REFUSE	+	0x1 and 0x0
fn p2814() { let mut x = m::<U0, U1>(); x -= m::<U0, U0>(); } // REFUSE	-=	0x1 and 0x0
fn p2815() { let _ = m::<U0, U1>() * m::<U0, U0>(); } // REFUSE	*	0x1 and 0x0
fn p2816() { let _ = &m::<U0, U1>() * &m::<U0, U0>(); } // REFUSE	&*&	0x1 and 0x0
fn p2817() { let _ = Matrix::<f64, U0, U1>::new([[0.0; 1]; 0]); } // ACCEPT	Matrix::new	0x1 from 0x1
fn p2818() { let _ = m::<U0, U1>().relative_eq(&m::<U0, U1>(), 0.0, 0.0); } // ACCEPT	relative_eq	0x1 and 0x1
fn p2819() { let _ = m::<U0, U1>().ulps_eq(&m::<U0, U1>(), 0.0, 4); } // ACCEPT	ulps_eq	0x1 and 0x1
fn p2820() { let _ = m::<U0, U1>() == m::<U0, U1>(); } // ACCEPT	==	0x1 and 0x1
fn p2821() { let _ = m::<U0, U1>() + m::<U0, U1>(); } // ACCEPT	+	0x1 and 0x1
fn p2822() { let mut x = m::<U0, U1>(); x -= m::<U0, U1>(); } // ACCEPT	-=	0x1 and 0x1
fn p2823() { let _ = m::<U0, U1>() * m::<U0, U1>(); } // REFUSE	*	0x1 and 0x1
fn p2824() { let _ = &m::<U0, U1>() * &m::<U0, U1>(); } // REFUSE	&*&	0x1 and 0x1
fn p2825() { let _ = m::<U0, U1>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	0x1 and 0
fn p2826() { let _ = Matrix::<f64, U0, U1>::new([[0.0; 2]; 0]); } // REFUSE	Matrix::new	0x1 from 0x2
fn p2827() { let _ = m::<U0, U1>().relative_eq(&m::<U0, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	0x1 and 0x2
fn p2828() { let _ = m::<U0, U1>().ulps_eq(&m::<U0, U2>(), 0.0, 4); } // REFUSE	ulps_eq	0x1 and 0x2
fn p2829() { let _ = m::<U0, U1>() == m::<U0, U2>(); } // REFUSE	==	0x1 and 0x2
fn p2830() { let _ = m::<U0, U1>() + m::<U0, U2>(); } // REFUSE	+	0x1 and 0x2
fn p2831() { let mut x = m::<U0, U1>(); x -= m::<U0, U2>(); } // REFUSE	-=	0x1 and 0x2
fn p2832() { let _ = m::<U0, U1>() * m::<U0, U2>(); } // REFUSE	*	0x1 and 0x2
fn p2833() { let _ = &m::<U0, U1>() * &m::<U0, U2>(); } // REFUSE	&*&	0x1 and 0x2
fn p2834() { let _ = Matrix::<f64, U0, U1>::new([[0.0; 0]; 1]); } // REFUSE	Matrix::new	0x1 from 1x0
fn p2835() { let _ = m::<U0, U1>().relative_eq(&m::<U1, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	0x1 and 1x0
fn p2836() { let _ = m::<U0, U1>().ulps_eq(&m::<U1, U0>(), 0.0, 4); } // REFUSE	ulps_eq	0x1 and 1x0
fn p2837() { let _ = m::<U0, U1>() == m::<U1, U0>(); } // REFUSE	==	0x1 and 1x0
fn p2838() { let _ = m::<U0, U1>() + m::<U1, U0>(); } // REFUSE	+	0x1 and 1x0
fn p2839() { let mut x = m::<U0, U1>(); x -= m::<U1, U0>(); } // REFUSE	-=	0x1 and 1x0
fn p2840() { let _ = m::<U0, U1>() * m::<U1, U0>(); } // ACCEPT	*	0x1 and 1x0
fn p2841() { let _ = &m::<U0, U1>() * &m::<U1, U0>(); } // ACCEPT	&*&	0x1 and 1x0
fn p2842() { let _ = m::<U0, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	0x1 and 1
fn p2843() { let _ = Matrix::<f64, U0, U1>::new([[0.0; 1]; 1]); } // REFUSE	Matrix::new	0x1 from 1x1
fn p2844() { let _ = m::<U0, U1>().relative_eq(&m::<U1, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	0x1 and 1x1
fn p2845() { let _ = m::<U0, U1>().ulps_eq(&m::<U1, U1>(), 0.0, 4); } // REFUSE	ulps_eq	0x1 and 1x1
fn p2846() { let _ = m::<U0, U1>() == m::<U1, U1>(); } // REFUSE	==	0x1 and 1x1
fn p2847() { let _ = m::<U0, U1>() + m::<U1, U1>(); } // REFUSE	+	0x1 and 1x1
fn p2848() { let mut x = m::<U0, U1>(); x -= m::<U1, U1>(); } // REFUSE	-=	0x1 and 1x1
fn p2849() { let _ = m::<U0, U1>() * m::<U1, U1>(); } // ACCEPT	*	0x1 and 1x1
fn p2850() { let _ = &m::<U0, U1>() * &m::<U1, U1>(); } // ACCEPT	&*&	0x1 and 1x1
fn p2851() { let _ = m::<U0, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	0x1 and 1
fn p2852() { let _ = Matrix::<f64, U0, U2>::identity(); } // REFUSE	identity	0x2
fn p2853() { let _ = <Matrix::<f64, U0, U2> as One>::one(); } // REFUSE	one	0x2
fn p2854() { m::<U0, U2>().transpose(); } // REFUSE	transpose	0x2
fn p2855() { let _ = m::<U0, U2>().pow(2); } // REFUSE	pow	0x2
fn p2856() { let _ = m::<U0, U2>().determinant(); } // REFUSE	determinant	0x2
fn p2857() { let _ = m::<U0, U2>().inverse(); } // REFUSE	inverse	0x2
fn p2858() { let _ = m::<U0, U2>().cofactor((0, 0)); } // REFUSE	cofactor	0x2
fn p2859() { let _: Matrix<f64, U2, U0> = m::<U0, U2>().transposed(); } // ACCEPT	transposed	0x2
fn p2860() { let _: Matrix<f64, U0, U2> = m::<U0, U2>().transposed(); } // REFUSE	transposed	0x2
fn p2861() { let _ = Matrix::<f64, U0, U2>::diag([0.0; 0]); } // ACCEPT	diag	0x2 from 0
fn p2862() { let _ = Matrix::<f64, U0, U2>::diag([0.0; 1]); } // REFUSE	diag	0x2 from 1
fn p2863() { let _ = Matrix::<f64, U0, U2>::diag([0.0; 2]); } // REFUSE	diag	0x2 from 2
fn p2864() { let _ = Matrix::<f64, U0, U2>::new([[0.0; 1]; 0]); } // REFUSE	Matrix::new	0x2 from 0x1
fn p2865() { let _ = m::<U0, U2>().relative_eq(&m::<U0, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	0x2 and 0x1
fn p2866() { let _ = m::<U0, U2>().ulps_eq(&m::<U0, U1>(), 0.0, 4); } // REFUSE	ulps_eq	0x2 and 0x1
fn p2867() { let _ = m::<U0, U2>() == m::<U0, U1>(); } // REFUSE	==	0x2 and 0x1
fn p2868() { let _ = m::<U0, U2>() + m::<U0, U1>(); } // REFUSE	+	0x2 and 0x1
fn p2869() { let mut x = m::<U0, U2>(); x -= m::<U0, U1>(); } // REFUSE	-=	0x2 and 0x1
fn p2870() { let _ = m::<U0, U2>() * m::<U0, U1>(); } // REFUSE	*	0x2 and 0x1
fn p2871() { let _ = &m::<U0, U2>() * &m::<U0, U1>(); } // REFUSE	&*&	0x2 and 0x1
fn p2872() { let _ = m::<U0, U2>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	0x2 and 0
fn p2873() { let _ = Matrix::<f64, U0, U2>::new([[0.0; 2]; 0]); } // ACCEPT	Matrix::new	0x2 from 0x2
fn p2874() { let _ = m::<U0, U2>().relative_eq(&m::<U0, U2>(), 0.0, 0.0); } // ACCEPT	relative_eq	0x2 and 0x2
fn p2875() { let _ = m::<U0, U2>().ulps_eq(&m::<U0, U2>(), 0.0, 4); } // ACCEPT	ulps_eq	0x2 and 0x2
fn p2876() { let _ = m::<U0, U2>() == m::<U0, U2>(); } // ACCEPT	==	0x2 and 0x2
fn p2877() { let _ = m::<U0, U2>() + m::<U0, U2>(); } // ACCEPT	+	0x2 and 0x2
fn p2878() { let mut x = m::<U0, U2>(); x -= m::<U0, U2>(); } // ACCEPT	-=	0x2 and 0x2
fn p2879() { let _ = m::<U0, U2>() * m::<U0, U2>(); } // REFUSE	*	0x2 and 0x2
fn p2880() { let _ = &m::<U0, U2>() * &m::<U0, U2>(); } // REFUSE	&*&	0x2 and 0x2
fn p2881() { let _ = Matrix::<f64, U0, U2>::new([[0.0; 3]; 0]); } // REFUSE	Matrix::new	0x2 from 0x3
fn p2882() { let _ = m::<U0, U2>().relative_eq(&m::<U0, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	0x2 and 0x3
fn p2883() { let _ = m::<U0, U2>().ulps_eq(&m::<U0, U3>(), 0.0, 4); } // REFUSE	ulps_eq	0x2 and 0x3
fn p2884() { let _ = m::<U0, U2>() == m::<U0, U3>(); } // REFUSE	==	0x2 and 0x3
fn p2885() { let _ = m::<U0, U2>() + m::<U0, U3>(); } // REFUSE	+	0x2 and 0x3
fn p2886() { let mut x = m::<U0, U2>(); x -= m::<U0, U3>(); } // REFUSE	-=	0x2 and 0x3
fn p2887() { let _ = m::<U0, U2>() * m::<U0, U3>(); } // REFUSE	*	0x2 and 0x3
fn p2888() { let _ = &m::<U0, U2>() * &m::<U0, U3>(); } // REFUSE	&*&	0x2 and 0x3
fn p2889() { let _ = Matrix::<f64, U0, U2>::new([[0.0; 2]; 1]); } // REFUSE	Matrix::new	0x2 from 1x2
fn p2890() { let _ = m::<U0, U2>().relative_eq(&m::<U1, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	0x2 and 1x2
fn p2891() { let _ = m::<U0, U2>().ulps_eq(&m::<U1, U2>(), 0.0, 4); } // REFUSE	ulps_eq	0x2 and 1x2
fn p2892() { let _ = m::<U0, U2>() == m::<U1, U2>(); } // REFUSE	==	0x2 and 1x2
fn p2893() { let _ = m::<U0, U2>() + m::<U1, U2>(); } // REFUSE	+	0x2 and 1x2
fn p2894() { let mut x = m::<U0, U2>(); x -= m::<U1, U2>(); } // REFUSE	-=	0x2 and 1x2
fn p2895() { let _ = m::<U0, U2>() * m::<U1, U2>(); } // REFUSE	*	0x2 and 1x2
fn p2896() { let _ = &m::<U0, U2>() * &m::<U1, U2>(); } // REFUSE	&*&	0x2 and 1x2
fn p2897() { let _ = m::<U0, U2>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	0x2 and 1
fn p2898() { let _ = Matrix::<f64, U0, U2>::new([[0.0; 0]; 2]); } // REFUSE	Matrix::new	0x2 from 2x0
fn p2899() { let _ = m::<U0, U2>().relative_eq(&m::<U2, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	0x2 and 2x0
fn p2900() { let _ = m::<U0, U2>().ulps_eq(&m::<U2, U0>(), 0.0, 4); } // REFUSE	ulps_eq	0x2 and 2x0
fn p2901() { let _ = m::<U0, U2>() == m::<U2, U0>(); } // REFUSE	==	0x2 and 2x0
fn p2902() { let _ = m::<U0, U2>() + m::<U2, U0>(); } // REFUSE	+	0x2 and 2x0
fn p2903() { let mut x = m::<U0, U2>(); x -= m::<U2, U0>(); } // REFUSE	-=	0x2 and 2x0
fn p2904() { let _ = m::<U0, U2>() * m::<U2, U0>(); } // ACCEPT	*	0x2 and 2x0
fn p2905() { let _ = &m::<U0, U2>() * &m::<U2, U0>(); } // ACCEPT	&*&	0x2 and 2x0
fn p2906() { let _ = m::<U0, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	0x2 and 2
fn p2907() { let _ = Matrix::<f64, U0, U3>::identity(); } // REFUSE	identity	0x3
fn p2908() { let _ = <Matrix::<f64, U0, U3> as One>::one(); } // REFUSE	one	0x3
fn p2909() { m::<U0, U3>().transpose(); } // REFUSE	transpose	0x3
fn p2910() { let _ = m::<U0, U3>().pow(2); } // REFUSE	pow	0x3
fn p2911() { let _ = m::<U0, U3>().determinant(); } // REFUSE	determinant	0x3
fn p2912() { let _ = m::<U0, U3>().inverse(); } // REFUSE	inverse	0x3
fn p2913() { let _ = m::<U0, U3>().cofactor((0, 0)); } // REFUSE	cofactor	0x3
fn p2914() { let _: Matrix<f64, U3, U0> = m::<U0, U3>().transposed(); } // ACCEPT	transposed	0x3
fn p2915() { let _: Matrix<f64, U0, U3> = m::<U0, U3>().transposed(); } // REFUSE	transposed	0x3
fn p2916() { let _ = Matrix::<f64, U0, U3>::diag([0.0; 0]); } // ACCEPT	diag	0x3 from 0
fn p2917() { let _ = Matrix::<f64, U0, U3>::diag([0.0; 1]); } // REFUSE	diag	0x3 from 1
fn p2918() { let _ = Matrix::<f64, U0, U3>::diag([0.0; 3]); } // REFUSE	diag	0x3 from 3
fn p2919() { let _ = Matrix::<f64, U0, U3>::new([[0.0; 2]; 0]); } // REFUSE	Matrix::new	0x3 from 0x2
fn p2920() { let _ = m::<U0, U3>().relative_eq(&m::<U0, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	0x3 and 0x2
fn p2921() { let _ = m::<U0, U3>().ulps_eq(&m::<U0, U2>(), 0.0, 4); } // REFUSE	ulps_eq	0x3 and 0x2
fn p2922() { let _ = m::<U0, U3>() == m::<U0, U2>(); } // REFUSE	==	0x3 and 0x2
fn p2923() { let _ = m::<U0, U3>() + m::<U0, U2>(); } // REFUSE	+	0x3 and 0x2
fn p2924() { let mut x = m::<U0, U3>(); x -= m::<U0, U2>(); } // REFUSE	-=	0x3 and 0x2
fn p2925() { let _ = m::<U0, U3>() * m::<U0, U2>(); } // REFUSE	*	0x3 and 0x2
fn p2926() { let _ = &m::<U0, U3>() * &m::<U0, U2>(); } // REFUSE	&*&	0x3 and 0x2
fn p2927() { let _ = Matrix::<f64, U0, U3>::new([[0.0; 3]; 0]); } // ACCEPT	Matrix::new	0x3 from 0x3
fn p2928() { let _ = m::<U0, U3>().relative_eq(&m::<U0, U3>(), 0.0, 0.0); } // ACCEPT	relative_eq	0x3 and 0x3
fn p2929() { let _ = m::<U0, U3>().ulps_eq(&m::<U0, U3>(), 0.0, 4); } // ACCEPT	ulps_eq	0x3 and 0x3
fn p2930() { let _ = m::<U0, U3>() == m::<U0, U3>(); } // ACCEPT	==	0x3 and 0x3
fn p2931() { let _ = m::<U0, U3>() + m::<U0, U3>(); } // ACCEPT	+	0x3 and 0x3
fn p2932() { let mut x = m::<U0, U3>(); x -= m::<U0, U3>(); } // ACCEPT	-=	0x3 and 0x3
fn p2933() { let _ = m::<U0, U3>() * m::<U0, U3>(); } // REFUSE	*	0x3 and 0x3
fn p2934() { let _ = &m::<U0, U3>() * &m::<U0, U3>(); } // REFUSE	&*&	0x3 and 0x3
fn p2935() { let _ = Matrix::<f64, U0, U3>::new([[0.0; 4]; 0]); } // REFUSE	Matrix::new	0x3 from 0x4
fn p2936() { let _ = m::<U0, U3>().relative_eq(&m::<U0, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	0x3 and 0x4
fn p2937() { let _ = m::<U0, U3>().ulps_eq(&m::<U0, U4>(), 0.0, 4); } // REFUSE	ulps_eq	0x3 and 0x4
fn p2938() { let _ = m::<U0, U3>() == m::<U0, U4>(); } // REFUSE	==	0x3 and 0x4
fn p2939() { let _ = m::<U0, U3>() + m::<U0, U4>(); } // REFUSE	+	0x3 and 0x4
fn p2940() { let mut x = m::<U0, U3>(); x -= m::<U0, U4>(); } // REFUSE	-=	0x3 and 0x4
fn p2941() { let _ = m::<U0, U3>() * m::<U0, U4>(); } // REFUSE	*	0x3 and 0x4
fn p2942() { let _ = &m::<U0, U3>() * &m::<U0, U4>(); } // REFUSE	&*&	0x3 and 0x4
fn p2943() { let _ = Matrix::<f64, U0, U3>::new([[0.0; 3]; 1]); } // REFUSE	Matrix::new	0x3 from 1x3
fn p2944() { let _ = m::<U0, U3>().relative_eq(&m::<U1, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	0x3 and 1x3
fn p2945() { let _ = m::<U0, U3>().ulps_eq(&m::<U1, U3>(), 0.0, 4); } // REFUSE	ulps_eq	0x3 and 1x3
fn p2946() { let _ = m::<U0, U3>() == m::<U1, U3>(); } // REFUSE	==	0x3 and 1x3
fn p2947() { let _ = m::<U0, U3>() + m::<U1, U3>(); } // REFUSE	+	0x3 and 1x3
fn p2948() { let mut x = m::<U0, U3>(); x -= m::<U1, U3>(); } // REFUSE	-=	0x3 and 1x3
fn p2949() { let _ = m::<U0, U3>() * m::<U1, U3>(); } // REFUSE	*	0x3 and 1x3
fn p2950() { let _ = &m::<U0, U3>() * &m::<U1, U3>(); } // REFUSE	&*&	0x3 and 1x3
fn p2951() { let _ = m::<U0, U3>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	0x3 and 1
fn p2952() { let _ = Matrix::<f64, U0, U3>::new([[0.0; 0]; 3]); } // REFUSE	Matrix::new	0x3 from 3x0
fn p2953() { let _ = m::<U0, U3>().relative_eq(&m::<U3, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	0x3 and 3x0
fn p2954() { let _ = m::<U0, U3>().ulps_eq(&m::<U3, U0>(), 0.0, 4); } // REFUSE	ulps_eq	0x3 and 3x0
fn p2955() { let _ = m::<U0, U3>() == m::<U3, U0>(); } // REFUSE	==	0x3 and 3x0
fn p2956() { let _ = m::<U0, U3>() + m::<U3, U0>(); } // REFUSE	+	0x3 and 3x0
fn p2957() { let mut x = m::<U0, U3>(); x -= m::<U3, U0>(); } // REFUSE	-=	0x3 and 3x0
fn p2958() { let _ = m::<U0, U3>() * m::<U3, U0>(); } // ACCEPT	*	0x3 and 3x0
fn p2959() { let _ = &m::<U0, U3>() * &m::<U3, U0>(); } // ACCEPT	&*&	0x3 and 3x0
fn p2960() { let _ = m::<U0, U3>() * Vector::<f64, U3>::default(); } // ACCEPT	matrix * vector	0x3 and 3
fn p2961() { let _ = Matrix::<f64, U0, U4>::identity(); } // REFUSE	identity	0x4
fn p2962() { let _ = <Matrix::<f64, U0, U4> as One>::one(); } // REFUSE	one	0x4
fn p2963() { m::<U0, U4>().transpose(); } // REFUSE	transpose	0x4
fn p2964() { let _ = m::<U0, U4>().pow(2); } // REFUSE	pow	0x4
fn p2965() { let _ = m::<U0, U4>().determinant(); } // REFUSE	determinant	0x4
fn p2966() { let _ = m::<U0, U4>().inverse(); } // REFUSE	inverse	0x4
fn p2967() { let _ = m::<U0, U4>().cofactor((0, 0)); } // REFUSE	cofactor	0x4
fn p2968() { let _: Matrix<f64, U4, U0> = m::<U0, U4>().transposed(); } // ACCEPT	transposed	0x4
fn p2969() { let _: Matrix<f64, U0, U4> = m::<U0, U4>().transposed(); } // REFUSE	transposed	0x4
fn p2970() { let _ = Matrix::<f64, U0, U4>::diag([0.0; 0]); } // ACCEPT	diag	0x4 from 0
fn p2971() { let _ = Matrix::<f64, U0, U4>::diag([0.0; 1]); } // REFUSE	diag	0x4 from 1
fn p2972() { let _ = Matrix::<f64, U0, U4>::diag([0.0; 4]); } // REFUSE	diag	0x4 from 4
fn p2973() { let _ = Matrix::<f64, U0, U4>::new([[0.0; 3]; 0]); } // REFUSE	Matrix::new	0x4 from 0x3
fn p2974() { let _ = m::<U0, U4>().relative_eq(&m::<U0, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	0x4 and 0x3
fn p2975() { let _ = m::<U0, U4>().ulps_eq(&m::<U0, U3>(), 0.0, 4); } // REFUSE	ulps_eq	0x4 and 0x3
fn p2976() { let _ = m::<U0, U4>() == m::<U0, U3>(); } // REFUSE	==	0x4 and 0x3
fn p2977() { let _ = m::<U0, U4>() + m::<U0, U3>(); } // REFUSE	+	0x4 and 0x3
fn p2978() { let mut x = m::<U0, U4>(); x -= m::<U0, U3>(); } // REFUSE	-=	0x4 and 0x3
fn p2979() { let _ = m::<U0, U4>() * m::<U0, U3>(); } // REFUSE	*	0x4 and 0x3
fn p2980() { let _ = &m::<U0, U4>() * &m::<U0, U3>(); } // REFUSE	&*&	0x4 and 0x3
fn p2981() { let _ = Matrix::<f64, U0, U4>::new([[0.0; 4]; 0]); } // ACCEPT	Matrix::new	0x4 from 0x4
fn p2982() { let _ = m::<U0, U4>().relative_eq(&m::<U0, U4>(), 0.0, 0.0); } // ACCEPT	relative_eq	0x4 and 0x4
fn p2983() { let _ = m::<U0, U4>().ulps_eq(&m::<U0, U4>(), 0.0, 4); } // ACCEPT	ulps_eq	0x4 and 0x4
fn p2984() { let _ = m::<U0, U4>() == m::<U0, U4>(); } // ACCEPT	==	0x4 and 0x4
fn p2985() { let _ = m::<U0, U4>() + m::<U0, U4>(); } // ACCEPT	+	0x4 and 0x4
fn p2986() { let mut x = m::<U0, U4>(); x -= m::<U0, U4>(); } // ACCEPT	-=	0x4 and 0x4
fn p2987() { let _ = m::<U0, U4>() * m::<U0, U4>(); } // REFUSE	*	0x4 and 0x4
fn p2988() { let _ = &m::<U0, U4>() * &m::<U0, U4>(); } // REFUSE	&*&	0x4 and 0x4
fn p2989() { let _ = Matrix::<f64, U0, U4>::new([[0.0; 5]; 0]); } // REFUSE	Matrix::new	0x4 from 0x5
fn p2990() { let _ = m::<U0, U4>().relative_eq(&m::<U0, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	0x4 and 0x5
fn p2991() { let _ = m::<U0, U4>().ulps_eq(&m::<U0, U5>(), 0.0, 4); } // REFUSE	ulps_eq	0x4 and 0x5
fn p2992() { let _ = m::<U0, U4>() == m::<U0, U5>(); } // REFUSE	==	0x4 and 0x5
fn p2993() { let _ = m::<U0, U4>() + m::<U0, U5>(); } // REFUSE	+	0x4 and 0x5
fn p2994() { let mut x = m::<U0, U4>(); x -= m::<U0, U5>(); } // REFUSE	-=	0x4 and 0x5
fn p2995() { let _ = m::<U0, U4>() * m::<U0, U5>(); } // REFUSE	*	0x4 and 0x5
fn p2996() { let _ = &m::<U0, U4>() * &m::<U0, U5>(); } // REFUSE	&*&	0x4 and 0x5
fn p2997() { let _ = Matrix::<f64, U0, U4>::new([[0.0; 4]; 1]); } // REFUSE	Matrix::new	0x4 from 1x4
fn p2998() { let _ = m::<U0, U4>().relative_eq(&m::<U1, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	0x4 and 1x4
fn p2999() { let _ = m::<U0, U4>().ulps_eq(&m::<U1, U4>(), 0.0, 4); } // REFUSE	ulps_eq	0x4 and 1x4
fn p3000() { let _ = m::<U0, U4>() == m::<U1, U4>(); } // REFUSE	==	0x4 and 1x4
fn p3001() { let _ = m::<U0, U4>() + m::<U1, U4>(); } // REFUSE	+	0x4 and 1x4
fn p3002() { let mut x = m::<U0, U4>(); x -= m::<U1, U4>(); } // REFUSE	-=	0x4 and 1x4
fn p3003() { let _ = m::<U0, U4>() * m::<U1, U4>(); } // REFUSE	*	0x4 and 1x4
fn p3004() { let _ = &m::<U0, U4>() * &m::<U1, U4>(); } // REFUSE	&*&	0x4 and 1x4
fn p3005() { let _ = m::<U0, U4>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	0x4 and 1
fn p3006() { let _ = Matrix::<f64, U0, U4>::new([[0.0; 0]; 4]); } // REFUSE	Matrix::new	0x4 from 4x0
fn p3007() { let _ = m::<U0, U4>().relative_eq(&m::<U4, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	0x4 and 4x0
fn p3008() { let _ = m::<U0, U4>().ulps_eq(&m::<U4, U0>(), 0.0, 4); } // REFUSE	ulps_eq	0x4 and 4x0
fn p3009() { let _ = m::<U0, U4>() == m::<U4, U0>(); } // REFUSE	==	0x4 and 4x0
fn p3010() { let _ = m::<U0, U4>() + m::<U4, U0>(); } // REFUSE	+	0x4 and 4x0
fn p3011() { let mut x = m::<U0, U4>(); x -= m::<U4, U0>(); } // REFUSE	-=	0x4 and 4x0
fn p3012() { let _ = m::<U0, U4>() * m::<U4, U0>(); } // ACCEPT	*	0x4 and 4x0
fn p3013() { let _ = &m::<U0, U4>() * &m::<U4, U0>(); } // ACCEPT	&*&	0x4 and 4x0
fn p3014() { let _ = m::<U0, U4>() * Vector::<f64, U4>::default(); } // ACCEPT	matrix * vector	0x4 and 4
fn p3015() { let _ = Matrix::<f64, U0, U5>::identity(); } // REFUSE	identity	0x5
fn p3016() { let _ = <Matrix::<f64, U0, U5> as One>::one(); } // REFUSE	one	0x5
fn p3017() { m::<U0, U5>().transpose(); } // REFUSE	transpose	0x5
fn p3018() { let _ = m::<U0, U5>().pow(2); } // REFUSE	pow	0x5
fn p3019() { let _ = m::<U0, U5>().determinant(); } // REFUSE	determinant	0x5
fn p3020() { let _ = m::<U0, U5>().inverse(); } // REFUSE	inverse	0x5
fn p3021() { let _ = m::<U0, U5>().cofactor((0, 0)); } // REFUSE	cofactor	0x5
fn p3022() { let _: Matrix<f64, U5, U0> = m::<U0, U5>().transposed(); } // ACCEPT	transposed	0x5
fn p3023() { let _: Matrix<f64, U0, U5> = m::<U0, U5>().transposed(); } // REFUSE	transposed	0x5
fn p3024() { let _ = Matrix::<f64, U0, U5>::diag([0.0; 0]); } // ACCEPT	diag	0x5 from 0
fn p3025() { let _ = Matrix::<f64, U0, U5>::diag([0.0; 1]); } // REFUSE	diag	0x5 from 1
fn p3026() { let _ = Matrix::<f64, U0, U5>::diag([0.0; 5]); } // REFUSE	diag	0x5 from 5
fn p3027() { let _ = Matrix::<f64, U0, U5>::new([[0.0; 4]; 0]); } // REFUSE	Matrix::new	0x5 from 0x4
fn p3028() { let _ = m::<U0, U5>().relative_eq(&m::<U0, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	0x5 and 0x4
fn p3029() { let _ = m::<U0, U5>().ulps_eq(&m::<U0, U4>(), 0.0, 4); } // REFUSE	ulps_eq	0x5 and 0x4
fn p3030() { let _ = m::<U0, U5>() == m::<U0, U4>(); } // REFUSE	==	0x5 and 0x4
fn p3031() { let _ = m::<U0, U5>() + m::<U0, U4>(); } // REFUSE	+	0x5 and 0x4
fn p3032() { let mut x = m::<U0, U5>(); x -= m::<U0, U4>(); } // REFUSE	-=	0x5 and 0x4
fn p3033() { let _ = m::<U0, U5>() * m::<U0, U4>(); } // REFUSE	*	0x5 and 0x4
fn p3034() { let _ = &m::<U0, U5>() * &m::<U0, U4>(); } // REFUSE	&*&	0x5 and 0x4
fn p3035() { let _ = Matrix::<f64, U0, U5>::new([[0.0; 5]; 0]); } // ACCEPT	Matrix::new	0x5 from 0x5
fn p3036() { let _ = m::<U0, U5>().relative_eq(&m::<U0, U5>(), 0.0, 0.0); } // ACCEPT	relative_eq	0x5 and 0x5
fn p3037() { let _ = m::<U0, U5>().ulps_eq(&m::<U0, U5>(), 0.0, 4); } // ACCEPT	ulps_eq	0x5 and 0x5
fn p3038() { let _ = m::<U0, U5>() == m::<U0, U5>(); } // ACCEPT	==	0x5 and 0x5
fn p3039() { let _ = m::<U0, U5>() + m::<U0, U5>(); } // ACCEPT	+	0x5 and 0x5
fn p3040() { let mut x = m::<U0, U5>(); x -= m::<U0, U5>(); } // ACCEPT	-=	0x5 and 0x5
fn p3041() { let _ = m::<U0, U5>() * m::<U0, U5>(); } // REFUSE	*	0x5 and 0x5
fn p3042() { let _ = &m::<U0, U5>() * &m::<U0, U5>(); } // REFUSE	&*&	0x5 and 0x5
fn p3043() { let _ = Matrix::<f64, U0, U5>::new([[0.0; 6]; 0]); } // REFUSE	Matrix::new	0x5 from 0x6
fn p3044() { let _ = m::<U0, U5>().relative_eq(&m::<U0, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	0x5 and 0x6
fn p3045() { let _ = m::<U0, U5>().ulps_eq(&m::<U0, U6>(), 0.0, 4); } // REFUSE	ulps_eq	0x5 and 0x6
fn p3046() { let _ = m::<U0, U5>() == m::<U0, U6>(); } // REFUSE	==	0x5 and 0x6
fn p3047() { let _ = m::<U0, U5>() + m::<U0, U6>(); } // REFUSE	+	0x5 and 0x6
fn p3048() { let mut x = m::<U0, U5>(); x -= m::<U0, U6>(); } // REFUSE	-=	0x5 and 0x6
fn p3049() { let _ = m::<U0, U5>() * m::<U0, U6>(); } // REFUSE	*	0x5 and 0x6
fn p3050() { let _ = &m::<U0, U5>() * &m::<U0, U6>(); } // REFUSE	&*&	0x5 and 0x6
fn p3051() { let _ = Matrix::<f64, U0, U5>::new([[0.0; 5]; 1]); } // REFUSE	Matrix::new	0x5 from 1x5
fn p3052() { let _ = m::<U0, U5>().relative_eq(&m::<U1, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	0x5 and 1x5
fn p3053() { let _ = m::<U0, U5>().ulps_eq(&m::<U1, U5>(), 0.0, 4); } // REFUSE	ulps_eq	0x5 and 1x5
fn p3054() { let _ = m::<U0, U5>() == m::<U1, U5>(); } // REFUSE	==	0x5 and 1x5
fn p3055() { let _ = m::<U0, U5>() + m::<U1, U5>(); } // REFUSE	+	0x5 and 1x5
fn p3056() { let mut x = m::<U0, U5>(); x -= m::<U1, U5>(); } // REFUSE	-=	0x5 and 1x5
fn p3057() { let _ = m::<U0, U5>() * m::<U1, U5>(); } // REFUSE	*	0x5 and 1x5
fn p3058() { let _ = &m::<U0, U5>() * &m::<U1, U5>(); } // REFUSE	&*&	0x5 and 1x5
fn p3059() { let _ = m::<U0, U5>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	0x5 and 1
fn p3060() { let _ = Matrix::<f64, U0, U5>::new([[0.0; 0]; 5]); } // REFUSE	Matrix::new	0x5 from 5x0
fn p3061() { let _ = m::<U0, U5>().relative_eq(&m::<U5, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	0x5 and 5x0
fn p3062() { let _ = m::<U0, U5>().ulps_eq(&m::<U5, U0>(), 0.0, 4); } // REFUSE	ulps_eq	0x5 and 5x0
fn p3063() { let _ = m::<U0, U5>() == m::<U5, U0>(); } // REFUSE	==	0x5 and 5x0
fn p3064() { let _ = m::<U0, U5>() + m::<U5, U0>(); } // REFUSE	+	0x5 and 5x0
fn p3065() { let mut x = m::<U0, U5>(); x -= m::<U5, U0>(); } // REFUSE	-=	0x5 and 5x0
fn p3066() { let _ = m::<U0, U5>() * m::<U5, U0>(); } // ACCEPT	*	0x5 and 5x0
fn p3067() { let _ = &m::<U0, U5>() * &m::<U5, U0>(); } // ACCEPT	&*&	0x5 and 5x0
fn p3068() { let _ = m::<U0, U5>() * Vector::<f64, U5>::default(); } // ACCEPT	matrix * vector	0x5 and 5
fn p3069() { let _ = Matrix::<f64, U0, U6>::identity(); } // REFUSE	identity	0x6
fn p3070() { let _ = <Matrix::<f64, U0, U6> as One>::one(); } // REFUSE	one	0x6
fn p3071() { m::<U0, U6>().transpose(); } // REFUSE	transpose	0x6
fn p3072() { let _ = m::<U0, U6>().pow(2); } // REFUSE	pow	0x6
fn p3073() { let _ = m::<U0, U6>().determinant(); } // REFUSE	determinant	0x6
fn p3074() { let _ = m::<U0, U6>().inverse(); } // REFUSE	inverse	0x6
fn p3075() { let _ = m::<U0, U6>().cofactor((0, 0)); } // REFUSE	cofactor	0x6
fn p3076() { let _: Matrix<f64, U6, U0> = m::<U0, U6>().transposed(); } // ACCEPT	transposed	0x6
fn p3077() { let _: Matrix<f64, U0, U6> = m::<U0, U6>().transposed(); } // REFUSE	transposed	0x6
fn p3078() { let _ = Matrix::<f64, U0, U6>::diag([0.0; 0]); } // ACCEPT	diag	0x6 from 0
fn p3079() { let _ = Matrix::<f64, U0, U6>::diag([0.0; 1]); } // REFUSE	diag	0x6 from 1
fn p3080() { let _ = Matrix::<f64, U0, U6>::diag([0.0; 6]); } // REFUSE	diag	0x6 from 6
fn p3081() { let _ = Matrix::<f64, U0, U6>::new([[0.0; 5]; 0]); } // REFUSE	Matrix::new	0x6 from 0x5
fn p3082() { let _ = m::<U0, U6>().relative_eq(&m::<U0, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	0x6 and 0x5
fn p3083() { let _ = m::<U0, U6>().ulps_eq(&m::<U0, U5>(), 0.0, 4); } // REFUSE	ulps_eq	0x6 and 0x5
fn p3084() { let _ = m::<U0, U6>() == m::<U0, U5>(); } // REFUSE	==	0x6 and 0x5
fn p3085() { let _ = m::<U0, U6>() + m::<U0, U5>(); } // REFUSE	+	0x6 and 0x5
fn p3086() { let mut x = m::<U0, U6>(); x -= m::<U0, U5>(); } // REFUSE	-=	0x6 and 0x5
fn p3087() { let _ = m::<U0, U6>() * m::<U0, U5>(); } // REFUSE	*	0x6 and 0x5
fn p3088() { let _ = &m::<U0, U6>() * &m::<U0, U5>(); } // REFUSE	&*&	0x6 and 0x5
fn p3089() { let _ = Matrix::<f64, U0, U6>::new([[0.0; 6]; 0]); } // ACCEPT	Matrix::new	0x6 from 0x6
fn p3090() { let _ = m::<U0, U6>().relative_eq(&m::<U0, U6>(), 0.0, 0.0); } // ACCEPT	relative_eq	0x6 and 0x6
fn p3091() { let _ = m::<U0, U6>().ulps_eq(&m::<U0, U6>(), 0.0, 4); } // ACCEPT	ulps_eq	0x6 and 0x6
fn p3092() { let _ = m::<U0, U6>() == m::<U0, U6>(); } // ACCEPT	==	0x6 and 0x6
fn p3093() { let _ = m::<U0, U6>() + m::<U0, U6>(); } // ACCEPT	+	0x6 and 0x6
fn p3094() { let mut x = m::<U0, U6>(); x -= m::<U0, U6>(); } // ACCEPT	-=	0x6 and 0x6
fn p3095() { let _ = m::<U0, U6>() * m::<U0, U6>(); } // REFUSE	*	0x6 and 0x6
fn p3096() { let _ = &m::<U0, U6>() * &m::<U0, U6>(); } // REFUSE	&*&	0x6 and 0x6
fn p3097() { let _ = Matrix::<f64, U0, U6>::new([[0.0; 7]; 0]); } // REFUSE	Matrix::new	0x6 from 0x7
fn p3098() { let _ = m::<U0, U6>().relative_eq(&m::<U0, U7>(), 0.0, 0.0); } // REFUSE	relative_eq	0x6 and 0x7
fn p3099() { let _ = m::<U0, U6>().ulps_eq(&m::<U0, U7>(), 0.0, 4); } // REFUSE	ulps_eq	0x6 and 0x7
fn p3100() { let _ = m::<U0, U6>() == m::<U0, U7>(); } // REFUSE	==	0x6 and 0x7
fn p3101() { let _ = m::<U0, U6>() + m::<U0, U7>(); } // REFUSE	+	0x6 and 0x7
fn p3102() { let mut x = m::<U0, U6>(); x -= m::<U0, U7>(); } // REFUSE	-=	0x6 and 0x7
fn p3103() { let _ = m::<U0, U6>() * m::<U0, U7>(); } // REFUSE	*	0x6 and 0x7
fn p3104() { let _ = &m::<U0, U6>() * &m::<U0, U7>(); } // REFUSE	&*&	0x6 and 0x7
fn p3105() { let _ = Matrix::<f64, U0, U6>::new([[0.0; 6]; 1]); } // REFUSE	Matrix::new	0x6 from 1x6
fn p3106() { let _ = m::<U0, U6>().relative_eq(&m::<U1, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	0x6 and 1x6
fn p3107() { let _ = m::<U0, U6>().ulps_eq(&m::<U1, U6>(), 0.0, 4); } // REFUSE	ulps_eq	0x6 and 1x6
fn p3108() { let _ = m::<U0, U6>() == m::<U1, U6>(); } // REFUSE	==	0x6 and 1x6
fn p3109() { let _ = m::<U0, U6>() + m::<U1, U6>(); } // REFUSE	+	0x6 and 1x6
fn p3110() { let mut x = m::<U0, U6>(); x -= m::<U1, U6>(); } // REFUSE	-=	0x6 and 1x6
fn p3111() { let _ = m::<U0, U6>() * m::<U1, U6>(); } // REFUSE	*	0x6 and 1x6
fn p3112() { let _ = &m::<U0, U6>() * &m::<U1, U6>(); } // REFUSE	&*&	0x6 and 1x6
fn p3113() { let _ = m::<U0, U6>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	0x6 and 1
fn p3114() { let _ = Matrix::<f64, U0, U6>::new([[0.0; 0]; 6]); } // REFUSE	Matrix::new	0x6 from 6x0
fn p3115() { let _ = m::<U0, U6>().relative_eq(&m::<U6, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	0x6 and 6x0
fn p3116() { let _ = m::<U0, U6>().ulps_eq(&m::<U6, U0>(), 0.0, 4); } // REFUSE	ulps_eq	0x6 and 6x0
fn p3117() { let _ = m::<U0, U6>() == m::<U6, U0>(); } // REFUSE	==	0x6 and 6x0
fn p3118() { let _ = m::<U0, U6>() + m::<U6, U0>(); } // REFUSE	+	0x6 and 6x0
fn p3119() { let mut x = m::<U0, U6>(); x -= m::<U6, U0>(); } // REFUSE	-=	0x6 and 6x0
fn p3120() { let _ = m::<U0, U6>() * m::<U6, U0>(); } // ACCEPT	*	0x6 and 6x0
fn p3121() { let _ = &m::<U0, U6>() * &m::<U6, U0>(); } // ACCEPT	&*&	0x6 and 6x0
fn p3122() { let _ = m::<U0, U6>() * Vector::<f64, U6>::default(); } // ACCEPT	matrix * vector	0x6 and 6
fn p3123() { let _ = Matrix::<f64, U1, U0>::identity(); } // REFUSE	identity	1x0
fn p3124() { let _ = <Matrix::<f64, U1, U0> as One>::one(); } // REFUSE	one	1x0
fn p3125() { m::<U1, U0>().transpose(); } // REFUSE	transpose	1x0
fn p3126() { let _ = m::<U1, U0>().pow(2); } // REFUSE	pow	1x0
fn p3127() { let _ = m::<U1, U0>().determinant(); } // REFUSE	determinant	1x0
fn p3128() { let _ = m::<U1, U0>().inverse(); } // REFUSE	inverse	1x0
fn p3129() { let _ = m::<U1, U0>().cofactor((0, 0)); } // REFUSE	cofactor	1x0
fn p3130() { let _: Matrix<f64, U0, U1> = m::<U1, U0>().transposed(); } // ACCEPT	transposed	1x0
fn p3131() { let _: Matrix<f64, U1, U0> = m::<U1, U0>().transposed(); } // REFUSE	transposed	1x0
fn p3132() { let _ = Matrix::<f64, U1, U0>::diag([0.0; 0]); } // ACCEPT	diag	1x0 from 0
fn p3133() { let _ = Matrix::<f64, U1, U0>::diag([0.0; 1]); } // REFUSE	diag	1x0 from 1
fn p3134() { let _ = Matrix::<f64, U1, U0>::new([[0.0; 0]; 0]); } // REFUSE	Matrix::new	1x0 from 0x0
fn p3135() { let _ = m::<U1, U0>().relative_eq(&m::<U0, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	1x0 and 0x0
fn p3136() { let _ = m::<U1, U0>().ulps_eq(&m::<U0, U0>(), 0.0, 4); } // REFUSE	ulps_eq	1x0 and 0x0
fn p3137() { let _ = m::<U1, U0>() == m::<U0, U0>(); } // REFUSE	==	1x0 and 0x0
fn p3138() { let _ = m::<U1, U0>() + m::<U0, U0>(); } // REFUSE	+	1x0 and 0x0
fn p3139() { let mut x = m::<U1, U0>(); x -= m::<U0, U0>(); } // REFUSE	-=	1x0 and 0x0
fn p3140() { let _ = m::<U1, U0>() * m::<U0, U0>(); } // ACCEPT	*	1x0 and 0x0
fn p3141() { let _ = &m::<U1, U0>() * &m::<U0, U0>(); } // ACCEPT	&*&	1x0 and 0x0
fn p3142() { let _ = m::<U1, U0>() * Vector::<f64, U0>::default(); } // ACCEPT	matrix * vector	1x0 and 0
fn p3143() { let _ = Matrix::<f64, U1, U0>::new([[0.0; 1]; 0]); } // REFUSE	Matrix::new	1x0 from 0x1
fn p3144() { let _ = m::<U1, U0>().relative_eq(&m::<U0, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x0 and 0x1
fn p3145() { let _ = m::<U1, U0>().ulps_eq(&m::<U0, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x0 and 0x1
fn p3146() { let _ = m::<U1, U0>() == m::<U0, U1>(); } // REFUSE	==	1x0 and 0x1
fn p3147() { let _ = m::<U1, U0>() + m::<U0, U1>(); } // REFUSE	+	1x0 and 0x1
fn p3148() { let mut x = m::<U1, U0>(); x -= m::<U0, U1>(); } // REFUSE	-=	1x0 and 0x1
fn p3149() { let _ = m::<U1, U0>() * m::<U0, U1>(); } // ACCEPT	*	1x0 and 0x1
fn p3150() { let _ = &m::<U1, U0>() * &m::<U0, U1>(); } // ACCEPT	&*&	1x0 and 0x1
fn p3151() { let _ = m::<U1, U0>() * Vector::<f64, U0>::default(); } // ACCEPT	matrix * vector	1x0 and 0
fn p3152() { let _ = Matrix::<f64, U1, U0>::new([[0.0; 0]; 1]); } // ACCEPT	Matrix::new	1x0 from 1x0
fn p3153() { let _ = m::<U1, U0>().relative_eq(&m::<U1, U0>(), 0.0, 0.0); } // ACCEPT	relative_eq	1x0 and 1x0
fn p3154() { let _ = m::<U1, U0>().ulps_eq(&m::<U1, U0>(), 0.0, 4); } // ACCEPT	ulps_eq	1x0 and 1x0
fn p3155() { let _ = m::<U1, U0>() == m::<U1, U0>(); } // ACCEPT	==	1x0 and 1x0
fn p3156() { let _ = m::<U1, U0>() + m::<U1, U0>(); } // ACCEPT	+	1x0 and 1x0
fn p3157() { let mut x = m::<U1, U0>(); x -= m::<U1, U0>(); } // ACCEPT	-=	1x0 and 1x0
fn p3158() { let _ = m::<U1, U0>() * m::<U1, U0>(); } // REFUSE	*	1x0 and 1x0
fn p3159() { let _ = &m::<U1, U0>() * &m::<U1, U0>(); } // REFUSE	&*&	1x0 and 1x0
fn p3160() { let _ = Matrix::<f64, U1, U0>::new([[0.0; 1]; 1]); } // REFUSE	Matrix::new	1x0 from 1x1
fn p3161() { let _ = m::<U1, U0>().relative_eq(&m::<U1, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x0 and 1x1
fn p3162() { let _ = m::<U1, U0>().ulps_eq(&m::<U1, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x0 and 1x1
fn p3163() { let _ = m::<U1, U0>() == m::<U1, U1>(); } // REFUSE	==	1x0 and 1x1
fn p3164() { let _ = m::<U1, U0>() + m::<U1, U1>(); } // REFUSE	+	1x0 and 1x1
fn p3165() { let mut x = m::<U1, U0>(); x -= m::<U1, U1>(); } // REFUSE	-=	1x0 and 1x1
fn p3166() { let _ = m::<U1, U0>() * m::<U1, U1>(); } // REFUSE	*	1x0 and 1x1
fn p3167() { let _ = &m::<U1, U0>() * &m::<U1, U1>(); } // REFUSE	&*&	1x0 and 1x1
fn p3168() { let _ = m::<U1, U0>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	1x0 and 1
fn p3169() { let _ = Matrix::<f64, U1, U0>::new([[0.0; 0]; 2]); } // REFUSE	Matrix::new	1x0 from 2x0
fn p3170() { let _ = m::<U1, U0>().relative_eq(&m::<U2, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	1x0 and 2x0
fn p3171() { let _ = m::<U1, U0>().ulps_eq(&m::<U2, U0>(), 0.0, 4); } // REFUSE	ulps_eq	1x0 and 2x0
fn p3172() { let _ = m::<U1, U0>() == m::<U2, U0>(); } // REFUSE	==	1x0 and 2x0
fn p3173() { let _ = m::<U1, U0>() + m::<U2, U0>(); } // REFUSE	+	1x0 and 2x0
fn p3174() { let mut x = m::<U1, U0>(); x -= m::<U2, U0>(); } // REFUSE	-=	1x0 and 2x0
fn p3175() { let _ = m::<U1, U0>() * m::<U2, U0>(); } // REFUSE	*	1x0 and 2x0
fn p3176() { let _ = &m::<U1, U0>() * &m::<U2, U0>(); } // REFUSE	&*&	1x0 and 2x0
fn p3177() { let _ = m::<U1, U0>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	1x0 and 2
fn p3178() { let _ = Matrix::<f64, U1, U1>::identity(); } // ACCEPT	identity	1x1
fn p3179() { let _ = <Matrix::<f64, U1, U1> as One>::one(); } // ACCEPT	one	1x1
fn p3180() { m::<U1, U1>().transpose(); } // ACCEPT	transpose	1x1
fn p3181() { let _ = m::<U1, U1>().pow(2); } // ACCEPT	pow	1x1
fn p3182() { let _ = m::<U1, U1>().determinant(); } // ACCEPT	determinant	1x1
fn p3183() { let _ = m::<U1, U1>().inverse(); } // ACCEPT	inverse	1x1
fn p3184() { let _: Matrix<f64, U1, U1> = m::<U1, U1>().transposed(); } // ACCEPT	transposed	1x1
fn p3185() { let _ = Matrix::<f64, U1, U1>::diag([0.0; 0]); } // REFUSE	diag	1x1 from 0
fn p3186() { let _ = Matrix::<f64, U1, U1>::diag([0.0; 1]); } // ACCEPT	diag	1x1 from 1
fn p3187() { let _ = Matrix::<f64, U1, U1>::diag([0.0; 2]); } // REFUSE	diag	1x1 from 2
fn p3188() { let _ = Matrix::<f64, U1, U1>::new([[0.0; 1]; 0]); } // REFUSE	Matrix::new	1x1 from 0x1
fn p3189() { let _ = m::<U1, U1>().relative_eq(&m::<U0, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x1 and 0x1
fn p3190() { let _ = m::<U1, U1>().ulps_eq(&m::<U0, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x1 and 0x1
fn p3191() { let _ = m::<U1, U1>() == m::<U0, U1>(); } // REFUSE	==	1x1 and 0x1
fn p3192() { let _ = m::<U1, U1>() + m::<U0, U1>(); } // REFUSE	+	1x1 and 0x1
fn p3193() { let mut x = m::<U1, U1>(); x -= m::<U0, U1>(); } // REFUSE	-=	1x1 and 0x1
fn p3194() { let _ = m::<U1, U1>() * m::<U0, U1>(); } // REFUSE	*	1x1 and 0x1
fn p3195() { let _ = &m::<U1, U1>() * &m::<U0, U1>(); } // REFUSE	&*&	1x1 and 0x1
fn p3196() { let _ = m::<U1, U1>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	1x1 and 0
fn p3197() { let _ = Matrix::<f64, U1, U1>::new([[0.0; 0]; 1]); } // REFUSE	Matrix::new	1x1 from 1x0
fn p3198() { let _ = m::<U1, U1>().relative_eq(&m::<U1, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	1x1 and 1x0
fn p3199() { let _ = m::<U1, U1>().ulps_eq(&m::<U1, U0>(), 0.0, 4); } // REFUSE	ulps_eq	1x1 and 1x0
fn p3200() { let _ = m::<U1, U1>() == m::<U1, U0>(); } // REFUSE	==	1x1 and 1x0
fn p3201() { let _ = m::<U1, U1>() + m::<U1, U0>(); } // REFUSE	+	1x1 and 1x0
fn p3202() { let mut x = m::<U1, U1>(); x -= m::<U1, U0>(); } // REFUSE	-=	1x1 and 1x0
fn p3203() { let _ = m::<U1, U1>() * m::<U1, U0>(); } // ACCEPT	*	1x1 and 1x0
fn p3204() { let _ = &m::<U1, U1>() * &m::<U1, U0>(); } // ACCEPT	&*&	1x1 and 1x0
fn p3205() { let _ = Matrix::<f64, U1, U1>::new([[0.0; 1]; 1]); } // ACCEPT	Matrix::new	1x1 from 1x1
fn p3206() { let _ = m::<U1, U1>().relative_eq(&m::<U1, U1>(), 0.0, 0.0); } // ACCEPT	relative_eq	1x1 and 1x1
fn p3207() { let _ = m::<U1, U1>().ulps_eq(&m::<U1, U1>(), 0.0, 4); } // ACCEPT	ulps_eq	1x1 and 1x1
fn p3208() { let _ = m::<U1, U1>() == m::<U1, U1>(); } // ACCEPT	==	1x1 and 1x1
fn p3209() { let _ = m::<U1, U1>() + m::<U1, U1>(); } // ACCEPT	+	1x1 and 1x1
fn p3210() { let mut x = m::<U1, U1>(); x -= m::<U1, U1>(); } // ACCEPT	-=	1x1 and 1x1
fn p3211() { let _ = m::<U1, U1>() * m::<U1, U1>(); } // ACCEPT	*	1x1 and 1x1
fn p3212() { let _ = &m::<U1, U1>() * &m::<U1, U1>(); } // ACCEPT	&*&	1x1 and 1x1
fn p3213() { let _ = m::<U1, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	1x1 and 1
fn p3214() { let _ = Matrix::<f64, U1, U1>::new([[0.0; 2]; 1]); } // REFUSE	Matrix::new	1x1 from 1x2
fn p3215() { let _ = m::<U1, U1>().relative_eq(&m::<U1, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	1x1 and 1x2
fn p3216() { let _ = m::<U1, U1>().ulps_eq(&m::<U1, U2>(), 0.0, 4); } // REFUSE	ulps_eq	1x1 and 1x2
fn p3217() { let _ = m::<U1, U1>() == m::<U1, U2>(); } // REFUSE	==	1x1 and 1x2
fn p3218() { let _ = m::<U1, U1>() + m::<U1, U2>(); } // REFUSE	+	1x1 and 1x2
fn p3219() { let mut x = m::<U1, U1>(); x -= m::<U1, U2>(); } // REFUSE	-=	1x1 and 1x2
fn p3220() { let _ = m::<U1, U1>() * m::<U1, U2>(); } // ACCEPT	*	1x1 and 1x2
fn p3221() { let _ = &m::<U1, U1>() * &m::<U1, U2>(); } // ACCEPT	&*&	1x1 and 1x2
fn p3222() { let _ = Matrix::<f64, U1, U1>::new([[0.0; 1]; 2]); } // REFUSE	Matrix::new	1x1 from 2x1
fn p3223() { let _ = m::<U1, U1>().relative_eq(&m::<U2, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x1 and 2x1
fn p3224() { let _ = m::<U1, U1>().ulps_eq(&m::<U2, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x1 and 2x1
fn p3225() { let _ = m::<U1, U1>() == m::<U2, U1>(); } // REFUSE	==	1x1 and 2x1
fn p3226() { let _ = m::<U1, U1>() + m::<U2, U1>(); } // REFUSE	+	1x1 and 2x1
fn p3227() { let mut x = m::<U1, U1>(); x -= m::<U2, U1>(); } // REFUSE	-=	1x1 and 2x1
fn p3228() { let _ = m::<U1, U1>() * m::<U2, U1>(); } // REFUSE	*	1x1 and 2x1
fn p3229() { let _ = &m::<U1, U1>() * &m::<U2, U1>(); } // REFUSE	&*&	1x1 and 2x1
fn p3230() { let _ = m::<U1, U1>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	1x1 and 2
fn p3231() { let _ = Matrix::<f64, U1, U2>::identity(); } // REFUSE	identity	1x2
fn p3232() { let _ = <Matrix::<f64, U1, U2> as One>::one(); } // REFUSE	one	1x2
fn p3233() { m::<U1, U2>().transpose(); } // REFUSE	transpose	1x2
fn p3234() { let _ = m::<U1, U2>().pow(2); } // REFUSE	pow	1x2
fn p3235() { let _ = m::<U1, U2>().determinant(); } // REFUSE	determinant	1x2
fn p3236() { let _ = m::<U1, U2>().inverse(); } // REFUSE	inverse	1x2
fn p3237() { let _ = m::<U1, U2>().cofactor((0, 0)); } // REFUSE	cofactor	1x2
fn p3238() { let _: Matrix<f64, U2, U1> = m::<U1, U2>().transposed(); } // ACCEPT	transposed	1x2
fn p3239() { let _: Matrix<f64, U1, U2> = m::<U1, U2>().transposed(); } // REFUSE	transposed	1x2
fn p3240() { let _ = Matrix::<f64, U1, U2>::diag([0.0; 0]); } // REFUSE	diag	1x2 from 0
fn p3241() { let _ = Matrix::<f64, U1, U2>::diag([0.0; 1]); } // ACCEPT	diag	1x2 from 1
fn p3242() { let _ = Matrix::<f64, U1, U2>::diag([0.0; 2]); } // REFUSE	diag	1x2 from 2
fn p3243() { let _ = Matrix::<f64, U1, U2>::new([[0.0; 2]; 0]); } // REFUSE	Matrix::new	1x2 from 0x2
fn p3244() { let _ = m::<U1, U2>().relative_eq(&m::<U0, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	1x2 and 0x2
fn p3245() { let _ = m::<U1, U2>().ulps_eq(&m::<U0, U2>(), 0.0, 4); } // REFUSE	ulps_eq	1x2 and 0x2
fn p3246() { let _ = m::<U1, U2>() == m::<U0, U2>(); } // REFUSE	==	1x2 and 0x2
fn p3247() { let _ = m::<U1, U2>() + m::<U0, U2>(); } // REFUSE	+	1x2 and 0x2
fn p3248() { let mut x = m::<U1, U2>(); x -= m::<U0, U2>(); } // REFUSE	-=	1x2 and 0x2
fn p3249() { let _ = m::<U1, U2>() * m::<U0, U2>(); } // REFUSE	*	1x2 and 0x2
fn p3250() { let _ = &m::<U1, U2>() * &m::<U0, U2>(); } // REFUSE	&*&	1x2 and 0x2
fn p3251() { let _ = m::<U1, U2>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	1x2 and 0
fn p3252() { let _ = Matrix::<f64, U1, U2>::new([[0.0; 1]; 1]); } // REFUSE	Matrix::new	1x2 from 1x1
fn p3253() { let _ = m::<U1, U2>().relative_eq(&m::<U1, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x2 and 1x1
fn p3254() { let _ = m::<U1, U2>().ulps_eq(&m::<U1, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x2 and 1x1
fn p3255() { let _ = m::<U1, U2>() == m::<U1, U1>(); } // REFUSE	==	1x2 and 1x1
fn p3256() { let _ = m::<U1, U2>() + m::<U1, U1>(); } // REFUSE	+	1x2 and 1x1
fn p3257() { let mut x = m::<U1, U2>(); x -= m::<U1, U1>(); } // REFUSE	-=	1x2 and 1x1
fn p3258() { let _ = m::<U1, U2>() * m::<U1, U1>(); } // REFUSE	*	1x2 and 1x1
fn p3259() { let _ = &m::<U1, U2>() * &m::<U1, U1>(); } // REFUSE	&*&	1x2 and 1x1
fn p3260() { let _ = m::<U1, U2>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	1x2 and 1
fn p3261() { let _ = Matrix::<f64, U1, U2>::new([[0.0; 2]; 1]); } // ACCEPT	Matrix::new	1x2 from 1x2
fn p3262() { let _ = m::<U1, U2>().relative_eq(&m::<U1, U2>(), 0.0, 0.0); } // ACCEPT	relative_eq	1x2 and 1x2
fn p3263() { let _ = m::<U1, U2>().ulps_eq(&m::<U1, U2>(), 0.0, 4); } // ACCEPT	ulps_eq	1x2 and 1x2
fn p3264() { let _ = m::<U1, U2>() == m::<U1, U2>(); } // ACCEPT	==	1x2 and 1x2
fn p3265() { let _ = m::<U1, U2>() + m::<U1, U2>(); } // ACCEPT	+	1x2 and 1x2
fn p3266() { let mut x = m::<U1, U2>(); x -= m::<U1, U2>(); } // ACCEPT	-=	1x2 and 1x2
fn p3267() { let _ = m::<U1, U2>() * m::<U1, U2>(); } // REFUSE	*	1x2 and 1x2
fn p3268() { let _ = &m::<U1, U2>() * &m::<U1, U2>(); } // REFUSE	&*&	1x2 and 1x2
fn p3269() { let _ = Matrix::<f64, U1, U2>::new([[0.0; 3]; 1]); } // REFUSE	Matrix::new	1x2 from 1x3
fn p3270() { let _ = m::<U1, U2>().relative_eq(&m::<U1, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	1x2 and 1x3
fn p3271() { let _ = m::<U1, U2>().ulps_eq(&m::<U1, U3>(), 0.0, 4); } // REFUSE	ulps_eq	1x2 and 1x3
fn p3272() { let _ = m::<U1, U2>() == m::<U1, U3>(); } // REFUSE	==	1x2 and 1x3
fn p3273() { let _ = m::<U1, U2>() + m::<U1, U3>(); } // REFUSE	+	1x2 and 1x3
fn p3274() { let mut x = m::<U1, U2>(); x -= m::<U1, U3>(); } // REFUSE	-=	1x2 and 1x3
fn p3275() { let _ = m::<U1, U2>() * m::<U1, U3>(); } // REFUSE	*	1x2 and 1x3
fn p3276() { let _ = &m::<U1, U2>() * &m::<U1, U3>(); } // REFUSE	&*&	1x2 and 1x3
fn p3277() { let _ = Matrix::<f64, U1, U2>::new([[0.0; 1]; 2]); } // REFUSE	Matrix::new	1x2 from 2x1
fn p3278() { let _ = m::<U1, U2>().relative_eq(&m::<U2, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x2 and 2x1
fn p3279() { let _ = m::<U1, U2>().ulps_eq(&m::<U2, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x2 and 2x1
fn p3280() { let _ = m::<U1, U2>() == m::<U2, U1>(); } // REFUSE	==	1x2 and 2x1
fn p3281() { let _ = m::<U1, U2>() + m::<U2, U1>(); } // REFUSE	+	1x2 and 2x1
fn p3282() { let mut x = m::<U1, U2>(); x -= m::<U2, U1>(); } // REFUSE	-=	1x2 and 2x1
fn p3283() { let _ = m::<U1, U2>() * m::<U2, U1>(); } // ACCEPT	*	1x2 and 2x1
fn p3284() { let _ = &m::<U1, U2>() * &m::<U2, U1>(); } // ACCEPT	&*&	1x2 and 2x1
fn p3285() { let _ = m::<U1, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	1x2 and 2
fn p3286() { let _ = Matrix::<f64, U1, U2>::new([[0.0; 2]; 2]); } // REFUSE	Matrix::new	1x2 from 2x2
fn p3287() { let _ = m::<U1, U2>().relative_eq(&m::<U2, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	1x2 and 2x2
fn p3288() { let _ = m::<U1, U2>().ulps_eq(&m::<U2, U2>(), 0.0, 4); } // REFUSE	ulps_eq	1x2 and 2x2
fn p3289() { let _ = m::<U1, U2>() == m::<U2, U2>(); } // REFUSE	==	1x2 and 2x2
fn p3290() { let _ = m::<U1, U2>() + m::<U2, U2>(); } // REFUSE	+	1x2 and 2x2
fn p3291() { let mut x = m::<U1, U2>(); x -= m::<U2, U2>(); } // REFUSE	-=	1x2 and 2x2
fn p3292() { let _ = m::<U1, U2>() * m::<U2, U2>(); } // ACCEPT	*	1x2 and 2x2
fn p3293() { let _ = &m::<U1, U2>() * &m::<U2, U2>(); } // ACCEPT	&*&	1x2 and 2x2
fn p3294() { let _ = m::<U1, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	1x2 and 2
fn p3295() { let _ = Matrix::<f64, U1, U3>::identity(); } // REFUSE	identity	1x3
fn p3296() { let _ = <Matrix::<f64, U1, U3> as One>::one(); } // REFUSE	one	1x3
fn p3297() { m::<U1, U3>().transpose(); } // REFUSE	transpose	1x3
fn p3298() { let _ = m::<U1, U3>().pow(2); } // REFUSE	pow	1x3
fn p3299() { let _ = m::<U1, U3>().determinant(); } // REFUSE	determinant	1x3
fn p3300() { let _ = m::<U1, U3>().inverse(); } // REFUSE	inverse	1x3
fn p3301() { let _ = m::<U1, U3>().cofactor((0, 0)); } // REFUSE	cofactor	1x3
fn p3302() { let _: Matrix<f64, U3, U1> = m::<U1, U3>().transposed(); } // ACCEPT	transposed	1x3
fn p3303() { let _: Matrix<f64, U1, U3> = m::<U1, U3>().transposed(); } // REFUSE	transposed	1x3
fn p3304() { let _ = Matrix::<f64, U1, U3>::diag([0.0; 0]); } // REFUSE	diag	1x3 from 0
fn p3305() { let _ = Matrix::<f64, U1, U3>::diag([0.0; 1]); } // ACCEPT	diag	1x3 from 1
fn p3306() { let _ = Matrix::<f64, U1, U3>::diag([0.0; 2]); } // REFUSE	diag	1x3 from 2
fn p3307() { let _ = Matrix::<f64, U1, U3>::diag([0.0; 3]); } // REFUSE	diag	1x3 from 3
fn p3308() { let _ = Matrix::<f64, U1, U3>::new([[0.0; 3]; 0]); } // REFUSE	Matrix::new	1x3 from 0x3
fn p3309() { let _ = m::<U1, U3>().relative_eq(&m::<U0, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	1x3 and 0x3
fn p3310() { let _ = m::<U1, U3>().ulps_eq(&m::<U0, U3>(), 0.0, 4); } // REFUSE	ulps_eq	1x3 and 0x3
fn p3311() { let _ = m::<U1, U3>() == m::<U0, U3>(); } // REFUSE	==	1x3 and 0x3
fn p3312() { let _ = m::<U1, U3>() + m::<U0, U3>(); } // REFUSE	+	1x3 and 0x3
fn p3313() { let mut x = m::<U1, U3>(); x -= m::<U0, U3>(); } // REFUSE	-=	1x3 and 0x3
fn p3314() { let _ = m::<U1, U3>() * m::<U0, U3>(); } // REFUSE	*	1x3 and 0x3
fn p3315() { let _ = &m::<U1, U3>() * &m::<U0, U3>(); } // REFUSE	&*&	1x3 and 0x3
fn p3316() { let _ = m::<U1, U3>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	1x3 and 0
fn p3317() { let _ = Matrix::<f64, U1, U3>::new([[0.0; 2]; 1]); } // REFUSE	Matrix::new	1x3 from 1x2
fn p3318() { let _ = m::<U1, U3>().relative_eq(&m::<U1, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	1x3 and 1x2
fn p3319() { let _ = m::<U1, U3>().ulps_eq(&m::<U1, U2>(), 0.0, 4); } // REFUSE	ulps_eq	1x3 and 1x2
fn p3320() { let _ = m::<U1, U3>() == m::<U1, U2>(); } // REFUSE	==	1x3 and 1x2
fn p3321() { let _ = m::<U1, U3>() + m::<U1, U2>(); } // REFUSE	+	1x3 and 1x2
fn p3322() { let mut x = m::<U1, U3>(); x -= m::<U1, U2>(); } // REFUSE	-=	1x3 and 1x2
fn p3323() { let _ = m::<U1, U3>() * m::<U1, U2>(); } // REFUSE	*	1x3 and 1x2
fn p3324() { let _ = &m::<U1, U3>() * &m::<U1, U2>(); } // REFUSE	&*&	1x3 and 1x2
fn p3325() { let _ = Matrix::<f64, U1, U3>::new([[0.0; 3]; 1]); } // ACCEPT	Matrix::new	1x3 from 1x3
fn p3326() { let _ = m::<U1, U3>().relative_eq(&m::<U1, U3>(), 0.0, 0.0); } // ACCEPT	relative_eq	1x3 and 1x3
fn p3327() { let _ = m::<U1, U3>().ulps_eq(&m::<U1, U3>(), 0.0, 4); } // ACCEPT	ulps_eq	1x3 and 1x3
fn p3328() { let _ = m::<U1, U3>() == m::<U1, U3>(); } // ACCEPT	==	1x3 and 1x3
fn p3329() { let _ = m::<U1, U3>() + m::<U1, U3>(); } // ACCEPT	+	1x3 and 1x3
fn p3330() { let mut x = m::<U1, U3>(); x -= m::<U1, U3>(); } // ACCEPT	-=	1x3 and 1x3
fn p3331() { let _ = m::<U1, U3>() * m::<U1, U3>(); } // REFUSE	*	1x3 and 1x3
fn p3332() { let _ = &m::<U1, U3>() * &m::<U1, U3>(); } // REFUSE	&*&	1x3 and 1x3
fn p3333() { let _ = Matrix::<f64, U1, U3>::new([[0.0; 4]; 1]); } // REFUSE	Matrix::new	1x3 from 1x4
fn p3334() { let _ = m::<U1, U3>().relative_eq(&m::<U1, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	1x3 and 1x4
fn p3335() { let _ = m::<U1, U3>().ulps_eq(&m::<U1, U4>(), 0.0, 4); } // REFUSE	ulps_eq	1x3 and 1x4
fn p3336() { let _ = m::<U1, U3>() == m::<U1, U4>(); } // REFUSE	==	1x3 and 1x4
fn p3337() { let _ = m::<U1, U3>() + m::<U1, U4>(); } // REFUSE	+	1x3 and 1x4
fn p3338() { let mut x = m::<U1, U3>(); x -= m::<U1, U4>(); } // REFUSE	-=	1x3 and 1x4
fn p3339() { let _ = m::<U1, U3>() * m::<U1, U4>(); } // REFUSE	*	1x3 and 1x4
fn p3340() { let _ = &m::<U1, U3>() * &m::<U1, U4>(); } // REFUSE	&*&	1x3 and 1x4
fn p3341() { let _ = Matrix::<f64, U1, U3>::new([[0.0; 3]; 2]); } // REFUSE	Matrix::new	1x3 from 2x3
fn p3342() { let _ = m::<U1, U3>().relative_eq(&m::<U2, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	1x3 and 2x3
fn p3343() { let _ = m::<U1, U3>().ulps_eq(&m::<U2, U3>(), 0.0, 4); } // REFUSE	ulps_eq	1x3 and 2x3
fn p3344() { let _ = m::<U1, U3>() == m::<U2, U3>(); } // REFUSE	==	1x3 and 2x3
fn p3345() { let _ = m::<U1, U3>() + m::<U2, U3>(); } // REFUSE	+	1x3 and 2x3
fn p3346() { let mut x = m::<U1, U3>(); x -= m::<U2, U3>(); } // REFUSE	-=	1x3 and 2x3
fn p3347() { let _ = m::<U1, U3>() * m::<U2, U3>(); } // REFUSE	*	1x3 and 2x3
fn p3348() { let _ = &m::<U1, U3>() * &m::<U2, U3>(); } // REFUSE	&*&	1x3 and 2x3
fn p3349() { let _ = m::<U1, U3>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	1x3 and 2
fn p3350() { let _ = Matrix::<f64, U1, U3>::new([[0.0; 1]; 3]); } // REFUSE	Matrix::new	1x3 from 3x1
fn p3351() { let _ = m::<U1, U3>().relative_eq(&m::<U3, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x3 and 3x1
fn p3352() { let _ = m::<U1, U3>().ulps_eq(&m::<U3, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x3 and 3x1
fn p3353() { let _ = m::<U1, U3>() == m::<U3, U1>(); } // REFUSE	==	1x3 and 3x1
fn p3354() { let _ = m::<U1, U3>() + m::<U3, U1>(); } // REFUSE	+	1x3 and 3x1
fn p3355() { let mut x = m::<U1, U3>(); x -= m::<U3, U1>(); } // REFUSE	-=	1x3 and 3x1
fn p3356() { let _ = m::<U1, U3>() * m::<U3, U1>(); } // ACCEPT	*	1x3 and 3x1
fn p3357() { let _ = &m::<U1, U3>() * &m::<U3, U1>(); } // ACCEPT	&*&	1x3 and 3x1
fn p3358() { let _ = m::<U1, U3>() * Vector::<f64, U3>::default(); } // ACCEPT	matrix * vector	1x3 and 3
fn p3359() { let _ = Matrix::<f64, U1, U4>::identity(); } // REFUSE	identity	1x4
fn p3360() { let _ = <Matrix::<f64, U1, U4> as One>::one(); } // REFUSE	one	1x4
fn p3361() { m::<U1, U4>().transpose(); } // REFUSE	transpose	1x4
fn p3362() { let _ = m::<U1, U4>().pow(2); } // REFUSE	pow	1x4
fn p3363() { let _ = m::<U1, U4>().determinant(); } // REFUSE	determinant	1x4
fn p3364() { let _ = m::<U1, U4>().inverse(); } // REFUSE	inverse	1x4
fn p3365() { let _ = m::<U1, U4>().cofactor((0, 0)); } // REFUSE	cofactor	1x4
fn p3366() { let _: Matrix<f64, U4, U1> = m::<U1, U4>().transposed(); } // ACCEPT	transposed	1x4
fn p3367() { let _: Matrix<f64, U1, U4> = m::<U1, U4>().transposed(); } // REFUSE	transposed	1x4
fn p3368() { let _ = Matrix::<f64, U1, U4>::diag([0.0; 0]); } // REFUSE	diag	1x4 from 0
fn p3369() { let _ = Matrix::<f64, U1, U4>::diag([0.0; 1]); } // ACCEPT	diag	1x4 from 1
fn p3370() { let _ = Matrix::<f64, U1, U4>::diag([0.0; 2]); } // REFUSE	diag	1x4 from 2
fn p3371() { let _ = Matrix::<f64, U1, U4>::diag([0.0; 4]); } // REFUSE	diag	1x4 from 4
fn p3372() { let _ = Matrix::<f64, U1, U4>::new([[0.0; 4]; 0]); } // REFUSE	Matrix::new	1x4 from 0x4
fn p3373() { let _ = m::<U1, U4>().relative_eq(&m::<U0, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	1x4 and 0x4
fn p3374() { let _ = m::<U1, U4>().ulps_eq(&m::<U0, U4>(), 0.0, 4); } // REFUSE	ulps_eq	1x4 and 0x4
fn p3375() { let _ = m::<U1, U4>() == m::<U0, U4>(); } // REFUSE	==	1x4 and 0x4
fn p3376() { let _ = m::<U1, U4>() + m::<U0, U4>(); } // REFUSE	+	1x4 and 0x4
fn p3377() { let mut x = m::<U1, U4>(); x -= m::<U0, U4>(); } // REFUSE	-=	1x4 and 0x4
fn p3378() { let _ = m::<U1, U4>() * m::<U0, U4>(); } // REFUSE	*	1x4 and 0x4
fn p3379() { let _ = &m::<U1, U4>() * &m::<U0, U4>(); } // REFUSE	&*&	1x4 and 0x4
fn p3380() { let _ = m::<U1, U4>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	1x4 and 0
fn p3381() { let _ = Matrix::<f64, U1, U4>::new([[0.0; 3]; 1]); } // REFUSE	Matrix::new	1x4 from 1x3
fn p3382() { let _ = m::<U1, U4>().relative_eq(&m::<U1, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	1x4 and 1x3
fn p3383() { let _ = m::<U1, U4>().ulps_eq(&m::<U1, U3>(), 0.0, 4); } // REFUSE	ulps_eq	1x4 and 1x3
fn p3384() { let _ = m::<U1, U4>() == m::<U1, U3>(); } // REFUSE	==	1x4 and 1x3
fn p3385() { let _ = m::<U1, U4>() + m::<U1, U3>(); } // REFUSE	+	1x4 and 1x3
fn p3386() { let mut x = m::<U1, U4>(); x -= m::<U1, U3>(); } // REFUSE	-=	1x4 and 1x3
fn p3387() { let _ = m::<U1, U4>() * m::<U1, U3>(); } // REFUSE	*	1x4 and 1x3
fn p3388() { let _ = &m::<U1, U4>() * &m::<U1, U3>(); } // REFUSE	&*&	1x4 and 1x3
fn p3389() { let _ = Matrix::<f64, U1, U4>::new([[0.0; 4]; 1]); } // ACCEPT	Matrix::new	1x4 from 1x4
fn p3390() { let _ = m::<U1, U4>().relative_eq(&m::<U1, U4>(), 0.0, 0.0); } // ACCEPT	relative_eq	1x4 and 1x4
fn p3391() { let _ = m::<U1, U4>().ulps_eq(&m::<U1, U4>(), 0.0, 4); } // ACCEPT	ulps_eq	1x4 and 1x4
fn p3392() { let _ = m::<U1, U4>() == m::<U1, U4>(); } // ACCEPT	==	1x4 and 1x4
fn p3393() { let _ = m::<U1, U4>() + m::<U1, U4>(); } // ACCEPT	+	1x4 and 1x4
fn p3394() { let mut x = m::<U1, U4>(); x -= m::<U1, U4>(); } // ACCEPT	-=	1x4 and 1x4
fn p3395() { let _ = m::<U1, U4>() * m::<U1, U4>(); } // REFUSE	*	1x4 and 1x4
fn p3396() { let _ = &m::<U1, U4>() * &m::<U1, U4>(); } // REFUSE	&*&	1x4 and 1x4
fn p3397() { let _ = Matrix::<f64, U1, U4>::new([[0.0; 5]; 1]); } // REFUSE	Matrix::new	1x4 from 1x5
fn p3398() { let _ = m::<U1, U4>().relative_eq(&m::<U1, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	1x4 and 1x5
fn p3399() { let _ = m::<U1, U4>().ulps_eq(&m::<U1, U5>(), 0.0, 4); } // REFUSE	ulps_eq	1x4 and 1x5
fn p3400() { let _ = m::<U1, U4>() == m::<U1, U5>(); } // REFUSE	==	1x4 and 1x5
fn p3401() { let _ = m::<U1, U4>() + m::<U1, U5>(); } // REFUSE	+	1x4 and 1x5
fn p3402() { let mut x = m::<U1, U4>(); x -= m::<U1, U5>(); } // REFUSE	-=	1x4 and 1x5
fn p3403() { let _ = m::<U1, U4>() * m::<U1, U5>(); } // REFUSE	*	1x4 and 1x5
fn p3404() { let _ = &m::<U1, U4>() * &m::<U1, U5>(); } // REFUSE	&*&	1x4 and 1x5
fn p3405() { let _ = Matrix::<f64, U1, U4>::new([[0.0; 4]; 2]); } // REFUSE	Matrix::new	1x4 from 2x4
fn p3406() { let _ = m::<U1, U4>().relative_eq(&m::<U2, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	1x4 and 2x4
fn p3407() { let _ = m::<U1, U4>().ulps_eq(&m::<U2, U4>(), 0.0, 4); } // REFUSE	ulps_eq	1x4 and 2x4
fn p3408() { let _ = m::<U1, U4>() == m::<U2, U4>(); } // REFUSE	==	1x4 and 2x4
fn p3409() { let _ = m::<U1, U4>() + m::<U2, U4>(); } // REFUSE	+	1x4 and 2x4
fn p3410() { let mut x = m::<U1, U4>(); x -= m::<U2, U4>(); } // REFUSE	-=	1x4 and 2x4
fn p3411() { let _ = m::<U1, U4>() * m::<U2, U4>(); } // REFUSE	*	1x4 and 2x4
fn p3412() { let _ = &m::<U1, U4>() * &m::<U2, U4>(); } // REFUSE	&*&	1x4 and 2x4
fn p3413() { let _ = m::<U1, U4>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	1x4 and 2
fn p3414() { let _ = Matrix::<f64, U1, U4>::new([[0.0; 1]; 4]); } // REFUSE	Matrix::new	1x4 from 4x1
fn p3415() { let _ = m::<U1, U4>().relative_eq(&m::<U4, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x4 and 4x1
fn p3416() { let _ = m::<U1, U4>().ulps_eq(&m::<U4, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x4 and 4x1
fn p3417() { let _ = m::<U1, U4>() == m::<U4, U1>(); } // REFUSE	==	1x4 and 4x1
fn p3418() { let _ = m::<U1, U4>() + m::<U4, U1>(); } // REFUSE	+	1x4 and 4x1
fn p3419() { let mut x = m::<U1, U4>(); x -= m::<U4, U1>(); } // REFUSE	-=	1x4 and 4x1
fn p3420() { let _ = m::<U1, U4>() * m::<U4, U1>(); } // ACCEPT	*	1x4 and 4x1
fn p3421() { let _ = &m::<U1, U4>() * &m::<U4, U1>(); } // ACCEPT	&*&	1x4 and 4x1
fn p3422() { let _ = m::<U1, U4>() * Vector::<f64, U4>::default(); } // ACCEPT	matrix * vector	1x4 and 4
fn p3423() { let _ = Matrix::<f64, U1, U5>::identity(); } // REFUSE	identity	1x5
fn p3424() { let _ = <Matrix::<f64, U1, U5> as One>::one(); } // REFUSE	one	1x5
fn p3425() { m::<U1, U5>().transpose(); } // REFUSE	transpose	1x5
fn p3426() { let _ = m::<U1, U5>().pow(2); } // REFUSE	pow	1x5
fn p3427() { let _ = m::<U1, U5>().determinant(); } // REFUSE	determinant	1x5
fn p3428() { let _ = m::<U1, U5>().inverse(); } // REFUSE	inverse	1x5
fn p3429() { let _ = m::<U1, U5>().cofactor((0, 0)); } // REFUSE	cofactor	1x5
fn p3430() { let _: Matrix<f64, U5, U1> = m::<U1, U5>().transposed(); } // ACCEPT	transposed	1x5
fn p3431() { let _: Matrix<f64, U1, U5> = m::<U1, U5>().transposed(); } // REFUSE	transposed	1x5
fn p3432() { let _ = Matrix::<f64, U1, U5>::diag([0.0; 0]); } // REFUSE	diag	1x5 from 0
fn p3433() { let _ = Matrix::<f64, U1, U5>::diag([0.0; 1]); } // ACCEPT	diag	1x5 from 1
fn p3434() { let _ = Matrix::<f64, U1, U5>::diag([0.0; 2]); } // REFUSE	diag	1x5 from 2
fn p3435() { let _ = Matrix::<f64, U1, U5>::diag([0.0; 5]); } // REFUSE	diag	1x5 from 5
fn p3436() { let _ = Matrix::<f64, U1, U5>::new([[0.0; 5]; 0]); } // REFUSE	Matrix::new	1x5 from 0x5
fn p3437() { let _ = m::<U1, U5>().relative_eq(&m::<U0, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	1x5 and 0x5
fn p3438() { let _ = m::<U1, U5>().ulps_eq(&m::<U0, U5>(), 0.0, 4); } // REFUSE	ulps_eq	1x5 and 0x5
fn p3439() { let _ = m::<U1, U5>() == m::<U0, U5>(); } // REFUSE	==	1x5 and 0x5
fn p3440() { let _ = m::<U1, U5>() + m::<U0, U5>(); } // REFUSE	+	1x5 and 0x5
fn p3441() { let mut x = m::<U1, U5>(); x -= m::<U0, U5>(); } // REFUSE	-=	1x5 and 0x5
fn p3442() { let _ = m::<U1, U5>() * m::<U0, U5>(); } // REFUSE	*	1x5 and 0x5
fn p3443() { let _ = &m::<U1, U5>() * &m::<U0, U5>(); } // REFUSE	&*&	1x5 and 0x5
fn p3444() { let _ = m::<U1, U5>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	1x5 and 0
fn p3445() { let _ = Matrix::<f64, U1, U5>::new([[0.0; 4]; 1]); } // REFUSE	Matrix::new	1x5 from 1x4
fn p3446() { let _ = m::<U1, U5>().relative_eq(&m::<U1, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	1x5 and 1x4
fn p3447() { let _ = m::<U1, U5>().ulps_eq(&m::<U1, U4>(), 0.0, 4); } // REFUSE	ulps_eq	1x5 and 1x4
fn p3448() { let _ = m::<U1, U5>() == m::<U1, U4>(); } // REFUSE	==	1x5 and 1x4
fn p3449() { let _ = m::<U1, U5>() + m::<U1, U4>(); } // REFUSE	+	1x5 and 1x4
fn p3450() { let mut x = m::<U1, U5>(); x -= m::<U1, U4>(); } // REFUSE	-=	1x5 and 1x4
fn p3451() { let _ = m::<U1, U5>() * m::<U1, U4>(); } // REFUSE	*	1x5 and 1x4
fn p3452() { let _ = &m::<U1, U5>() * &m::<U1, U4>(); } // REFUSE	&*&	1x5 and 1x4
fn p3453() { let _ = Matrix::<f64, U1, U5>::new([[0.0; 5]; 1]); } // ACCEPT	Matrix::new	1x5 from 1x5
fn p3454() { let _ = m::<U1, U5>().relative_eq(&m::<U1, U5>(), 0.0, 0.0); } // ACCEPT	relative_eq	1x5 and 1x5
fn p3455() { let _ = m::<U1, U5>().ulps_eq(&m::<U1, U5>(), 0.0, 4); } // ACCEPT	ulps_eq	1x5 and 1x5
fn p3456() { let _ = m::<U1, U5>() == m::<U1, U5>(); } // ACCEPT	==	1x5 and 1x5
fn p3457() { let _ = m::<U1, U5>() + m::<U1, U5>(); } // ACCEPT	+	1x5 and 1x5
fn p3458() { let mut x = m::<U1, U5>(); x -= m::<U1, U5>(); } // ACCEPT	-=	1x5 and 1x5
fn p3459() { let _ = m::<U1, U5>() * m::<U1, U5>(); } // REFUSE	*	1x5 and 1x5
fn p3460() { let _ = &m::<U1, U5>() * &m::<U1, U5>(); } // REFUSE	&*&	1x5 and 1x5
fn p3461() { let _ = Matrix::<f64, U1, U5>::new([[0.0; 6]; 1]); } // REFUSE	Matrix::new	1x5 from 1x6
fn p3462() { let _ = m::<U1, U5>().relative_eq(&m::<U1, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	1x5 and 1x6
fn p3463() { let _ = m::<U1, U5>().ulps_eq(&m::<U1, U6>(), 0.0, 4); } // REFUSE	ulps_eq	1x5 and 1x6
fn p3464() { let _ = m::<U1, U5>() == m::<U1, U6>(); } // REFUSE	==	1x5 and 1x6
fn p3465() { let _ = m::<U1, U5>() + m::<U1, U6>(); } // REFUSE	+	1x5 and 1x6
fn p3466() { let mut x = m::<U1, U5>(); x -= m::<U1, U6>(); } // REFUSE	-=	1x5 and 1x6
fn p3467() { let _ = m::<U1, U5>() * m::<U1, U6>(); } // REFUSE	*	1x5 and 1x6
fn p3468() { let _ = &m::<U1, U5>() * &m::<U1, U6>(); } // REFUSE	&*&	1x5 and 1x6
fn p3469() { let _ = Matrix::<f64, U1, U5>::new([[0.0; 5]; 2]); } // REFUSE	Matrix::new	1x5 from 2x5
fn p3470() { let _ = m::<U1, U5>().relative_eq(&m::<U2, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	1x5 and 2x5
fn p3471() { let _ = m::<U1, U5>().ulps_eq(&m::<U2, U5>(), 0.0, 4); } // REFUSE	ulps_eq	1x5 and 2x5
fn p3472() { let _ = m::<U1, U5>() == m::<U2, U5>(); } // REFUSE	==	1x5 and 2x5
fn p3473() { let _ = m::<U1, U5>() + m::<U2, U5>(); } // REFUSE	+	1x5 and 2x5
fn p3474() { let mut x = m::<U1, U5>(); x -= m::<U2, U5>(); } // REFUSE	-=	1x5 and 2x5
fn p3475() { let _ = m::<U1, U5>() * m::<U2, U5>(); } // REFUSE	*	1x5 and 2x5
fn p3476() { let _ = &m::<U1, U5>() * &m::<U2, U5>(); } // REFUSE	&*&	1x5 and 2x5
fn p3477() { let _ = m::<U1, U5>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	1x5 and 2
fn p3478() { let _ = Matrix::<f64, U1, U5>::new([[0.0; 1]; 5]); } // REFUSE	Matrix::new	1x5 from 5x1
fn p3479() { let _ = m::<U1, U5>().relative_eq(&m::<U5, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x5 and 5x1
fn p3480() { let _ = m::<U1, U5>().ulps_eq(&m::<U5, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x5 and 5x1
fn p3481() { let _ = m::<U1, U5>() == m::<U5, U1>(); } // REFUSE	==	1x5 and 5x1
fn p3482() { let _ = m::<U1, U5>() + m::<U5, U1>(); } // REFUSE	+	1x5 and 5x1
fn p3483() { let mut x = m::<U1, U5>(); x -= m::<U5, U1>(); } // REFUSE	-=	1x5 and 5x1
fn p3484() { let _ = m::<U1, U5>() * m::<U5, U1>(); } // ACCEPT	*	1x5 and 5x1
fn p3485() { let _ = &m::<U1, U5>() * &m::<U5, U1>(); } // ACCEPT	&*&	1x5 and 5x1
fn p3486() { let _ = m::<U1, U5>() * Vector::<f64, U5>::default(); } // ACCEPT	matrix * vector	1x5 and 5
fn p3487() { let _ = Matrix::<f64, U1, U6>::identity(); } // REFUSE	identity	1x6
fn p3488() { let _ = <Matrix::<f64, U1, U6> as One>::one(); } // REFUSE	one	1x6
fn p3489() { m::<U1, U6>().transpose(); } // REFUSE	transpose	1x6
fn p3490() { let _ = m::<U1, U6>().pow(2); } // REFUSE	pow	1x6
fn p3491() { let _ = m::<U1, U6>().determinant(); } // REFUSE	determinant	1x6
fn p3492() { let _ = m::<U1, U6>().inverse(); } // REFUSE	inverse	1x6
fn p3493() { let _ = m::<U1, U6>().cofactor((0, 0)); } // REFUSE	cofactor	1x6
fn p3494() { let _: Matrix<f64, U6, U1> = m::<U1, U6>().transposed(); } // ACCEPT	transposed	1x6
fn p3495() { let _: Matrix<f64, U1, U6> = m::<U1, U6>().transposed(); } // REFUSE	transposed	1x6
fn p3496() { let _ = Matrix::<f64, U1, U6>::diag([0.0; 0]); } // REFUSE	diag	1x6 from 0
fn p3497() { let _ = Matrix::<f64, U1, U6>::diag([0.0; 1]); } // ACCEPT	diag	1x6 from 1
fn p3498() { let _ = Matrix::<f64, U1, U6>::diag([0.0; 2]); } // REFUSE	diag	1x6 from 2
fn p3499() { let _ = Matrix::<f64, U1, U6>::diag([0.0; 6]); } // REFUSE	diag	1x6 from 6
fn p3500() { let _ = Matrix::<f64, U1, U6>::new([[0.0; 6]; 0]); } // REFUSE	Matrix::new	1x6 from 0x6
fn p3501() { let _ = m::<U1, U6>().relative_eq(&m::<U0, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	1x6 and 0x6
fn p3502() { let _ = m::<U1, U6>().ulps_eq(&m::<U0, U6>(), 0.0, 4); } // REFUSE	ulps_eq	1x6 and 0x6
fn p3503() { let _ = m::<U1, U6>() == m::<U0, U6>(); } // REFUSE	==	1x6 and 0x6
fn p3504() { let _ = m::<U1, U6>() + m::<U0, U6>(); } // REFUSE	+	1x6 and 0x6
fn p3505() { let mut x = m::<U1, U6>(); x -= m::<U0, U6>(); } // REFUSE	-=	1x6 and 0x6
fn p3506() { let _ = m::<U1, U6>() * m::<U0, U6>(); } // REFUSE	*	1x6 and 0x6
fn p3507() { let _ = &m::<U1, U6>() * &m::<U0, U6>(); } // REFUSE	&*&	1x6 and 0x6
fn p3508() { let _ = m::<U1, U6>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	1x6 and 0
fn p3509() { let _ = Matrix::<f64, U1, U6>::new([[0.0; 5]; 1]); } // REFUSE	Matrix::new	1x6 from 1x5
fn p3510() { let _ = m::<U1, U6>().relative_eq(&m::<U1, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	1x6 and 1x5
fn p3511() { let _ = m::<U1, U6>().ulps_eq(&m::<U1, U5>(), 0.0, 4); } // REFUSE	ulps_eq	1x6 and 1x5
fn p3512() { let _ = m::<U1, U6>() == m::<U1, U5>(); } // REFUSE	==	1x6 and 1x5
fn p3513() { let _ = m::<U1, U6>() + m::<U1, U5>(); } // REFUSE	+	1x6 and 1x5
fn p3514() { let mut x = m::<U1, U6>(); x -= m::<U1, U5>(); } // REFUSE	-=	1x6 and 1x5
fn p3515() { let _ = m::<U1, U6>() * m::<U1, U5>(); } // REFUSE	*	1x6 and 1x5
fn p3516() { let _ = &m::<U1, U6>() * &m::<U1, U5>(); } // REFUSE	&*&	1x6 and 1x5
fn p3517() { let _ = Matrix::<f64, U1, U6>::new([[0.0; 6]; 1]); } // ACCEPT	Matrix::new	1x6 from 1x6
fn p3518() { let _ = m::<U1, U6>().relative_eq(&m::<U1, U6>(), 0.0, 0.0); } // ACCEPT	relative_eq	1x6 and 1x6
fn p3519() { let _ = m::<U1, U6>().ulps_eq(&m::<U1, U6>(), 0.0, 4); } // ACCEPT	ulps_eq	1x6 and 1x6
fn p3520() { let _ = m::<U1, U6>() == m::<U1, U6>(); } // ACCEPT	==	1x6 and 1x6
fn p3521() { let _ = m::<U1, U6>() + m::<U1, U6>(); } // ACCEPT	+	1x6 and 1x6
fn p3522() { let mut x = m::<U1, U6>(); x -= m::<U1, U6>(); } // ACCEPT	-=	1x6 and 1x6
fn p3523() { let _ = m::<U1, U6>() * m::<U1, U6>(); } // REFUSE	*	1x6 and 1x6
fn p3524() { let _ = &m::<U1, U6>() * &m::<U1, U6>(); } // REFUSE	&*&	1x6 and 1x6
fn p3525() { let _ = Matrix::<f64, U1, U6>::new([[0.0; 7]; 1]); } // REFUSE	Matrix::new	1x6 from 1x7
fn p3526() { let _ = m::<U1, U6>().relative_eq(&m::<U1, U7>(), 0.0, 0.0); } // REFUSE	relative_eq	1x6 and 1x7
fn p3527() { let _ = m::<U1, U6>().ulps_eq(&m::<U1, U7>(), 0.0, 4); } // REFUSE	ulps_eq	1x6 and 1x7
fn p3528() { let _ = m::<U1, U6>() == m::<U1, U7>(); } // REFUSE	==	1x6 and 1x7
fn p3529() { let _ = m::<U1, U6>() + m::<U1, U7>(); } // REFUSE	+	1x6 and 1x7
fn p3530() { let mut x = m::<U1, U6>(); x -= m::<U1, U7>(); } // REFUSE	-=	1x6 and 1x7
fn p3531() { let _ = m::<U1, U6>() * m::<U1, U7>(); } // REFUSE	*	1x6 and 1x7
fn p3532() { let _ = &m::<U1, U6>() * &m::<U1, U7>(); } // REFUSE	&*&	1x6 and 1x7
fn p3533() { let _ = Matrix::<f64, U1, U6>::new([[0.0; 6]; 2]); } // REFUSE	Matrix::new	1x6 from 2x6
fn p3534() { let _ = m::<U1, U6>().relative_eq(&m::<U2, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	1x6 and 2x6
fn p3535() { let _ = m::<U1, U6>().ulps_eq(&m::<U2, U6>(), 0.0, 4); } // REFUSE	ulps_eq	1x6 and 2x6
fn p3536() { let _ = m::<U1, U6>() == m::<U2, U6>(); } // REFUSE	==	1x6 and 2x6
fn p3537() { let _ = m::<U1, U6>() + m::<U2, U6>(); } // REFUSE	+	1x6 and 2x6
fn p3538() { let mut x = m::<U1, U6>(); x -= m::<U2, U6>(); } // REFUSE	-=	1x6 and 2x6
fn p3539() { let _ = m::<U1, U6>() * m::<U2, U6>(); } // REFUSE	*	1x6 and 2x6
fn p3540() { let _ = &m::<U1, U6>() * &m::<U2, U6>(); } // REFUSE	&*&	1x6 and 2x6
fn p3541() { let _ = m::<U1, U6>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	1x6 and 2
fn p3542() { let _ = Matrix::<f64, U1, U6>::new([[0.0; 1]; 6]); } // REFUSE	Matrix::new	1x6 from 6x1
fn p3543() { let _ = m::<U1, U6>().relative_eq(&m::<U6, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x6 and 6x1
fn p3544() { let _ = m::<U1, U6>().ulps_eq(&m::<U6, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x6 and 6x1
fn p3545() { let _ = m::<U1, U6>() == m::<U6, U1>(); } // REFUSE	==	1x6 and 6x1
fn p3546() { let _ = m::<U1, U6>() + m::<U6, U1>(); } // REFUSE	+	1x6 and 6x1
fn p3547() { let mut x = m::<U1, U6>(); x -= m::<U6, U1>(); } // REFUSE	-=	1x6 and 6x1
fn p3548() { let _ = m::<U1, U6>() * m::<U6, U1>(); } // ACCEPT	*	1x6 and 6x1
fn p3549() { let _ = &m::<U1, U6>() * &m::<U6, U1>(); } // ACCEPT	&*&	1x6 and 6x1
fn p3550() { let _ = m::<U1, U6>() * Vector::<f64, U6>::default(); } // ACCEPT	matrix * vector	1x6 and 6
fn p3551() { let _ = Matrix::<f64, U2, U0>::identity(); } // REFUSE	identity	2x0
fn p3552() { let _ = <Matrix::<f64, U2, U0> as One>::one(); } // REFUSE	one	2x0
fn p3553() { m::<U2, U0>().transpose(); } // REFUSE	transpose	2x0
fn p3554() { let _ = m::<U2, U0>().pow(2); } // REFUSE	pow	2x0
fn p3555() { let _ = m::<U2, U0>().determinant(); } // REFUSE	determinant	2x0
fn p3556() { let _ = m::<U2, U0>().inverse(); } // REFUSE	inverse	2x0
fn p3557() { let _ = m::<U2, U0>().cofactor((0, 0)); } // REFUSE	cofactor	2x0
fn p3558() { let _: Matrix<f64, U0, U2> = m::<U2, U0>().transposed(); } // ACCEPT	transposed	2x0
fn p3559() { let _: Matrix<f64, U2, U0> = m::<U2, U0>().transposed(); } // REFUSE	transposed	2x0
fn p3560() { let _ = Matrix::<f64, U2, U0>::diag([0.0; 0]); } // ACCEPT	diag	2x0 from 0
fn p3561() { let _ = Matrix::<f64, U2, U0>::diag([0.0; 1]); } // REFUSE	diag	2x0 from 1
fn p3562() { let _ = Matrix::<f64, U2, U0>::diag([0.0; 2]); } // REFUSE	diag	2x0 from 2
fn p3563() { let _ = Matrix::<f64, U2, U0>::new([[0.0; 2]; 0]); } // REFUSE	Matrix::new	2x0 from 0x2
fn p3564() { let _ = m::<U2, U0>().relative_eq(&m::<U0, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x0 and 0x2
fn p3565() { let _ = m::<U2, U0>().ulps_eq(&m::<U0, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x0 and 0x2
fn p3566() { let _ = m::<U2, U0>() == m::<U0, U2>(); } // REFUSE	==	2x0 and 0x2
fn p3567() { let _ = m::<U2, U0>() + m::<U0, U2>(); } // REFUSE	+	2x0 and 0x2
fn p3568() { let mut x = m::<U2, U0>(); x -= m::<U0, U2>(); } // REFUSE	-=	2x0 and 0x2
fn p3569() { let _ = m::<U2, U0>() * m::<U0, U2>(); } // ACCEPT	*	2x0 and 0x2
fn p3570() { let _ = &m::<U2, U0>() * &m::<U0, U2>(); } // ACCEPT	&*&	2x0 and 0x2
fn p3571() { let _ = m::<U2, U0>() * Vector::<f64, U0>::default(); } // ACCEPT	matrix * vector	2x0 and 0
fn p3572() { let _ = Matrix::<f64, U2, U0>::new([[0.0; 0]; 1]); } // REFUSE	Matrix::new	2x0 from 1x0
fn p3573() { let _ = m::<U2, U0>().relative_eq(&m::<U1, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	2x0 and 1x0
fn p3574() { let _ = m::<U2, U0>().ulps_eq(&m::<U1, U0>(), 0.0, 4); } // REFUSE	ulps_eq	2x0 and 1x0
fn p3575() { let _ = m::<U2, U0>() == m::<U1, U0>(); } // REFUSE	==	2x0 and 1x0
fn p3576() { let _ = m::<U2, U0>() + m::<U1, U0>(); } // REFUSE	+	2x0 and 1x0
fn p3577() { let mut x = m::<U2, U0>(); x -= m::<U1, U0>(); } // REFUSE	-=	2x0 and 1x0
fn p3578() { let _ = m::<U2, U0>() * m::<U1, U0>(); } // REFUSE	*	2x0 and 1x0
fn p3579() { let _ = &m::<U2, U0>() * &m::<U1, U0>(); } // REFUSE	&*&	2x0 and 1x0
fn p3580() { let _ = m::<U2, U0>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	2x0 and 1
fn p3581() { let _ = Matrix::<f64, U2, U0>::new([[0.0; 0]; 2]); } // ACCEPT	Matrix::new	2x0 from 2x0
fn p3582() { let _ = m::<U2, U0>().relative_eq(&m::<U2, U0>(), 0.0, 0.0); } // ACCEPT	relative_eq	2x0 and 2x0
fn p3583() { let _ = m::<U2, U0>().ulps_eq(&m::<U2, U0>(), 0.0, 4); } // ACCEPT	ulps_eq	2x0 and 2x0
fn p3584() { let _ = m::<U2, U0>() == m::<U2, U0>(); } // ACCEPT	==	2x0 and 2x0
fn p3585() { let _ = m::<U2, U0>() + m::<U2, U0>(); } // ACCEPT	+	2x0 and 2x0
fn p3586() { let mut x = m::<U2, U0>(); x -= m::<U2, U0>(); } // ACCEPT	-=	2x0 and 2x0
fn p3587() { let _ = m::<U2, U0>() * m::<U2, U0>(); } // REFUSE	*	2x0 and 2x0
fn p3588() { let _ = &m::<U2, U0>() * &m::<U2, U0>(); } // REFUSE	&*&	2x0 and 2x0
fn p3589() { let _ = Matrix::<f64, U2, U0>::new([[0.0; 1]; 2]); } // REFUSE	Matrix::new	2x0 from 2x1
fn p3590() { let _ = m::<U2, U0>().relative_eq(&m::<U2, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	2x0 and 2x1
fn p3591() { let _ = m::<U2, U0>().ulps_eq(&m::<U2, U1>(), 0.0, 4); } // REFUSE	ulps_eq	2x0 and 2x1
fn p3592() { let _ = m::<U2, U0>() == m::<U2, U1>(); } // REFUSE	==	2x0 and 2x1
fn p3593() { let _ = m::<U2, U0>() + m::<U2, U1>(); } // REFUSE	+	2x0 and 2x1
fn p3594() { let mut x = m::<U2, U0>(); x -= m::<U2, U1>(); } // REFUSE	-=	2x0 and 2x1
fn p3595() { let _ = m::<U2, U0>() * m::<U2, U1>(); } // REFUSE	*	2x0 and 2x1
fn p3596() { let _ = &m::<U2, U0>() * &m::<U2, U1>(); } // REFUSE	&*&	2x0 and 2x1
fn p3597() { let _ = m::<U2, U0>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	2x0 and 2
fn p3598() { let _ = Matrix::<f64, U2, U0>::new([[0.0; 0]; 3]); } // REFUSE	Matrix::new	2x0 from 3x0
fn p3599() { let _ = m::<U2, U0>().relative_eq(&m::<U3, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	2x0 and 3x0
fn p3600() { let _ = m::<U2, U0>().ulps_eq(&m::<U3, U0>(), 0.0, 4); } // REFUSE	ulps_eq	2x0 and 3x0
fn p3601() { let _ = m::<U2, U0>() == m::<U3, U0>(); } // REFUSE	==	2x0 and 3x0
fn p3602() { let _ = m::<U2, U0>() + m::<U3, U0>(); } // REFUSE	+	2x0 and 3x0
fn p3603() { let mut x = m::<U2, U0>(); x -= m::<U3, U0>(); } // REFUSE	-=	2x0 and 3x0
fn p3604() { let _ = m::<U2, U0>() * m::<U3, U0>(); } // REFUSE	*	2x0 and 3x0
fn p3605() { let _ = &m::<U2, U0>() * &m::<U3, U0>(); } // REFUSE	&*&	2x0 and 3x0
fn p3606() { let _ = m::<U2, U0>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	2x0 and 3
fn p3607() { let _ = Matrix::<f64, U2, U1>::identity(); } // REFUSE	identity	2x1
fn p3608() { let _ = <Matrix::<f64, U2, U1> as One>::one(); } // REFUSE	one	2x1
fn p3609() { m::<U2, U1>().transpose(); } // REFUSE	transpose	2x1
fn p3610() { let _ = m::<U2, U1>().pow(2); } // REFUSE	pow	2x1
fn p3611() { let _ = m::<U2, U1>().determinant(); } // REFUSE	determinant	2x1
fn p3612() { let _ = m::<U2, U1>().inverse(); } // REFUSE	inverse	2x1
fn p3613() { let _ = m::<U2, U1>().cofactor((0, 0)); } // REFUSE	cofactor	2x1
fn p3614() { let _: Matrix<f64, U1, U2> = m::<U2, U1>().transposed(); } // ACCEPT	transposed	2x1
fn p3615() { let _: Matrix<f64, U2, U1> = m::<U2, U1>().transposed(); } // REFUSE	transposed	2x1
fn p3616() { let _ = Matrix::<f64, U2, U1>::diag([0.0; 0]); } // REFUSE	diag	2x1 from 0
fn p3617() { let _ = Matrix::<f64, U2, U1>::diag([0.0; 1]); } // ACCEPT	diag	2x1 from 1
fn p3618() { let _ = Matrix::<f64, U2, U1>::diag([0.0; 2]); } // REFUSE	diag	2x1 from 2
fn p3619() { let _ = Matrix::<f64, U2, U1>::new([[0.0; 1]; 1]); } // REFUSE	Matrix::new	2x1 from 1x1
fn p3620() { let _ = m::<U2, U1>().relative_eq(&m::<U1, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	2x1 and 1x1
fn p3621() { let _ = m::<U2, U1>().ulps_eq(&m::<U1, U1>(), 0.0, 4); } // REFUSE	ulps_eq	2x1 and 1x1
fn p3622() { let _ = m::<U2, U1>() == m::<U1, U1>(); } // REFUSE	==	2x1 and 1x1
fn p3623() { let _ = m::<U2, U1>() + m::<U1, U1>(); } // REFUSE	+	2x1 and 1x1
fn p3624() { let mut x = m::<U2, U1>(); x -= m::<U1, U1>(); } // REFUSE	-=	2x1 and 1x1
fn p3625() { let _ = m::<U2, U1>() * m::<U1, U1>(); } // ACCEPT	*	2x1 and 1x1
fn p3626() { let _ = &m::<U2, U1>() * &m::<U1, U1>(); } // ACCEPT	&*&	2x1 and 1x1
fn p3627() { let _ = m::<U2, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	2x1 and 1
fn p3628() { let _ = Matrix::<f64, U2, U1>::new([[0.0; 2]; 1]); } // REFUSE	Matrix::new	2x1 from 1x2
fn p3629() { let _ = m::<U2, U1>().relative_eq(&m::<U1, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x1 and 1x2
fn p3630() { let _ = m::<U2, U1>().ulps_eq(&m::<U1, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x1 and 1x2
fn p3631() { let _ = m::<U2, U1>() == m::<U1, U2>(); } // REFUSE	==	2x1 and 1x2
fn p3632() { let _ = m::<U2, U1>() + m::<U1, U2>(); } // REFUSE	+	2x1 and 1x2
fn p3633() { let mut x = m::<U2, U1>(); x -= m::<U1, U2>(); } // REFUSE	-=	2x1 and 1x2
fn p3634() { let _ = m::<U2, U1>() * m::<U1, U2>(); } // ACCEPT	*	2x1 and 1x2
fn p3635() { let _ = &m::<U2, U1>() * &m::<U1, U2>(); } // ACCEPT	&*&	2x1 and 1x2
fn p3636() { let _ = m::<U2, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	2x1 and 1
fn p3637() { let _ = Matrix::<f64, U2, U1>::new([[0.0; 0]; 2]); } // REFUSE	Matrix::new	2x1 from 2x0
fn p3638() { let _ = m::<U2, U1>().relative_eq(&m::<U2, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	2x1 and 2x0
fn p3639() { let _ = m::<U2, U1>().ulps_eq(&m::<U2, U0>(), 0.0, 4); } // REFUSE	ulps_eq	2x1 and 2x0
fn p3640() { let _ = m::<U2, U1>() == m::<U2, U0>(); } // REFUSE	==	2x1 and 2x0
fn p3641() { let _ = m::<U2, U1>() + m::<U2, U0>(); } // REFUSE	+	2x1 and 2x0
fn p3642() { let mut x = m::<U2, U1>(); x -= m::<U2, U0>(); } // REFUSE	-=	2x1 and 2x0
fn p3643() { let _ = m::<U2, U1>() * m::<U2, U0>(); } // REFUSE	*	2x1 and 2x0
fn p3644() { let _ = &m::<U2, U1>() * &m::<U2, U0>(); } // REFUSE	&*&	2x1 and 2x0
fn p3645() { let _ = Matrix::<f64, U2, U1>::new([[0.0; 1]; 2]); } // ACCEPT	Matrix::new	2x1 from 2x1
fn p3646() { let _ = m::<U2, U1>().relative_eq(&m::<U2, U1>(), 0.0, 0.0); } // ACCEPT	relative_eq	2x1 and 2x1
fn p3647() { let _ = m::<U2, U1>().ulps_eq(&m::<U2, U1>(), 0.0, 4); } // ACCEPT	ulps_eq	2x1 and 2x1
fn p3648() { let _ = m::<U2, U1>() == m::<U2, U1>(); } // ACCEPT	==	2x1 and 2x1
fn p3649() { let _ = m::<U2, U1>() + m::<U2, U1>(); } // ACCEPT	+	2x1 and 2x1
fn p3650() { let mut x = m::<U2, U1>(); x -= m::<U2, U1>(); } // ACCEPT	-=	2x1 and 2x1
fn p3651() { let _ = m::<U2, U1>() * m::<U2, U1>(); } // REFUSE	*	2x1 and 2x1
fn p3652() { let _ = &m::<U2, U1>() * &m::<U2, U1>(); } // REFUSE	&*&	2x1 and 2x1
fn p3653() { let _ = m::<U2, U1>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	2x1 and 2
fn p3654() { let _ = Matrix::<f64, U2, U1>::new([[0.0; 2]; 2]); } // REFUSE	Matrix::new	2x1 from 2x2
fn p3655() { let _ = m::<U2, U1>().relative_eq(&m::<U2, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x1 and 2x2
fn p3656() { let _ = m::<U2, U1>().ulps_eq(&m::<U2, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x1 and 2x2
fn p3657() { let _ = m::<U2, U1>() == m::<U2, U2>(); } // REFUSE	==	2x1 and 2x2
fn p3658() { let _ = m::<U2, U1>() + m::<U2, U2>(); } // REFUSE	+	2x1 and 2x2
fn p3659() { let mut x = m::<U2, U1>(); x -= m::<U2, U2>(); } // REFUSE	-=	2x1 and 2x2
fn p3660() { let _ = m::<U2, U1>() * m::<U2, U2>(); } // REFUSE	*	2x1 and 2x2
fn p3661() { let _ = &m::<U2, U1>() * &m::<U2, U2>(); } // REFUSE	&*&	2x1 and 2x2
fn p3662() { let _ = Matrix::<f64, U2, U1>::new([[0.0; 1]; 3]); } // REFUSE	Matrix::new	2x1 from 3x1
fn p3663() { let _ = m::<U2, U1>().relative_eq(&m::<U3, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	2x1 and 3x1
fn p3664() { let _ = m::<U2, U1>().ulps_eq(&m::<U3, U1>(), 0.0, 4); } // REFUSE	ulps_eq	2x1 and 3x1
fn p3665() { let _ = m::<U2, U1>() == m::<U3, U1>(); } // REFUSE	==	2x1 and 3x1
fn p3666() { let _ = m::<U2, U1>() + m::<U3, U1>(); } // REFUSE	+	2x1 and 3x1
fn p3667() { let mut x = m::<U2, U1>(); x -= m::<U3, U1>(); } // REFUSE	-=	2x1 and 3x1
fn p3668() { let _ = m::<U2, U1>() * m::<U3, U1>(); } // REFUSE	*	2x1 and 3x1
fn p3669() { let _ = &m::<U2, U1>() * &m::<U3, U1>(); } // REFUSE	&*&	2x1 and 3x1
fn p3670() { let _ = m::<U2, U1>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	2x1 and 3
fn p3671() { let _ = Matrix::<f64, U2, U2>::identity(); } // ACCEPT	identity	2x2
fn p3672() { let _ = <Matrix::<f64, U2, U2> as One>::one(); } // ACCEPT	one	2x2
fn p3673() { m::<U2, U2>().transpose(); } // ACCEPT	transpose	2x2
fn p3674() { let _ = m::<U2, U2>().pow(2); } // ACCEPT	pow	2x2
fn p3675() { let _ = m::<U2, U2>().determinant(); } // ACCEPT	determinant	2x2
fn p3676() { let _ = m::<U2, U2>().inverse(); } // ACCEPT	inverse	2x2
fn p3677() { let _ = m::<U2, U2>().cofactor((0, 0)); } // ACCEPT	cofactor	2x2
fn p3678() { let _: Matrix<f64, U2, U2> = m::<U2, U2>().transposed(); } // ACCEPT	transposed	2x2
fn p3679() { let _ = Matrix::<f64, U2, U2>::diag([0.0; 0]); } // REFUSE	diag	2x2 from 0
fn p3680() { let _ = Matrix::<f64, U2, U2>::diag([0.0; 2]); } // ACCEPT	diag	2x2 from 2
fn p3681() { let _ = Matrix::<f64, U2, U2>::diag([0.0; 3]); } // REFUSE	diag	2x2 from 3
fn p3682() { let _ = Matrix::<f64, U2, U2>::new([[0.0; 2]; 1]); } // REFUSE	Matrix::new	2x2 from 1x2
fn p3683() { let _ = m::<U2, U2>().relative_eq(&m::<U1, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x2 and 1x2
fn p3684() { let _ = m::<U2, U2>().ulps_eq(&m::<U1, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x2 and 1x2
fn p3685() { let _ = m::<U2, U2>() == m::<U1, U2>(); } // REFUSE	==	2x2 and 1x2
fn p3686() { let _ = m::<U2, U2>() + m::<U1, U2>(); } // REFUSE	+	2x2 and 1x2
fn p3687() { let mut x = m::<U2, U2>(); x -= m::<U1, U2>(); } // REFUSE	-=	2x2 and 1x2
fn p3688() { let _ = m::<U2, U2>() * m::<U1, U2>(); } // REFUSE	*	2x2 and 1x2
fn p3689() { let _ = &m::<U2, U2>() * &m::<U1, U2>(); } // REFUSE	&*&	2x2 and 1x2
fn p3690() { let _ = m::<U2, U2>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	2x2 and 1
fn p3691() { let _ = Matrix::<f64, U2, U2>::new([[0.0; 1]; 2]); } // REFUSE	Matrix::new	2x2 from 2x1
fn p3692() { let _ = m::<U2, U2>().relative_eq(&m::<U2, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	2x2 and 2x1
fn p3693() { let _ = m::<U2, U2>().ulps_eq(&m::<U2, U1>(), 0.0, 4); } // REFUSE	ulps_eq	2x2 and 2x1
fn p3694() { let _ = m::<U2, U2>() == m::<U2, U1>(); } // REFUSE	==	2x2 and 2x1
fn p3695() { let _ = m::<U2, U2>() + m::<U2, U1>(); } // REFUSE	+	2x2 and 2x1
fn p3696() { let mut x = m::<U2, U2>(); x -= m::<U2, U1>(); } // REFUSE	-=	2x2 and 2x1
fn p3697() { let _ = m::<U2, U2>() * m::<U2, U1>(); } // ACCEPT	*	2x2 and 2x1
fn p3698() { let _ = &m::<U2, U2>() * &m::<U2, U1>(); } // ACCEPT	&*&	2x2 and 2x1
fn p3699() { let _ = m::<U2, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	2x2 and 2
fn p3700() { let _ = Matrix::<f64, U2, U2>::new([[0.0; 2]; 2]); } // ACCEPT	Matrix::new	2x2 from 2x2
fn p3701() { let _ = m::<U2, U2>().relative_eq(&m::<U2, U2>(), 0.0, 0.0); } // ACCEPT	relative_eq	2x2 and 2x2
fn p3702() { let _ = m::<U2, U2>().ulps_eq(&m::<U2, U2>(), 0.0, 4); } // ACCEPT	ulps_eq	2x2 and 2x2
fn p3703() { let _ = m::<U2, U2>() == m::<U2, U2>(); } // ACCEPT	==	2x2 and 2x2
fn p3704() { let _ = m::<U2, U2>() + m::<U2, U2>(); } // ACCEPT	+	2x2 and 2x2
fn p3705() { let mut x = m::<U2, U2>(); x -= m::<U2, U2>(); } // ACCEPT	-=	2x2 and 2x2
fn p3706() { let _ = m::<U2, U2>() * m::<U2, U2>(); } // ACCEPT	*	2x2 and 2x2
fn p3707() { let _ = &m::<U2, U2>() * &m::<U2, U2>(); } // ACCEPT	&*&	2x2 and 2x2
fn p3708() { let _ = Matrix::<f64, U2, U2>::new([[0.0; 3]; 2]); } // REFUSE	Matrix::new	2x2 from 2x3
fn p3709() { let _ = m::<U2, U2>().relative_eq(&m::<U2, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	2x2 and 2x3
fn p3710() { let _ = m::<U2, U2>().ulps_eq(&m::<U2, U3>(), 0.0, 4); } // REFUSE	ulps_eq	2x2 and 2x3
fn p3711() { let _ = m::<U2, U2>() == m::<U2, U3>(); } // REFUSE	==	2x2 and 2x3
fn p3712() { let _ = m::<U2, U2>() + m::<U2, U3>(); } // REFUSE	+	2x2 and 2x3
fn p3713() { let mut x = m::<U2, U2>(); x -= m::<U2, U3>(); } // REFUSE	-=	2x2 and 2x3
fn p3714() { let _ = m::<U2, U2>() * m::<U2, U3>(); } // ACCEPT	*	2x2 and 2x3
fn p3715() { let _ = &m::<U2, U2>() * &m::<U2, U3>(); } // ACCEPT	&*&	2x2 and 2x3
fn p3716() { let _ = Matrix::<f64, U2, U2>::new([[0.0; 2]; 3]); } // REFUSE	Matrix::new	2x2 from 3x2
fn p3717() { let _ = m::<U2, U2>().relative_eq(&m::<U3, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x2 and 3x2
fn p3718() { let _ = m::<U2, U2>().ulps_eq(&m::<U3, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x2 and 3x2
fn p3719() { let _ = m::<U2, U2>() == m::<U3, U2>(); } // REFUSE	==	2x2 and 3x2
fn p3720() { let _ = m::<U2, U2>() + m::<U3, U2>(); } // REFUSE	+	2x2 and 3x2
fn p3721() { let mut x = m::<U2, U2>(); x -= m::<U3, U2>(); } // REFUSE	-=	2x2 and 3x2
fn p3722() { let _ = m::<U2, U2>() * m::<U3, U2>(); } // REFUSE	*	2x2 and 3x2
fn p3723() { let _ = &m::<U2, U2>() * &m::<U3, U2>(); } // REFUSE	&*&	2x2 and 3x2
fn p3724() { let _ = m::<U2, U2>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	2x2 and 3
fn p3725() { let _ = Matrix::<f64, U2, U3>::identity(); } // REFUSE	identity	2x3
fn p3726() { let _ = <Matrix::<f64, U2, U3> as One>::one(); } // REFUSE	one	2x3
fn p3727() { m::<U2, U3>().transpose(); } // REFUSE	transpose	2x3
fn p3728() { let _ = m::<U2, U3>().pow(2); } // REFUSE	pow	2x3
fn p3729() { let _ = m::<U2, U3>().determinant(); } // REFUSE	determinant	2x3
fn p3730() { let _ = m::<U2, U3>().inverse(); } // REFUSE	inverse	2x3
fn p3731() { let _ = m::<U2, U3>().cofactor((0, 0)); } // REFUSE	cofactor	2x3
fn p3732() { let _: Matrix<f64, U3, U2> = m::<U2, U3>().transposed(); } // ACCEPT	transposed	2x3
fn p3733() { let _: Matrix<f64, U2, U3> = m::<U2, U3>().transposed(); } // REFUSE	transposed	2x3
fn p3734() { let _ = Matrix::<f64, U2, U3>::diag([0.0; 0]); } // REFUSE	diag	2x3 from 0
fn p3735() { let _ = Matrix::<f64, U2, U3>::diag([0.0; 2]); } // ACCEPT	diag	2x3 from 2
fn p3736() { let _ = Matrix::<f64, U2, U3>::diag([0.0; 3]); } // REFUSE	diag	2x3 from 3
fn p3737() { let _ = Matrix::<f64, U2, U3>::new([[0.0; 3]; 1]); } // REFUSE	Matrix::new	2x3 from 1x3
fn p3738() { let _ = m::<U2, U3>().relative_eq(&m::<U1, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	2x3 and 1x3
fn p3739() { let _ = m::<U2, U3>().ulps_eq(&m::<U1, U3>(), 0.0, 4); } // REFUSE	ulps_eq	2x3 and 1x3
fn p3740() { let _ = m::<U2, U3>() == m::<U1, U3>(); } // REFUSE	==	2x3 and 1x3
fn p3741() { let _ = m::<U2, U3>() + m::<U1, U3>(); } // REFUSE	+	2x3 and 1x3
fn p3742() { let mut x = m::<U2, U3>(); x -= m::<U1, U3>(); } // REFUSE	-=	2x3 and 1x3
fn p3743() { let _ = m::<U2, U3>() * m::<U1, U3>(); } // REFUSE	*	2x3 and 1x3
fn p3744() { let _ = &m::<U2, U3>() * &m::<U1, U3>(); } // REFUSE	&*&	2x3 and 1x3
fn p3745() { let _ = m::<U2, U3>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	2x3 and 1
fn p3746() { let _ = Matrix::<f64, U2, U3>::new([[0.0; 2]; 2]); } // REFUSE	Matrix::new	2x3 from 2x2
fn p3747() { let _ = m::<U2, U3>().relative_eq(&m::<U2, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x3 and 2x2
fn p3748() { let _ = m::<U2, U3>().ulps_eq(&m::<U2, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x3 and 2x2
fn p3749() { let _ = m::<U2, U3>() == m::<U2, U2>(); } // REFUSE	==	2x3 and 2x2
fn p3750() { let _ = m::<U2, U3>() + m::<U2, U2>(); } // REFUSE	+	2x3 and 2x2
fn p3751() { let mut x = m::<U2, U3>(); x -= m::<U2, U2>(); } // REFUSE	-=	2x3 and 2x2
fn p3752() { let _ = m::<U2, U3>() * m::<U2, U2>(); } // REFUSE	*	2x3 and 2x2
fn p3753() { let _ = &m::<U2, U3>() * &m::<U2, U2>(); } // REFUSE	&*&	2x3 and 2x2
fn p3754() { let _ = Matrix::<f64, U2, U3>::new([[0.0; 3]; 2]); } // ACCEPT	Matrix::new	2x3 from 2x3
fn p3755() { let _ = m::<U2, U3>().relative_eq(&m::<U2, U3>(), 0.0, 0.0); } // ACCEPT	relative_eq	2x3 and 2x3
fn p3756() { let _ = m::<U2, U3>().ulps_eq(&m::<U2, U3>(), 0.0, 4); } // ACCEPT	ulps_eq	2x3 and 2x3
fn p3757() { let _ = m::<U2, U3>() == m::<U2, U3>(); } // ACCEPT	==	2x3 and 2x3
fn p3758() { let _ = m::<U2, U3>() + m::<U2, U3>(); } // ACCEPT	+	2x3 and 2x3
fn p3759() { let mut x = m::<U2, U3>(); x -= m::<U2, U3>(); } // ACCEPT	-=	2x3 and 2x3
fn p3760() { let _ = m::<U2, U3>() * m::<U2, U3>(); } // REFUSE	*	2x3 and 2x3
fn p3761() { let _ = &m::<U2, U3>() * &m::<U2, U3>(); } // REFUSE	&*&	2x3 and 2x3
fn p3762() { let _ = Matrix::<f64, U2, U3>::new([[0.0; 4]; 2]); } // REFUSE	Matrix::new	2x3 from 2x4
fn p3763() { let _ = m::<U2, U3>().relative_eq(&m::<U2, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	2x3 and 2x4
fn p3764() { let _ = m::<U2, U3>().ulps_eq(&m::<U2, U4>(), 0.0, 4); } // REFUSE	ulps_eq	2x3 and 2x4
fn p3765() { let _ = m::<U2, U3>() == m::<U2, U4>(); } // REFUSE	==	2x3 and 2x4
fn p3766() { let _ = m::<U2, U3>() + m::<U2, U4>(); } // REFUSE	+	2x3 and 2x4
fn p3767() { let mut x = m::<U2, U3>(); x -= m::<U2, U4>(); } // REFUSE	-=	2x3 and 2x4
fn p3768() { let _ = m::<U2, U3>() * m::<U2, U4>(); } // REFUSE	*	2x3 and 2x4
fn p3769() { let _ = &m::<U2, U3>() * &m::<U2, U4>(); } // REFUSE	&*&	2x3 and 2x4
fn p3770() { let _ = Matrix::<f64, U2, U3>::new([[0.0; 2]; 3]); } // REFUSE	Matrix::new	2x3 from 3x2
fn p3771() { let _ = m::<U2, U3>().relative_eq(&m::<U3, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x3 and 3x2
fn p3772() { let _ = m::<U2, U3>().ulps_eq(&m::<U3, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x3 and 3x2
fn p3773() { let _ = m::<U2, U3>() == m::<U3, U2>(); } // REFUSE	==	2x3 and 3x2
fn p3774() { let _ = m::<U2, U3>() + m::<U3, U2>(); } // REFUSE	+	2x3 and 3x2
fn p3775() { let mut x = m::<U2, U3>(); x -= m::<U3, U2>(); } // REFUSE	-=	2x3 and 3x2
fn p3776() { let _ = m::<U2, U3>() * m::<U3, U2>(); } // ACCEPT	*	2x3 and 3x2
fn p3777() { let _ = &m::<U2, U3>() * &m::<U3, U2>(); } // ACCEPT	&*&	2x3 and 3x2
fn p3778() { let _ = m::<U2, U3>() * Vector::<f64, U3>::default(); } // ACCEPT	matrix * vector	2x3 and 3
fn p3779() { let _ = Matrix::<f64, U2, U3>::new([[0.0; 3]; 3]); } // REFUSE	Matrix::new	2x3 from 3x3
fn p3780() { let _ = m::<U2, U3>().relative_eq(&m::<U3, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	2x3 and 3x3
fn p3781() { let _ = m::<U2, U3>().ulps_eq(&m::<U3, U3>(), 0.0, 4); } // REFUSE	ulps_eq	2x3 and 3x3
fn p3782() { let _ = m::<U2, U3>() == m::<U3, U3>(); } // REFUSE	==	2x3 and 3x3
fn p3783() { let _ = m::<U2, U3>() + m::<U3, U3>(); } // REFUSE	+	2x3 and 3x3
fn p3784() { let mut x = m::<U2, U3>(); x -= m::<U3, U3>(); } // REFUSE	-=	2x3 and 3x3
fn p3785() { let _ = m::<U2, U3>() * m::<U3, U3>(); } // ACCEPT	*	2x3 and 3x3
fn p3786() { let _ = &m::<U2, U3>() * &m::<U3, U3>(); } // ACCEPT	&*&	2x3 and 3x3
fn p3787() { let _ = m::<U2, U3>() * Vector::<f64, U3>::default(); } // ACCEPT	matrix * vector	2x3 and 3
fn p3788() { let _ = Matrix::<f64, U2, U4>::identity(); } // REFUSE	identity	2x4
fn p3789() { let _ = <Matrix::<f64, U2, U4> as One>::one(); } // REFUSE	one	2x4
fn p3790() { m::<U2, U4>().transpose(); } // REFUSE	transpose	2x4
fn p3791() { let _ = m::<U2, U4>().pow(2); } // REFUSE	pow	2x4
fn p3792() { let _ = m::<U2, U4>().determinant(); } // REFUSE	determinant	2x4
fn p3793() { let _ = m::<U2, U4>().inverse(); } // REFUSE	inverse	2x4
fn p3794() { let _ = m::<U2, U4>().cofactor((0, 0)); } // REFUSE	cofactor	2x4
fn p3795() { let _: Matrix<f64, U4, U2> = m::<U2, U4>().transposed(); } // ACCEPT	transposed	2x4
fn p3796() { let _: Matrix<f64, U2, U4> = m::<U2, U4>().transposed(); } // REFUSE	transposed	2x4
fn p3797() { let _ = Matrix::<f64, U2, U4>::diag([0.0; 0]); } // REFUSE	diag	2x4 from 0
fn p3798() { let _ = Matrix::<f64, U2, U4>::diag([0.0; 2]); } // ACCEPT	diag	2x4 from 2
fn p3799() { let _ = Matrix::<f64, U2, U4>::diag([0.0; 3]); } // REFUSE	diag	2x4 from 3
fn p3800() { let _ = Matrix::<f64, U2, U4>::diag([0.0; 4]); } // REFUSE	diag	2x4 from 4
fn p3801() { let _ = Matrix::<f64, U2, U4>::new([[0.0; 4]; 1]); } // REFUSE	Matrix::new	2x4 from 1x4
fn p3802() { let _ = m::<U2, U4>().relative_eq(&m::<U1, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	2x4 and 1x4
fn p3803() { let _ = m::<U2, U4>().ulps_eq(&m::<U1, U4>(), 0.0, 4); } // REFUSE	ulps_eq	2x4 and 1x4
fn p3804() { let _ = m::<U2, U4>() == m::<U1, U4>(); } // REFUSE	==	2x4 and 1x4
fn p3805() { let _ = m::<U2, U4>() + m::<U1, U4>(); } // REFUSE	+	2x4 and 1x4
fn p3806() { let mut x = m::<U2, U4>(); x -= m::<U1, U4>(); } // REFUSE	-=	2x4 and 1x4
fn p3807() { let _ = m::<U2, U4>() * m::<U1, U4>(); } // REFUSE	*	2x4 and 1x4
fn p3808() { let _ = &m::<U2, U4>() * &m::<U1, U4>(); } // REFUSE	&*&	2x4 and 1x4
fn p3809() { let _ = m::<U2, U4>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	2x4 and 1
fn p3810() { let _ = Matrix::<f64, U2, U4>::new([[0.0; 3]; 2]); } // REFUSE	Matrix::new	2x4 from 2x3
fn p3811() { let _ = m::<U2, U4>().relative_eq(&m::<U2, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	2x4 and 2x3
fn p3812() { let _ = m::<U2, U4>().ulps_eq(&m::<U2, U3>(), 0.0, 4); } // REFUSE	ulps_eq	2x4 and 2x3
fn p3813() { let _ = m::<U2, U4>() == m::<U2, U3>(); } // REFUSE	==	2x4 and 2x3
fn p3814() { let _ = m::<U2, U4>() + m::<U2, U3>(); } // REFUSE	+	2x4 and 2x3
fn p3815() { let mut x = m::<U2, U4>(); x -= m::<U2, U3>(); } // REFUSE	-=	2x4 and 2x3
fn p3816() { let _ = m::<U2, U4>() * m::<U2, U3>(); } // REFUSE	*	2x4 and 2x3
fn p3817() { let _ = &m::<U2, U4>() * &m::<U2, U3>(); } // REFUSE	&*&	2x4 and 2x3
fn p3818() { let _ = Matrix::<f64, U2, U4>::new([[0.0; 4]; 2]); } // ACCEPT	Matrix::new	2x4 from 2x4
fn p3819() { let _ = m::<U2, U4>().relative_eq(&m::<U2, U4>(), 0.0, 0.0); } // ACCEPT	relative_eq	2x4 and 2x4
fn p3820() { let _ = m::<U2, U4>().ulps_eq(&m::<U2, U4>(), 0.0, 4); } // ACCEPT	ulps_eq	2x4 and 2x4
fn p3821() { let _ = m::<U2, U4>() == m::<U2, U4>(); } // ACCEPT	==	2x4 and 2x4
fn p3822() { let _ = m::<U2, U4>() + m::<U2, U4>(); } // ACCEPT	+	2x4 and 2x4
fn p3823() { let mut x = m::<U2, U4>(); x -= m::<U2, U4>(); } // ACCEPT	-=	2x4 and 2x4
fn p3824() { let _ = m::<U2, U4>() * m::<U2, U4>(); } // REFUSE	*	2x4 and 2x4
fn p3825() { let _ = &m::<U2, U4>() * &m::<U2, U4>(); } // REFUSE	&*&	2x4 and 2x4
fn p3826() { let _ = Matrix::<f64, U2, U4>::new([[0.0; 5]; 2]); } // REFUSE	Matrix::new	2x4 from 2x5
fn p3827() { let _ = m::<U2, U4>().relative_eq(&m::<U2, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	2x4 and 2x5
fn p3828() { let _ = m::<U2, U4>().ulps_eq(&m::<U2, U5>(), 0.0, 4); } // REFUSE	ulps_eq	2x4 and 2x5
fn p3829() { let _ = m::<U2, U4>() == m::<U2, U5>(); } // REFUSE	==	2x4 and 2x5
fn p3830() { let _ = m::<U2, U4>() + m::<U2, U5>(); } // REFUSE	+	2x4 and 2x5
fn p3831() { let mut x = m::<U2, U4>(); x -= m::<U2, U5>(); } // REFUSE	-=	2x4 and 2x5
fn p3832() { let _ = m::<U2, U4>() * m::<U2, U5>(); } // REFUSE	*	2x4 and 2x5
fn p3833() { let _ = &m::<U2, U4>() * &m::<U2, U5>(); } // REFUSE	&*&	2x4 and 2x5
fn p3834() { let _ = Matrix::<f64, U2, U4>::new([[0.0; 4]; 3]); } // REFUSE	Matrix::new	2x4 from 3x4
fn p3835() { let _ = m::<U2, U4>().relative_eq(&m::<U3, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	2x4 and 3x4
fn p3836() { let _ = m::<U2, U4>().ulps_eq(&m::<U3, U4>(), 0.0, 4); } // REFUSE	ulps_eq	2x4 and 3x4
fn p3837() { let _ = m::<U2, U4>() == m::<U3, U4>(); } // REFUSE	==	2x4 and 3x4
fn p3838() { let _ = m::<U2, U4>() + m::<U3, U4>(); } // REFUSE	+	2x4 and 3x4
fn p3839() { let mut x = m::<U2, U4>(); x -= m::<U3, U4>(); } // REFUSE	-=	2x4 and 3x4
fn p3840() { let _ = m::<U2, U4>() * m::<U3, U4>(); } // REFUSE	*	2x4 and 3x4
fn p3841() { let _ = &m::<U2, U4>() * &m::<U3, U4>(); } // REFUSE	&*&	2x4 and 3x4
fn p3842() { let _ = m::<U2, U4>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	2x4 and 3
fn p3843() { let _ = Matrix::<f64, U2, U4>::new([[0.0; 2]; 4]); } // REFUSE	Matrix::new	2x4 from 4x2
fn p3844() { let _ = m::<U2, U4>().relative_eq(&m::<U4, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x4 and 4x2
fn p3845() { let _ = m::<U2, U4>().ulps_eq(&m::<U4, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x4 and 4x2
fn p3846() { let _ = m::<U2, U4>() == m::<U4, U2>(); } // REFUSE	==	2x4 and 4x2
fn p3847() { let _ = m::<U2, U4>() + m::<U4, U2>(); } // REFUSE	+	2x4 and 4x2
fn p3848() { let mut x = m::<U2, U4>(); x -= m::<U4, U2>(); } // REFUSE	-=	2x4 and 4x2
fn p3849() { let _ = m::<U2, U4>() * m::<U4, U2>(); } // ACCEPT	*	2x4 and 4x2
fn p3850() { let _ = &m::<U2, U4>() * &m::<U4, U2>(); } // ACCEPT	&*&	2x4 and 4x2
fn p3851() { let _ = m::<U2, U4>() * Vector::<f64, U4>::default(); } // ACCEPT	matrix * vector	2x4 and 4
fn p3852() { let _ = Matrix::<f64, U2, U5>::identity(); } // REFUSE	identity	2x5
fn p3853() { let _ = <Matrix::<f64, U2, U5> as One>::one(); } // REFUSE	one	2x5
fn p3854() { m::<U2, U5>().transpose(); } // REFUSE	transpose	2x5
fn p3855() { let _ = m::<U2, U5>().pow(2); } // REFUSE	pow	2x5
fn p3856() { let _ = m::<U2, U5>().determinant(); } // REFUSE	determinant	2x5
fn p3857() { let _ = m::<U2, U5>().inverse(); } // REFUSE	inverse	2x5
fn p3858() { let _ = m::<U2, U5>().cofactor((0, 0)); } // REFUSE	cofactor	2x5
fn p3859() { let _: Matrix<f64, U5, U2> = m::<U2, U5>().transposed(); } // ACCEPT	transposed	2x5
fn p3860() { let _: Matrix<f64, U2, U5> = m::<U2, U5>().transposed(); } // REFUSE	transposed	2x5
fn p3861() { let _ = Matrix::<f64, U2, U5>::diag([0.0; 0]); } // REFUSE	diag	2x5 from 0
fn p3862() { let _ = Matrix::<f64, U2, U5>::diag([0.0; 2]); } // ACCEPT	diag	2x5 from 2
fn p3863() { let _ = Matrix::<f64, U2, U5>::diag([0.0; 3]); } // REFUSE	diag	2x5 from 3
fn p3864() { let _ = Matrix::<f64, U2, U5>::diag([0.0; 5]); } // REFUSE	diag	2x5 from 5
fn p3865() { let _ = Matrix::<f64, U2, U5>::new([[0.0; 5]; 1]); } // REFUSE	Matrix::new	2x5 from 1x5
fn p3866() { let _ = m::<U2, U5>().relative_eq(&m::<U1, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	2x5 and 1x5
fn p3867() { let _ = m::<U2, U5>().ulps_eq(&m::<U1, U5>(), 0.0, 4); } // REFUSE	ulps_eq	2x5 and 1x5
fn p3868() { let _ = m::<U2, U5>() == m::<U1, U5>(); } // REFUSE	==	2x5 and 1x5
fn p3869() { let _ = m::<U2, U5>() + m::<U1, U5>(); } // REFUSE	+	2x5 and 1x5
fn p3870() { let mut x = m::<U2, U5>(); x -= m::<U1, U5>(); } // REFUSE	-=	2x5 and 1x5
fn p3871() { let _ = m::<U2, U5>() * m::<U1, U5>(); } // REFUSE	*	2x5 and 1x5
fn p3872() { let _ = &m::<U2, U5>() * &m::<U1, U5>(); } // REFUSE	&*&	2x5 and 1x5
fn p3873() { let _ = m::<U2, U5>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	2x5 and 1
fn p3874() { let _ = Matrix::<f64, U2, U5>::new([[0.0; 4]; 2]); } // REFUSE	Matrix::new	2x5 from 2x4
fn p3875() { let _ = m::<U2, U5>().relative_eq(&m::<U2, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	2x5 and 2x4
fn p3876() { let _ = m::<U2, U5>().ulps_eq(&m::<U2, U4>(), 0.0, 4); } // REFUSE	ulps_eq	2x5 and 2x4
fn p3877() { let _ = m::<U2, U5>() == m::<U2, U4>(); } // REFUSE	==	2x5 and 2x4
fn p3878() { let _ = m::<U2, U5>() + m::<U2, U4>(); } // REFUSE	+	2x5 and 2x4
fn p3879() { let mut x = m::<U2, U5>(); x -= m::<U2, U4>(); } // REFUSE	-=	2x5 and 2x4
fn p3880() { let _ = m::<U2, U5>() * m::<U2, U4>(); } // REFUSE	*	2x5 and 2x4
fn p3881() { let _ = &m::<U2, U5>() * &m::<U2, U4>(); } // REFUSE	&*&	2x5 and 2x4
fn p3882() { let _ = Matrix::<f64, U2, U5>::new([[0.0; 5]; 2]); } // ACCEPT	Matrix::new	2x5 from 2x5
fn p3883() { let _ = m::<U2, U5>().relative_eq(&m::<U2, U5>(), 0.0, 0.0); } // ACCEPT	relative_eq	2x5 and 2x5
fn p3884() { let _ = m::<U2, U5>().ulps_eq(&m::<U2, U5>(), 0.0, 4); } // ACCEPT	ulps_eq	2x5 and 2x5
fn p3885() { let _ = m::<U2, U5>() == m::<U2, U5>(); } // ACCEPT	==	2x5 and 2x5
fn p3886() { let _ = m::<U2, U5>() + m::<U2, U5>(); } // ACCEPT	+	2x5 and 2x5
fn p3887() { let mut x = m::<U2, U5>(); x -= m::<U2, U5>(); } // ACCEPT	-=	2x5 and 2x5
fn p3888() { let _ = m::<U2, U5>() * m::<U2, U5>(); } // REFUSE	*	2x5 and 2x5
fn p3889() { let _ = &m::<U2, U5>() * &m::<U2, U5>(); } // REFUSE	&*&	2x5 and 2x5
fn p3890() { let _ = Matrix::<f64, U2, U5>::new([[0.0; 6]; 2]); } // REFUSE	Matrix::new	2x5 from 2x6
fn p3891() { let _ = m::<U2, U5>().relative_eq(&m::<U2, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	2x5 and 2x6
fn p3892() { let _ = m::<U2, U5>().ulps_eq(&m::<U2, U6>(), 0.0, 4); } // REFUSE	ulps_eq	2x5 and 2x6
fn p3893() { let _ = m::<U2, U5>() == m::<U2, U6>(); } // REFUSE	==	2x5 and 2x6
fn p3894() { let _ = m::<U2, U5>() + m::<U2, U6>(); } // REFUSE	+	2x5 and 2x6
fn p3895() { let mut x = m::<U2, U5>(); x -= m::<U2, U6>(); } // REFUSE	-=	2x5 and 2x6
fn p3896() { let _ = m::<U2, U5>() * m::<U2, U6>(); } // REFUSE	*	2x5 and 2x6
fn p3897() { let _ = &m::<U2, U5>() * &m::<U2, U6>(); } // REFUSE	&*&	2x5 and 2x6
fn p3898() { let _ = Matrix::<f64, U2, U5>::new([[0.0; 5]; 3]); } // REFUSE	Matrix::new	2x5 from 3x5
fn p3899() { let _ = m::<U2, U5>().relative_eq(&m::<U3, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	2x5 and 3x5
fn p3900() { let _ = m::<U2, U5>().ulps_eq(&m::<U3, U5>(), 0.0, 4); } // REFUSE	ulps_eq	2x5 and 3x5
fn p3901() { let _ = m::<U2, U5>() == m::<U3, U5>(); } // REFUSE	==	2x5 and 3x5
fn p3902() { let _ = m::<U2, U5>() + m::<U3, U5>(); } // REFUSE	+	2x5 and 3x5
fn p3903() { let mut x = m::<U2, U5>(); x -= m::<U3, U5>(); } // REFUSE	-=	2x5 and 3x5
fn p3904() { let _ = m::<U2, U5>() * m::<U3, U5>(); } // REFUSE	*	2x5 and 3x5
fn p3905() { let _ = &m::<U2, U5>() * &m::<U3, U5>(); } // REFUSE	&*&	2x5 and 3x5
fn p3906() { let _ = m::<U2, U5>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	2x5 and 3
fn p3907() { let _ = Matrix::<f64, U2, U5>::new([[0.0; 2]; 5]); } // REFUSE	Matrix::new	2x5 from 5x2
fn p3908() { let _ = m::<U2, U5>().relative_eq(&m::<U5, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x5 and 5x2
fn p3909() { let _ = m::<U2, U5>().ulps_eq(&m::<U5, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x5 and 5x2
fn p3910() { let _ = m::<U2, U5>() == m::<U5, U2>(); } // REFUSE	==	2x5 and 5x2
fn p3911() { let _ = m::<U2, U5>() + m::<U5, U2>(); } // REFUSE	+	2x5 and 5x2
fn p3912() { let mut x = m::<U2, U5>(); x -= m::<U5, U2>(); } // REFUSE	-=	2x5 and 5x2
fn p3913() { let _ = m::<U2, U5>() * m::<U5, U2>(); } // ACCEPT	*	2x5 and 5x2
fn p3914() { let _ = &m::<U2, U5>() * &m::<U5, U2>(); } // ACCEPT	&*&	2x5 and 5x2
fn p3915() { let _ = m::<U2, U5>() * Vector::<f64, U5>::default(); } // ACCEPT	matrix * vector	2x5 and 5
fn p3916() { let _ = Matrix::<f64, U2, U6>::identity(); } // REFUSE	identity	2x6
fn p3917() { let _ = <Matrix::<f64, U2, U6> as One>::one(); } // REFUSE	one	2x6
fn p3918() { m::<U2, U6>().transpose(); } // REFUSE	transpose	2x6
fn p3919() { let _ = m::<U2, U6>().pow(2); } // REFUSE	pow	2x6
fn p3920() { let _ = m::<U2, U6>().determinant(); } // REFUSE	determinant	2x6
fn p3921() { let _ = m::<U2, U6>().inverse(); } // REFUSE	inverse	2x6
fn p3922() { let _ = m::<U2, U6>().cofactor((0, 0)); } // REFUSE	cofactor	2x6
fn p3923() { let _: Matrix<f64, U6, U2> = m::<U2, U6>().transposed(); } // ACCEPT	transposed	2x6
fn p3924() { let _: Matrix<f64, U2, U6> = m::<U2, U6>().transposed(); } // REFUSE	transposed	2x6
fn p3925() { let _ = Matrix::<f64, U2, U6>::diag([0.0; 0]); } // REFUSE	diag	2x6 from 0
fn p3926() { let _ = Matrix::<f64, U2, U6>::diag([0.0; 2]); } // ACCEPT	diag	2x6 from 2
fn p3927() { let _ = Matrix::<f64, U2, U6>::diag([0.0; 3]); } // REFUSE	diag	2x6 from 3
fn p3928() { let _ = Matrix::<f64, U2, U6>::diag([0.0; 6]); } // REFUSE	diag	2x6 from 6
fn p3929() { let _ = Matrix::<f64, U2, U6>::new([[0.0; 6]; 1]); } // REFUSE	Matrix::new	2x6 from 1x6
fn p3930() { let _ = m::<U2, U6>().relative_eq(&m::<U1, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	2x6 and 1x6
fn p3931() { let _ = m::<U2, U6>().ulps_eq(&m::<U1, U6>(), 0.0, 4); } // REFUSE	ulps_eq	2x6 and 1x6
fn p3932() { let _ = m::<U2, U6>() == m::<U1, U6>(); } // REFUSE	==	2x6 and 1x6
fn p3933() { let _ = m::<U2, U6>() + m::<U1, U6>(); } // REFUSE	+	2x6 and 1x6
fn p3934() { let mut x = m::<U2, U6>(); x -= m::<U1, U6>(); } // REFUSE	-=	2x6 and 1x6
fn p3935() { let _ = m::<U2, U6>() * m::<U1, U6>(); } // REFUSE	*	2x6 and 1x6
fn p3936() { let _ = &m::<U2, U6>() * &m::<U1, U6>(); } // REFUSE	&*&	2x6 and 1x6
fn p3937() { let _ = m::<U2, U6>() * Vector::<f64, U1>::default(); } // REFUSE	matrix * vector	2x6 and 1
fn p3938() { let _ = Matrix::<f64, U2, U6>::new([[0.0; 5]; 2]); } // REFUSE	Matrix::new	2x6 from 2x5
fn p3939() { let _ = m::<U2, U6>().relative_eq(&m::<U2, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	2x6 and 2x5
fn p3940() { let _ = m::<U2, U6>().ulps_eq(&m::<U2, U5>(), 0.0, 4); } // REFUSE	ulps_eq	2x6 and 2x5
fn p3941() { let _ = m::<U2, U6>() == m::<U2, U5>(); } // REFUSE	==	2x6 and 2x5
fn p3942() { let _ = m::<U2, U6>() + m::<U2, U5>(); } // REFUSE	+	2x6 and 2x5
fn p3943() { let mut x = m::<U2, U6>(); x -= m::<U2, U5>(); } // REFUSE	-=	2x6 and 2x5
fn p3944() { let _ = m::<U2, U6>() * m::<U2, U5>(); } // REFUSE	*	2x6 and 2x5
fn p3945() { let _ = &m::<U2, U6>() * &m::<U2, U5>(); } // REFUSE	&*&	2x6 and 2x5
fn p3946() { let _ = Matrix::<f64, U2, U6>::new([[0.0; 6]; 2]); } // ACCEPT	Matrix::new	2x6 from 2x6
fn p3947() { let _ = m::<U2, U6>().relative_eq(&m::<U2, U6>(), 0.0, 0.0); } // ACCEPT	relative_eq	2x6 and 2x6
fn p3948() { let _ = m::<U2, U6>().ulps_eq(&m::<U2, U6>(), 0.0, 4); } // ACCEPT	ulps_eq	2x6 and 2x6
fn p3949() { let _ = m::<U2, U6>() == m::<U2, U6>(); } // ACCEPT	==	2x6 and 2x6
fn p3950() { let _ = m::<U2, U6>() + m::<U2, U6>(); } // ACCEPT	+	2x6 and 2x6
fn p3951() { let mut x = m::<U2, U6>(); x -= m::<U2, U6>(); } // ACCEPT	-=	2x6 and 2x6
fn p3952() { let _ = m::<U2, U6>() * m::<U2, U6>(); } // REFUSE	*	2x6 and 2x6
fn p3953() { let _ = &m::<U2, U6>() * &m::<U2, U6>(); } // REFUSE	&*&	2x6 and 2x6
fn p3954() { let _ = Matrix::<f64, U2, U6>::new([[0.0; 7]; 2]); } // REFUSE	Matrix::new	2x6 from 2x7
fn p3955() { let _ = m::<U2, U6>().relative_eq(&m::<U2, U7>(), 0.0, 0.0); } // REFUSE	relative_eq	2x6 and 2x7
fn p3956() { let _ = m::<U2, U6>().ulps_eq(&m::<U2, U7>(), 0.0, 4); } // REFUSE	ulps_eq	2x6 and 2x7
fn p3957() { let _ = m::<U2, U6>() == m::<U2, U7>(); } // REFUSE	==	2x6 and 2x7
fn p3958() { let _ = m::<U2, U6>() + m::<U2, U7>(); } // REFUSE	+	2x6 and 2x7
fn p3959() { let mut x = m::<U2, U6>(); x -= m::<U2, U7>(); } // REFUSE	-=	2x6 and 2x7
fn p3960() { let _ = m::<U2, U6>() * m::<U2, U7>(); } // REFUSE	*	2x6 and 2x7
fn p3961() { let _ = &m::<U2, U6>() * &m::<U2, U7>(); } // REFUSE	&*&	2x6 and 2x7
fn p3962() { let _ = Matrix::<f64, U2, U6>::new([[0.0; 6]; 3]); } // REFUSE	Matrix::new	2x6 from 3x6
fn p3963() { let _ = m::<U2, U6>().relative_eq(&m::<U3, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	2x6 and 3x6
fn p3964() { let _ = m::<U2, U6>().ulps_eq(&m::<U3, U6>(), 0.0, 4); } // REFUSE	ulps_eq	2x6 and 3x6
fn p3965() { let _ = m::<U2, U6>() == m::<U3, U6>(); } // REFUSE	==	2x6 and 3x6
fn p3966() { let _ = m::<U2, U6>() + m::<U3, U6>(); } // REFUSE	+	2x6 and 3x6
fn p3967() { let mut x = m::<U2, U6>(); x -= m::<U3, U6>(); } // REFUSE	-=	2x6 and 3x6
fn p3968() { let _ = m::<U2, U6>() * m::<U3, U6>(); } // REFUSE	*	2x6 and 3x6
fn p3969() { let _ = &m::<U2, U6>() * &m::<U3, U6>(); } // REFUSE	&*&	2x6 and 3x6
fn p3970() { let _ = m::<U2, U6>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	2x6 and 3
fn p3971() { let _ = Matrix::<f64, U2, U6>::new([[0.0; 2]; 6]); } // REFUSE	Matrix::new	2x6 from 6x2
fn p3972() { let _ = m::<U2, U6>().relative_eq(&m::<U6, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	2x6 and 6x2
fn p3973() { let _ = m::<U2, U6>().ulps_eq(&m::<U6, U2>(), 0.0, 4); } // REFUSE	ulps_eq	2x6 and 6x2
fn p3974() { let _ = m::<U2, U6>() == m::<U6, U2>(); } // REFUSE	==	2x6 and 6x2
fn p3975() { let _ = m::<U2, U6>() + m::<U6, U2>(); } // REFUSE	+	2x6 and 6x2
fn p3976() { let mut x = m::<U2, U6>(); x -= m::<U6, U2>(); } // REFUSE	-=	2x6 and 6x2
fn p3977() { let _ = m::<U2, U6>() * m::<U6, U2>(); } // ACCEPT	*	2x6 and 6x2
fn p3978() { let _ = &m::<U2, U6>() * &m::<U6, U2>(); } // ACCEPT	&*&	2x6 and 6x2
fn p3979() { let _ = m::<U2, U6>() * Vector::<f64, U6>::default(); } // ACCEPT	matrix * vector	2x6 and 6
fn p3980() { let _ = Matrix::<f64, U3, U0>::identity(); } // REFUSE	identity	3x0
fn p3981() { let _ = <Matrix::<f64, U3, U0> as One>::one(); } // REFUSE	one	3x0
fn p3982() { m::<U3, U0>().transpose(); } // REFUSE	transpose	3x0
fn p3983() { let _ = m::<U3, U0>().pow(2); } // REFUSE	pow	3x0
fn p3984() { let _ = m::<U3, U0>().determinant(); } // REFUSE	determinant	3x0
fn p3985() { let _ = m::<U3, U0>().inverse(); } // REFUSE	inverse	3x0
fn p3986() { let _ = m::<U3, U0>().cofactor((0, 0)); } // REFUSE	cofactor	3x0
fn p3987() { let _: Matrix<f64, U0, U3> = m::<U3, U0>().transposed(); } // ACCEPT	transposed	3x0
fn p3988() { let _: Matrix<f64, U3, U0> = m::<U3, U0>().transposed(); } // REFUSE	transposed	3x0
fn p3989() { let _ = Matrix::<f64, U3, U0>::diag([0.0; 0]); } // ACCEPT	diag	3x0 from 0
fn p3990() { let _ = Matrix::<f64, U3, U0>::diag([0.0; 1]); } // REFUSE	diag	3x0 from 1
fn p3991() { let _ = Matrix::<f64, U3, U0>::diag([0.0; 3]); } // REFUSE	diag	3x0 from 3
fn p3992() { let _ = Matrix::<f64, U3, U0>::new([[0.0; 3]; 0]); } // REFUSE	Matrix::new	3x0 from 0x3
fn p3993() { let _ = m::<U3, U0>().relative_eq(&m::<U0, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x0 and 0x3
fn p3994() { let _ = m::<U3, U0>().ulps_eq(&m::<U0, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x0 and 0x3
fn p3995() { let _ = m::<U3, U0>() == m::<U0, U3>(); } // REFUSE	==	3x0 and 0x3
fn p3996() { let _ = m::<U3, U0>() + m::<U0, U3>(); } // REFUSE	+	3x0 and 0x3
fn p3997() { let mut x = m::<U3, U0>(); x -= m::<U0, U3>(); } // REFUSE	-=	3x0 and 0x3
fn p3998() { let _ = m::<U3, U0>() * m::<U0, U3>(); } // ACCEPT	*	3x0 and 0x3
fn p3999() { let _ = &m::<U3, U0>() * &m::<U0, U3>(); } // ACCEPT	&*&	3x0 and 0x3
fn p4000() { let _ = m::<U3, U0>() * Vector::<f64, U0>::default(); } // ACCEPT	matrix * vector	3x0 and 0
fn p4001() { let _ = Matrix::<f64, U3, U0>::new([[0.0; 0]; 2]); } // REFUSE	Matrix::new	3x0 from 2x0
fn p4002() { let _ = m::<U3, U0>().relative_eq(&m::<U2, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	3x0 and 2x0
fn p4003() { let _ = m::<U3, U0>().ulps_eq(&m::<U2, U0>(), 0.0, 4); } // REFUSE	ulps_eq	3x0 and 2x0
fn p4004() { let _ = m::<U3, U0>() == m::<U2, U0>(); } // REFUSE	==	3x0 and 2x0
fn p4005() { let _ = m::<U3, U0>() + m::<U2, U0>(); } // REFUSE	+	3x0 and 2x0
fn p4006() { let mut x = m::<U3, U0>(); x -= m::<U2, U0>(); } // REFUSE	-=	3x0 and 2x0
fn p4007() { let _ = m::<U3, U0>() * m::<U2, U0>(); } // REFUSE	*	3x0 and 2x0
fn p4008() { let _ = &m::<U3, U0>() * &m::<U2, U0>(); } // REFUSE	&*&	3x0 and 2x0
fn p4009() { let _ = m::<U3, U0>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	3x0 and 2
fn p4010() { let _ = Matrix::<f64, U3, U0>::new([[0.0; 0]; 3]); } // ACCEPT	Matrix::new	3x0 from 3x0
fn p4011() { let _ = m::<U3, U0>().relative_eq(&m::<U3, U0>(), 0.0, 0.0); } // ACCEPT	relative_eq	3x0 and 3x0
fn p4012() { let _ = m::<U3, U0>().ulps_eq(&m::<U3, U0>(), 0.0, 4); } // ACCEPT	ulps_eq	3x0 and 3x0
fn p4013() { let _ = m::<U3, U0>() == m::<U3, U0>(); } // ACCEPT	==	3x0 and 3x0
fn p4014() { let _ = m::<U3, U0>() + m::<U3, U0>(); } // ACCEPT	+	3x0 and 3x0
fn p4015() { let mut x = m::<U3, U0>(); x -= m::<U3, U0>(); } // ACCEPT	-=	3x0 and 3x0
fn p4016() { let _ = m::<U3, U0>() * m::<U3, U0>(); } // REFUSE	*	3x0 and 3x0
fn p4017() { let _ = &m::<U3, U0>() * &m::<U3, U0>(); } // REFUSE	&*&	3x0 and 3x0
fn p4018() { let _ = Matrix::<f64, U3, U0>::new([[0.0; 1]; 3]); } // REFUSE	Matrix::new	3x0 from 3x1
fn p4019() { let _ = m::<U3, U0>().relative_eq(&m::<U3, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	3x0 and 3x1
fn p4020() { let _ = m::<U3, U0>().ulps_eq(&m::<U3, U1>(), 0.0, 4); } // REFUSE	ulps_eq	3x0 and 3x1
fn p4021() { let _ = m::<U3, U0>() == m::<U3, U1>(); } // REFUSE	==	3x0 and 3x1
fn p4022() { let _ = m::<U3, U0>() + m::<U3, U1>(); } // REFUSE	+	3x0 and 3x1
fn p4023() { let mut x = m::<U3, U0>(); x -= m::<U3, U1>(); } // REFUSE	-=	3x0 and 3x1
fn p4024() { let _ = m::<U3, U0>() * m::<U3, U1>(); } // REFUSE	*	3x0 and 3x1
fn p4025() { let _ = &m::<U3, U0>() * &m::<U3, U1>(); } // REFUSE	&*&	3x0 and 3x1
fn p4026() { let _ = m::<U3, U0>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	3x0 and 3
fn p4027() { let _ = Matrix::<f64, U3, U0>::new([[0.0; 0]; 4]); } // REFUSE	Matrix::new	3x0 from 4x0
fn p4028() { let _ = m::<U3, U0>().relative_eq(&m::<U4, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	3x0 and 4x0
fn p4029() { let _ = m::<U3, U0>().ulps_eq(&m::<U4, U0>(), 0.0, 4); } // REFUSE	ulps_eq	3x0 and 4x0
fn p4030() { let _ = m::<U3, U0>() == m::<U4, U0>(); } // REFUSE	==	3x0 and 4x0
fn p4031() { let _ = m::<U3, U0>() + m::<U4, U0>(); } // REFUSE	+	3x0 and 4x0
fn p4032() { let mut x = m::<U3, U0>(); x -= m::<U4, U0>(); } // REFUSE	-=	3x0 and 4x0
fn p4033() { let _ = m::<U3, U0>() * m::<U4, U0>(); } // REFUSE	*	3x0 and 4x0
fn p4034() { let _ = &m::<U3, U0>() * &m::<U4, U0>(); } // REFUSE	&*&	3x0 and 4x0
fn p4035() { let _ = m::<U3, U0>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	3x0 and 4
fn p4036() { let _ = Matrix::<f64, U3, U1>::identity(); } // REFUSE	identity	3x1
fn p4037() { let _ = <Matrix::<f64, U3, U1> as One>::one(); } // REFUSE	one	3x1
fn p4038() { m::<U3, U1>().transpose(); } // REFUSE	transpose	3x1
fn p4039() { let _ = m::<U3, U1>().pow(2); } // REFUSE	pow	3x1
fn p4040() { let _ = m::<U3, U1>().determinant(); } // REFUSE	determinant	3x1
fn p4041() { let _ = m::<U3, U1>().inverse(); } // REFUSE	inverse	3x1
fn p4042() { let _ = m::<U3, U1>().cofactor((0, 0)); } // REFUSE	cofactor	3x1
fn p4043() { let _: Matrix<f64, U1, U3> = m::<U3, U1>().transposed(); } // ACCEPT	transposed	3x1
fn p4044() { let _: Matrix<f64, U3, U1> = m::<U3, U1>().transposed(); } // REFUSE	transposed	3x1
fn p4045() { let _ = Matrix::<f64, U3, U1>::diag([0.0; 0]); } // REFUSE	diag	3x1 from 0
fn p4046() { let _ = Matrix::<f64, U3, U1>::diag([0.0; 1]); } // ACCEPT	diag	3x1 from 1
fn p4047() { let _ = Matrix::<f64, U3, U1>::diag([0.0; 2]); } // REFUSE	diag	3x1 from 2
fn p4048() { let _ = Matrix::<f64, U3, U1>::diag([0.0; 3]); } // REFUSE	diag	3x1 from 3
fn p4049() { let _ = Matrix::<f64, U3, U1>::new([[0.0; 3]; 1]); } // REFUSE	Matrix::new	3x1 from 1x3
fn p4050() { let _ = m::<U3, U1>().relative_eq(&m::<U1, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x1 and 1x3
fn p4051() { let _ = m::<U3, U1>().ulps_eq(&m::<U1, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x1 and 1x3
fn p4052() { let _ = m::<U3, U1>() == m::<U1, U3>(); } // REFUSE	==	3x1 and 1x3
fn p4053() { let _ = m::<U3, U1>() + m::<U1, U3>(); } // REFUSE	+	3x1 and 1x3
fn p4054() { let mut x = m::<U3, U1>(); x -= m::<U1, U3>(); } // REFUSE	-=	3x1 and 1x3
fn p4055() { let _ = m::<U3, U1>() * m::<U1, U3>(); } // ACCEPT	*	3x1 and 1x3
fn p4056() { let _ = &m::<U3, U1>() * &m::<U1, U3>(); } // ACCEPT	&*&	3x1 and 1x3
fn p4057() { let _ = m::<U3, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	3x1 and 1
fn p4058() { let _ = Matrix::<f64, U3, U1>::new([[0.0; 1]; 2]); } // REFUSE	Matrix::new	3x1 from 2x1
fn p4059() { let _ = m::<U3, U1>().relative_eq(&m::<U2, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	3x1 and 2x1
fn p4060() { let _ = m::<U3, U1>().ulps_eq(&m::<U2, U1>(), 0.0, 4); } // REFUSE	ulps_eq	3x1 and 2x1
fn p4061() { let _ = m::<U3, U1>() == m::<U2, U1>(); } // REFUSE	==	3x1 and 2x1
fn p4062() { let _ = m::<U3, U1>() + m::<U2, U1>(); } // REFUSE	+	3x1 and 2x1
fn p4063() { let mut x = m::<U3, U1>(); x -= m::<U2, U1>(); } // REFUSE	-=	3x1 and 2x1
fn p4064() { let _ = m::<U3, U1>() * m::<U2, U1>(); } // REFUSE	*	3x1 and 2x1
fn p4065() { let _ = &m::<U3, U1>() * &m::<U2, U1>(); } // REFUSE	&*&	3x1 and 2x1
fn p4066() { let _ = m::<U3, U1>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	3x1 and 2
fn p4067() { let _ = Matrix::<f64, U3, U1>::new([[0.0; 0]; 3]); } // REFUSE	Matrix::new	3x1 from 3x0
fn p4068() { let _ = m::<U3, U1>().relative_eq(&m::<U3, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	3x1 and 3x0
fn p4069() { let _ = m::<U3, U1>().ulps_eq(&m::<U3, U0>(), 0.0, 4); } // REFUSE	ulps_eq	3x1 and 3x0
fn p4070() { let _ = m::<U3, U1>() == m::<U3, U0>(); } // REFUSE	==	3x1 and 3x0
fn p4071() { let _ = m::<U3, U1>() + m::<U3, U0>(); } // REFUSE	+	3x1 and 3x0
fn p4072() { let mut x = m::<U3, U1>(); x -= m::<U3, U0>(); } // REFUSE	-=	3x1 and 3x0
fn p4073() { let _ = m::<U3, U1>() * m::<U3, U0>(); } // REFUSE	*	3x1 and 3x0
fn p4074() { let _ = &m::<U3, U1>() * &m::<U3, U0>(); } // REFUSE	&*&	3x1 and 3x0
fn p4075() { let _ = Matrix::<f64, U3, U1>::new([[0.0; 1]; 3]); } // ACCEPT	Matrix::new	3x1 from 3x1
fn p4076() { let _ = m::<U3, U1>().relative_eq(&m::<U3, U1>(), 0.0, 0.0); } // ACCEPT	relative_eq	3x1 and 3x1
fn p4077() { let _ = m::<U3, U1>().ulps_eq(&m::<U3, U1>(), 0.0, 4); } // ACCEPT	ulps_eq	3x1 and 3x1
fn p4078() { let _ = m::<U3, U1>() == m::<U3, U1>(); } // ACCEPT	==	3x1 and 3x1
fn p4079() { let _ = m::<U3, U1>() + m::<U3, U1>(); } // ACCEPT	+	3x1 and 3x1
fn p4080() { let mut x = m::<U3, U1>(); x -= m::<U3, U1>(); } // ACCEPT	-=	3x1 and 3x1
fn p4081() { let _ = m::<U3, U1>() * m::<U3, U1>(); } // REFUSE	*	3x1 and 3x1
fn p4082() { let _ = &m::<U3, U1>() * &m::<U3, U1>(); } // REFUSE	&*&	3x1 and 3x1
fn p4083() { let _ = m::<U3, U1>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	3x1 and 3
fn p4084() { let _ = Matrix::<f64, U3, U1>::new([[0.0; 2]; 3]); } // REFUSE	Matrix::new	3x1 from 3x2
fn p4085() { let _ = m::<U3, U1>().relative_eq(&m::<U3, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	3x1 and 3x2
fn p4086() { let _ = m::<U3, U1>().ulps_eq(&m::<U3, U2>(), 0.0, 4); } // REFUSE	ulps_eq	3x1 and 3x2
fn p4087() { let _ = m::<U3, U1>() == m::<U3, U2>(); } // REFUSE	==	3x1 and 3x2
fn p4088() { let _ = m::<U3, U1>() + m::<U3, U2>(); } // REFUSE	+	3x1 and 3x2
fn p4089() { let mut x = m::<U3, U1>(); x -= m::<U3, U2>(); } // REFUSE	-=	3x1 and 3x2
fn p4090() { let _ = m::<U3, U1>() * m::<U3, U2>(); } // REFUSE	*	3x1 and 3x2
fn p4091() { let _ = &m::<U3, U1>() * &m::<U3, U2>(); } // REFUSE	&*&	3x1 and 3x2
fn p4092() { let _ = Matrix::<f64, U3, U1>::new([[0.0; 1]; 4]); } // REFUSE	Matrix::new	3x1 from 4x1
fn p4093() { let _ = m::<U3, U1>().relative_eq(&m::<U4, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	3x1 and 4x1
fn p4094() { let _ = m::<U3, U1>().ulps_eq(&m::<U4, U1>(), 0.0, 4); } // REFUSE	ulps_eq	3x1 and 4x1
fn p4095() { let _ = m::<U3, U1>() == m::<U4, U1>(); } // REFUSE	==	3x1 and 4x1
fn p4096() { let _ = m::<U3, U1>() + m::<U4, U1>(); } // REFUSE	+	3x1 and 4x1
fn p4097() { let mut x = m::<U3, U1>(); x -= m::<U4, U1>(); } // REFUSE	-=	3x1 and 4x1
fn p4098() { let _ = m::<U3, U1>() * m::<U4, U1>(); } // REFUSE	*	3x1 and 4x1
fn p4099() { let _ = &m::<U3, U1>() * &m::<U4, U1>(); } // REFUSE	&*&	3x1 and 4x1
fn p4100() { let _ = m::<U3, U1>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	3x1 and 4
fn p4101() { let _ = Matrix::<f64, U3, U2>::identity(); } // REFUSE	identity	3x2
fn p4102() { let _ = <Matrix::<f64, U3, U2> as One>::one(); } // REFUSE	one	3x2
fn p4103() { m::<U3, U2>().transpose(); } // REFUSE	transpose	3x2
fn p4104() { let _ = m::<U3, U2>().pow(2); } // REFUSE	pow	3x2
fn p4105() { let _ = m::<U3, U2>().determinant(); } // REFUSE	determinant	3x2
fn p4106() { let _ = m::<U3, U2>().inverse(); } // REFUSE	inverse	3x2
fn p4107() { let _ = m::<U3, U2>().cofactor((0, 0)); } // REFUSE	cofactor	3x2
fn p4108() { let _: Matrix<f64, U2, U3> = m::<U3, U2>().transposed(); } // ACCEPT	transposed	3x2
fn p4109() { let _: Matrix<f64, U3, U2> = m::<U3, U2>().transposed(); } // REFUSE	transposed	3x2
fn p4110() { let _ = Matrix::<f64, U3, U2>::diag([0.0; 0]); } // REFUSE	diag	3x2 from 0
fn p4111() { let _ = Matrix::<f64, U3, U2>::diag([0.0; 2]); } // ACCEPT	diag	3x2 from 2
fn p4112() { let _ = Matrix::<f64, U3, U2>::diag([0.0; 3]); } // REFUSE	diag	3x2 from 3
fn p4113() { let _ = Matrix::<f64, U3, U2>::new([[0.0; 2]; 2]); } // REFUSE	Matrix::new	3x2 from 2x2
fn p4114() { let _ = m::<U3, U2>().relative_eq(&m::<U2, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	3x2 and 2x2
fn p4115() { let _ = m::<U3, U2>().ulps_eq(&m::<U2, U2>(), 0.0, 4); } // REFUSE	ulps_eq	3x2 and 2x2
fn p4116() { let _ = m::<U3, U2>() == m::<U2, U2>(); } // REFUSE	==	3x2 and 2x2
fn p4117() { let _ = m::<U3, U2>() + m::<U2, U2>(); } // REFUSE	+	3x2 and 2x2
fn p4118() { let mut x = m::<U3, U2>(); x -= m::<U2, U2>(); } // REFUSE	-=	3x2 and 2x2
fn p4119() { let _ = m::<U3, U2>() * m::<U2, U2>(); } // ACCEPT	*	3x2 and 2x2
fn p4120() { let _ = &m::<U3, U2>() * &m::<U2, U2>(); } // ACCEPT	&*&	3x2 and 2x2
fn p4121() { let _ = m::<U3, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	3x2 and 2
fn p4122() { let _ = Matrix::<f64, U3, U2>::new([[0.0; 3]; 2]); } // REFUSE	Matrix::new	3x2 from 2x3
fn p4123() { let _ = m::<U3, U2>().relative_eq(&m::<U2, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x2 and 2x3
fn p4124() { let _ = m::<U3, U2>().ulps_eq(&m::<U2, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x2 and 2x3
fn p4125() { let _ = m::<U3, U2>() == m::<U2, U3>(); } // REFUSE	==	3x2 and 2x3
fn p4126() { let _ = m::<U3, U2>() + m::<U2, U3>(); } // REFUSE	+	3x2 and 2x3
fn p4127() { let mut x = m::<U3, U2>(); x -= m::<U2, U3>(); } // REFUSE	-=	3x2 and 2x3
fn p4128() { let _ = m::<U3, U2>() * m::<U2, U3>(); } // ACCEPT	*	3x2 and 2x3
fn p4129() { let _ = &m::<U3, U2>() * &m::<U2, U3>(); } // ACCEPT	&*&	3x2 and 2x3
fn p4130() { let _ = m::<U3, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	3x2 and 2
fn p4131() { let _ = Matrix::<f64, U3, U2>::new([[0.0; 1]; 3]); } // REFUSE	Matrix::new	3x2 from 3x1
fn p4132() { let _ = m::<U3, U2>().relative_eq(&m::<U3, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	3x2 and 3x1
fn p4133() { let _ = m::<U3, U2>().ulps_eq(&m::<U3, U1>(), 0.0, 4); } // REFUSE	ulps_eq	3x2 and 3x1
fn p4134() { let _ = m::<U3, U2>() == m::<U3, U1>(); } // REFUSE	==	3x2 and 3x1
fn p4135() { let _ = m::<U3, U2>() + m::<U3, U1>(); } // REFUSE	+	3x2 and 3x1
fn p4136() { let mut x = m::<U3, U2>(); x -= m::<U3, U1>(); } // REFUSE	-=	3x2 and 3x1
fn p4137() { let _ = m::<U3, U2>() * m::<U3, U1>(); } // REFUSE	*	3x2 and 3x1
fn p4138() { let _ = &m::<U3, U2>() * &m::<U3, U1>(); } // REFUSE	&*&	3x2 and 3x1
fn p4139() { let _ = m::<U3, U2>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	3x2 and 3
fn p4140() { let _ = Matrix::<f64, U3, U2>::new([[0.0; 2]; 3]); } // ACCEPT	Matrix::new	3x2 from 3x2
fn p4141() { let _ = m::<U3, U2>().relative_eq(&m::<U3, U2>(), 0.0, 0.0); } // ACCEPT	relative_eq	3x2 and 3x2
fn p4142() { let _ = m::<U3, U2>().ulps_eq(&m::<U3, U2>(), 0.0, 4); } // ACCEPT	ulps_eq	3x2 and 3x2
fn p4143() { let _ = m::<U3, U2>() == m::<U3, U2>(); } // ACCEPT	==	3x2 and 3x2
fn p4144() { let _ = m::<U3, U2>() + m::<U3, U2>(); } // ACCEPT	+	3x2 and 3x2
fn p4145() { let mut x = m::<U3, U2>(); x -= m::<U3, U2>(); } // ACCEPT	-=	3x2 and 3x2
fn p4146() { let _ = m::<U3, U2>() * m::<U3, U2>(); } // REFUSE	*	3x2 and 3x2
fn p4147() { let _ = &m::<U3, U2>() * &m::<U3, U2>(); } // REFUSE	&*&	3x2 and 3x2
fn p4148() { let _ = Matrix::<f64, U3, U2>::new([[0.0; 3]; 3]); } // REFUSE	Matrix::new	3x2 from 3x3
fn p4149() { let _ = m::<U3, U2>().relative_eq(&m::<U3, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x2 and 3x3
fn p4150() { let _ = m::<U3, U2>().ulps_eq(&m::<U3, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x2 and 3x3
fn p4151() { let _ = m::<U3, U2>() == m::<U3, U3>(); } // REFUSE	==	3x2 and 3x3
fn p4152() { let _ = m::<U3, U2>() + m::<U3, U3>(); } // REFUSE	+	3x2 and 3x3
fn p4153() { let mut x = m::<U3, U2>(); x -= m::<U3, U3>(); } // REFUSE	-=	3x2 and 3x3
fn p4154() { let _ = m::<U3, U2>() * m::<U3, U3>(); } // REFUSE	*	3x2 and 3x3
fn p4155() { let _ = &m::<U3, U2>() * &m::<U3, U3>(); } // REFUSE	&*&	3x2 and 3x3
fn p4156() { let _ = Matrix::<f64, U3, U2>::new([[0.0; 2]; 4]); } // REFUSE	Matrix::new	3x2 from 4x2
fn p4157() { let _ = m::<U3, U2>().relative_eq(&m::<U4, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	3x2 and 4x2
fn p4158() { let _ = m::<U3, U2>().ulps_eq(&m::<U4, U2>(), 0.0, 4); } // REFUSE	ulps_eq	3x2 and 4x2
fn p4159() { let _ = m::<U3, U2>() == m::<U4, U2>(); } // REFUSE	==	3x2 and 4x2
fn p4160() { let _ = m::<U3, U2>() + m::<U4, U2>(); } // REFUSE	+	3x2 and 4x2
fn p4161() { let mut x = m::<U3, U2>(); x -= m::<U4, U2>(); } // REFUSE	-=	3x2 and 4x2
fn p4162() { let _ = m::<U3, U2>() * m::<U4, U2>(); } // REFUSE	*	3x2 and 4x2
fn p4163() { let _ = &m::<U3, U2>() * &m::<U4, U2>(); } // REFUSE	&*&	3x2 and 4x2
fn p4164() { let _ = m::<U3, U2>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	3x2 and 4
fn p4165() { let _ = Matrix::<f64, U3, U3>::identity(); } // ACCEPT	identity	3x3
fn p4166() { let _ = <Matrix::<f64, U3, U3> as One>::one(); } // ACCEPT	one	3x3
fn p4167() { m::<U3, U3>().transpose(); } // ACCEPT	transpose	3x3
fn p4168() { let _ = m::<U3, U3>().pow(2); } // ACCEPT	pow	3x3
fn p4169() { let _ = m::<U3, U3>().determinant(); } // ACCEPT	determinant	3x3
fn p4170() { let _ = m::<U3, U3>().inverse(); } // ACCEPT	inverse	3x3
fn p4171() { let _ = m::<U3, U3>().cofactor((0, 0)); } // ACCEPT	cofactor	3x3
fn p4172() { let _: Matrix<f64, U3, U3> = m::<U3, U3>().transposed(); } // ACCEPT	transposed	3x3
fn p4173() { let _ = Matrix::<f64, U3, U3>::diag([0.0; 0]); } // REFUSE	diag	3x3 from 0
fn p4174() { let _ = Matrix::<f64, U3, U3>::diag([0.0; 3]); } // ACCEPT	diag	3x3 from 3
fn p4175() { let _ = Matrix::<f64, U3, U3>::diag([0.0; 4]); } // REFUSE	diag	3x3 from 4
fn p4176() { let _ = Matrix::<f64, U3, U3>::new([[0.0; 3]; 2]); } // REFUSE	Matrix::new	3x3 from 2x3
fn p4177() { let _ = m::<U3, U3>().relative_eq(&m::<U2, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x3 and 2x3
fn p4178() { let _ = m::<U3, U3>().ulps_eq(&m::<U2, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x3 and 2x3
fn p4179() { let _ = m::<U3, U3>() == m::<U2, U3>(); } // REFUSE	==	3x3 and 2x3
fn p4180() { let _ = m::<U3, U3>() + m::<U2, U3>(); } // REFUSE	+	3x3 and 2x3
fn p4181() { let mut x = m::<U3, U3>(); x -= m::<U2, U3>(); } // REFUSE	-=	3x3 and 2x3
fn p4182() { let _ = m::<U3, U3>() * m::<U2, U3>(); } // REFUSE	*	3x3 and 2x3
fn p4183() { let _ = &m::<U3, U3>() * &m::<U2, U3>(); } // REFUSE	&*&	3x3 and 2x3
fn p4184() { let _ = m::<U3, U3>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	3x3 and 2
fn p4185() { let _ = Matrix::<f64, U3, U3>::new([[0.0; 2]; 3]); } // REFUSE	Matrix::new	3x3 from 3x2
fn p4186() { let _ = m::<U3, U3>().relative_eq(&m::<U3, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	3x3 and 3x2
fn p4187() { let _ = m::<U3, U3>().ulps_eq(&m::<U3, U2>(), 0.0, 4); } // REFUSE	ulps_eq	3x3 and 3x2
fn p4188() { let _ = m::<U3, U3>() == m::<U3, U2>(); } // REFUSE	==	3x3 and 3x2
fn p4189() { let _ = m::<U3, U3>() + m::<U3, U2>(); } // REFUSE	+	3x3 and 3x2
fn p4190() { let mut x = m::<U3, U3>(); x -= m::<U3, U2>(); } // REFUSE	-=	3x3 and 3x2
fn p4191() { let _ = m::<U3, U3>() * m::<U3, U2>(); } // ACCEPT	*	3x3 and 3x2
fn p4192() { let _ = &m::<U3, U3>() * &m::<U3, U2>(); } // ACCEPT	&*&	3x3 and 3x2
fn p4193() { let _ = Matrix::<f64, U3, U3>::new([[0.0; 3]; 3]); } // ACCEPT	Matrix::new	3x3 from 3x3
fn p4194() { let _ = m::<U3, U3>().relative_eq(&m::<U3, U3>(), 0.0, 0.0); } // ACCEPT	relative_eq	3x3 and 3x3
fn p4195() { let _ = m::<U3, U3>().ulps_eq(&m::<U3, U3>(), 0.0, 4); } // ACCEPT	ulps_eq	3x3 and 3x3
fn p4196() { let _ = m::<U3, U3>() == m::<U3, U3>(); } // ACCEPT	==	3x3 and 3x3
fn p4197() { let _ = m::<U3, U3>() + m::<U3, U3>(); } // ACCEPT	+	3x3 and 3x3
fn p4198() { let mut x = m::<U3, U3>(); x -= m::<U3, U3>(); } // ACCEPT	-=	3x3 and 3x3
fn p4199() { let _ = m::<U3, U3>() * m::<U3, U3>(); } // ACCEPT	*	3x3 and 3x3
fn p4200() { let _ = &m::<U3, U3>() * &m::<U3, U3>(); } // ACCEPT	&*&	3x3 and 3x3
fn p4201() { let _ = Matrix::<f64, U3, U3>::new([[0.0; 4]; 3]); } // REFUSE	Matrix::new	3x3 from 3x4
fn p4202() { let _ = m::<U3, U3>().relative_eq(&m::<U3, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	3x3 and 3x4
fn p4203() { let _ = m::<U3, U3>().ulps_eq(&m::<U3, U4>(), 0.0, 4); } // REFUSE	ulps_eq	3x3 and 3x4
fn p4204() { let _ = m::<U3, U3>() == m::<U3, U4>(); } // REFUSE	==	3x3 and 3x4
fn p4205() { let _ = m::<U3, U3>() + m::<U3, U4>(); } // REFUSE	+	3x3 and 3x4
fn p4206() { let mut x = m::<U3, U3>(); x -= m::<U3, U4>(); } // REFUSE	-=	3x3 and 3x4
fn p4207() { let _ = m::<U3, U3>() * m::<U3, U4>(); } // ACCEPT	*	3x3 and 3x4
fn p4208() { let _ = &m::<U3, U3>() * &m::<U3, U4>(); } // ACCEPT	&*&	3x3 and 3x4
fn p4209() { let _ = Matrix::<f64, U3, U3>::new([[0.0; 3]; 4]); } // REFUSE	Matrix::new	3x3 from 4x3
fn p4210() { let _ = m::<U3, U3>().relative_eq(&m::<U4, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x3 and 4x3
fn p4211() { let _ = m::<U3, U3>().ulps_eq(&m::<U4, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x3 and 4x3
fn p4212() { let _ = m::<U3, U3>() == m::<U4, U3>(); } // REFUSE	==	3x3 and 4x3
fn p4213() { let _ = m::<U3, U3>() + m::<U4, U3>(); } // REFUSE	+	3x3 and 4x3
fn p4214() { let mut x = m::<U3, U3>(); x -= m::<U4, U3>(); } // REFUSE	-=	3x3 and 4x3
fn p4215() { let _ = m::<U3, U3>() * m::<U4, U3>(); } // REFUSE	*	3x3 and 4x3
fn p4216() { let _ = &m::<U3, U3>() * &m::<U4, U3>(); } // REFUSE	&*&	3x3 and 4x3
fn p4217() { let _ = m::<U3, U3>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	3x3 and 4
fn p4218() { let _ = Matrix::<f64, U3, U4>::identity(); } // REFUSE	identity	3x4
fn p4219() { let _ = <Matrix::<f64, U3, U4> as One>::one(); } // REFUSE	one	3x4
fn p4220() { m::<U3, U4>().transpose(); } // REFUSE	transpose	3x4
fn p4221() { let _ = m::<U3, U4>().pow(2); } // REFUSE	pow	3x4
fn p4222() { let _ = m::<U3, U4>().determinant(); } // REFUSE	determinant	3x4
fn p4223() { let _ = m::<U3, U4>().inverse(); } // REFUSE	inverse	3x4
fn p4224() { let _ = m::<U3, U4>().cofactor((0, 0)); } // REFUSE	cofactor	3x4
fn p4225() { let _: Matrix<f64, U4, U3> = m::<U3, U4>().transposed(); } // ACCEPT	transposed	3x4
fn p4226() { let _: Matrix<f64, U3, U4> = m::<U3, U4>().transposed(); } // REFUSE	transposed	3x4
fn p4227() { let _ = Matrix::<f64, U3, U4>::diag([0.0; 0]); } // REFUSE	diag	3x4 from 0
fn p4228() { let _ = Matrix::<f64, U3, U4>::diag([0.0; 3]); } // ACCEPT	diag	3x4 from 3
fn p4229() { let _ = Matrix::<f64, U3, U4>::diag([0.0; 4]); } // REFUSE	diag	3x4 from 4
fn p4230() { let _ = Matrix::<f64, U3, U4>::new([[0.0; 4]; 2]); } // REFUSE	Matrix::new	3x4 from 2x4
fn p4231() { let _ = m::<U3, U4>().relative_eq(&m::<U2, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	3x4 and 2x4
fn p4232() { let _ = m::<U3, U4>().ulps_eq(&m::<U2, U4>(), 0.0, 4); } // REFUSE	ulps_eq	3x4 and 2x4
fn p4233() { let _ = m::<U3, U4>() == m::<U2, U4>(); } // REFUSE	==	3x4 and 2x4
fn p4234() { let _ = m::<U3, U4>() + m::<U2, U4>(); } // REFUSE	+	3x4 and 2x4
fn p4235() { let mut x = m::<U3, U4>(); x -= m::<U2, U4>(); } // REFUSE	-=	3x4 and 2x4
fn p4236() { let _ = m::<U3, U4>() * m::<U2, U4>(); } // REFUSE	*	3x4 and 2x4
fn p4237() { let _ = &m::<U3, U4>() * &m::<U2, U4>(); } // REFUSE	&*&	3x4 and 2x4
fn p4238() { let _ = m::<U3, U4>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	3x4 and 2
fn p4239() { let _ = Matrix::<f64, U3, U4>::new([[0.0; 3]; 3]); } // REFUSE	Matrix::new	3x4 from 3x3
fn p4240() { let _ = m::<U3, U4>().relative_eq(&m::<U3, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x4 and 3x3
fn p4241() { let _ = m::<U3, U4>().ulps_eq(&m::<U3, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x4 and 3x3
fn p4242() { let _ = m::<U3, U4>() == m::<U3, U3>(); } // REFUSE	==	3x4 and 3x3
fn p4243() { let _ = m::<U3, U4>() + m::<U3, U3>(); } // REFUSE	+	3x4 and 3x3
fn p4244() { let mut x = m::<U3, U4>(); x -= m::<U3, U3>(); } // REFUSE	-=	3x4 and 3x3
fn p4245() { let _ = m::<U3, U4>() * m::<U3, U3>(); } // REFUSE	*	3x4 and 3x3
fn p4246() { let _ = &m::<U3, U4>() * &m::<U3, U3>(); } // REFUSE	&*&	3x4 and 3x3
fn p4247() { let _ = Matrix::<f64, U3, U4>::new([[0.0; 4]; 3]); } // ACCEPT	Matrix::new	3x4 from 3x4
fn p4248() { let _ = m::<U3, U4>().relative_eq(&m::<U3, U4>(), 0.0, 0.0); } // ACCEPT	relative_eq	3x4 and 3x4
fn p4249() { let _ = m::<U3, U4>().ulps_eq(&m::<U3, U4>(), 0.0, 4); } // ACCEPT	ulps_eq	3x4 and 3x4
fn p4250() { let _ = m::<U3, U4>() == m::<U3, U4>(); } // ACCEPT	==	3x4 and 3x4
fn p4251() { let _ = m::<U3, U4>() + m::<U3, U4>(); } // ACCEPT	+	3x4 and 3x4
fn p4252() { let mut x = m::<U3, U4>(); x -= m::<U3, U4>(); } // ACCEPT	-=	3x4 and 3x4
fn p4253() { let _ = m::<U3, U4>() * m::<U3, U4>(); } // REFUSE	*	3x4 and 3x4
fn p4254() { let _ = &m::<U3, U4>() * &m::<U3, U4>(); } // REFUSE	&*&	3x4 and 3x4
fn p4255() { let _ = Matrix::<f64, U3, U4>::new([[0.0; 5]; 3]); } // REFUSE	Matrix::new	3x4 from 3x5
fn p4256() { let _ = m::<U3, U4>().relative_eq(&m::<U3, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	3x4 and 3x5
fn p4257() { let _ = m::<U3, U4>().ulps_eq(&m::<U3, U5>(), 0.0, 4); } // REFUSE	ulps_eq	3x4 and 3x5
fn p4258() { let _ = m::<U3, U4>() == m::<U3, U5>(); } // REFUSE	==	3x4 and 3x5
fn p4259() { let _ = m::<U3, U4>() + m::<U3, U5>(); } // REFUSE	+	3x4 and 3x5
fn p4260() { let mut x = m::<U3, U4>(); x -= m::<U3, U5>(); } // REFUSE	-=	3x4 and 3x5
fn p4261() { let _ = m::<U3, U4>() * m::<U3, U5>(); } // REFUSE	*	3x4 and 3x5
fn p4262() { let _ = &m::<U3, U4>() * &m::<U3, U5>(); } // REFUSE	&*&	3x4 and 3x5
fn p4263() { let _ = Matrix::<f64, U3, U4>::new([[0.0; 3]; 4]); } // REFUSE	Matrix::new	3x4 from 4x3
fn p4264() { let _ = m::<U3, U4>().relative_eq(&m::<U4, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x4 and 4x3
fn p4265() { let _ = m::<U3, U4>().ulps_eq(&m::<U4, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x4 and 4x3
fn p4266() { let _ = m::<U3, U4>() == m::<U4, U3>(); } // REFUSE	==	3x4 and 4x3
fn p4267() { let _ = m::<U3, U4>() + m::<U4, U3>(); } // REFUSE	+	3x4 and 4x3
fn p4268() { let mut x = m::<U3, U4>(); x -= m::<U4, U3>(); } // REFUSE	-=	3x4 and 4x3
fn p4269() { let _ = m::<U3, U4>() * m::<U4, U3>(); } // ACCEPT	*	3x4 and 4x3
fn p4270() { let _ = &m::<U3, U4>() * &m::<U4, U3>(); } // ACCEPT	&*&	3x4 and 4x3
fn p4271() { let _ = m::<U3, U4>() * Vector::<f64, U4>::default(); } // ACCEPT	matrix * vector	3x4 and 4
fn p4272() { let _ = Matrix::<f64, U3, U4>::new([[0.0; 4]; 4]); } // REFUSE	Matrix::new	3x4 from 4x4
fn p4273() { let _ = m::<U3, U4>().relative_eq(&m::<U4, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	3x4 and 4x4
fn p4274() { let _ = m::<U3, U4>().ulps_eq(&m::<U4, U4>(), 0.0, 4); } // REFUSE	ulps_eq	3x4 and 4x4
fn p4275() { let _ = m::<U3, U4>() == m::<U4, U4>(); } // REFUSE	==	3x4 and 4x4
fn p4276() { let _ = m::<U3, U4>() + m::<U4, U4>(); } // REFUSE	+	3x4 and 4x4
fn p4277() { let mut x = m::<U3, U4>(); x -= m::<U4, U4>(); } // REFUSE	-=	3x4 and 4x4
fn p4278() { let _ = m::<U3, U4>() * m::<U4, U4>(); } // ACCEPT	*	3x4 and 4x4
fn p4279() { let _ = &m::<U3, U4>() * &m::<U4, U4>(); } // ACCEPT	&*&	3x4 and 4x4
fn p4280() { let _ = m::<U3, U4>() * Vector::<f64, U4>::default(); } // ACCEPT	matrix * vector	3x4 and 4
fn p4281() { let _ = Matrix::<f64, U3, U5>::identity(); } // REFUSE	identity	3x5
fn p4282() { let _ = <Matrix::<f64, U3, U5> as One>::one(); } // REFUSE	one	3x5
fn p4283() { m::<U3, U5>().transpose(); } // REFUSE	transpose	3x5
fn p4284() { let _ = m::<U3, U5>().pow(2); } // REFUSE	pow	3x5
fn p4285() { let _ = m::<U3, U5>().determinant(); } // REFUSE	determinant	3x5
fn p4286() { let _ = m::<U3, U5>().inverse(); } // REFUSE	inverse	3x5
fn p4287() { let _ = m::<U3, U5>().cofactor((0, 0)); } // REFUSE	cofactor	3x5
fn p4288() { let _: Matrix<f64, U5, U3> = m::<U3, U5>().transposed(); } // ACCEPT	transposed	3x5
fn p4289() { let _: Matrix<f64, U3, U5> = m::<U3, U5>().transposed(); } // REFUSE	transposed	3x5
fn p4290() { let _ = Matrix::<f64, U3, U5>::diag([0.0; 0]); } // REFUSE	diag	3x5 from 0
fn p4291() { let _ = Matrix::<f64, U3, U5>::diag([0.0; 3]); } // ACCEPT	diag	3x5 from 3
fn p4292() { let _ = Matrix::<f64, U3, U5>::diag([0.0; 4]); } // REFUSE	diag	3x5 from 4
fn p4293() { let _ = Matrix::<f64, U3, U5>::diag([0.0; 5]); } // REFUSE	diag	3x5 from 5
fn p4294() { let _ = Matrix::<f64, U3, U5>::new([[0.0; 5]; 2]); } // REFUSE	Matrix::new	3x5 from 2x5
fn p4295() { let _ = m::<U3, U5>().relative_eq(&m::<U2, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	3x5 and 2x5
fn p4296() { let _ = m::<U3, U5>().ulps_eq(&m::<U2, U5>(), 0.0, 4); } // REFUSE	ulps_eq	3x5 and 2x5
fn p4297() { let _ = m::<U3, U5>() == m::<U2, U5>(); } // REFUSE	==	3x5 and 2x5
fn p4298() { let _ = m::<U3, U5>() + m::<U2, U5>(); } // REFUSE	+	3x5 and 2x5
fn p4299() { let mut x = m::<U3, U5>(); x -= m::<U2, U5>(); } // REFUSE	-=	3x5 and 2x5
fn p4300() { let _ = m::<U3, U5>() * m::<U2, U5>(); } // REFUSE	*	3x5 and 2x5
fn p4301() { let _ = &m::<U3, U5>() * &m::<U2, U5>(); } // REFUSE	&*&	3x5 and 2x5
fn p4302() { let _ = m::<U3, U5>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	3x5 and 2
fn p4303() { let _ = Matrix::<f64, U3, U5>::new([[0.0; 4]; 3]); } // REFUSE	Matrix::new	3x5 from 3x4
fn p4304() { let _ = m::<U3, U5>().relative_eq(&m::<U3, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	3x5 and 3x4
fn p4305() { let _ = m::<U3, U5>().ulps_eq(&m::<U3, U4>(), 0.0, 4); } // REFUSE	ulps_eq	3x5 and 3x4
fn p4306() { let _ = m::<U3, U5>() == m::<U3, U4>(); } // REFUSE	==	3x5 and 3x4
fn p4307() { let _ = m::<U3, U5>() + m::<U3, U4>(); } // REFUSE	+	3x5 and 3x4
fn p4308() { let mut x = m::<U3, U5>(); x -= m::<U3, U4>(); } // REFUSE	-=	3x5 and 3x4
fn p4309() { let _ = m::<U3, U5>() * m::<U3, U4>(); } // REFUSE	*	3x5 and 3x4
fn p4310() { let _ = &m::<U3, U5>() * &m::<U3, U4>(); } // REFUSE	&*&	3x5 and 3x4
fn p4311() { let _ = Matrix::<f64, U3, U5>::new([[0.0; 5]; 3]); } // ACCEPT	Matrix::new	3x5 from 3x5
fn p4312() { let _ = m::<U3, U5>().relative_eq(&m::<U3, U5>(), 0.0, 0.0); } // ACCEPT	relative_eq	3x5 and 3x5
fn p4313() { let _ = m::<U3, U5>().ulps_eq(&m::<U3, U5>(), 0.0, 4); } // ACCEPT	ulps_eq	3x5 and 3x5
fn p4314() { let _ = m::<U3, U5>() == m::<U3, U5>(); } // ACCEPT	==	3x5 and 3x5
fn p4315() { let _ = m::<U3, U5>() + m::<U3, U5>(); } // ACCEPT	+	3x5 and 3x5
fn p4316() { let mut x = m::<U3, U5>(); x -= m::<U3, U5>(); } // ACCEPT	-=	3x5 and 3x5
fn p4317() { let _ = m::<U3, U5>() * m::<U3, U5>(); } // REFUSE	*	3x5 and 3x5
fn p4318() { let _ = &m::<U3, U5>() * &m::<U3, U5>(); } // REFUSE	&*&	3x5 and 3x5
fn p4319() { let _ = Matrix::<f64, U3, U5>::new([[0.0; 6]; 3]); } // REFUSE	Matrix::new	3x5 from 3x6
fn p4320() { let _ = m::<U3, U5>().relative_eq(&m::<U3, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	3x5 and 3x6
fn p4321() { let _ = m::<U3, U5>().ulps_eq(&m::<U3, U6>(), 0.0, 4); } // REFUSE	ulps_eq	3x5 and 3x6
fn p4322() { let _ = m::<U3, U5>() == m::<U3, U6>(); } // REFUSE	==	3x5 and 3x6
fn p4323() { let _ = m::<U3, U5>() + m::<U3, U6>(); } // REFUSE	+	3x5 and 3x6
fn p4324() { let mut x = m::<U3, U5>(); x -= m::<U3, U6>(); } // REFUSE	-=	3x5 and 3x6
fn p4325() { let _ = m::<U3, U5>() * m::<U3, U6>(); } // REFUSE	*	3x5 and 3x6
fn p4326() { let _ = &m::<U3, U5>() * &m::<U3, U6>(); } // REFUSE	&*&	3x5 and 3x6
fn p4327() { let _ = Matrix::<f64, U3, U5>::new([[0.0; 5]; 4]); } // REFUSE	Matrix::new	3x5 from 4x5
fn p4328() { let _ = m::<U3, U5>().relative_eq(&m::<U4, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	3x5 and 4x5
fn p4329() { let _ = m::<U3, U5>().ulps_eq(&m::<U4, U5>(), 0.0, 4); } // REFUSE	ulps_eq	3x5 and 4x5
fn p4330() { let _ = m::<U3, U5>() == m::<U4, U5>(); } // REFUSE	==	3x5 and 4x5
fn p4331() { let _ = m::<U3, U5>() + m::<U4, U5>(); } // REFUSE	+	3x5 and 4x5
fn p4332() { let mut x = m::<U3, U5>(); x -= m::<U4, U5>(); } // REFUSE	-=	3x5 and 4x5
fn p4333() { let _ = m::<U3, U5>() * m::<U4, U5>(); } // REFUSE	*	3x5 and 4x5
fn p4334() { let _ = &m::<U3, U5>() * &m::<U4, U5>(); } // REFUSE	&*&	3x5 and 4x5
fn p4335() { let _ = m::<U3, U5>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	3x5 and 4
fn p4336() { let _ = Matrix::<f64, U3, U5>::new([[0.0; 3]; 5]); } // REFUSE	Matrix::new	3x5 from 5x3
fn p4337() { let _ = m::<U3, U5>().relative_eq(&m::<U5, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x5 and 5x3
fn p4338() { let _ = m::<U3, U5>().ulps_eq(&m::<U5, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x5 and 5x3
fn p4339() { let _ = m::<U3, U5>() == m::<U5, U3>(); } // REFUSE	==	3x5 and 5x3
fn p4340() { let _ = m::<U3, U5>() + m::<U5, U3>(); } // REFUSE	+	3x5 and 5x3
fn p4341() { let mut x = m::<U3, U5>(); x -= m::<U5, U3>(); } // REFUSE	-=	3x5 and 5x3
fn p4342() { let _ = m::<U3, U5>() * m::<U5, U3>(); } // ACCEPT	*	3x5 and 5x3
fn p4343() { let _ = &m::<U3, U5>() * &m::<U5, U3>(); } // ACCEPT	&*&	3x5 and 5x3
fn p4344() { let _ = m::<U3, U5>() * Vector::<f64, U5>::default(); } // ACCEPT	matrix * vector	3x5 and 5
fn p4345() { let _ = Matrix::<f64, U3, U6>::identity(); } // REFUSE	identity	3x6
fn p4346() { let _ = <Matrix::<f64, U3, U6> as One>::one(); } // REFUSE	one	3x6
fn p4347() { m::<U3, U6>().transpose(); } // REFUSE	transpose	3x6
fn p4348() { let _ = m::<U3, U6>().pow(2); } // REFUSE	pow	3x6
fn p4349() { let _ = m::<U3, U6>().determinant(); } // REFUSE	determinant	3x6
fn p4350() { let _ = m::<U3, U6>().inverse(); } // REFUSE	inverse	3x6
fn p4351() { let _ = m::<U3, U6>().cofactor((0, 0)); } // REFUSE	cofactor	3x6
fn p4352() { let _: Matrix<f64, U6, U3> = m::<U3, U6>().transposed(); } // ACCEPT	transposed	3x6
fn p4353() { let _: Matrix<f64, U3, U6> = m::<U3, U6>().transposed(); } // REFUSE	transposed	3x6
fn p4354() { let _ = Matrix::<f64, U3, U6>::diag([0.0; 0]); } // REFUSE	diag	3x6 from 0
fn p4355() { let _ = Matrix::<f64, U3, U6>::diag([0.0; 3]); } // ACCEPT	diag	3x6 from 3
fn p4356() { let _ = Matrix::<f64, U3, U6>::diag([0.0; 4]); } // REFUSE	diag	3x6 from 4
fn p4357() { let _ = Matrix::<f64, U3, U6>::diag([0.0; 6]); } // REFUSE	diag	3x6 from 6
fn p4358() { let _ = Matrix::<f64, U3, U6>::new([[0.0; 6]; 2]); } // REFUSE	Matrix::new	3x6 from 2x6
fn p4359() { let _ = m::<U3, U6>().relative_eq(&m::<U2, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	3x6 and 2x6
fn p4360() { let _ = m::<U3, U6>().ulps_eq(&m::<U2, U6>(), 0.0, 4); } // REFUSE	ulps_eq	3x6 and 2x6
fn p4361() { let _ = m::<U3, U6>() == m::<U2, U6>(); } // REFUSE	==	3x6 and 2x6
fn p4362() { let _ = m::<U3, U6>() + m::<U2, U6>(); } // REFUSE	+	3x6 and 2x6
fn p4363() { let mut x = m::<U3, U6>(); x -= m::<U2, U6>(); } // REFUSE	-=	3x6 and 2x6
fn p4364() { let _ = m::<U3, U6>() * m::<U2, U6>(); } // REFUSE	*	3x6 and 2x6
fn p4365() { let _ = &m::<U3, U6>() * &m::<U2, U6>(); } // REFUSE	&*&	3x6 and 2x6
fn p4366() { let _ = m::<U3, U6>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	3x6 and 2
fn p4367() { let _ = Matrix::<f64, U3, U6>::new([[0.0; 5]; 3]); } // REFUSE	Matrix::new	3x6 from 3x5
fn p4368() { let _ = m::<U3, U6>().relative_eq(&m::<U3, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	3x6 and 3x5
fn p4369() { let _ = m::<U3, U6>().ulps_eq(&m::<U3, U5>(), 0.0, 4); } // REFUSE	ulps_eq	3x6 and 3x5
fn p4370() { let _ = m::<U3, U6>() == m::<U3, U5>(); } // REFUSE	==	3x6 and 3x5
fn p4371() { let _ = m::<U3, U6>() + m::<U3, U5>(); } // REFUSE	+	3x6 and 3x5
fn p4372() { let mut x = m::<U3, U6>(); x -= m::<U3, U5>(); } // REFUSE	-=	3x6 and 3x5
fn p4373() { let _ = m::<U3, U6>() * m::<U3, U5>(); } // REFUSE	*	3x6 and 3x5
fn p4374() { let _ = &m::<U3, U6>() * &m::<U3, U5>(); } // REFUSE	&*&	3x6 and 3x5
fn p4375() { let _ = Matrix::<f64, U3, U6>::new([[0.0; 6]; 3]); } // ACCEPT	Matrix::new	3x6 from 3x6
fn p4376() { let _ = m::<U3, U6>().relative_eq(&m::<U3, U6>(), 0.0, 0.0); } // ACCEPT	relative_eq	3x6 and 3x6
fn p4377() { let _ = m::<U3, U6>().ulps_eq(&m::<U3, U6>(), 0.0, 4); } // ACCEPT	ulps_eq	3x6 and 3x6
fn p4378() { let _ = m::<U3, U6>() == m::<U3, U6>(); } // ACCEPT	==	3x6 and 3x6
fn p4379() { let _ = m::<U3, U6>() + m::<U3, U6>(); } // ACCEPT	+	3x6 and 3x6
fn p4380() { let mut x = m::<U3, U6>(); x -= m::<U3, U6>(); } // ACCEPT	-=	3x6 and 3x6
fn p4381() { let _ = m::<U3, U6>() * m::<U3, U6>(); } // REFUSE	*	3x6 and 3x6
fn p4382() { let _ = &m::<U3, U6>() * &m::<U3, U6>(); } // REFUSE	&*&	3x6 and 3x6
fn p4383() { let _ = Matrix::<f64, U3, U6>::new([[0.0; 7]; 3]); } // REFUSE	Matrix::new	3x6 from 3x7
fn p4384() { let _ = m::<U3, U6>().relative_eq(&m::<U3, U7>(), 0.0, 0.0); } // REFUSE	relative_eq	3x6 and 3x7
fn p4385() { let _ = m::<U3, U6>().ulps_eq(&m::<U3, U7>(), 0.0, 4); } // REFUSE	ulps_eq	3x6 and 3x7
fn p4386() { let _ = m::<U3, U6>() == m::<U3, U7>(); } // REFUSE	==	3x6 and 3x7
fn p4387() { let _ = m::<U3, U6>() + m::<U3, U7>(); } // REFUSE	+	3x6 and 3x7
fn p4388() { let mut x = m::<U3, U6>(); x -= m::<U3, U7>(); } // REFUSE	-=	3x6 and 3x7
fn p4389() { let _ = m::<U3, U6>() * m::<U3, U7>(); } // REFUSE	*	3x6 and 3x7
fn p4390() { let _ = &m::<U3, U6>() * &m::<U3, U7>(); } // REFUSE	&*&	3x6 and 3x7
fn p4391() { let _ = Matrix::<f64, U3, U6>::new([[0.0; 6]; 4]); } // REFUSE	Matrix::new	3x6 from 4x6
fn p4392() { let _ = m::<U3, U6>().relative_eq(&m::<U4, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	3x6 and 4x6
fn p4393() { let _ = m::<U3, U6>().ulps_eq(&m::<U4, U6>(), 0.0, 4); } // REFUSE	ulps_eq	3x6 and 4x6
fn p4394() { let _ = m::<U3, U6>() == m::<U4, U6>(); } // REFUSE	==	3x6 and 4x6
fn p4395() { let _ = m::<U3, U6>() + m::<U4, U6>(); } // REFUSE	+	3x6 and 4x6
fn p4396() { let mut x = m::<U3, U6>(); x -= m::<U4, U6>(); } // REFUSE	-=	3x6 and 4x6
fn p4397() { let _ = m::<U3, U6>() * m::<U4, U6>(); } // REFUSE	*	3x6 and 4x6
fn p4398() { let _ = &m::<U3, U6>() * &m::<U4, U6>(); } // REFUSE	&*&	3x6 and 4x6
fn p4399() { let _ = m::<U3, U6>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	3x6 and 4
fn p4400() { let _ = Matrix::<f64, U3, U6>::new([[0.0; 3]; 6]); } // REFUSE	Matrix::new	3x6 from 6x3
fn p4401() { let _ = m::<U3, U6>().relative_eq(&m::<U6, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	3x6 and 6x3
fn p4402() { let _ = m::<U3, U6>().ulps_eq(&m::<U6, U3>(), 0.0, 4); } // REFUSE	ulps_eq	3x6 and 6x3
fn p4403() { let _ = m::<U3, U6>() == m::<U6, U3>(); } // REFUSE	==	3x6 and 6x3
fn p4404() { let _ = m::<U3, U6>() + m::<U6, U3>(); } // REFUSE	+	3x6 and 6x3
fn p4405() { let mut x = m::<U3, U6>(); x -= m::<U6, U3>(); } // REFUSE	-=	3x6 and 6x3
fn p4406() { let _ = m::<U3, U6>() * m::<U6, U3>(); } // ACCEPT	*	3x6 and 6x3
fn p4407() { let _ = &m::<U3, U6>() * &m::<U6, U3>(); } // ACCEPT	&*&	3x6 and 6x3
fn p4408() { let _ = m::<U3, U6>() * Vector::<f64, U6>::default(); } // ACCEPT	matrix * vector	3x6 and 6
fn p4409() { let _ = Matrix::<f64, U4, U0>::identity(); } // REFUSE	identity	4x0
fn p4410() { let _ = <Matrix::<f64, U4, U0> as One>::one(); } // REFUSE	one	4x0
fn p4411() { m::<U4, U0>().transpose(); } // REFUSE	transpose	4x0
fn p4412() { let _ = m::<U4, U0>().pow(2); } // REFUSE	pow	4x0
fn p4413() { let _ = m::<U4, U0>().determinant(); } // REFUSE	determinant	4x0
fn p4414() { let _ = m::<U4, U0>().inverse(); } // REFUSE	inverse	4x0
fn p4415() { let _ = m::<U4, U0>().cofactor((0, 0)); } // REFUSE	cofactor	4x0
fn p4416() { let _: Matrix<f64, U0, U4> = m::<U4, U0>().transposed(); } // ACCEPT	transposed	4x0
fn p4417() { let _: Matrix<f64, U4, U0> = m::<U4, U0>().transposed(); } // REFUSE	transposed	4x0
fn p4418() { let _ = Matrix::<f64, U4, U0>::diag([0.0; 0]); } // ACCEPT	diag	4x0 from 0
fn p4419() { let _ = Matrix::<f64, U4, U0>::diag([0.0; 1]); } // REFUSE	diag	4x0 from 1
fn p4420() { let _ = Matrix::<f64, U4, U0>::diag([0.0; 4]); } // REFUSE	diag	4x0 from 4
fn p4421() { let _ = Matrix::<f64, U4, U0>::new([[0.0; 4]; 0]); } // REFUSE	Matrix::new	4x0 from 0x4
fn p4422() { let _ = m::<U4, U0>().relative_eq(&m::<U0, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x0 and 0x4
fn p4423() { let _ = m::<U4, U0>().ulps_eq(&m::<U0, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x0 and 0x4
fn p4424() { let _ = m::<U4, U0>() == m::<U0, U4>(); } // REFUSE	==	4x0 and 0x4
fn p4425() { let _ = m::<U4, U0>() + m::<U0, U4>(); } // REFUSE	+	4x0 and 0x4
fn p4426() { let mut x = m::<U4, U0>(); x -= m::<U0, U4>(); } // REFUSE	-=	4x0 and 0x4
fn p4427() { let _ = m::<U4, U0>() * m::<U0, U4>(); } // ACCEPT	*	4x0 and 0x4
fn p4428() { let _ = &m::<U4, U0>() * &m::<U0, U4>(); } // ACCEPT	&*&	4x0 and 0x4
fn p4429() { let _ = m::<U4, U0>() * Vector::<f64, U0>::default(); } // ACCEPT	matrix * vector	4x0 and 0
fn p4430() { let _ = Matrix::<f64, U4, U0>::new([[0.0; 0]; 3]); } // REFUSE	Matrix::new	4x0 from 3x0
fn p4431() { let _ = m::<U4, U0>().relative_eq(&m::<U3, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	4x0 and 3x0
fn p4432() { let _ = m::<U4, U0>().ulps_eq(&m::<U3, U0>(), 0.0, 4); } // REFUSE	ulps_eq	4x0 and 3x0
fn p4433() { let _ = m::<U4, U0>() == m::<U3, U0>(); } // REFUSE	==	4x0 and 3x0
fn p4434() { let _ = m::<U4, U0>() + m::<U3, U0>(); } // REFUSE	+	4x0 and 3x0
fn p4435() { let mut x = m::<U4, U0>(); x -= m::<U3, U0>(); } // REFUSE	-=	4x0 and 3x0
fn p4436() { let _ = m::<U4, U0>() * m::<U3, U0>(); } // REFUSE	*	4x0 and 3x0
fn p4437() { let _ = &m::<U4, U0>() * &m::<U3, U0>(); } // REFUSE	&*&	4x0 and 3x0
fn p4438() { let _ = m::<U4, U0>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	4x0 and 3
fn p4439() { let _ = Matrix::<f64, U4, U0>::new([[0.0; 0]; 4]); } // ACCEPT	Matrix::new	4x0 from 4x0
fn p4440() { let _ = m::<U4, U0>().relative_eq(&m::<U4, U0>(), 0.0, 0.0); } // ACCEPT	relative_eq	4x0 and 4x0
fn p4441() { let _ = m::<U4, U0>().ulps_eq(&m::<U4, U0>(), 0.0, 4); } // ACCEPT	ulps_eq	4x0 and 4x0
fn p4442() { let _ = m::<U4, U0>() == m::<U4, U0>(); } // ACCEPT	==	4x0 and 4x0
fn p4443() { let _ = m::<U4, U0>() + m::<U4, U0>(); } // ACCEPT	+	4x0 and 4x0
fn p4444() { let mut x = m::<U4, U0>(); x -= m::<U4, U0>(); } // ACCEPT	-=	4x0 and 4x0
fn p4445() { let _ = m::<U4, U0>() * m::<U4, U0>(); } // REFUSE	*	4x0 and 4x0
fn p4446() { let _ = &m::<U4, U0>() * &m::<U4, U0>(); } // REFUSE	&*&	4x0 and 4x0
fn p4447() { let _ = Matrix::<f64, U4, U0>::new([[0.0; 1]; 4]); } // REFUSE	Matrix::new	4x0 from 4x1
fn p4448() { let _ = m::<U4, U0>().relative_eq(&m::<U4, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	4x0 and 4x1
fn p4449() { let _ = m::<U4, U0>().ulps_eq(&m::<U4, U1>(), 0.0, 4); } // REFUSE	ulps_eq	4x0 and 4x1
fn p4450() { let _ = m::<U4, U0>() == m::<U4, U1>(); } // REFUSE	==	4x0 and 4x1
fn p4451() { let _ = m::<U4, U0>() + m::<U4, U1>(); } // REFUSE	+	4x0 and 4x1
fn p4452() { let mut x = m::<U4, U0>(); x -= m::<U4, U1>(); } // REFUSE	-=	4x0 and 4x1
fn p4453() { let _ = m::<U4, U0>() * m::<U4, U1>(); } // REFUSE	*	4x0 and 4x1
fn p4454() { let _ = &m::<U4, U0>() * &m::<U4, U1>(); } // REFUSE	&*&	4x0 and 4x1
fn p4455() { let _ = m::<U4, U0>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	4x0 and 4
fn p4456() { let _ = Matrix::<f64, U4, U0>::new([[0.0; 0]; 5]); } // REFUSE	Matrix::new	4x0 from 5x0
fn p4457() { let _ = m::<U4, U0>().relative_eq(&m::<U5, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	4x0 and 5x0
fn p4458() { let _ = m::<U4, U0>().ulps_eq(&m::<U5, U0>(), 0.0, 4); } // REFUSE	ulps_eq	4x0 and 5x0
fn p4459() { let _ = m::<U4, U0>() == m::<U5, U0>(); } // REFUSE	==	4x0 and 5x0
fn p4460() { let _ = m::<U4, U0>() + m::<U5, U0>(); } // REFUSE	+	4x0 and 5x0
fn p4461() { let mut x = m::<U4, U0>(); x -= m::<U5, U0>(); } // REFUSE	-=	4x0 and 5x0
fn p4462() { let _ = m::<U4, U0>() * m::<U5, U0>(); } // REFUSE	*	4x0 and 5x0
fn p4463() { let _ = &m::<U4, U0>() * &m::<U5, U0>(); } // REFUSE	&*&	4x0 and 5x0
fn p4464() { let _ = m::<U4, U0>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	4x0 and 5
fn p4465() { let _ = Matrix::<f64, U4, U1>::identity(); } // REFUSE	identity	4x1
fn p4466() { let _ = <Matrix::<f64, U4, U1> as One>::one(); } // REFUSE	one	4x1
fn p4467() { m::<U4, U1>().transpose(); } // REFUSE	transpose	4x1
fn p4468() { let _ = m::<U4, U1>().pow(2); } // REFUSE	pow	4x1
fn p4469() { let _ = m::<U4, U1>().determinant(); } // REFUSE	determinant	4x1
fn p4470() { let _ = m::<U4, U1>().inverse(); } // REFUSE	inverse	4x1
fn p4471() { let _ = m::<U4, U1>().cofactor((0, 0)); } // REFUSE	cofactor	4x1
fn p4472() { let _: Matrix<f64, U1, U4> = m::<U4, U1>().transposed(); } // ACCEPT	transposed	4x1
fn p4473() { let _: Matrix<f64, U4, U1> = m::<U4, U1>().transposed(); } // REFUSE	transposed	4x1
fn p4474() { let _ = Matrix::<f64, U4, U1>::diag([0.0; 0]); } // REFUSE	diag	4x1 from 0
fn p4475() { let _ = Matrix::<f64, U4, U1>::diag([0.0; 1]); } // ACCEPT	diag	4x1 from 1
fn p4476() { let _ = Matrix::<f64, U4, U1>::diag([0.0; 2]); } // REFUSE	diag	4x1 from 2
fn p4477() { let _ = Matrix::<f64, U4, U1>::diag([0.0; 4]); } // REFUSE	diag	4x1 from 4
fn p4478() { let _ = Matrix::<f64, U4, U1>::new([[0.0; 4]; 1]); } // REFUSE	Matrix::new	4x1 from 1x4
fn p4479() { let _ = m::<U4, U1>().relative_eq(&m::<U1, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x1 and 1x4
fn p4480() { let _ = m::<U4, U1>().ulps_eq(&m::<U1, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x1 and 1x4
fn p4481() { let _ = m::<U4, U1>() == m::<U1, U4>(); } // REFUSE	==	4x1 and 1x4
fn p4482() { let _ = m::<U4, U1>() + m::<U1, U4>(); } // REFUSE	+	4x1 and 1x4
fn p4483() { let mut x = m::<U4, U1>(); x -= m::<U1, U4>(); } // REFUSE	-=	4x1 and 1x4
fn p4484() { let _ = m::<U4, U1>() * m::<U1, U4>(); } // ACCEPT	*	4x1 and 1x4
fn p4485() { let _ = &m::<U4, U1>() * &m::<U1, U4>(); } // ACCEPT	&*&	4x1 and 1x4
fn p4486() { let _ = m::<U4, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	4x1 and 1
fn p4487() { let _ = Matrix::<f64, U4, U1>::new([[0.0; 1]; 3]); } // REFUSE	Matrix::new	4x1 from 3x1
fn p4488() { let _ = m::<U4, U1>().relative_eq(&m::<U3, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	4x1 and 3x1
fn p4489() { let _ = m::<U4, U1>().ulps_eq(&m::<U3, U1>(), 0.0, 4); } // REFUSE	ulps_eq	4x1 and 3x1
fn p4490() { let _ = m::<U4, U1>() == m::<U3, U1>(); } // REFUSE	==	4x1 and 3x1
fn p4491() { let _ = m::<U4, U1>() + m::<U3, U1>(); } // REFUSE	+	4x1 and 3x1
fn p4492() { let mut x = m::<U4, U1>(); x -= m::<U3, U1>(); } // REFUSE	-=	4x1 and 3x1
fn p4493() { let _ = m::<U4, U1>() * m::<U3, U1>(); } // REFUSE	*	4x1 and 3x1
fn p4494() { let _ = &m::<U4, U1>() * &m::<U3, U1>(); } // REFUSE	&*&	4x1 and 3x1
fn p4495() { let _ = m::<U4, U1>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	4x1 and 3
fn p4496() { let _ = Matrix::<f64, U4, U1>::new([[0.0; 0]; 4]); } // REFUSE	Matrix::new	4x1 from 4x0
fn p4497() { let _ = m::<U4, U1>().relative_eq(&m::<U4, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	4x1 and 4x0
fn p4498() { let _ = m::<U4, U1>().ulps_eq(&m::<U4, U0>(), 0.0, 4); } // REFUSE	ulps_eq	4x1 and 4x0
fn p4499() { let _ = m::<U4, U1>() == m::<U4, U0>(); } // REFUSE	==	4x1 and 4x0
fn p4500() { let _ = m::<U4, U1>() + m::<U4, U0>(); } // REFUSE	+	4x1 and 4x0
fn p4501() { let mut x = m::<U4, U1>(); x -= m::<U4, U0>(); } // REFUSE	-=	4x1 and 4x0
fn p4502() { let _ = m::<U4, U1>() * m::<U4, U0>(); } // REFUSE	*	4x1 and 4x0
fn p4503() { let _ = &m::<U4, U1>() * &m::<U4, U0>(); } // REFUSE	&*&	4x1 and 4x0
fn p4504() { let _ = Matrix::<f64, U4, U1>::new([[0.0; 1]; 4]); } // ACCEPT	Matrix::new	4x1 from 4x1
fn p4505() { let _ = m::<U4, U1>().relative_eq(&m::<U4, U1>(), 0.0, 0.0); } // ACCEPT	relative_eq	4x1 and 4x1
fn p4506() { let _ = m::<U4, U1>().ulps_eq(&m::<U4, U1>(), 0.0, 4); } // ACCEPT	ulps_eq	4x1 and 4x1
fn p4507() { let _ = m::<U4, U1>() == m::<U4, U1>(); } // ACCEPT	==	4x1 and 4x1
fn p4508() { let _ = m::<U4, U1>() + m::<U4, U1>(); } // ACCEPT	+	4x1 and 4x1
fn p4509() { let mut x = m::<U4, U1>(); x -= m::<U4, U1>(); } // ACCEPT	-=	4x1 and 4x1
fn p4510() { let _ = m::<U4, U1>() * m::<U4, U1>(); } // REFUSE	*	4x1 and 4x1
fn p4511() { let _ = &m::<U4, U1>() * &m::<U4, U1>(); } // REFUSE	&*&	4x1 and 4x1
fn p4512() { let _ = m::<U4, U1>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	4x1 and 4
fn p4513() { let _ = Matrix::<f64, U4, U1>::new([[0.0; 2]; 4]); } // REFUSE	Matrix::new	4x1 from 4x2
fn p4514() { let _ = m::<U4, U1>().relative_eq(&m::<U4, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	4x1 and 4x2
fn p4515() { let _ = m::<U4, U1>().ulps_eq(&m::<U4, U2>(), 0.0, 4); } // REFUSE	ulps_eq	4x1 and 4x2
fn p4516() { let _ = m::<U4, U1>() == m::<U4, U2>(); } // REFUSE	==	4x1 and 4x2
fn p4517() { let _ = m::<U4, U1>() + m::<U4, U2>(); } // REFUSE	+	4x1 and 4x2
fn p4518() { let mut x = m::<U4, U1>(); x -= m::<U4, U2>(); } // REFUSE	-=	4x1 and 4x2
fn p4519() { let _ = m::<U4, U1>() * m::<U4, U2>(); } // REFUSE	*	4x1 and 4x2
fn p4520() { let _ = &m::<U4, U1>() * &m::<U4, U2>(); } // REFUSE	&*&	4x1 and 4x2
fn p4521() { let _ = Matrix::<f64, U4, U1>::new([[0.0; 1]; 5]); } // REFUSE	Matrix::new	4x1 from 5x1
fn p4522() { let _ = m::<U4, U1>().relative_eq(&m::<U5, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	4x1 and 5x1
fn p4523() { let _ = m::<U4, U1>().ulps_eq(&m::<U5, U1>(), 0.0, 4); } // REFUSE	ulps_eq	4x1 and 5x1
fn p4524() { let _ = m::<U4, U1>() == m::<U5, U1>(); } // REFUSE	==	4x1 and 5x1
fn p4525() { let _ = m::<U4, U1>() + m::<U5, U1>(); } // REFUSE	+	4x1 and 5x1
fn p4526() { let mut x = m::<U4, U1>(); x -= m::<U5, U1>(); } // REFUSE	-=	4x1 and 5x1
fn p4527() { let _ = m::<U4, U1>() * m::<U5, U1>(); } // REFUSE	*	4x1 and 5x1
fn p4528() { let _ = &m::<U4, U1>() * &m::<U5, U1>(); } // REFUSE	&*&	4x1 and 5x1
fn p4529() { let _ = m::<U4, U1>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	4x1 and 5
fn p4530() { let _ = Matrix::<f64, U4, U2>::identity(); } // REFUSE	identity	4x2
fn p4531() { let _ = <Matrix::<f64, U4, U2> as One>::one(); } // REFUSE	one	4x2
fn p4532() { m::<U4, U2>().transpose(); } // REFUSE	transpose	4x2
fn p4533() { let _ = m::<U4, U2>().pow(2); } // REFUSE	pow	4x2
fn p4534() { let _ = m::<U4, U2>().determinant(); } // REFUSE	determinant	4x2
fn p4535() { let _ = m::<U4, U2>().inverse(); } // REFUSE	inverse	4x2
fn p4536() { let _ = m::<U4, U2>().cofactor((0, 0)); } // REFUSE	cofactor	4x2
fn p4537() { let _: Matrix<f64, U2, U4> = m::<U4, U2>().transposed(); } // ACCEPT	transposed	4x2
fn p4538() { let _: Matrix<f64, U4, U2> = m::<U4, U2>().transposed(); } // REFUSE	transposed	4x2
fn p4539() { let _ = Matrix::<f64, U4, U2>::diag([0.0; 0]); } // REFUSE	diag	4x2 from 0
fn p4540() { let _ = Matrix::<f64, U4, U2>::diag([0.0; 2]); } // ACCEPT	diag	4x2 from 2
fn p4541() { let _ = Matrix::<f64, U4, U2>::diag([0.0; 3]); } // REFUSE	diag	4x2 from 3
fn p4542() { let _ = Matrix::<f64, U4, U2>::diag([0.0; 4]); } // REFUSE	diag	4x2 from 4
fn p4543() { let _ = Matrix::<f64, U4, U2>::new([[0.0; 4]; 2]); } // REFUSE	Matrix::new	4x2 from 2x4
fn p4544() { let _ = m::<U4, U2>().relative_eq(&m::<U2, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x2 and 2x4
fn p4545() { let _ = m::<U4, U2>().ulps_eq(&m::<U2, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x2 and 2x4
fn p4546() { let _ = m::<U4, U2>() == m::<U2, U4>(); } // REFUSE	==	4x2 and 2x4
fn p4547() { let _ = m::<U4, U2>() + m::<U2, U4>(); } // REFUSE	+	4x2 and 2x4
fn p4548() { let mut x = m::<U4, U2>(); x -= m::<U2, U4>(); } // REFUSE	-=	4x2 and 2x4
fn p4549() { let _ = m::<U4, U2>() * m::<U2, U4>(); } // ACCEPT	*	4x2 and 2x4
fn p4550() { let _ = &m::<U4, U2>() * &m::<U2, U4>(); } // ACCEPT	&*&	4x2 and 2x4
fn p4551() { let _ = m::<U4, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	4x2 and 2
fn p4552() { let _ = Matrix::<f64, U4, U2>::new([[0.0; 2]; 3]); } // REFUSE	Matrix::new	4x2 from 3x2
fn p4553() { let _ = m::<U4, U2>().relative_eq(&m::<U3, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	4x2 and 3x2
fn p4554() { let _ = m::<U4, U2>().ulps_eq(&m::<U3, U2>(), 0.0, 4); } // REFUSE	ulps_eq	4x2 and 3x2
fn p4555() { let _ = m::<U4, U2>() == m::<U3, U2>(); } // REFUSE	==	4x2 and 3x2
fn p4556() { let _ = m::<U4, U2>() + m::<U3, U2>(); } // REFUSE	+	4x2 and 3x2
fn p4557() { let mut x = m::<U4, U2>(); x -= m::<U3, U2>(); } // REFUSE	-=	4x2 and 3x2
fn p4558() { let _ = m::<U4, U2>() * m::<U3, U2>(); } // REFUSE	*	4x2 and 3x2
fn p4559() { let _ = &m::<U4, U2>() * &m::<U3, U2>(); } // REFUSE	&*&	4x2 and 3x2
fn p4560() { let _ = m::<U4, U2>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	4x2 and 3
fn p4561() { let _ = Matrix::<f64, U4, U2>::new([[0.0; 1]; 4]); } // REFUSE	Matrix::new	4x2 from 4x1
fn p4562() { let _ = m::<U4, U2>().relative_eq(&m::<U4, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	4x2 and 4x1
fn p4563() { let _ = m::<U4, U2>().ulps_eq(&m::<U4, U1>(), 0.0, 4); } // REFUSE	ulps_eq	4x2 and 4x1
fn p4564() { let _ = m::<U4, U2>() == m::<U4, U1>(); } // REFUSE	==	4x2 and 4x1
fn p4565() { let _ = m::<U4, U2>() + m::<U4, U1>(); } // REFUSE	+	4x2 and 4x1
fn p4566() { let mut x = m::<U4, U2>(); x -= m::<U4, U1>(); } // REFUSE	-=	4x2 and 4x1
fn p4567() { let _ = m::<U4, U2>() * m::<U4, U1>(); } // REFUSE	*	4x2 and 4x1
fn p4568() { let _ = &m::<U4, U2>() * &m::<U4, U1>(); } // REFUSE	&*&	4x2 and 4x1
fn p4569() { let _ = m::<U4, U2>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	4x2 and 4
fn p4570() { let _ = Matrix::<f64, U4, U2>::new([[0.0; 2]; 4]); } // ACCEPT	Matrix::new	4x2 from 4x2
fn p4571() { let _ = m::<U4, U2>().relative_eq(&m::<U4, U2>(), 0.0, 0.0); } // ACCEPT	relative_eq	4x2 and 4x2
fn p4572() { let _ = m::<U4, U2>().ulps_eq(&m::<U4, U2>(), 0.0, 4); } // ACCEPT	ulps_eq	4x2 and 4x2
fn p4573() { let _ = m::<U4, U2>() == m::<U4, U2>(); } // ACCEPT	==	4x2 and 4x2
fn p4574() { let _ = m::<U4, U2>() + m::<U4, U2>(); } // ACCEPT	+	4x2 and 4x2
fn p4575() { let mut x = m::<U4, U2>(); x -= m::<U4, U2>(); } // ACCEPT	-=	4x2 and 4x2
fn p4576() { let _ = m::<U4, U2>() * m::<U4, U2>(); } // REFUSE	*	4x2 and 4x2
fn p4577() { let _ = &m::<U4, U2>() * &m::<U4, U2>(); } // REFUSE	&*&	4x2 and 4x2
fn p4578() { let _ = Matrix::<f64, U4, U2>::new([[0.0; 3]; 4]); } // REFUSE	Matrix::new	4x2 from 4x3
fn p4579() { let _ = m::<U4, U2>().relative_eq(&m::<U4, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	4x2 and 4x3
fn p4580() { let _ = m::<U4, U2>().ulps_eq(&m::<U4, U3>(), 0.0, 4); } // REFUSE	ulps_eq	4x2 and 4x3
fn p4581() { let _ = m::<U4, U2>() == m::<U4, U3>(); } // REFUSE	==	4x2 and 4x3
fn p4582() { let _ = m::<U4, U2>() + m::<U4, U3>(); } // REFUSE	+	4x2 and 4x3
fn p4583() { let mut x = m::<U4, U2>(); x -= m::<U4, U3>(); } // REFUSE	-=	4x2 and 4x3
fn p4584() { let _ = m::<U4, U2>() * m::<U4, U3>(); } // REFUSE	*	4x2 and 4x3
fn p4585() { let _ = &m::<U4, U2>() * &m::<U4, U3>(); } // REFUSE	&*&	4x2 and 4x3
fn p4586() { let _ = Matrix::<f64, U4, U2>::new([[0.0; 2]; 5]); } // REFUSE	Matrix::new	4x2 from 5x2
fn p4587() { let _ = m::<U4, U2>().relative_eq(&m::<U5, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	4x2 and 5x2
fn p4588() { let _ = m::<U4, U2>().ulps_eq(&m::<U5, U2>(), 0.0, 4); } // REFUSE	ulps_eq	4x2 and 5x2
fn p4589() { let _ = m::<U4, U2>() == m::<U5, U2>(); } // REFUSE	==	4x2 and 5x2
fn p4590() { let _ = m::<U4, U2>() + m::<U5, U2>(); } // REFUSE	+	4x2 and 5x2
fn p4591() { let mut x = m::<U4, U2>(); x -= m::<U5, U2>(); } // REFUSE	-=	4x2 and 5x2
fn p4592() { let _ = m::<U4, U2>() * m::<U5, U2>(); } // REFUSE	*	4x2 and 5x2
fn p4593() { let _ = &m::<U4, U2>() * &m::<U5, U2>(); } // REFUSE	&*&	4x2 and 5x2
fn p4594() { let _ = m::<U4, U2>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	4x2 and 5
fn p4595() { let _ = Matrix::<f64, U4, U3>::identity(); } // REFUSE	identity	4x3
fn p4596() { let _ = <Matrix::<f64, U4, U3> as One>::one(); } // REFUSE	one	4x3
fn p4597() { m::<U4, U3>().transpose(); } // REFUSE	transpose	4x3
fn p4598() { let _ = m::<U4, U3>().pow(2); } // REFUSE	pow	4x3
fn p4599() { let _ = m::<U4, U3>().determinant(); } // REFUSE	determinant	4x3
fn p4600() { let _ = m::<U4, U3>().inverse(); } // REFUSE	inverse	4x3
fn p4601() { let _ = m::<U4, U3>().cofactor((0, 0)); } // REFUSE	cofactor	4x3
fn p4602() { let _: Matrix<f64, U3, U4> = m::<U4, U3>().transposed(); } // ACCEPT	transposed	4x3
fn p4603() { let _: Matrix<f64, U4, U3> = m::<U4, U3>().transposed(); } // REFUSE	transposed	4x3
fn p4604() { let _ = Matrix::<f64, U4, U3>::diag([0.0; 0]); } // REFUSE	diag	4x3 from 0
fn p4605() { let _ = Matrix::<f64, U4, U3>::diag([0.0; 3]); } // ACCEPT	diag	4x3 from 3
fn p4606() { let _ = Matrix::<f64, U4, U3>::diag([0.0; 4]); } // REFUSE	diag	4x3 from 4
fn p4607() { let _ = Matrix::<f64, U4, U3>::new([[0.0; 3]; 3]); } // REFUSE	Matrix::new	4x3 from 3x3
fn p4608() { let _ = m::<U4, U3>().relative_eq(&m::<U3, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	4x3 and 3x3
fn p4609() { let _ = m::<U4, U3>().ulps_eq(&m::<U3, U3>(), 0.0, 4); } // REFUSE	ulps_eq	4x3 and 3x3
fn p4610() { let _ = m::<U4, U3>() == m::<U3, U3>(); } // REFUSE	==	4x3 and 3x3
fn p4611() { let _ = m::<U4, U3>() + m::<U3, U3>(); } // REFUSE	+	4x3 and 3x3
fn p4612() { let mut x = m::<U4, U3>(); x -= m::<U3, U3>(); } // REFUSE	-=	4x3 and 3x3
fn p4613() { let _ = m::<U4, U3>() * m::<U3, U3>(); } // ACCEPT	*	4x3 and 3x3
fn p4614() { let _ = &m::<U4, U3>() * &m::<U3, U3>(); } // ACCEPT	&*&	4x3 and 3x3
fn p4615() { let _ = m::<U4, U3>() * Vector::<f64, U3>::default(); } // ACCEPT	matrix * vector	4x3 and 3
fn p4616() { let _ = Matrix::<f64, U4, U3>::new([[0.0; 4]; 3]); } // REFUSE	Matrix::new	4x3 from 3x4
fn p4617() { let _ = m::<U4, U3>().relative_eq(&m::<U3, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x3 and 3x4
fn p4618() { let _ = m::<U4, U3>().ulps_eq(&m::<U3, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x3 and 3x4
fn p4619() { let _ = m::<U4, U3>() == m::<U3, U4>(); } // REFUSE	==	4x3 and 3x4
fn p4620() { let _ = m::<U4, U3>() + m::<U3, U4>(); } // REFUSE	+	4x3 and 3x4
fn p4621() { let mut x = m::<U4, U3>(); x -= m::<U3, U4>(); } // REFUSE	-=	4x3 and 3x4
fn p4622() { let _ = m::<U4, U3>() * m::<U3, U4>(); } // ACCEPT	*	4x3 and 3x4
fn p4623() { let _ = &m::<U4, U3>() * &m::<U3, U4>(); } // ACCEPT	&*&	4x3 and 3x4
fn p4624() { let _ = m::<U4, U3>() * Vector::<f64, U3>::default(); } // ACCEPT	matrix * vector	4x3 and 3
fn p4625() { let _ = Matrix::<f64, U4, U3>::new([[0.0; 2]; 4]); } // REFUSE	Matrix::new	4x3 from 4x2
fn p4626() { let _ = m::<U4, U3>().relative_eq(&m::<U4, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	4x3 and 4x2
fn p4627() { let _ = m::<U4, U3>().ulps_eq(&m::<U4, U2>(), 0.0, 4); } // REFUSE	ulps_eq	4x3 and 4x2
fn p4628() { let _ = m::<U4, U3>() == m::<U4, U2>(); } // REFUSE	==	4x3 and 4x2
fn p4629() { let _ = m::<U4, U3>() + m::<U4, U2>(); } // REFUSE	+	4x3 and 4x2
fn p4630() { let mut x = m::<U4, U3>(); x -= m::<U4, U2>(); } // REFUSE	-=	4x3 and 4x2
fn p4631() { let _ = m::<U4, U3>() * m::<U4, U2>(); } // REFUSE	*	4x3 and 4x2
fn p4632() { let _ = &m::<U4, U3>() * &m::<U4, U2>(); } // REFUSE	&*&	4x3 and 4x2
fn p4633() { let _ = Matrix::<f64, U4, U3>::new([[0.0; 3]; 4]); } // ACCEPT	Matrix::new	4x3 from 4x3
fn p4634() { let _ = m::<U4, U3>().relative_eq(&m::<U4, U3>(), 0.0, 0.0); } // ACCEPT	relative_eq	4x3 and 4x3
fn p4635() { let _ = m::<U4, U3>().ulps_eq(&m::<U4, U3>(), 0.0, 4); } // ACCEPT	ulps_eq	4x3 and 4x3
fn p4636() { let _ = m::<U4, U3>() == m::<U4, U3>(); } // ACCEPT	==	4x3 and 4x3
fn p4637() { let _ = m::<U4, U3>() + m::<U4, U3>(); } // ACCEPT	+	4x3 and 4x3
fn p4638() { let mut x = m::<U4, U3>(); x -= m::<U4, U3>(); } // ACCEPT	-=	4x3 and 4x3
fn p4639() { let _ = m::<U4, U3>() * m::<U4, U3>(); } // REFUSE	*	4x3 and 4x3
fn p4640() { let _ = &m::<U4, U3>() * &m::<U4, U3>(); } // REFUSE	&*&	4x3 and 4x3
fn p4641() { let _ = Matrix::<f64, U4, U3>::new([[0.0; 4]; 4]); } // REFUSE	Matrix::new	4x3 from 4x4
fn p4642() { let _ = m::<U4, U3>().relative_eq(&m::<U4, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x3 and 4x4
fn p4643() { let _ = m::<U4, U3>().ulps_eq(&m::<U4, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x3 and 4x4
fn p4644() { let _ = m::<U4, U3>() == m::<U4, U4>(); } // REFUSE	==	4x3 and 4x4
fn p4645() { let _ = m::<U4, U3>() + m::<U4, U4>(); } // REFUSE	+	4x3 and 4x4
fn p4646() { let mut x = m::<U4, U3>(); x -= m::<U4, U4>(); } // REFUSE	-=	4x3 and 4x4
fn p4647() { let _ = m::<U4, U3>() * m::<U4, U4>(); } // REFUSE	*	4x3 and 4x4
fn p4648() { let _ = &m::<U4, U3>() * &m::<U4, U4>(); } // REFUSE	&*&	4x3 and 4x4
fn p4649() { let _ = Matrix::<f64, U4, U3>::new([[0.0; 3]; 5]); } // REFUSE	Matrix::new	4x3 from 5x3
fn p4650() { let _ = m::<U4, U3>().relative_eq(&m::<U5, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	4x3 and 5x3
fn p4651() { let _ = m::<U4, U3>().ulps_eq(&m::<U5, U3>(), 0.0, 4); } // REFUSE	ulps_eq	4x3 and 5x3
fn p4652() { let _ = m::<U4, U3>() == m::<U5, U3>(); } // REFUSE	==	4x3 and 5x3
fn p4653() { let _ = m::<U4, U3>() + m::<U5, U3>(); } // REFUSE	+	4x3 and 5x3
fn p4654() { let mut x = m::<U4, U3>(); x -= m::<U5, U3>(); } // REFUSE	-=	4x3 and 5x3
fn p4655() { let _ = m::<U4, U3>() * m::<U5, U3>(); } // REFUSE	*	4x3 and 5x3
fn p4656() { let _ = &m::<U4, U3>() * &m::<U5, U3>(); } // REFUSE	&*&	4x3 and 5x3
fn p4657() { let _ = m::<U4, U3>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	4x3 and 5
fn p4658() { let _ = Matrix::<f64, U4, U4>::identity(); } // ACCEPT	identity	4x4
fn p4659() { let _ = <Matrix::<f64, U4, U4> as One>::one(); } // ACCEPT	one	4x4
fn p4660() { m::<U4, U4>().transpose(); } // ACCEPT	transpose	4x4
fn p4661() { let _ = m::<U4, U4>().pow(2); } // ACCEPT	pow	4x4
fn p4662() { let _ = m::<U4, U4>().determinant(); } // ACCEPT	determinant	4x4
fn p4663() { let _ = m::<U4, U4>().inverse(); } // ACCEPT	inverse	4x4
fn p4664() { let _ = m::<U4, U4>().cofactor((0, 0)); } // ACCEPT	cofactor	4x4
fn p4665() { let _: Matrix<f64, U4, U4> = m::<U4, U4>().transposed(); } // ACCEPT	transposed	4x4
fn p4666() { let _ = Matrix::<f64, U4, U4>::diag([0.0; 0]); } // REFUSE	diag	4x4 from 0
fn p4667() { let _ = Matrix::<f64, U4, U4>::diag([0.0; 4]); } // ACCEPT	diag	4x4 from 4
fn p4668() { let _ = Matrix::<f64, U4, U4>::diag([0.0; 5]); } // REFUSE	diag	4x4 from 5
fn p4669() { let _ = Matrix::<f64, U4, U4>::new([[0.0; 4]; 3]); } // REFUSE	Matrix::new	4x4 from 3x4
fn p4670() { let _ = m::<U4, U4>().relative_eq(&m::<U3, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x4 and 3x4
fn p4671() { let _ = m::<U4, U4>().ulps_eq(&m::<U3, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x4 and 3x4
fn p4672() { let _ = m::<U4, U4>() == m::<U3, U4>(); } // REFUSE	==	4x4 and 3x4
fn p4673() { let _ = m::<U4, U4>() + m::<U3, U4>(); } // REFUSE	+	4x4 and 3x4
fn p4674() { let mut x = m::<U4, U4>(); x -= m::<U3, U4>(); } // REFUSE	-=	4x4 and 3x4
fn p4675() { let _ = m::<U4, U4>() * m::<U3, U4>(); } // REFUSE	*	4x4 and 3x4
fn p4676() { let _ = &m::<U4, U4>() * &m::<U3, U4>(); } // REFUSE	&*&	4x4 and 3x4
fn p4677() { let _ = m::<U4, U4>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	4x4 and 3
fn p4678() { let _ = Matrix::<f64, U4, U4>::new([[0.0; 3]; 4]); } // REFUSE	Matrix::new	4x4 from 4x3
fn p4679() { let _ = m::<U4, U4>().relative_eq(&m::<U4, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	4x4 and 4x3
fn p4680() { let _ = m::<U4, U4>().ulps_eq(&m::<U4, U3>(), 0.0, 4); } // REFUSE	ulps_eq	4x4 and 4x3
fn p4681() { let _ = m::<U4, U4>() == m::<U4, U3>(); } // REFUSE	==	4x4 and 4x3
fn p4682() { let _ = m::<U4, U4>() + m::<U4, U3>(); } // REFUSE	+	4x4 and 4x3
fn p4683() { let mut x = m::<U4, U4>(); x -= m::<U4, U3>(); } // REFUSE	-=	4x4 and 4x3
fn p4684() { let _ = m::<U4, U4>() * m::<U4, U3>(); } // ACCEPT	*	4x4 and 4x3
fn p4685() { let _ = &m::<U4, U4>() * &m::<U4, U3>(); } // ACCEPT	&*&	4x4 and 4x3
fn p4686() { let _ = Matrix::<f64, U4, U4>::new([[0.0; 4]; 4]); } // ACCEPT	Matrix::new	4x4 from 4x4
fn p4687() { let _ = m::<U4, U4>().relative_eq(&m::<U4, U4>(), 0.0, 0.0); } // ACCEPT	relative_eq	4x4 and 4x4
fn p4688() { let _ = m::<U4, U4>().ulps_eq(&m::<U4, U4>(), 0.0, 4); } // ACCEPT	ulps_eq	4x4 and 4x4
fn p4689() { let _ = m::<U4, U4>() == m::<U4, U4>(); } // ACCEPT	==	4x4 and 4x4
fn p4690() { let _ = m::<U4, U4>() + m::<U4, U4>(); } // ACCEPT	+	4x4 and 4x4
fn p4691() { let mut x = m::<U4, U4>(); x -= m::<U4, U4>(); } // ACCEPT	-=	4x4 and 4x4
fn p4692() { let _ = m::<U4, U4>() * m::<U4, U4>(); } // ACCEPT	*	4x4 and 4x4
fn p4693() { let _ = &m::<U4, U4>() * &m::<U4, U4>(); } // ACCEPT	&*&	4x4 and 4x4
fn p4694() { let _ = Matrix::<f64, U4, U4>::new([[0.0; 5]; 4]); } // REFUSE	Matrix::new	4x4 from 4x5
fn p4695() { let _ = m::<U4, U4>().relative_eq(&m::<U4, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	4x4 and 4x5
fn p4696() { let _ = m::<U4, U4>().ulps_eq(&m::<U4, U5>(), 0.0, 4); } // REFUSE	ulps_eq	4x4 and 4x5
fn p4697() { let _ = m::<U4, U4>() == m::<U4, U5>(); } // REFUSE	==	4x4 and 4x5
fn p4698() { let _ = m::<U4, U4>() + m::<U4, U5>(); } // REFUSE	+	4x4 and 4x5
fn p4699() { let mut x = m::<U4, U4>(); x -= m::<U4, U5>(); } // REFUSE	-=	4x4 and 4x5
fn p4700() { let _ = m::<U4, U4>() * m::<U4, U5>(); } // ACCEPT	*	4x4 and 4x5
fn p4701() { let _ = &m::<U4, U4>() * &m::<U4, U5>(); } // ACCEPT	&*&	4x4 and 4x5
fn p4702() { let _ = Matrix::<f64, U4, U4>::new([[0.0; 4]; 5]); } // REFUSE	Matrix::new	4x4 from 5x4
fn p4703() { let _ = m::<U4, U4>().relative_eq(&m::<U5, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x4 and 5x4
fn p4704() { let _ = m::<U4, U4>().ulps_eq(&m::<U5, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x4 and 5x4
fn p4705() { let _ = m::<U4, U4>() == m::<U5, U4>(); } // REFUSE	==	4x4 and 5x4
fn p4706() { let _ = m::<U4, U4>() + m::<U5, U4>(); } // REFUSE	+	4x4 and 5x4
fn p4707() { let mut x = m::<U4, U4>(); x -= m::<U5, U4>(); } // REFUSE	-=	4x4 and 5x4
fn p4708() { let _ = m::<U4, U4>() * m::<U5, U4>(); } // REFUSE	*	4x4 and 5x4
fn p4709() { let _ = &m::<U4, U4>() * &m::<U5, U4>(); } // REFUSE	&*&	4x4 and 5x4
fn p4710() { let _ = m::<U4, U4>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	4x4 and 5
fn p4711() { let _ = Matrix::<f64, U4, U5>::identity(); } // REFUSE	identity	4x5
fn p4712() { let _ = <Matrix::<f64, U4, U5> as One>::one(); } // REFUSE	one	4x5
fn p4713() { m::<U4, U5>().transpose(); } // REFUSE	transpose	4x5
fn p4714() { let _ = m::<U4, U5>().pow(2); } // REFUSE	pow	4x5
fn p4715() { let _ = m::<U4, U5>().determinant(); } // REFUSE	determinant	4x5
fn p4716() { let _ = m::<U4, U5>().inverse(); } // REFUSE	inverse	4x5
fn p4717() { let _ = m::<U4, U5>().cofactor((0, 0)); } // REFUSE	cofactor	4x5
fn p4718() { let _: Matrix<f64, U5, U4> = m::<U4, U5>().transposed(); } // ACCEPT	transposed	4x5
fn p4719() { let _: Matrix<f64, U4, U5> = m::<U4, U5>().transposed(); } // REFUSE	transposed	4x5
fn p4720() { let _ = Matrix::<f64, U4, U5>::diag([0.0; 0]); } // REFUSE	diag	4x5 from 0
fn p4721() { let _ = Matrix::<f64, U4, U5>::diag([0.0; 4]); } // ACCEPT	diag	4x5 from 4
fn p4722() { let _ = Matrix::<f64, U4, U5>::diag([0.0; 5]); } // REFUSE	diag	4x5 from 5
fn p4723() { let _ = Matrix::<f64, U4, U5>::new([[0.0; 5]; 3]); } // REFUSE	Matrix::new	4x5 from 3x5
fn p4724() { let _ = m::<U4, U5>().relative_eq(&m::<U3, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	4x5 and 3x5
fn p4725() { let _ = m::<U4, U5>().ulps_eq(&m::<U3, U5>(), 0.0, 4); } // REFUSE	ulps_eq	4x5 and 3x5
fn p4726() { let _ = m::<U4, U5>() == m::<U3, U5>(); } // REFUSE	==	4x5 and 3x5
fn p4727() { let _ = m::<U4, U5>() + m::<U3, U5>(); } // REFUSE	+	4x5 and 3x5
fn p4728() { let mut x = m::<U4, U5>(); x -= m::<U3, U5>(); } // REFUSE	-=	4x5 and 3x5
fn p4729() { let _ = m::<U4, U5>() * m::<U3, U5>(); } // REFUSE	*	4x5 and 3x5
fn p4730() { let _ = &m::<U4, U5>() * &m::<U3, U5>(); } // REFUSE	&*&	4x5 and 3x5
fn p4731() { let _ = m::<U4, U5>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	4x5 and 3
fn p4732() { let _ = Matrix::<f64, U4, U5>::new([[0.0; 4]; 4]); } // REFUSE	Matrix::new	4x5 from 4x4
fn p4733() { let _ = m::<U4, U5>().relative_eq(&m::<U4, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x5 and 4x4
fn p4734() { let _ = m::<U4, U5>().ulps_eq(&m::<U4, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x5 and 4x4
fn p4735() { let _ = m::<U4, U5>() == m::<U4, U4>(); } // REFUSE	==	4x5 and 4x4
fn p4736() { let _ = m::<U4, U5>() + m::<U4, U4>(); } // REFUSE	+	4x5 and 4x4
fn p4737() { let mut x = m::<U4, U5>(); x -= m::<U4, U4>(); } // REFUSE	-=	4x5 and 4x4
fn p4738() { let _ = m::<U4, U5>() * m::<U4, U4>(); } // REFUSE	*	4x5 and 4x4
fn p4739() { let _ = &m::<U4, U5>() * &m::<U4, U4>(); } // REFUSE	&*&	4x5 and 4x4
fn p4740() { let _ = Matrix::<f64, U4, U5>::new([[0.0; 5]; 4]); } // ACCEPT	Matrix::new	4x5 from 4x5
fn p4741() { let _ = m::<U4, U5>().relative_eq(&m::<U4, U5>(), 0.0, 0.0); } // ACCEPT	relative_eq	4x5 and 4x5
fn p4742() { let _ = m::<U4, U5>().ulps_eq(&m::<U4, U5>(), 0.0, 4); } // ACCEPT	ulps_eq	4x5 and 4x5
fn p4743() { let _ = m::<U4, U5>() == m::<U4, U5>(); } // ACCEPT	==	4x5 and 4x5
fn p4744() { let _ = m::<U4, U5>() + m::<U4, U5>(); } // ACCEPT	+	4x5 and 4x5
fn p4745() { let mut x = m::<U4, U5>(); x -= m::<U4, U5>(); } // ACCEPT	-=	4x5 and 4x5
fn p4746() { let _ = m::<U4, U5>() * m::<U4, U5>(); } // REFUSE	*	4x5 and 4x5
fn p4747() { let _ = &m::<U4, U5>() * &m::<U4, U5>(); } // REFUSE	&*&	4x5 and 4x5
fn p4748() { let _ = Matrix::<f64, U4, U5>::new([[0.0; 6]; 4]); } // REFUSE	Matrix::new	4x5 from 4x6
fn p4749() { let _ = m::<U4, U5>().relative_eq(&m::<U4, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	4x5 and 4x6
fn p4750() { let _ = m::<U4, U5>().ulps_eq(&m::<U4, U6>(), 0.0, 4); } // REFUSE	ulps_eq	4x5 and 4x6
fn p4751() { let _ = m::<U4, U5>() == m::<U4, U6>(); } // REFUSE	==	4x5 and 4x6
fn p4752() { let _ = m::<U4, U5>() + m::<U4, U6>(); } // REFUSE	+	4x5 and 4x6
fn p4753() { let mut x = m::<U4, U5>(); x -= m::<U4, U6>(); } // REFUSE	-=	4x5 and 4x6
fn p4754() { let _ = m::<U4, U5>() * m::<U4, U6>(); } // REFUSE	*	4x5 and 4x6
fn p4755() { let _ = &m::<U4, U5>() * &m::<U4, U6>(); } // REFUSE	&*&	4x5 and 4x6
fn p4756() { let _ = Matrix::<f64, U4, U5>::new([[0.0; 4]; 5]); } // REFUSE	Matrix::new	4x5 from 5x4
fn p4757() { let _ = m::<U4, U5>().relative_eq(&m::<U5, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x5 and 5x4
fn p4758() { let _ = m::<U4, U5>().ulps_eq(&m::<U5, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x5 and 5x4
fn p4759() { let _ = m::<U4, U5>() == m::<U5, U4>(); } // REFUSE	==	4x5 and 5x4
fn p4760() { let _ = m::<U4, U5>() + m::<U5, U4>(); } // REFUSE	+	4x5 and 5x4
fn p4761() { let mut x = m::<U4, U5>(); x -= m::<U5, U4>(); } // REFUSE	-=	4x5 and 5x4
fn p4762() { let _ = m::<U4, U5>() * m::<U5, U4>(); } // ACCEPT	*	4x5 and 5x4
fn p4763() { let _ = &m::<U4, U5>() * &m::<U5, U4>(); } // ACCEPT	&*&	4x5 and 5x4
fn p4764() { let _ = m::<U4, U5>() * Vector::<f64, U5>::default(); } // ACCEPT	matrix * vector	4x5 and 5
fn p4765() { let _ = Matrix::<f64, U4, U5>::new([[0.0; 5]; 5]); } // REFUSE	Matrix::new	4x5 from 5x5
fn p4766() { let _ = m::<U4, U5>().relative_eq(&m::<U5, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	4x5 and 5x5
fn p4767() { let _ = m::<U4, U5>().ulps_eq(&m::<U5, U5>(), 0.0, 4); } // REFUSE	ulps_eq	4x5 and 5x5
fn p4768() { let _ = m::<U4, U5>() == m::<U5, U5>(); } // REFUSE	==	4x5 and 5x5
fn p4769() { let _ = m::<U4, U5>() + m::<U5, U5>(); } // REFUSE	+	4x5 and 5x5
fn p4770() { let mut x = m::<U4, U5>(); x -= m::<U5, U5>(); } // REFUSE	-=	4x5 and 5x5
fn p4771() { let _ = m::<U4, U5>() * m::<U5, U5>(); } // ACCEPT	*	4x5 and 5x5
fn p4772() { let _ = &m::<U4, U5>() * &m::<U5, U5>(); } // ACCEPT	&*&	4x5 and 5x5
fn p4773() { let _ = m::<U4, U5>() * Vector::<f64, U5>::default(); } // ACCEPT	matrix * vector	4x5 and 5
fn p4774() { let _ = Matrix::<f64, U4, U6>::identity(); } // REFUSE	identity	4x6
fn p4775() { let _ = <Matrix::<f64, U4, U6> as One>::one(); } // REFUSE	one	4x6
fn p4776() { m::<U4, U6>().transpose(); } // REFUSE	transpose	4x6
fn p4777() { let _ = m::<U4, U6>().pow(2); } // REFUSE	pow	4x6
fn p4778() { let _ = m::<U4, U6>().determinant(); } // REFUSE	determinant	4x6
fn p4779() { let _ = m::<U4, U6>().inverse(); } // REFUSE	inverse	4x6
fn p4780() { let _ = m::<U4, U6>().cofactor((0, 0)); } // REFUSE	cofactor	4x6
fn p4781() { let _: Matrix<f64, U6, U4> = m::<U4, U6>().transposed(); } // ACCEPT	transposed	4x6
fn p4782() { let _: Matrix<f64, U4, U6> = m::<U4, U6>().transposed(); } // REFUSE	transposed	4x6
fn p4783() { let _ = Matrix::<f64, U4, U6>::diag([0.0; 0]); } // REFUSE	diag	4x6 from 0
fn p4784() { let _ = Matrix::<f64, U4, U6>::diag([0.0; 4]); } // ACCEPT	diag	4x6 from 4
fn p4785() { let _ = Matrix::<f64, U4, U6>::diag([0.0; 5]); } // REFUSE	diag	4x6 from 5
fn p4786() { let _ = Matrix::<f64, U4, U6>::diag([0.0; 6]); } // REFUSE	diag	4x6 from 6
fn p4787() { let _ = Matrix::<f64, U4, U6>::new([[0.0; 6]; 3]); } // REFUSE	Matrix::new	4x6 from 3x6
fn p4788() { let _ = m::<U4, U6>().relative_eq(&m::<U3, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	4x6 and 3x6
fn p4789() { let _ = m::<U4, U6>().ulps_eq(&m::<U3, U6>(), 0.0, 4); } // REFUSE	ulps_eq	4x6 and 3x6
fn p4790() { let _ = m::<U4, U6>() == m::<U3, U6>(); } // REFUSE	==	4x6 and 3x6
fn p4791() { let _ = m::<U4, U6>() + m::<U3, U6>(); } // REFUSE	+	4x6 and 3x6
fn p4792() { let mut x = m::<U4, U6>(); x -= m::<U3, U6>(); } // REFUSE	-=	4x6 and 3x6
fn p4793() { let _ = m::<U4, U6>() * m::<U3, U6>(); } // REFUSE	*	4x6 and 3x6
fn p4794() { let _ = &m::<U4, U6>() * &m::<U3, U6>(); } // REFUSE	&*&	4x6 and 3x6
fn p4795() { let _ = m::<U4, U6>() * Vector::<f64, U3>::default(); } // REFUSE	matrix * vector	4x6 and 3
fn p4796() { let _ = Matrix::<f64, U4, U6>::new([[0.0; 5]; 4]); } // REFUSE	Matrix::new	4x6 from 4x5
fn p4797() { let _ = m::<U4, U6>().relative_eq(&m::<U4, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	4x6 and 4x5
fn p4798() { let _ = m::<U4, U6>().ulps_eq(&m::<U4, U5>(), 0.0, 4); } // REFUSE	ulps_eq	4x6 and 4x5
fn p4799() { let _ = m::<U4, U6>() == m::<U4, U5>(); } // REFUSE	==	4x6 and 4x5
fn p4800() { let _ = m::<U4, U6>() + m::<U4, U5>(); } // REFUSE	+	4x6 and 4x5
fn p4801() { let mut x = m::<U4, U6>(); x -= m::<U4, U5>(); } // REFUSE	-=	4x6 and 4x5
fn p4802() { let _ = m::<U4, U6>() * m::<U4, U5>(); } // REFUSE	*	4x6 and 4x5
fn p4803() { let _ = &m::<U4, U6>() * &m::<U4, U5>(); } // REFUSE	&*&	4x6 and 4x5
fn p4804() { let _ = Matrix::<f64, U4, U6>::new([[0.0; 6]; 4]); } // ACCEPT	Matrix::new	4x6 from 4x6
fn p4805() { let _ = m::<U4, U6>().relative_eq(&m::<U4, U6>(), 0.0, 0.0); } // ACCEPT	relative_eq	4x6 and 4x6
fn p4806() { let _ = m::<U4, U6>().ulps_eq(&m::<U4, U6>(), 0.0, 4); } // ACCEPT	ulps_eq	4x6 and 4x6
fn p4807() { let _ = m::<U4, U6>() == m::<U4, U6>(); } // ACCEPT	==	4x6 and 4x6
fn p4808() { let _ = m::<U4, U6>() + m::<U4, U6>(); } // ACCEPT	+	4x6 and 4x6
fn p4809() { let mut x = m::<U4, U6>(); x -= m::<U4, U6>(); } // ACCEPT	-=	4x6 and 4x6
fn p4810() { let _ = m::<U4, U6>() * m::<U4, U6>(); } // REFUSE	*	4x6 and 4x6
fn p4811() { let _ = &m::<U4, U6>() * &m::<U4, U6>(); } // REFUSE	&*&	4x6 and 4x6
fn p4812() { let _ = Matrix::<f64, U4, U6>::new([[0.0; 7]; 4]); } // REFUSE	Matrix::new	4x6 from 4x7
fn p4813() { let _ = m::<U4, U6>().relative_eq(&m::<U4, U7>(), 0.0, 0.0); } // REFUSE	relative_eq	4x6 and 4x7
fn p4814() { let _ = m::<U4, U6>().ulps_eq(&m::<U4, U7>(), 0.0, 4); } // REFUSE	ulps_eq	4x6 and 4x7
fn p4815() { let _ = m::<U4, U6>() == m::<U4, U7>(); } // REFUSE	==	4x6 and 4x7
fn p4816() { let _ = m::<U4, U6>() + m::<U4, U7>(); } // REFUSE	+	4x6 and 4x7
fn p4817() { let mut x = m::<U4, U6>(); x -= m::<U4, U7>(); } // REFUSE	-=	4x6 and 4x7
fn p4818() { let _ = m::<U4, U6>() * m::<U4, U7>(); } // REFUSE	*	4x6 and 4x7
fn p4819() { let _ = &m::<U4, U6>() * &m::<U4, U7>(); } // REFUSE	&*&	4x6 and 4x7
fn p4820() { let _ = Matrix::<f64, U4, U6>::new([[0.0; 6]; 5]); } // REFUSE	Matrix::new	4x6 from 5x6
fn p4821() { let _ = m::<U4, U6>().relative_eq(&m::<U5, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	4x6 and 5x6
fn p4822() { let _ = m::<U4, U6>().ulps_eq(&m::<U5, U6>(), 0.0, 4); } // REFUSE	ulps_eq	4x6 and 5x6
fn p4823() { let _ = m::<U4, U6>() == m::<U5, U6>(); } // REFUSE	==	4x6 and 5x6
fn p4824() { let _ = m::<U4, U6>() + m::<U5, U6>(); } // REFUSE	+	4x6 and 5x6
fn p4825() { let mut x = m::<U4, U6>(); x -= m::<U5, U6>(); } // REFUSE	-=	4x6 and 5x6
fn p4826() { let _ = m::<U4, U6>() * m::<U5, U6>(); } // REFUSE	*	4x6 and 5x6
fn p4827() { let _ = &m::<U4, U6>() * &m::<U5, U6>(); } // REFUSE	&*&	4x6 and 5x6
fn p4828() { let _ = m::<U4, U6>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	4x6 and 5
fn p4829() { let _ = Matrix::<f64, U4, U6>::new([[0.0; 4]; 6]); } // REFUSE	Matrix::new	4x6 from 6x4
fn p4830() { let _ = m::<U4, U6>().relative_eq(&m::<U6, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	4x6 and 6x4
fn p4831() { let _ = m::<U4, U6>().ulps_eq(&m::<U6, U4>(), 0.0, 4); } // REFUSE	ulps_eq	4x6 and 6x4
fn p4832() { let _ = m::<U4, U6>() == m::<U6, U4>(); } // REFUSE	==	4x6 and 6x4
fn p4833() { let _ = m::<U4, U6>() + m::<U6, U4>(); } // REFUSE	+	4x6 and 6x4
fn p4834() { let mut x = m::<U4, U6>(); x -= m::<U6, U4>(); } // REFUSE	-=	4x6 and 6x4
fn p4835() { let _ = m::<U4, U6>() * m::<U6, U4>(); } // ACCEPT	*	4x6 and 6x4
fn p4836() { let _ = &m::<U4, U6>() * &m::<U6, U4>(); } // ACCEPT	&*&	4x6 and 6x4
fn p4837() { let _ = m::<U4, U6>() * Vector::<f64, U6>::default(); } // ACCEPT	matrix * vector	4x6 and 6
fn p4838() { let _ = Matrix::<f64, U5, U0>::identity(); } // REFUSE	identity	5x0
fn p4839() { let _ = <Matrix::<f64, U5, U0> as One>::one(); } // REFUSE	one	5x0
fn p4840() { m::<U5, U0>().transpose(); } // REFUSE	transpose	5x0
fn p4841() { let _ = m::<U5, U0>().pow(2); } // REFUSE	pow	5x0
fn p4842() { let _ = m::<U5, U0>().determinant(); } // REFUSE	determinant	5x0
fn p4843() { let _ = m::<U5, U0>().inverse(); } // REFUSE	inverse	5x0
fn p4844() { let _ = m::<U5, U0>().cofactor((0, 0)); } // REFUSE	cofactor	5x0
fn p4845() { let _: Matrix<f64, U0, U5> = m::<U5, U0>().transposed(); } // ACCEPT	transposed	5x0
fn p4846() { let _: Matrix<f64, U5, U0> = m::<U5, U0>().transposed(); } // REFUSE	transposed	5x0
fn p4847() { let _ = Matrix::<f64, U5, U0>::diag([0.0; 0]); } // ACCEPT	diag	5x0 from 0
fn p4848() { let _ = Matrix::<f64, U5, U0>::diag([0.0; 1]); } // REFUSE	diag	5x0 from 1
fn p4849() { let _ = Matrix::<f64, U5, U0>::diag([0.0; 5]); } // REFUSE	diag	5x0 from 5
fn p4850() { let _ = Matrix::<f64, U5, U0>::new([[0.0; 5]; 0]); } // REFUSE	Matrix::new	5x0 from 0x5
fn p4851() { let _ = m::<U5, U0>().relative_eq(&m::<U0, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x0 and 0x5
fn p4852() { let _ = m::<U5, U0>().ulps_eq(&m::<U0, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x0 and 0x5
fn p4853() { let _ = m::<U5, U0>() == m::<U0, U5>(); } // REFUSE	==	5x0 and 0x5
fn p4854() { let _ = m::<U5, U0>() + m::<U0, U5>(); } // REFUSE	+	5x0 and 0x5
fn p4855() { let mut x = m::<U5, U0>(); x -= m::<U0, U5>(); } // REFUSE	-=	5x0 and 0x5
fn p4856() { let _ = m::<U5, U0>() * m::<U0, U5>(); } // ACCEPT	*	5x0 and 0x5
fn p4857() { let _ = &m::<U5, U0>() * &m::<U0, U5>(); } // ACCEPT	&*&	5x0 and 0x5
fn p4858() { let _ = m::<U5, U0>() * Vector::<f64, U0>::default(); } // ACCEPT	matrix * vector	5x0 and 0
fn p4859() { let _ = Matrix::<f64, U5, U0>::new([[0.0; 0]; 4]); } // REFUSE	Matrix::new	5x0 from 4x0
fn p4860() { let _ = m::<U5, U0>().relative_eq(&m::<U4, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	5x0 and 4x0
fn p4861() { let _ = m::<U5, U0>().ulps_eq(&m::<U4, U0>(), 0.0, 4); } // REFUSE	ulps_eq	5x0 and 4x0
fn p4862() { let _ = m::<U5, U0>() == m::<U4, U0>(); } // REFUSE	==	5x0 and 4x0
fn p4863() { let _ = m::<U5, U0>() + m::<U4, U0>(); } // REFUSE	+	5x0 and 4x0
fn p4864() { let mut x = m::<U5, U0>(); x -= m::<U4, U0>(); } // REFUSE	-=	5x0 and 4x0
fn p4865() { let _ = m::<U5, U0>() * m::<U4, U0>(); } // REFUSE	*	5x0 and 4x0
fn p4866() { let _ = &m::<U5, U0>() * &m::<U4, U0>(); } // REFUSE	&*&	5x0 and 4x0
fn p4867() { let _ = m::<U5, U0>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	5x0 and 4
fn p4868() { let _ = Matrix::<f64, U5, U0>::new([[0.0; 0]; 5]); } // ACCEPT	Matrix::new	5x0 from 5x0
fn p4869() { let _ = m::<U5, U0>().relative_eq(&m::<U5, U0>(), 0.0, 0.0); } // ACCEPT	relative_eq	5x0 and 5x0
fn p4870() { let _ = m::<U5, U0>().ulps_eq(&m::<U5, U0>(), 0.0, 4); } // ACCEPT	ulps_eq	5x0 and 5x0
fn p4871() { let _ = m::<U5, U0>() == m::<U5, U0>(); } // ACCEPT	==	5x0 and 5x0
fn p4872() { let _ = m::<U5, U0>() + m::<U5, U0>(); } // ACCEPT	+	5x0 and 5x0
fn p4873() { let mut x = m::<U5, U0>(); x -= m::<U5, U0>(); } // ACCEPT	-=	5x0 and 5x0
fn p4874() { let _ = m::<U5, U0>() * m::<U5, U0>(); } // REFUSE	*	5x0 and 5x0
fn p4875() { let _ = &m::<U5, U0>() * &m::<U5, U0>(); } // REFUSE	&*&	5x0 and 5x0
fn p4876() { let _ = Matrix::<f64, U5, U0>::new([[0.0; 1]; 5]); } // REFUSE	Matrix::new	5x0 from 5x1
fn p4877() { let _ = m::<U5, U0>().relative_eq(&m::<U5, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	5x0 and 5x1
fn p4878() { let _ = m::<U5, U0>().ulps_eq(&m::<U5, U1>(), 0.0, 4); } // REFUSE	ulps_eq	5x0 and 5x1
fn p4879() { let _ = m::<U5, U0>() == m::<U5, U1>(); } // REFUSE	==	5x0 and 5x1
fn p4880() { let _ = m::<U5, U0>() + m::<U5, U1>(); } // REFUSE	+	5x0 and 5x1
fn p4881() { let mut x = m::<U5, U0>(); x -= m::<U5, U1>(); } // REFUSE	-=	5x0 and 5x1
fn p4882() { let _ = m::<U5, U0>() * m::<U5, U1>(); } // REFUSE	*	5x0 and 5x1
fn p4883() { let _ = &m::<U5, U0>() * &m::<U5, U1>(); } // REFUSE	&*&	5x0 and 5x1
fn p4884() { let _ = m::<U5, U0>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	5x0 and 5
fn p4885() { let _ = Matrix::<f64, U5, U0>::new([[0.0; 0]; 6]); } // REFUSE	Matrix::new	5x0 from 6x0
fn p4886() { let _ = m::<U5, U0>().relative_eq(&m::<U6, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	5x0 and 6x0
fn p4887() { let _ = m::<U5, U0>().ulps_eq(&m::<U6, U0>(), 0.0, 4); } // REFUSE	ulps_eq	5x0 and 6x0
fn p4888() { let _ = m::<U5, U0>() == m::<U6, U0>(); } // REFUSE	==	5x0 and 6x0
fn p4889() { let _ = m::<U5, U0>() + m::<U6, U0>(); } // REFUSE	+	5x0 and 6x0
fn p4890() { let mut x = m::<U5, U0>(); x -= m::<U6, U0>(); } // REFUSE	-=	5x0 and 6x0
fn p4891() { let _ = m::<U5, U0>() * m::<U6, U0>(); } // REFUSE	*	5x0 and 6x0
fn p4892() { let _ = &m::<U5, U0>() * &m::<U6, U0>(); } // REFUSE	&*&	5x0 and 6x0
fn p4893() { let _ = m::<U5, U0>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	5x0 and 6
fn p4894() { let _ = Matrix::<f64, U5, U1>::identity(); } // REFUSE	identity	5x1
fn p4895() { let _ = <Matrix::<f64, U5, U1> as One>::one(); } // REFUSE	one	5x1
fn p4896() { m::<U5, U1>().transpose(); } // REFUSE	transpose	5x1
fn p4897() { let _ = m::<U5, U1>().pow(2); } // REFUSE	pow	5x1
fn p4898() { let _ = m::<U5, U1>().determinant(); } // REFUSE	determinant	5x1
fn p4899() { let _ = m::<U5, U1>().inverse(); } // REFUSE	inverse	5x1
fn p4900() { let _ = m::<U5, U1>().cofactor((0, 0)); } // REFUSE	cofactor	5x1
fn p4901() { let _: Matrix<f64, U1, U5> = m::<U5, U1>().transposed(); } // ACCEPT	transposed	5x1
fn p4902() { let _: Matrix<f64, U5, U1> = m::<U5, U1>().transposed(); } // REFUSE	transposed	5x1
fn p4903() { let _ = Matrix::<f64, U5, U1>::diag([0.0; 0]); } // REFUSE	diag	5x1 from 0
fn p4904() { let _ = Matrix::<f64, U5, U1>::diag([0.0; 1]); } // ACCEPT	diag	5x1 from 1
fn p4905() { let _ = Matrix::<f64, U5, U1>::diag([0.0; 2]); } // REFUSE	diag	5x1 from 2
fn p4906() { let _ = Matrix::<f64, U5, U1>::diag([0.0; 5]); } // REFUSE	diag	5x1 from 5
fn p4907() { let _ = Matrix::<f64, U5, U1>::new([[0.0; 5]; 1]); } // REFUSE	Matrix::new	5x1 from 1x5
fn p4908() { let _ = m::<U5, U1>().relative_eq(&m::<U1, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x1 and 1x5
fn p4909() { let _ = m::<U5, U1>().ulps_eq(&m::<U1, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x1 and 1x5
fn p4910() { let _ = m::<U5, U1>() == m::<U1, U5>(); } // REFUSE	==	5x1 and 1x5
fn p4911() { let _ = m::<U5, U1>() + m::<U1, U5>(); } // REFUSE	+	5x1 and 1x5
fn p4912() { let mut x = m::<U5, U1>(); x -= m::<U1, U5>(); } // REFUSE	-=	5x1 and 1x5
fn p4913() { let _ = m::<U5, U1>() * m::<U1, U5>(); } // ACCEPT	*	5x1 and 1x5
fn p4914() { let _ = &m::<U5, U1>() * &m::<U1, U5>(); } // ACCEPT	&*&	5x1 and 1x5
fn p4915() { let _ = m::<U5, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	5x1 and 1
fn p4916() { let _ = Matrix::<f64, U5, U1>::new([[0.0; 1]; 4]); } // REFUSE	Matrix::new	5x1 from 4x1
fn p4917() { let _ = m::<U5, U1>().relative_eq(&m::<U4, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	5x1 and 4x1
fn p4918() { let _ = m::<U5, U1>().ulps_eq(&m::<U4, U1>(), 0.0, 4); } // REFUSE	ulps_eq	5x1 and 4x1
fn p4919() { let _ = m::<U5, U1>() == m::<U4, U1>(); } // REFUSE	==	5x1 and 4x1
fn p4920() { let _ = m::<U5, U1>() + m::<U4, U1>(); } // REFUSE	+	5x1 and 4x1
fn p4921() { let mut x = m::<U5, U1>(); x -= m::<U4, U1>(); } // REFUSE	-=	5x1 and 4x1
fn p4922() { let _ = m::<U5, U1>() * m::<U4, U1>(); } // REFUSE	*	5x1 and 4x1
fn p4923() { let _ = &m::<U5, U1>() * &m::<U4, U1>(); } // REFUSE	&*&	5x1 and 4x1
fn p4924() { let _ = m::<U5, U1>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	5x1 and 4
fn p4925() { let _ = Matrix::<f64, U5, U1>::new([[0.0; 0]; 5]); } // REFUSE	Matrix::new	5x1 from 5x0
fn p4926() { let _ = m::<U5, U1>().relative_eq(&m::<U5, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	5x1 and 5x0
fn p4927() { let _ = m::<U5, U1>().ulps_eq(&m::<U5, U0>(), 0.0, 4); } // REFUSE	ulps_eq	5x1 and 5x0
fn p4928() { let _ = m::<U5, U1>() == m::<U5, U0>(); } // REFUSE	==	5x1 and 5x0
fn p4929() { let _ = m::<U5, U1>() + m::<U5, U0>(); } // REFUSE	+	5x1 and 5x0
fn p4930() { let mut x = m::<U5, U1>(); x -= m::<U5, U0>(); } // REFUSE	-=	5x1 and 5x0
fn p4931() { let _ = m::<U5, U1>() * m::<U5, U0>(); } // REFUSE	*	5x1 and 5x0
fn p4932() { let _ = &m::<U5, U1>() * &m::<U5, U0>(); } // REFUSE	&*&	5x1 and 5x0
fn p4933() { let _ = Matrix::<f64, U5, U1>::new([[0.0; 1]; 5]); } // ACCEPT	Matrix::new	5x1 from 5x1
fn p4934() { let _ = m::<U5, U1>().relative_eq(&m::<U5, U1>(), 0.0, 0.0); } // ACCEPT	relative_eq	5x1 and 5x1
fn p4935() { let _ = m::<U5, U1>().ulps_eq(&m::<U5, U1>(), 0.0, 4); } // ACCEPT	ulps_eq	5x1 and 5x1
fn p4936() { let _ = m::<U5, U1>() == m::<U5, U1>(); } // ACCEPT	==	5x1 and 5x1
fn p4937() { let _ = m::<U5, U1>() + m::<U5, U1>(); } // ACCEPT	+	5x1 and 5x1
fn p4938() { let mut x = m::<U5, U1>(); x -= m::<U5, U1>(); } // ACCEPT	-=	5x1 and 5x1
fn p4939() { let _ = m::<U5, U1>() * m::<U5, U1>(); } // REFUSE	*	5x1 and 5x1
fn p4940() { let _ = &m::<U5, U1>() * &m::<U5, U1>(); } // REFUSE	&*&	5x1 and 5x1
fn p4941() { let _ = m::<U5, U1>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	5x1 and 5
fn p4942() { let _ = Matrix::<f64, U5, U1>::new([[0.0; 2]; 5]); } // REFUSE	Matrix::new	5x1 from 5x2
fn p4943() { let _ = m::<U5, U1>().relative_eq(&m::<U5, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	5x1 and 5x2
fn p4944() { let _ = m::<U5, U1>().ulps_eq(&m::<U5, U2>(), 0.0, 4); } // REFUSE	ulps_eq	5x1 and 5x2
fn p4945() { let _ = m::<U5, U1>() == m::<U5, U2>(); } // REFUSE	==	5x1 and 5x2
fn p4946() { let _ = m::<U5, U1>() + m::<U5, U2>(); } // REFUSE	+	5x1 and 5x2
fn p4947() { let mut x = m::<U5, U1>(); x -= m::<U5, U2>(); } // REFUSE	-=	5x1 and 5x2
fn p4948() { let _ = m::<U5, U1>() * m::<U5, U2>(); } // REFUSE	*	5x1 and 5x2
fn p4949() { let _ = &m::<U5, U1>() * &m::<U5, U2>(); } // REFUSE	&*&	5x1 and 5x2
fn p4950() { let _ = Matrix::<f64, U5, U1>::new([[0.0; 1]; 6]); } // REFUSE	Matrix::new	5x1 from 6x1
fn p4951() { let _ = m::<U5, U1>().relative_eq(&m::<U6, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	5x1 and 6x1
fn p4952() { let _ = m::<U5, U1>().ulps_eq(&m::<U6, U1>(), 0.0, 4); } // REFUSE	ulps_eq	5x1 and 6x1
fn p4953() { let _ = m::<U5, U1>() == m::<U6, U1>(); } // REFUSE	==	5x1 and 6x1
fn p4954() { let _ = m::<U5, U1>() + m::<U6, U1>(); } // REFUSE	+	5x1 and 6x1
fn p4955() { let mut x = m::<U5, U1>(); x -= m::<U6, U1>(); } // REFUSE	-=	5x1 and 6x1
fn p4956() { let _ = m::<U5, U1>() * m::<U6, U1>(); } // REFUSE	*	5x1 and 6x1
fn p4957() { let _ = &m::<U5, U1>() * &m::<U6, U1>(); } // REFUSE	&*&	5x1 and 6x1
fn p4958() { let _ = m::<U5, U1>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	5x1 and 6
fn p4959() { let _ = Matrix::<f64, U5, U2>::identity(); } // REFUSE	identity	5x2
fn p4960() { let _ = <Matrix::<f64, U5, U2> as One>::one(); } // REFUSE	one	5x2
fn p4961() { m::<U5, U2>().transpose(); } // REFUSE	transpose	5x2
fn p4962() { let _ = m::<U5, U2>().pow(2); } // REFUSE	pow	5x2
fn p4963() { let _ = m::<U5, U2>().determinant(); } // REFUSE	determinant	5x2
fn p4964() { let _ = m::<U5, U2>().inverse(); } // REFUSE	inverse	5x2
fn p4965() { let _ = m::<U5, U2>().cofactor((0, 0)); } // REFUSE	cofactor	5x2
fn p4966() { let _: Matrix<f64, U2, U5> = m::<U5, U2>().transposed(); } // ACCEPT	transposed	5x2
fn p4967() { let _: Matrix<f64, U5, U2> = m::<U5, U2>().transposed(); } // REFUSE	transposed	5x2
fn p4968() { let _ = Matrix::<f64, U5, U2>::diag([0.0; 0]); } // REFUSE	diag	5x2 from 0
fn p4969() { let _ = Matrix::<f64, U5, U2>::diag([0.0; 2]); } // ACCEPT	diag	5x2 from 2
fn p4970() { let _ = Matrix::<f64, U5, U2>::diag([0.0; 3]); } // REFUSE	diag	5x2 from 3
fn p4971() { let _ = Matrix::<f64, U5, U2>::diag([0.0; 5]); } // REFUSE	diag	5x2 from 5
fn p4972() { let _ = Matrix::<f64, U5, U2>::new([[0.0; 5]; 2]); } // REFUSE	Matrix::new	5x2 from 2x5
fn p4973() { let _ = m::<U5, U2>().relative_eq(&m::<U2, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x2 and 2x5
fn p4974() { let _ = m::<U5, U2>().ulps_eq(&m::<U2, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x2 and 2x5
fn p4975() { let _ = m::<U5, U2>() == m::<U2, U5>(); } // REFUSE	==	5x2 and 2x5
fn p4976() { let _ = m::<U5, U2>() + m::<U2, U5>(); } // REFUSE	+	5x2 and 2x5
fn p4977() { let mut x = m::<U5, U2>(); x -= m::<U2, U5>(); } // REFUSE	-=	5x2 and 2x5
fn p4978() { let _ = m::<U5, U2>() * m::<U2, U5>(); } // ACCEPT	*	5x2 and 2x5
fn p4979() { let _ = &m::<U5, U2>() * &m::<U2, U5>(); } // ACCEPT	&*&	5x2 and 2x5
fn p4980() { let _ = m::<U5, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	5x2 and 2
fn p4981() { let _ = Matrix::<f64, U5, U2>::new([[0.0; 2]; 4]); } // REFUSE	Matrix::new	5x2 from 4x2
fn p4982() { let _ = m::<U5, U2>().relative_eq(&m::<U4, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	5x2 and 4x2
fn p4983() { let _ = m::<U5, U2>().ulps_eq(&m::<U4, U2>(), 0.0, 4); } // REFUSE	ulps_eq	5x2 and 4x2
fn p4984() { let _ = m::<U5, U2>() == m::<U4, U2>(); } // REFUSE	==	5x2 and 4x2
fn p4985() { let _ = m::<U5, U2>() + m::<U4, U2>(); } // REFUSE	+	5x2 and 4x2
fn p4986() { let mut x = m::<U5, U2>(); x -= m::<U4, U2>(); } // REFUSE	-=	5x2 and 4x2
fn p4987() { let _ = m::<U5, U2>() * m::<U4, U2>(); } // REFUSE	*	5x2 and 4x2
fn p4988() { let _ = &m::<U5, U2>() * &m::<U4, U2>(); } // REFUSE	&*&	5x2 and 4x2
fn p4989() { let _ = m::<U5, U2>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	5x2 and 4
fn p4990() { let _ = Matrix::<f64, U5, U2>::new([[0.0; 1]; 5]); } // REFUSE	Matrix::new	5x2 from 5x1
fn p4991() { let _ = m::<U5, U2>().relative_eq(&m::<U5, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	5x2 and 5x1
fn p4992() { let _ = m::<U5, U2>().ulps_eq(&m::<U5, U1>(), 0.0, 4); } // REFUSE	ulps_eq	5x2 and 5x1
fn p4993() { let _ = m::<U5, U2>() == m::<U5, U1>(); } // REFUSE	==	5x2 and 5x1
fn p4994() { let _ = m::<U5, U2>() + m::<U5, U1>(); } // REFUSE	+	5x2 and 5x1
fn p4995() { let mut x = m::<U5, U2>(); x -= m::<U5, U1>(); } // REFUSE	-=	5x2 and 5x1
fn p4996() { let _ = m::<U5, U2>() * m::<U5, U1>(); } // REFUSE	*	5x2 and 5x1
fn p4997() { let _ = &m::<U5, U2>() * &m::<U5, U1>(); } // REFUSE	&*&	5x2 and 5x1
fn p4998() { let _ = m::<U5, U2>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	5x2 and 5
fn p4999() { let _ = Matrix::<f64, U5, U2>::new([[0.0; 2]; 5]); } // ACCEPT	Matrix::new	5x2 from 5x2
fn p5000() { let _ = m::<U5, U2>().relative_eq(&m::<U5, U2>(), 0.0, 0.0); } // ACCEPT	relative_eq	5x2 and 5x2
fn p5001() { let _ = m::<U5, U2>().ulps_eq(&m::<U5, U2>(), 0.0, 4); } // ACCEPT	ulps_eq	5x2 and 5x2
fn p5002() { let _ = m::<U5, U2>() == m::<U5, U2>(); } // ACCEPT	==	5x2 and 5x2
fn p5003() { let _ = m::<U5, U2>() + m::<U5, U2>(); } // ACCEPT	+	5x2 and 5x2
fn p5004() { let mut x = m::<U5, U2>(); x -= m::<U5, U2>(); } // ACCEPT	-=	5x2 and 5x2
fn p5005() { let _ = m::<U5, U2>() * m::<U5, U2>(); } // REFUSE	*	5x2 and 5x2
fn p5006() { let _ = &m::<U5, U2>() * &m::<U5, U2>(); } // REFUSE	&*&	5x2 and 5x2
fn p5007() { let _ = Matrix::<f64, U5, U2>::new([[0.0; 3]; 5]); } // REFUSE	Matrix::new	5x2 from 5x3
fn p5008() { let _ = m::<U5, U2>().relative_eq(&m::<U5, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	5x2 and 5x3
fn p5009() { let _ = m::<U5, U2>().ulps_eq(&m::<U5, U3>(), 0.0, 4); } // REFUSE	ulps_eq	5x2 and 5x3
fn p5010() { let _ = m::<U5, U2>() == m::<U5, U3>(); } // REFUSE	==	5x2 and 5x3
fn p5011() { let _ = m::<U5, U2>() + m::<U5, U3>(); } // REFUSE	+	5x2 and 5x3
fn p5012() { let mut x = m::<U5, U2>(); x -= m::<U5, U3>(); } // REFUSE	-=	5x2 and 5x3
fn p5013() { let _ = m::<U5, U2>() * m::<U5, U3>(); } // REFUSE	*	5x2 and 5x3
fn p5014() { let _ = &m::<U5, U2>() * &m::<U5, U3>(); } // REFUSE	&*&	5x2 and 5x3
fn p5015() { let _ = Matrix::<f64, U5, U2>::new([[0.0; 2]; 6]); } // REFUSE	Matrix::new	5x2 from 6x2
fn p5016() { let _ = m::<U5, U2>().relative_eq(&m::<U6, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	5x2 and 6x2
fn p5017() { let _ = m::<U5, U2>().ulps_eq(&m::<U6, U2>(), 0.0, 4); } // REFUSE	ulps_eq	5x2 and 6x2
fn p5018() { let _ = m::<U5, U2>() == m::<U6, U2>(); } // REFUSE	==	5x2 and 6x2
fn p5019() { let _ = m::<U5, U2>() + m::<U6, U2>(); } // REFUSE	+	5x2 and 6x2
fn p5020() { let mut x = m::<U5, U2>(); x -= m::<U6, U2>(); } // REFUSE	-=	5x2 and 6x2
fn p5021() { let _ = m::<U5, U2>() * m::<U6, U2>(); } // REFUSE	*	5x2 and 6x2
fn p5022() { let _ = &m::<U5, U2>() * &m::<U6, U2>(); } // REFUSE	&*&	5x2 and 6x2
fn p5023() { let _ = m::<U5, U2>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	5x2 and 6
fn p5024() { let _ = Matrix::<f64, U5, U3>::identity(); } // REFUSE	identity	5x3
fn p5025() { let _ = <Matrix::<f64, U5, U3> as One>::one(); } // REFUSE	one	5x3
fn p5026() { m::<U5, U3>().transpose(); } // REFUSE	transpose	5x3
fn p5027() { let _ = m::<U5, U3>().pow(2); } // REFUSE	pow	5x3
fn p5028() { let _ = m::<U5, U3>().determinant(); } // REFUSE	determinant	5x3
fn p5029() { let _ = m::<U5, U3>().inverse(); } // REFUSE	inverse	5x3
fn p5030() { let _ = m::<U5, U3>().cofactor((0, 0)); } // REFUSE	cofactor	5x3
fn p5031() { let _: Matrix<f64, U3, U5> = m::<U5, U3>().transposed(); } // ACCEPT	transposed	5x3
fn p5032() { let _: Matrix<f64, U5, U3> = m::<U5, U3>().transposed(); } // REFUSE	transposed	5x3
fn p5033() { let _ = Matrix::<f64, U5, U3>::diag([0.0; 0]); } // REFUSE	diag	5x3 from 0
fn p5034() { let _ = Matrix::<f64, U5, U3>::diag([0.0; 3]); } // ACCEPT	diag	5x3 from 3
fn p5035() { let _ = Matrix::<f64, U5, U3>::diag([0.0; 4]); } // REFUSE	diag	5x3 from 4
fn p5036() { let _ = Matrix::<f64, U5, U3>::diag([0.0; 5]); } // REFUSE	diag	5x3 from 5
fn p5037() { let _ = Matrix::<f64, U5, U3>::new([[0.0; 5]; 3]); } // REFUSE	Matrix::new	5x3 from 3x5
fn p5038() { let _ = m::<U5, U3>().relative_eq(&m::<U3, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x3 and 3x5
fn p5039() { let _ = m::<U5, U3>().ulps_eq(&m::<U3, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x3 and 3x5
fn p5040() { let _ = m::<U5, U3>() == m::<U3, U5>(); } // REFUSE	==	5x3 and 3x5
fn p5041() { let _ = m::<U5, U3>() + m::<U3, U5>(); } // REFUSE	+	5x3 and 3x5
fn p5042() { let mut x = m::<U5, U3>(); x -= m::<U3, U5>(); } // REFUSE	-=	5x3 and 3x5
fn p5043() { let _ = m::<U5, U3>() * m::<U3, U5>(); } // ACCEPT	*	5x3 and 3x5
fn p5044() { let _ = &m::<U5, U3>() * &m::<U3, U5>(); } // ACCEPT	&*&	5x3 and 3x5
fn p5045() { let _ = m::<U5, U3>() * Vector::<f64, U3>::default(); } // ACCEPT	matrix * vector	5x3 and 3
fn p5046() { let _ = Matrix::<f64, U5, U3>::new([[0.0; 3]; 4]); } // REFUSE	Matrix::new	5x3 from 4x3
fn p5047() { let _ = m::<U5, U3>().relative_eq(&m::<U4, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	5x3 and 4x3
fn p5048() { let _ = m::<U5, U3>().ulps_eq(&m::<U4, U3>(), 0.0, 4); } // REFUSE	ulps_eq	5x3 and 4x3
fn p5049() { let _ = m::<U5, U3>() == m::<U4, U3>(); } // REFUSE	==	5x3 and 4x3
fn p5050() { let _ = m::<U5, U3>() + m::<U4, U3>(); } // REFUSE	+	5x3 and 4x3
fn p5051() { let mut x = m::<U5, U3>(); x -= m::<U4, U3>(); } // REFUSE	-=	5x3 and 4x3
fn p5052() { let _ = m::<U5, U3>() * m::<U4, U3>(); } // REFUSE	*	5x3 and 4x3
fn p5053() { let _ = &m::<U5, U3>() * &m::<U4, U3>(); } // REFUSE	&*&	5x3 and 4x3
fn p5054() { let _ = m::<U5, U3>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	5x3 and 4
fn p5055() { let _ = Matrix::<f64, U5, U3>::new([[0.0; 2]; 5]); } // REFUSE	Matrix::new	5x3 from 5x2
fn p5056() { let _ = m::<U5, U3>().relative_eq(&m::<U5, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	5x3 and 5x2
fn p5057() { let _ = m::<U5, U3>().ulps_eq(&m::<U5, U2>(), 0.0, 4); } // REFUSE	ulps_eq	5x3 and 5x2
fn p5058() { let _ = m::<U5, U3>() == m::<U5, U2>(); } // REFUSE	==	5x3 and 5x2
fn p5059() { let _ = m::<U5, U3>() + m::<U5, U2>(); } // REFUSE	+	5x3 and 5x2
fn p5060() { let mut x = m::<U5, U3>(); x -= m::<U5, U2>(); } // REFUSE	-=	5x3 and 5x2
fn p5061() { let _ = m::<U5, U3>() * m::<U5, U2>(); } // REFUSE	*	5x3 and 5x2
fn p5062() { let _ = &m::<U5, U3>() * &m::<U5, U2>(); } // REFUSE	&*&	5x3 and 5x2
fn p5063() { let _ = Matrix::<f64, U5, U3>::new([[0.0; 3]; 5]); } // ACCEPT	Matrix::new	5x3 from 5x3
fn p5064() { let _ = m::<U5, U3>().relative_eq(&m::<U5, U3>(), 0.0, 0.0); } // ACCEPT	relative_eq	5x3 and 5x3
fn p5065() { let _ = m::<U5, U3>().ulps_eq(&m::<U5, U3>(), 0.0, 4); } // ACCEPT	ulps_eq	5x3 and 5x3
fn p5066() { let _ = m::<U5, U3>() == m::<U5, U3>(); } // ACCEPT	==	5x3 and 5x3
fn p5067() { let _ = m::<U5, U3>() + m::<U5, U3>(); } // ACCEPT	+	5x3 and 5x3
fn p5068() { let mut x = m::<U5, U3>(); x -= m::<U5, U3>(); } // ACCEPT	-=	5x3 and 5x3
fn p5069() { let _ = m::<U5, U3>() * m::<U5, U3>(); } // REFUSE	*	5x3 and 5x3
fn p5070() { let _ = &m::<U5, U3>() * &m::<U5, U3>(); } // REFUSE	&*&	5x3 and 5x3
fn p5071() { let _ = Matrix::<f64, U5, U3>::new([[0.0; 4]; 5]); } // REFUSE	Matrix::new	5x3 from 5x4
fn p5072() { let _ = m::<U5, U3>().relative_eq(&m::<U5, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	5x3 and 5x4
fn p5073() { let _ = m::<U5, U3>().ulps_eq(&m::<U5, U4>(), 0.0, 4); } // REFUSE	ulps_eq	5x3 and 5x4
fn p5074() { let _ = m::<U5, U3>() == m::<U5, U4>(); } // REFUSE	==	5x3 and 5x4
fn p5075() { let _ = m::<U5, U3>() + m::<U5, U4>(); } // REFUSE	+	5x3 and 5x4
fn p5076() { let mut x = m::<U5, U3>(); x -= m::<U5, U4>(); } // REFUSE	-=	5x3 and 5x4
fn p5077() { let _ = m::<U5, U3>() * m::<U5, U4>(); } // REFUSE	*	5x3 and 5x4
fn p5078() { let _ = &m::<U5, U3>() * &m::<U5, U4>(); } // REFUSE	&*&	5x3 and 5x4
fn p5079() { let _ = Matrix::<f64, U5, U3>::new([[0.0; 3]; 6]); } // REFUSE	Matrix::new	5x3 from 6x3
fn p5080() { let _ = m::<U5, U3>().relative_eq(&m::<U6, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	5x3 and 6x3
fn p5081() { let _ = m::<U5, U3>().ulps_eq(&m::<U6, U3>(), 0.0, 4); } // REFUSE	ulps_eq	5x3 and 6x3
fn p5082() { let _ = m::<U5, U3>() == m::<U6, U3>(); } // REFUSE	==	5x3 and 6x3
fn p5083() { let _ = m::<U5, U3>() + m::<U6, U3>(); } // REFUSE	+	5x3 and 6x3
fn p5084() { let mut x = m::<U5, U3>(); x -= m::<U6, U3>(); } // REFUSE	-=	5x3 and 6x3
fn p5085() { let _ = m::<U5, U3>() * m::<U6, U3>(); } // REFUSE	*	5x3 and 6x3
fn p5086() { let _ = &m::<U5, U3>() * &m::<U6, U3>(); } // REFUSE	&*&	5x3 and 6x3
fn p5087() { let _ = m::<U5, U3>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	5x3 and 6
fn p5088() { let _ = Matrix::<f64, U5, U4>::identity(); } // REFUSE	identity	5x4
fn p5089() { let _ = <Matrix::<f64, U5, U4> as One>::one(); } // REFUSE	one	5x4
fn p5090() { m::<U5, U4>().transpose(); } // REFUSE	transpose	5x4
fn p5091() { let _ = m::<U5, U4>().pow(2); } // REFUSE	pow	5x4
fn p5092() { let _ = m::<U5, U4>().determinant(); } // REFUSE	determinant	5x4
fn p5093() { let _ = m::<U5, U4>().inverse(); } // REFUSE	inverse	5x4
fn p5094() { let _ = m::<U5, U4>().cofactor((0, 0)); } // REFUSE	cofactor	5x4
fn p5095() { let _: Matrix<f64, U4, U5> = m::<U5, U4>().transposed(); } // ACCEPT	transposed	5x4
fn p5096() { let _: Matrix<f64, U5, U4> = m::<U5, U4>().transposed(); } // REFUSE	transposed	5x4
fn p5097() { let _ = Matrix::<f64, U5, U4>::diag([0.0; 0]); } // REFUSE	diag	5x4 from 0
fn p5098() { let _ = Matrix::<f64, U5, U4>::diag([0.0; 4]); } // ACCEPT	diag	5x4 from 4
fn p5099() { let _ = Matrix::<f64, U5, U4>::diag([0.0; 5]); } // REFUSE	diag	5x4 from 5
fn p5100() { let _ = Matrix::<f64, U5, U4>::new([[0.0; 4]; 4]); } // REFUSE	Matrix::new	5x4 from 4x4
fn p5101() { let _ = m::<U5, U4>().relative_eq(&m::<U4, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	5x4 and 4x4
fn p5102() { let _ = m::<U5, U4>().ulps_eq(&m::<U4, U4>(), 0.0, 4); } // REFUSE	ulps_eq	5x4 and 4x4
fn p5103() { let _ = m::<U5, U4>() == m::<U4, U4>(); } // REFUSE	==	5x4 and 4x4
fn p5104() { let _ = m::<U5, U4>() + m::<U4, U4>(); } // REFUSE	+	5x4 and 4x4
fn p5105() { let mut x = m::<U5, U4>(); x -= m::<U4, U4>(); } // REFUSE	-=	5x4 and 4x4
fn p5106() { let _ = m::<U5, U4>() * m::<U4, U4>(); } // ACCEPT	*	5x4 and 4x4
fn p5107() { let _ = &m::<U5, U4>() * &m::<U4, U4>(); } // ACCEPT	&*&	5x4 and 4x4
fn p5108() { let _ = m::<U5, U4>() * Vector::<f64, U4>::default(); } // ACCEPT	matrix * vector	5x4 and 4
fn p5109() { let _ = Matrix::<f64, U5, U4>::new([[0.0; 5]; 4]); } // REFUSE	Matrix::new	5x4 from 4x5
fn p5110() { let _ = m::<U5, U4>().relative_eq(&m::<U4, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x4 and 4x5
fn p5111() { let _ = m::<U5, U4>().ulps_eq(&m::<U4, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x4 and 4x5
fn p5112() { let _ = m::<U5, U4>() == m::<U4, U5>(); } // REFUSE	==	5x4 and 4x5
fn p5113() { let _ = m::<U5, U4>() + m::<U4, U5>(); } // REFUSE	+	5x4 and 4x5
fn p5114() { let mut x = m::<U5, U4>(); x -= m::<U4, U5>(); } // REFUSE	-=	5x4 and 4x5
fn p5115() { let _ = m::<U5, U4>() * m::<U4, U5>(); } // ACCEPT	*	5x4 and 4x5
fn p5116() { let _ = &m::<U5, U4>() * &m::<U4, U5>(); } // ACCEPT	&*&	5x4 and 4x5
fn p5117() { let _ = m::<U5, U4>() * Vector::<f64, U4>::default(); } // ACCEPT	matrix * vector	5x4 and 4
fn p5118() { let _ = Matrix::<f64, U5, U4>::new([[0.0; 3]; 5]); } // REFUSE	Matrix::new	5x4 from 5x3
fn p5119() { let _ = m::<U5, U4>().relative_eq(&m::<U5, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	5x4 and 5x3
fn p5120() { let _ = m::<U5, U4>().ulps_eq(&m::<U5, U3>(), 0.0, 4); } // REFUSE	ulps_eq	5x4 and 5x3
fn p5121() { let _ = m::<U5, U4>() == m::<U5, U3>(); } // REFUSE	==	5x4 and 5x3
fn p5122() { let _ = m::<U5, U4>() + m::<U5, U3>(); } // REFUSE	+	5x4 and 5x3
fn p5123() { let mut x = m::<U5, U4>(); x -= m::<U5, U3>(); } // REFUSE	-=	5x4 and 5x3
fn p5124() { let _ = m::<U5, U4>() * m::<U5, U3>(); } // REFUSE	*	5x4 and 5x3
fn p5125() { let _ = &m::<U5, U4>() * &m::<U5, U3>(); } // REFUSE	&*&	5x4 and 5x3
fn p5126() { let _ = Matrix::<f64, U5, U4>::new([[0.0; 4]; 5]); } // ACCEPT	Matrix::new	5x4 from 5x4
fn p5127() { let _ = m::<U5, U4>().relative_eq(&m::<U5, U4>(), 0.0, 0.0); } // ACCEPT	relative_eq	5x4 and 5x4
fn p5128() { let _ = m::<U5, U4>().ulps_eq(&m::<U5, U4>(), 0.0, 4); } // ACCEPT	ulps_eq	5x4 and 5x4
fn p5129() { let _ = m::<U5, U4>() == m::<U5, U4>(); } // ACCEPT	==	5x4 and 5x4
fn p5130() { let _ = m::<U5, U4>() + m::<U5, U4>(); } // ACCEPT	+	5x4 and 5x4
fn p5131() { let mut x = m::<U5, U4>(); x -= m::<U5, U4>(); } // ACCEPT	-=	5x4 and 5x4
fn p5132() { let _ = m::<U5, U4>() * m::<U5, U4>(); } // REFUSE	*	5x4 and 5x4
fn p5133() { let _ = &m::<U5, U4>() * &m::<U5, U4>(); } // REFUSE	&*&	5x4 and 5x4
fn p5134() { let _ = Matrix::<f64, U5, U4>::new([[0.0; 5]; 5]); } // REFUSE	Matrix::new	5x4 from 5x5
fn p5135() { let _ = m::<U5, U4>().relative_eq(&m::<U5, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x4 and 5x5
fn p5136() { let _ = m::<U5, U4>().ulps_eq(&m::<U5, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x4 and 5x5
fn p5137() { let _ = m::<U5, U4>() == m::<U5, U5>(); } // REFUSE	==	5x4 and 5x5
fn p5138() { let _ = m::<U5, U4>() + m::<U5, U5>(); } // REFUSE	+	5x4 and 5x5
fn p5139() { let mut x = m::<U5, U4>(); x -= m::<U5, U5>(); } // REFUSE	-=	5x4 and 5x5
fn p5140() { let _ = m::<U5, U4>() * m::<U5, U5>(); } // REFUSE	*	5x4 and 5x5
fn p5141() { let _ = &m::<U5, U4>() * &m::<U5, U5>(); } // REFUSE	&*&	5x4 and 5x5
fn p5142() { let _ = Matrix::<f64, U5, U4>::new([[0.0; 4]; 6]); } // REFUSE	Matrix::new	5x4 from 6x4
fn p5143() { let _ = m::<U5, U4>().relative_eq(&m::<U6, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	5x4 and 6x4
fn p5144() { let _ = m::<U5, U4>().ulps_eq(&m::<U6, U4>(), 0.0, 4); } // REFUSE	ulps_eq	5x4 and 6x4
fn p5145() { let _ = m::<U5, U4>() == m::<U6, U4>(); } // REFUSE	==	5x4 and 6x4
fn p5146() { let _ = m::<U5, U4>() + m::<U6, U4>(); } // REFUSE	+	5x4 and 6x4
fn p5147() { let mut x = m::<U5, U4>(); x -= m::<U6, U4>(); } // REFUSE	-=	5x4 and 6x4
fn p5148() { let _ = m::<U5, U4>() * m::<U6, U4>(); } // REFUSE	*	5x4 and 6x4
fn p5149() { let _ = &m::<U5, U4>() * &m::<U6, U4>(); } // REFUSE	&*&	5x4 and 6x4
fn p5150() { let _ = m::<U5, U4>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	5x4 and 6
fn p5151() { let _ = Matrix::<f64, U5, U5>::identity(); } // ACCEPT	identity	5x5
fn p5152() { let _ = <Matrix::<f64, U5, U5> as One>::one(); } // ACCEPT	one	5x5
fn p5153() { m::<U5, U5>().transpose(); } // ACCEPT	transpose	5x5
fn p5154() { let _ = m::<U5, U5>().pow(2); } // ACCEPT	pow	5x5
fn p5155() { let _ = m::<U5, U5>().determinant(); } // ACCEPT	determinant	5x5
fn p5156() { let _ = m::<U5, U5>().inverse(); } // ACCEPT	inverse	5x5
fn p5157() { let _ = m::<U5, U5>().cofactor((0, 0)); } // ACCEPT	cofactor	5x5
fn p5158() { let _: Matrix<f64, U5, U5> = m::<U5, U5>().transposed(); } // ACCEPT	transposed	5x5
fn p5159() { let _ = Matrix::<f64, U5, U5>::diag([0.0; 0]); } // REFUSE	diag	5x5 from 0
fn p5160() { let _ = Matrix::<f64, U5, U5>::diag([0.0; 5]); } // ACCEPT	diag	5x5 from 5
fn p5161() { let _ = Matrix::<f64, U5, U5>::diag([0.0; 6]); } // REFUSE	diag	5x5 from 6
fn p5162() { let _ = Matrix::<f64, U5, U5>::new([[0.0; 5]; 4]); } // REFUSE	Matrix::new	5x5 from 4x5
fn p5163() { let _ = m::<U5, U5>().relative_eq(&m::<U4, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x5 and 4x5
fn p5164() { let _ = m::<U5, U5>().ulps_eq(&m::<U4, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x5 and 4x5
fn p5165() { let _ = m::<U5, U5>() == m::<U4, U5>(); } // REFUSE	==	5x5 and 4x5
fn p5166() { let _ = m::<U5, U5>() + m::<U4, U5>(); } // REFUSE	+	5x5 and 4x5
fn p5167() { let mut x = m::<U5, U5>(); x -= m::<U4, U5>(); } // REFUSE	-=	5x5 and 4x5
fn p5168() { let _ = m::<U5, U5>() * m::<U4, U5>(); } // REFUSE	*	5x5 and 4x5
fn p5169() { let _ = &m::<U5, U5>() * &m::<U4, U5>(); } // REFUSE	&*&	5x5 and 4x5
fn p5170() { let _ = m::<U5, U5>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	5x5 and 4
fn p5171() { let _ = Matrix::<f64, U5, U5>::new([[0.0; 4]; 5]); } // REFUSE	Matrix::new	5x5 from 5x4
fn p5172() { let _ = m::<U5, U5>().relative_eq(&m::<U5, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	5x5 and 5x4
fn p5173() { let _ = m::<U5, U5>().ulps_eq(&m::<U5, U4>(), 0.0, 4); } // REFUSE	ulps_eq	5x5 and 5x4
fn p5174() { let _ = m::<U5, U5>() == m::<U5, U4>(); } // REFUSE	==	5x5 and 5x4
fn p5175() { let _ = m::<U5, U5>() + m::<U5, U4>(); } // REFUSE	+	5x5 and 5x4
fn p5176() { let mut x = m::<U5, U5>(); x -= m::<U5, U4>(); } // REFUSE	-=	5x5 and 5x4
fn p5177() { let _ = m::<U5, U5>() * m::<U5, U4>(); } // ACCEPT	*	5x5 and 5x4
fn p5178() { let _ = &m::<U5, U5>() * &m::<U5, U4>(); } // ACCEPT	&*&	5x5 and 5x4
fn p5179() { let _ = Matrix::<f64, U5, U5>::new([[0.0; 5]; 5]); } // ACCEPT	Matrix::new	5x5 from 5x5
fn p5180() { let _ = m::<U5, U5>().relative_eq(&m::<U5, U5>(), 0.0, 0.0); } // ACCEPT	relative_eq	5x5 and 5x5
fn p5181() { let _ = m::<U5, U5>().ulps_eq(&m::<U5, U5>(), 0.0, 4); } // ACCEPT	ulps_eq	5x5 and 5x5
fn p5182() { let _ = m::<U5, U5>() == m::<U5, U5>(); } // ACCEPT	==	5x5 and 5x5
fn p5183() { let _ = m::<U5, U5>() + m::<U5, U5>(); } // ACCEPT	+	5x5 and 5x5
fn p5184() { let mut x = m::<U5, U5>(); x -= m::<U5, U5>(); } // ACCEPT	-=	5x5 and 5x5
fn p5185() { let _ = m::<U5, U5>() * m::<U5, U5>(); } // ACCEPT	*	5x5 and 5x5
fn p5186() { let _ = &m::<U5, U5>() * &m::<U5, U5>(); } // ACCEPT	&*&	5x5 and 5x5
fn p5187() { let _ = Matrix::<f64, U5, U5>::new([[0.0; 6]; 5]); } // REFUSE	Matrix::new	5x5 from 5x6
fn p5188() { let _ = m::<U5, U5>().relative_eq(&m::<U5, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	5x5 and 5x6
fn p5189() { let _ = m::<U5, U5>().ulps_eq(&m::<U5, U6>(), 0.0, 4); } // REFUSE	ulps_eq	5x5 and 5x6
fn p5190() { let _ = m::<U5, U5>() == m::<U5, U6>(); } // REFUSE	==	5x5 and 5x6
fn p5191() { let _ = m::<U5, U5>() + m::<U5, U6>(); } // REFUSE	+	5x5 and 5x6
fn p5192() { let mut x = m::<U5, U5>(); x -= m::<U5, U6>(); } // REFUSE	-=	5x5 and 5x6
fn p5193() { let _ = m::<U5, U5>() * m::<U5, U6>(); } // ACCEPT	*	5x5 and 5x6
fn p5194() { let _ = &m::<U5, U5>() * &m::<U5, U6>(); } // ACCEPT	&*&	5x5 and 5x6
fn p5195() { let _ = Matrix::<f64, U5, U5>::new([[0.0; 5]; 6]); } // REFUSE	Matrix::new	5x5 from 6x5
fn p5196() { let _ = m::<U5, U5>().relative_eq(&m::<U6, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x5 and 6x5
fn p5197() { let _ = m::<U5, U5>().ulps_eq(&m::<U6, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x5 and 6x5
fn p5198() { let _ = m::<U5, U5>() == m::<U6, U5>(); } // REFUSE	==	5x5 and 6x5
fn p5199() { let _ = m::<U5, U5>() + m::<U6, U5>(); } // REFUSE	+	5x5 and 6x5
fn p5200() { let mut x = m::<U5, U5>(); x -= m::<U6, U5>(); } // REFUSE	-=	5x5 and 6x5
fn p5201() { let _ = m::<U5, U5>() * m::<U6, U5>(); } // REFUSE	*	5x5 and 6x5
fn p5202() { let _ = &m::<U5, U5>() * &m::<U6, U5>(); } // REFUSE	&*&	5x5 and 6x5
fn p5203() { let _ = m::<U5, U5>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	5x5 and 6
fn p5204() { let _ = Matrix::<f64, U5, U6>::identity(); } // REFUSE	identity	5x6
fn p5205() { let _ = <Matrix::<f64, U5, U6> as One>::one(); } // REFUSE	one	5x6
fn p5206() { m::<U5, U6>().transpose(); } // REFUSE	transpose	5x6
fn p5207() { let _ = m::<U5, U6>().pow(2); } // REFUSE	pow	5x6
fn p5208() { let _ = m::<U5, U6>().determinant(); } // REFUSE	determinant	5x6
fn p5209() { let _ = m::<U5, U6>().inverse(); } // REFUSE	inverse	5x6
fn p5210() { let _ = m::<U5, U6>().cofactor((0, 0)); } // REFUSE	cofactor	5x6
fn p5211() { let _: Matrix<f64, U6, U5> = m::<U5, U6>().transposed(); } // ACCEPT	transposed	5x6
fn p5212() { let _: Matrix<f64, U5, U6> = m::<U5, U6>().transposed(); } // REFUSE	transposed	5x6
fn p5213() { let _ = Matrix::<f64, U5, U6>::diag([0.0; 0]); } // REFUSE	diag	5x6 from 0
fn p5214() { let _ = Matrix::<f64, U5, U6>::diag([0.0; 5]); } // ACCEPT	diag	5x6 from 5
fn p5215() { let _ = Matrix::<f64, U5, U6>::diag([0.0; 6]); } // REFUSE	diag	5x6 from 6
fn p5216() { let _ = Matrix::<f64, U5, U6>::new([[0.0; 6]; 4]); } // REFUSE	Matrix::new	5x6 from 4x6
fn p5217() { let _ = m::<U5, U6>().relative_eq(&m::<U4, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	5x6 and 4x6
fn p5218() { let _ = m::<U5, U6>().ulps_eq(&m::<U4, U6>(), 0.0, 4); } // REFUSE	ulps_eq	5x6 and 4x6
fn p5219() { let _ = m::<U5, U6>() == m::<U4, U6>(); } // REFUSE	==	5x6 and 4x6
fn p5220() { let _ = m::<U5, U6>() + m::<U4, U6>(); } // REFUSE	+	5x6 and 4x6
fn p5221() { let mut x = m::<U5, U6>(); x -= m::<U4, U6>(); } // REFUSE	-=	5x6 and 4x6
fn p5222() { let _ = m::<U5, U6>() * m::<U4, U6>(); } // REFUSE	*	5x6 and 4x6
fn p5223() { let _ = &m::<U5, U6>() * &m::<U4, U6>(); } // REFUSE	&*&	5x6 and 4x6
fn p5224() { let _ = m::<U5, U6>() * Vector::<f64, U4>::default(); } // REFUSE	matrix * vector	5x6 and 4
fn p5225() { let _ = Matrix::<f64, U5, U6>::new([[0.0; 5]; 5]); } // REFUSE	Matrix::new	5x6 from 5x5
fn p5226() { let _ = m::<U5, U6>().relative_eq(&m::<U5, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x6 and 5x5
fn p5227() { let _ = m::<U5, U6>().ulps_eq(&m::<U5, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x6 and 5x5
fn p5228() { let _ = m::<U5, U6>() == m::<U5, U5>(); } // REFUSE	==	5x6 and 5x5
fn p5229() { let _ = m::<U5, U6>() + m::<U5, U5>(); } // REFUSE	+	5x6 and 5x5
fn p5230() { let mut x = m::<U5, U6>(); x -= m::<U5, U5>(); } // REFUSE	-=	5x6 and 5x5
fn p5231() { let _ = m::<U5, U6>() * m::<U5, U5>(); } // REFUSE	*	5x6 and 5x5
fn p5232() { let _ = &m::<U5, U6>() * &m::<U5, U5>(); } // REFUSE	&*&	5x6 and 5x5
fn p5233() { let _ = Matrix::<f64, U5, U6>::new([[0.0; 6]; 5]); } // ACCEPT	Matrix::new	5x6 from 5x6
fn p5234() { let _ = m::<U5, U6>().relative_eq(&m::<U5, U6>(), 0.0, 0.0); } // ACCEPT	relative_eq	5x6 and 5x6
fn p5235() { let _ = m::<U5, U6>().ulps_eq(&m::<U5, U6>(), 0.0, 4); } // ACCEPT	ulps_eq	5x6 and 5x6
fn p5236() { let _ = m::<U5, U6>() == m::<U5, U6>(); } // ACCEPT	==	5x6 and 5x6
fn p5237() { let _ = m::<U5, U6>() + m::<U5, U6>(); } // ACCEPT	+	5x6 and 5x6
fn p5238() { let mut x = m::<U5, U6>(); x -= m::<U5, U6>(); } // ACCEPT	-=	5x6 and 5x6
fn p5239() { let _ = m::<U5, U6>() * m::<U5, U6>(); } // REFUSE	*	5x6 and 5x6
fn p5240() { let _ = &m::<U5, U6>() * &m::<U5, U6>(); } // REFUSE	&*&	5x6 and 5x6
fn p5241() { let _ = Matrix::<f64, U5, U6>::new([[0.0; 7]; 5]); } // REFUSE	Matrix::new	5x6 from 5x7
fn p5242() { let _ = m::<U5, U6>().relative_eq(&m::<U5, U7>(), 0.0, 0.0); } // REFUSE	relative_eq	5x6 and 5x7
fn p5243() { let _ = m::<U5, U6>().ulps_eq(&m::<U5, U7>(), 0.0, 4); } // REFUSE	ulps_eq	5x6 and 5x7
fn p5244() { let _ = m::<U5, U6>() == m::<U5, U7>(); } // REFUSE	==	5x6 and 5x7
fn p5245() { let _ = m::<U5, U6>() + m::<U5, U7>(); } // REFUSE	+	5x6 and 5x7
fn p5246() { let mut x = m::<U5, U6>(); x -= m::<U5, U7>(); } // REFUSE	-=	5x6 and 5x7
fn p5247() { let _ = m::<U5, U6>() * m::<U5, U7>(); } // REFUSE	*	5x6 and 5x7
fn p5248() { let _ = &m::<U5, U6>() * &m::<U5, U7>(); } // REFUSE	&*&	5x6 and 5x7
fn p5249() { let _ = Matrix::<f64, U5, U6>::new([[0.0; 5]; 6]); } // REFUSE	Matrix::new	5x6 from 6x5
fn p5250() { let _ = m::<U5, U6>().relative_eq(&m::<U6, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	5x6 and 6x5
fn p5251() { let _ = m::<U5, U6>().ulps_eq(&m::<U6, U5>(), 0.0, 4); } // REFUSE	ulps_eq	5x6 and 6x5
fn p5252() { let _ = m::<U5, U6>() == m::<U6, U5>(); } // REFUSE	==	5x6 and 6x5
fn p5253() { let _ = m::<U5, U6>() + m::<U6, U5>(); } // REFUSE	+	5x6 and 6x5
fn p5254() { let mut x = m::<U5, U6>(); x -= m::<U6, U5>(); } // REFUSE	-=	5x6 and 6x5
fn p5255() { let _ = m::<U5, U6>() * m::<U6, U5>(); } // ACCEPT	*	5x6 and 6x5
fn p5256() { let _ = &m::<U5, U6>() * &m::<U6, U5>(); } // ACCEPT	&*&	5x6 and 6x5
fn p5257() { let _ = m::<U5, U6>() * Vector::<f64, U6>::default(); } // ACCEPT	matrix * vector	5x6 and 6
fn p5258() { let _ = Matrix::<f64, U5, U6>::new([[0.0; 6]; 6]); } // REFUSE	Matrix::new	5x6 from 6x6
fn p5259() { let _ = m::<U5, U6>().relative_eq(&m::<U6, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	5x6 and 6x6
fn p5260() { let _ = m::<U5, U6>().ulps_eq(&m::<U6, U6>(), 0.0, 4); } // REFUSE	ulps_eq	5x6 and 6x6
fn p5261() { let _ = m::<U5, U6>() == m::<U6, U6>(); } // REFUSE	==	5x6 and 6x6
fn p5262() { let _ = m::<U5, U6>() + m::<U6, U6>(); } // REFUSE	+	5x6 and 6x6
fn p5263() { let mut x = m::<U5, U6>(); x -= m::<U6, U6>(); } // REFUSE	-=	5x6 and 6x6
fn p5264() { let _ = m::<U5, U6>() * m::<U6, U6>(); } // ACCEPT	*	5x6 and 6x6
fn p5265() { let _ = &m::<U5, U6>() * &m::<U6, U6>(); } // ACCEPT	&*&	5x6 and 6x6
fn p5266() { let _ = m::<U5, U6>() * Vector::<f64, U6>::default(); } // ACCEPT	matrix * vector	5x6 and 6
fn p5267() { let _ = Matrix::<f64, U6, U0>::identity(); } // REFUSE	identity	6x0
fn p5268() { let _ = <Matrix::<f64, U6, U0> as One>::one(); } // REFUSE	one	6x0
fn p5269() { m::<U6, U0>().transpose(); } // REFUSE	transpose	6x0
fn p5270() { let _ = m::<U6, U0>().pow(2); } // REFUSE	pow	6x0
fn p5271() { let _ = m::<U6, U0>().determinant(); } // REFUSE	determinant	6x0
fn p5272() { let _ = m::<U6, U0>().inverse(); } // REFUSE	inverse	6x0
fn p5273() { let _ = m::<U6, U0>().cofactor((0, 0)); } // REFUSE	cofactor	6x0
fn p5274() { let _: Matrix<f64, U0, U6> = m::<U6, U0>().transposed(); } // ACCEPT	transposed	6x0
fn p5275() { let _: Matrix<f64, U6, U0> = m::<U6, U0>().transposed(); } // REFUSE	transposed	6x0
fn p5276() { let _ = Matrix::<f64, U6, U0>::diag([0.0; 0]); } // ACCEPT	diag	6x0 from 0
fn p5277() { let _ = Matrix::<f64, U6, U0>::diag([0.0; 1]); } // REFUSE	diag	6x0 from 1
fn p5278() { let _ = Matrix::<f64, U6, U0>::diag([0.0; 6]); } // REFUSE	diag	6x0 from 6
fn p5279() { let _ = Matrix::<f64, U6, U0>::new([[0.0; 6]; 0]); } // REFUSE	Matrix::new	6x0 from 0x6
fn p5280() { let _ = m::<U6, U0>().relative_eq(&m::<U0, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x0 and 0x6
fn p5281() { let _ = m::<U6, U0>().ulps_eq(&m::<U0, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x0 and 0x6
fn p5282() { let _ = m::<U6, U0>() == m::<U0, U6>(); } // REFUSE	==	6x0 and 0x6
fn p5283() { let _ = m::<U6, U0>() + m::<U0, U6>(); } // REFUSE	+	6x0 and 0x6
fn p5284() { let mut x = m::<U6, U0>(); x -= m::<U0, U6>(); } // REFUSE	-=	6x0 and 0x6
fn p5285() { let _ = m::<U6, U0>() * m::<U0, U6>(); } // ACCEPT	*	6x0 and 0x6
fn p5286() { let _ = &m::<U6, U0>() * &m::<U0, U6>(); } // ACCEPT	&*&	6x0 and 0x6
fn p5287() { let _ = m::<U6, U0>() * Vector::<f64, U0>::default(); } // ACCEPT	matrix * vector	6x0 and 0
fn p5288() { let _ = Matrix::<f64, U6, U0>::new([[0.0; 0]; 5]); } // REFUSE	Matrix::new	6x0 from 5x0
fn p5289() { let _ = m::<U6, U0>().relative_eq(&m::<U5, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	6x0 and 5x0
fn p5290() { let _ = m::<U6, U0>().ulps_eq(&m::<U5, U0>(), 0.0, 4); } // REFUSE	ulps_eq	6x0 and 5x0
fn p5291() { let _ = m::<U6, U0>() == m::<U5, U0>(); } // REFUSE	==	6x0 and 5x0
fn p5292() { let _ = m::<U6, U0>() + m::<U5, U0>(); } // REFUSE	+	6x0 and 5x0
fn p5293() { let mut x = m::<U6, U0>(); x -= m::<U5, U0>(); } // REFUSE	-=	6x0 and 5x0
fn p5294() { let _ = m::<U6, U0>() * m::<U5, U0>(); } // REFUSE	*	6x0 and 5x0
fn p5295() { let _ = &m::<U6, U0>() * &m::<U5, U0>(); } // REFUSE	&*&	6x0 and 5x0
fn p5296() { let _ = m::<U6, U0>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	6x0 and 5
fn p5297() { let _ = Matrix::<f64, U6, U0>::new([[0.0; 0]; 6]); } // ACCEPT	Matrix::new	6x0 from 6x0
fn p5298() { let _ = m::<U6, U0>().relative_eq(&m::<U6, U0>(), 0.0, 0.0); } // ACCEPT	relative_eq	6x0 and 6x0
fn p5299() { let _ = m::<U6, U0>().ulps_eq(&m::<U6, U0>(), 0.0, 4); } // ACCEPT	ulps_eq	6x0 and 6x0
fn p5300() { let _ = m::<U6, U0>() == m::<U6, U0>(); } // ACCEPT	==	6x0 and 6x0
fn p5301() { let _ = m::<U6, U0>() + m::<U6, U0>(); } // ACCEPT	+	6x0 and 6x0
fn p5302() { let mut x = m::<U6, U0>(); x -= m::<U6, U0>(); } // ACCEPT	-=	6x0 and 6x0
fn p5303() { let _ = m::<U6, U0>() * m::<U6, U0>(); } // REFUSE	*	6x0 and 6x0
fn p5304() { let _ = &m::<U6, U0>() * &m::<U6, U0>(); } // REFUSE	&*&	6x0 and 6x0
fn p5305() { let _ = Matrix::<f64, U6, U0>::new([[0.0; 1]; 6]); } // REFUSE	Matrix::new	6x0 from 6x1
fn p5306() { let _ = m::<U6, U0>().relative_eq(&m::<U6, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	6x0 and 6x1
fn p5307() { let _ = m::<U6, U0>().ulps_eq(&m::<U6, U1>(), 0.0, 4); } // REFUSE	ulps_eq	6x0 and 6x1
fn p5308() { let _ = m::<U6, U0>() == m::<U6, U1>(); } // REFUSE	==	6x0 and 6x1
fn p5309() { let _ = m::<U6, U0>() + m::<U6, U1>(); } // REFUSE	+	6x0 and 6x1
fn p5310() { let mut x = m::<U6, U0>(); x -= m::<U6, U1>(); } // REFUSE	-=	6x0 and 6x1
fn p5311() { let _ = m::<U6, U0>() * m::<U6, U1>(); } // REFUSE	*	6x0 and 6x1
fn p5312() { let _ = &m::<U6, U0>() * &m::<U6, U1>(); } // REFUSE	&*&	6x0 and 6x1
fn p5313() { let _ = m::<U6, U0>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	6x0 and 6
fn p5314() { let _ = Matrix::<f64, U6, U0>::new([[0.0; 0]; 7]); } // REFUSE	Matrix::new	6x0 from 7x0
fn p5315() { let _ = m::<U6, U0>().relative_eq(&m::<U7, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	6x0 and 7x0
fn p5316() { let _ = m::<U6, U0>().ulps_eq(&m::<U7, U0>(), 0.0, 4); } // REFUSE	ulps_eq	6x0 and 7x0
fn p5317() { let _ = m::<U6, U0>() == m::<U7, U0>(); } // REFUSE	==	6x0 and 7x0
fn p5318() { let _ = m::<U6, U0>() + m::<U7, U0>(); } // REFUSE	+	6x0 and 7x0
fn p5319() { let mut x = m::<U6, U0>(); x -= m::<U7, U0>(); } // REFUSE	-=	6x0 and 7x0
fn p5320() { let _ = m::<U6, U0>() * m::<U7, U0>(); } // REFUSE	*	6x0 and 7x0
fn p5321() { let _ = &m::<U6, U0>() * &m::<U7, U0>(); } // REFUSE	&*&	6x0 and 7x0
fn p5322() { let _ = m::<U6, U0>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	6x0 and 7
fn p5323() { let _ = Matrix::<f64, U6, U1>::identity(); } // REFUSE	identity	6x1
fn p5324() { let _ = <Matrix::<f64, U6, U1> as One>::one(); } // REFUSE	one	6x1
fn p5325() { m::<U6, U1>().transpose(); } // REFUSE	transpose	6x1
fn p5326() { let _ = m::<U6, U1>().pow(2); } // REFUSE	pow	6x1
fn p5327() { let _ = m::<U6, U1>().determinant(); } // REFUSE	determinant	6x1
fn p5328() { let _ = m::<U6, U1>().inverse(); } // REFUSE	inverse	6x1
fn p5329() { let _ = m::<U6, U1>().cofactor((0, 0)); } // REFUSE	cofactor	6x1
fn p5330() { let _: Matrix<f64, U1, U6> = m::<U6, U1>().transposed(); } // ACCEPT	transposed	6x1
fn p5331() { let _: Matrix<f64, U6, U1> = m::<U6, U1>().transposed(); } // REFUSE	transposed	6x1
fn p5332() { let _ = Matrix::<f64, U6, U1>::diag([0.0; 0]); } // REFUSE	diag	6x1 from 0
fn p5333() { let _ = Matrix::<f64, U6, U1>::diag([0.0; 1]); } // ACCEPT	diag	6x1 from 1
fn p5334() { let _ = Matrix::<f64, U6, U1>::diag([0.0; 2]); } // REFUSE	diag	6x1 from 2
fn p5335() { let _ = Matrix::<f64, U6, U1>::diag([0.0; 6]); } // REFUSE	diag	6x1 from 6
fn p5336() { let _ = Matrix::<f64, U6, U1>::new([[0.0; 6]; 1]); } // REFUSE	Matrix::new	6x1 from 1x6
fn p5337() { let _ = m::<U6, U1>().relative_eq(&m::<U1, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x1 and 1x6
fn p5338() { let _ = m::<U6, U1>().ulps_eq(&m::<U1, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x1 and 1x6
fn p5339() { let _ = m::<U6, U1>() == m::<U1, U6>(); } // REFUSE	==	6x1 and 1x6
fn p5340() { let _ = m::<U6, U1>() + m::<U1, U6>(); } // REFUSE	+	6x1 and 1x6
fn p5341() { let mut x = m::<U6, U1>(); x -= m::<U1, U6>(); } // REFUSE	-=	6x1 and 1x6
fn p5342() { let _ = m::<U6, U1>() * m::<U1, U6>(); } // ACCEPT	*	6x1 and 1x6
fn p5343() { let _ = &m::<U6, U1>() * &m::<U1, U6>(); } // ACCEPT	&*&	6x1 and 1x6
fn p5344() { let _ = m::<U6, U1>() * Vector::<f64, U1>::default(); } // ACCEPT	matrix * vector	6x1 and 1
fn p5345() { let _ = Matrix::<f64, U6, U1>::new([[0.0; 1]; 5]); } // REFUSE	Matrix::new	6x1 from 5x1
fn p5346() { let _ = m::<U6, U1>().relative_eq(&m::<U5, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	6x1 and 5x1
fn p5347() { let _ = m::<U6, U1>().ulps_eq(&m::<U5, U1>(), 0.0, 4); } // REFUSE	ulps_eq	6x1 and 5x1
fn p5348() { let _ = m::<U6, U1>() == m::<U5, U1>(); } // REFUSE	==	6x1 and 5x1
fn p5349() { let _ = m::<U6, U1>() + m::<U5, U1>(); } // REFUSE	+	6x1 and 5x1
fn p5350() { let mut x = m::<U6, U1>(); x -= m::<U5, U1>(); } // REFUSE	-=	6x1 and 5x1
fn p5351() { let _ = m::<U6, U1>() * m::<U5, U1>(); } // REFUSE	*	6x1 and 5x1
fn p5352() { let _ = &m::<U6, U1>() * &m::<U5, U1>(); } // REFUSE	&*&	6x1 and 5x1
fn p5353() { let _ = m::<U6, U1>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	6x1 and 5
fn p5354() { let _ = Matrix::<f64, U6, U1>::new([[0.0; 0]; 6]); } // REFUSE	Matrix::new	6x1 from 6x0
fn p5355() { let _ = m::<U6, U1>().relative_eq(&m::<U6, U0>(), 0.0, 0.0); } // REFUSE	relative_eq	6x1 and 6x0
fn p5356() { let _ = m::<U6, U1>().ulps_eq(&m::<U6, U0>(), 0.0, 4); } // REFUSE	ulps_eq	6x1 and 6x0
fn p5357() { let _ = m::<U6, U1>() == m::<U6, U0>(); } // REFUSE	==	6x1 and 6x0
fn p5358() { let _ = m::<U6, U1>() + m::<U6, U0>(); } // REFUSE	+	6x1 and 6x0
fn p5359() { let mut x = m::<U6, U1>(); x -= m::<U6, U0>(); } // REFUSE	-=	6x1 and 6x0
fn p5360() { let _ = m::<U6, U1>() * m::<U6, U0>(); } // REFUSE	*	6x1 and 6x0
fn p5361() { let _ = &m::<U6, U1>() * &m::<U6, U0>(); } // REFUSE	&*&	6x1 and 6x0
fn p5362() { let _ = Matrix::<f64, U6, U1>::new([[0.0; 1]; 6]); } // ACCEPT	Matrix::new	6x1 from 6x1
fn p5363() { let _ = m::<U6, U1>().relative_eq(&m::<U6, U1>(), 0.0, 0.0); } // ACCEPT	relative_eq	6x1 and 6x1
fn p5364() { let _ = m::<U6, U1>().ulps_eq(&m::<U6, U1>(), 0.0, 4); } // ACCEPT	ulps_eq	6x1 and 6x1
fn p5365() { let _ = m::<U6, U1>() == m::<U6, U1>(); } // ACCEPT	==	6x1 and 6x1
fn p5366() { let _ = m::<U6, U1>() + m::<U6, U1>(); } // ACCEPT	+	6x1 and 6x1
fn p5367() { let mut x = m::<U6, U1>(); x -= m::<U6, U1>(); } // ACCEPT	-=	6x1 and 6x1
fn p5368() { let _ = m::<U6, U1>() * m::<U6, U1>(); } // REFUSE	*	6x1 and 6x1
fn p5369() { let _ = &m::<U6, U1>() * &m::<U6, U1>(); } // REFUSE	&*&	6x1 and 6x1
fn p5370() { let _ = m::<U6, U1>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	6x1 and 6
fn p5371() { let _ = Matrix::<f64, U6, U1>::new([[0.0; 2]; 6]); } // REFUSE	Matrix::new	6x1 from 6x2
fn p5372() { let _ = m::<U6, U1>().relative_eq(&m::<U6, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	6x1 and 6x2
fn p5373() { let _ = m::<U6, U1>().ulps_eq(&m::<U6, U2>(), 0.0, 4); } // REFUSE	ulps_eq	6x1 and 6x2
fn p5374() { let _ = m::<U6, U1>() == m::<U6, U2>(); } // REFUSE	==	6x1 and 6x2
fn p5375() { let _ = m::<U6, U1>() + m::<U6, U2>(); } // REFUSE	+	6x1 and 6x2
fn p5376() { let mut x = m::<U6, U1>(); x -= m::<U6, U2>(); } // REFUSE	-=	6x1 and 6x2
fn p5377() { let _ = m::<U6, U1>() * m::<U6, U2>(); } // REFUSE	*	6x1 and 6x2
fn p5378() { let _ = &m::<U6, U1>() * &m::<U6, U2>(); } // REFUSE	&*&	6x1 and 6x2
fn p5379() { let _ = Matrix::<f64, U6, U1>::new([[0.0; 1]; 7]); } // REFUSE	Matrix::new	6x1 from 7x1
fn p5380() { let _ = m::<U6, U1>().relative_eq(&m::<U7, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	6x1 and 7x1
fn p5381() { let _ = m::<U6, U1>().ulps_eq(&m::<U7, U1>(), 0.0, 4); } // REFUSE	ulps_eq	6x1 and 7x1
fn p5382() { let _ = m::<U6, U1>() == m::<U7, U1>(); } // REFUSE	==	6x1 and 7x1
fn p5383() { let _ = m::<U6, U1>() + m::<U7, U1>(); } // REFUSE	+	6x1 and 7x1
fn p5384() { let mut x = m::<U6, U1>(); x -= m::<U7, U1>(); } // REFUSE	-=	6x1 and 7x1
fn p5385() { let _ = m::<U6, U1>() * m::<U7, U1>(); } // REFUSE	*	6x1 and 7x1
fn p5386() { let _ = &m::<U6, U1>() * &m::<U7, U1>(); } // REFUSE	&*&	6x1 and 7x1
fn p5387() { let _ = m::<U6, U1>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	6x1 and 7
fn p5388() { let _ = Matrix::<f64, U6, U2>::identity(); } // REFUSE	identity	6x2
fn p5389() { let _ = <Matrix::<f64, U6, U2> as One>::one(); } // REFUSE	one	6x2
fn p5390() { m::<U6, U2>().transpose(); } // REFUSE	transpose	6x2
fn p5391() { let _ = m::<U6, U2>().pow(2); } // REFUSE	pow	6x2
fn p5392() { let _ = m::<U6, U2>().determinant(); } // REFUSE	determinant	6x2
fn p5393() { let _ = m::<U6, U2>().inverse(); } // REFUSE	inverse	6x2
fn p5394() { let _ = m::<U6, U2>().cofactor((0, 0)); } // REFUSE	cofactor	6x2
fn p5395() { let _: Matrix<f64, U2, U6> = m::<U6, U2>().transposed(); } // ACCEPT	transposed	6x2
fn p5396() { let _: Matrix<f64, U6, U2> = m::<U6, U2>().transposed(); } // REFUSE	transposed	6x2
fn p5397() { let _ = Matrix::<f64, U6, U2>::diag([0.0; 0]); } // REFUSE	diag	6x2 from 0
fn p5398() { let _ = Matrix::<f64, U6, U2>::diag([0.0; 2]); } // ACCEPT	diag	6x2 from 2
fn p5399() { let _ = Matrix::<f64, U6, U2>::diag([0.0; 3]); } // REFUSE	diag	6x2 from 3
fn p5400() { let _ = Matrix::<f64, U6, U2>::diag([0.0; 6]); } // REFUSE	diag	6x2 from 6
fn p5401() { let _ = Matrix::<f64, U6, U2>::new([[0.0; 6]; 2]); } // REFUSE	Matrix::new	6x2 from 2x6
fn p5402() { let _ = m::<U6, U2>().relative_eq(&m::<U2, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x2 and 2x6
fn p5403() { let _ = m::<U6, U2>().ulps_eq(&m::<U2, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x2 and 2x6
fn p5404() { let _ = m::<U6, U2>() == m::<U2, U6>(); } // REFUSE	==	6x2 and 2x6
fn p5405() { let _ = m::<U6, U2>() + m::<U2, U6>(); } // REFUSE	+	6x2 and 2x6
fn p5406() { let mut x = m::<U6, U2>(); x -= m::<U2, U6>(); } // REFUSE	-=	6x2 and 2x6
fn p5407() { let _ = m::<U6, U2>() * m::<U2, U6>(); } // ACCEPT	*	6x2 and 2x6
fn p5408() { let _ = &m::<U6, U2>() * &m::<U2, U6>(); } // ACCEPT	&*&	6x2 and 2x6
fn p5409() { let _ = m::<U6, U2>() * Vector::<f64, U2>::default(); } // ACCEPT	matrix * vector	6x2 and 2
fn p5410() { let _ = Matrix::<f64, U6, U2>::new([[0.0; 2]; 5]); } // REFUSE	Matrix::new	6x2 from 5x2
fn p5411() { let _ = m::<U6, U2>().relative_eq(&m::<U5, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	6x2 and 5x2
fn p5412() { let _ = m::<U6, U2>().ulps_eq(&m::<U5, U2>(), 0.0, 4); } // REFUSE	ulps_eq	6x2 and 5x2
fn p5413() { let _ = m::<U6, U2>() == m::<U5, U2>(); } // REFUSE	==	6x2 and 5x2
fn p5414() { let _ = m::<U6, U2>() + m::<U5, U2>(); } // REFUSE	+	6x2 and 5x2
fn p5415() { let mut x = m::<U6, U2>(); x -= m::<U5, U2>(); } // REFUSE	-=	6x2 and 5x2
fn p5416() { let _ = m::<U6, U2>() * m::<U5, U2>(); } // REFUSE	*	6x2 and 5x2
fn p5417() { let _ = &m::<U6, U2>() * &m::<U5, U2>(); } // REFUSE	&*&	6x2 and 5x2
fn p5418() { let _ = m::<U6, U2>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	6x2 and 5
fn p5419() { let _ = Matrix::<f64, U6, U2>::new([[0.0; 1]; 6]); } // REFUSE	Matrix::new	6x2 from 6x1
fn p5420() { let _ = m::<U6, U2>().relative_eq(&m::<U6, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	6x2 and 6x1
fn p5421() { let _ = m::<U6, U2>().ulps_eq(&m::<U6, U1>(), 0.0, 4); } // REFUSE	ulps_eq	6x2 and 6x1
fn p5422() { let _ = m::<U6, U2>() == m::<U6, U1>(); } // REFUSE	==	6x2 and 6x1
fn p5423() { let _ = m::<U6, U2>() + m::<U6, U1>(); } // REFUSE	+	6x2 and 6x1
fn p5424() { let mut x = m::<U6, U2>(); x -= m::<U6, U1>(); } // REFUSE	-=	6x2 and 6x1
fn p5425() { let _ = m::<U6, U2>() * m::<U6, U1>(); } // REFUSE	*	6x2 and 6x1
fn p5426() { let _ = &m::<U6, U2>() * &m::<U6, U1>(); } // REFUSE	&*&	6x2 and 6x1
fn p5427() { let _ = m::<U6, U2>() * Vector::<f64, U6>::default(); } // REFUSE	matrix * vector	6x2 and 6
fn p5428() { let _ = Matrix::<f64, U6, U2>::new([[0.0; 2]; 6]); } // ACCEPT	Matrix::new	6x2 from 6x2
fn p5429() { let _ = m::<U6, U2>().relative_eq(&m::<U6, U2>(), 0.0, 0.0); } // ACCEPT	relative_eq	6x2 and 6x2
fn p5430() { let _ = m::<U6, U2>().ulps_eq(&m::<U6, U2>(), 0.0, 4); } // ACCEPT	ulps_eq	6x2 and 6x2
fn p5431() { let _ = m::<U6, U2>() == m::<U6, U2>(); } // ACCEPT	==	6x2 and 6x2
fn p5432() { let _ = m::<U6, U2>() + m::<U6, U2>(); } // ACCEPT	+	6x2 and 6x2
fn p5433() { let mut x = m::<U6, U2>(); x -= m::<U6, U2>(); } // ACCEPT	-=	6x2 and 6x2
fn p5434() { let _ = m::<U6, U2>() * m::<U6, U2>(); } // REFUSE	*	6x2 and 6x2
fn p5435() { let _ = &m::<U6, U2>() * &m::<U6, U2>(); } // REFUSE	&*&	6x2 and 6x2
fn p5436() { let _ = Matrix::<f64, U6, U2>::new([[0.0; 3]; 6]); } // REFUSE	Matrix::new	6x2 from 6x3
fn p5437() { let _ = m::<U6, U2>().relative_eq(&m::<U6, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	6x2 and 6x3
fn p5438() { let _ = m::<U6, U2>().ulps_eq(&m::<U6, U3>(), 0.0, 4); } // REFUSE	ulps_eq	6x2 and 6x3
fn p5439() { let _ = m::<U6, U2>() == m::<U6, U3>(); } // REFUSE	==	6x2 and 6x3
fn p5440() { let _ = m::<U6, U2>() + m::<U6, U3>(); } // REFUSE	+	6x2 and 6x3
fn p5441() { let mut x = m::<U6, U2>(); x -= m::<U6, U3>(); } // REFUSE	-=	6x2 and 6x3
fn p5442() { let _ = m::<U6, U2>() * m::<U6, U3>(); } // REFUSE	*	6x2 and 6x3
fn p5443() { let _ = &m::<U6, U2>() * &m::<U6, U3>(); } // REFUSE	&*&	6x2 and 6x3
fn p5444() { let _ = Matrix::<f64, U6, U2>::new([[0.0; 2]; 7]); } // REFUSE	Matrix::new	6x2 from 7x2
fn p5445() { let _ = m::<U6, U2>().relative_eq(&m::<U7, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	6x2 and 7x2
fn p5446() { let _ = m::<U6, U2>().ulps_eq(&m::<U7, U2>(), 0.0, 4); } // REFUSE	ulps_eq	6x2 and 7x2
fn p5447() { let _ = m::<U6, U2>() == m::<U7, U2>(); } // REFUSE	==	6x2 and 7x2
fn p5448() { let _ = m::<U6, U2>() + m::<U7, U2>(); } // REFUSE	+	6x2 and 7x2
fn p5449() { let mut x = m::<U6, U2>(); x -= m::<U7, U2>(); } // REFUSE	-=	6x2 and 7x2
fn p5450() { let _ = m::<U6, U2>() * m::<U7, U2>(); } // REFUSE	*	6x2 and 7x2
fn p5451() { let _ = &m::<U6, U2>() * &m::<U7, U2>(); } // REFUSE	&*&	6x2 and 7x2
fn p5452() { let _ = m::<U6, U2>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	6x2 and 7
fn p5453() { let _ = Matrix::<f64, U6, U3>::identity(); } // REFUSE	identity	6x3
fn p5454() { let _ = <Matrix::<f64, U6, U3> as One>::one(); } // REFUSE	one	6x3
fn p5455() { m::<U6, U3>().transpose(); } // REFUSE	transpose	6x3
fn p5456() { let _ = m::<U6, U3>().pow(2); } // REFUSE	pow	6x3
fn p5457() { let _ = m::<U6, U3>().determinant(); } // REFUSE	determinant	6x3
fn p5458() { let _ = m::<U6, U3>().inverse(); } // REFUSE	inverse	6x3
fn p5459() { let _ = m::<U6, U3>().cofactor((0, 0)); } // REFUSE	cofactor	6x3
fn p5460() { let _: Matrix<f64, U3, U6> = m::<U6, U3>().transposed(); } // ACCEPT	transposed	6x3
fn p5461() { let _: Matrix<f64, U6, U3> = m::<U6, U3>().transposed(); } // REFUSE	transposed	6x3
fn p5462() { let _ = Matrix::<f64, U6, U3>::diag([0.0; 0]); } // REFUSE	diag	6x3 from 0
fn p5463() { let _ = Matrix::<f64, U6, U3>::diag([0.0; 3]); } // ACCEPT	diag	6x3 from 3
fn p5464() { let _ = Matrix::<f64, U6, U3>::diag([0.0; 4]); } // REFUSE	diag	6x3 from 4
fn p5465() { let _ = Matrix::<f64, U6, U3>::diag([0.0; 6]); } // REFUSE	diag	6x3 from 6
fn p5466() { let _ = Matrix::<f64, U6, U3>::new([[0.0; 6]; 3]); } // REFUSE	Matrix::new	6x3 from 3x6
fn p5467() { let _ = m::<U6, U3>().relative_eq(&m::<U3, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x3 and 3x6
fn p5468() { let _ = m::<U6, U3>().ulps_eq(&m::<U3, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x3 and 3x6
fn p5469() { let _ = m::<U6, U3>() == m::<U3, U6>(); } // REFUSE	==	6x3 and 3x6
fn p5470() { let _ = m::<U6, U3>() + m::<U3, U6>(); } // REFUSE	+	6x3 and 3x6
fn p5471() { let mut x = m::<U6, U3>(); x -= m::<U3, U6>(); } // REFUSE	-=	6x3 and 3x6
fn p5472() { let _ = m::<U6, U3>() * m::<U3, U6>(); } // ACCEPT	*	6x3 and 3x6
fn p5473() { let _ = &m::<U6, U3>() * &m::<U3, U6>(); } // ACCEPT	&*&	6x3 and 3x6
fn p5474() { let _ = m::<U6, U3>() * Vector::<f64, U3>::default(); } // ACCEPT	matrix * vector	6x3 and 3
fn p5475() { let _ = Matrix::<f64, U6, U3>::new([[0.0; 3]; 5]); } // REFUSE	Matrix::new	6x3 from 5x3
fn p5476() { let _ = m::<U6, U3>().relative_eq(&m::<U5, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	6x3 and 5x3
fn p5477() { let _ = m::<U6, U3>().ulps_eq(&m::<U5, U3>(), 0.0, 4); } // REFUSE	ulps_eq	6x3 and 5x3
fn p5478() { let _ = m::<U6, U3>() == m::<U5, U3>(); } // REFUSE	==	6x3 and 5x3
fn p5479() { let _ = m::<U6, U3>() + m::<U5, U3>(); } // REFUSE	+	6x3 and 5x3
fn p5480() { let mut x = m::<U6, U3>(); x -= m::<U5, U3>(); } // REFUSE	-=	6x3 and 5x3
fn p5481() { let _ = m::<U6, U3>() * m::<U5, U3>(); } // REFUSE	*	6x3 and 5x3
fn p5482() { let _ = &m::<U6, U3>() * &m::<U5, U3>(); } // REFUSE	&*&	6x3 and 5x3
fn p5483() { let _ = m::<U6, U3>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	6x3 and 5
fn p5484() { let _ = Matrix::<f64, U6, U3>::new([[0.0; 2]; 6]); } // REFUSE	Matrix::new	6x3 from 6x2
fn p5485() { let _ = m::<U6, U3>().relative_eq(&m::<U6, U2>(), 0.0, 0.0); } // REFUSE	relative_eq	6x3 and 6x2
fn p5486() { let _ = m::<U6, U3>().ulps_eq(&m::<U6, U2>(), 0.0, 4); } // REFUSE	ulps_eq	6x3 and 6x2
fn p5487() { let _ = m::<U6, U3>() == m::<U6, U2>(); } // REFUSE	==	6x3 and 6x2
fn p5488() { let _ = m::<U6, U3>() + m::<U6, U2>(); } // REFUSE	+	6x3 and 6x2
fn p5489() { let mut x = m::<U6, U3>(); x -= m::<U6, U2>(); } // REFUSE	-=	6x3 and 6x2
fn p5490() { let _ = m::<U6, U3>() * m::<U6, U2>(); } // REFUSE	*	6x3 and 6x2
fn p5491() { let _ = &m::<U6, U3>() * &m::<U6, U2>(); } // REFUSE	&*&	6x3 and 6x2
fn p5492() { let _ = Matrix::<f64, U6, U3>::new([[0.0; 3]; 6]); } // ACCEPT	Matrix::new	6x3 from 6x3
fn p5493() { let _ = m::<U6, U3>().relative_eq(&m::<U6, U3>(), 0.0, 0.0); } // ACCEPT	relative_eq	6x3 and 6x3
fn p5494() { let _ = m::<U6, U3>().ulps_eq(&m::<U6, U3>(), 0.0, 4); } // ACCEPT	ulps_eq	6x3 and 6x3
fn p5495() { let _ = m::<U6, U3>() == m::<U6, U3>(); } // ACCEPT	==	6x3 and 6x3
fn p5496() { let _ = m::<U6, U3>() + m::<U6, U3>(); } // ACCEPT	+	6x3 and 6x3
fn p5497() { let mut x = m::<U6, U3>(); x -= m::<U6, U3>(); } // ACCEPT	-=	6x3 and 6x3
fn p5498() { let _ = m::<U6, U3>() * m::<U6, U3>(); } // REFUSE	*	6x3 and 6x3
fn p5499() { let _ = &m::<U6, U3>() * &m::<U6, U3>(); } // REFUSE	&*&	6x3 and 6x3
fn p5500() { let _ = Matrix::<f64, U6, U3>::new([[0.0; 4]; 6]); } // REFUSE	Matrix::new	6x3 from 6x4
fn p5501() { let _ = m::<U6, U3>().relative_eq(&m::<U6, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	6x3 and 6x4
fn p5502() { let _ = m::<U6, U3>().ulps_eq(&m::<U6, U4>(), 0.0, 4); } // REFUSE	ulps_eq	6x3 and 6x4
fn p5503() { let _ = m::<U6, U3>() == m::<U6, U4>(); } // REFUSE	==	6x3 and 6x4
fn p5504() { let _ = m::<U6, U3>() + m::<U6, U4>(); } // REFUSE	+	6x3 and 6x4
fn p5505() { let mut x = m::<U6, U3>(); x -= m::<U6, U4>(); } // REFUSE	-=	6x3 and 6x4
fn p5506() { let _ = m::<U6, U3>() * m::<U6, U4>(); } // REFUSE	*	6x3 and 6x4
fn p5507() { let _ = &m::<U6, U3>() * &m::<U6, U4>(); } // REFUSE	&*&	6x3 and 6x4
fn p5508() { let _ = Matrix::<f64, U6, U3>::new([[0.0; 3]; 7]); } // REFUSE	Matrix::new	6x3 from 7x3
fn p5509() { let _ = m::<U6, U3>().relative_eq(&m::<U7, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	6x3 and 7x3
fn p5510() { let _ = m::<U6, U3>().ulps_eq(&m::<U7, U3>(), 0.0, 4); } // REFUSE	ulps_eq	6x3 and 7x3
fn p5511() { let _ = m::<U6, U3>() == m::<U7, U3>(); } // REFUSE	==	6x3 and 7x3
fn p5512() { let _ = m::<U6, U3>() + m::<U7, U3>(); } // REFUSE	+	6x3 and 7x3
fn p5513() { let mut x = m::<U6, U3>(); x -= m::<U7, U3>(); } // REFUSE	-=	6x3 and 7x3
fn p5514() { let _ = m::<U6, U3>() * m::<U7, U3>(); } // REFUSE	*	6x3 and 7x3
fn p5515() { let _ = &m::<U6, U3>() * &m::<U7, U3>(); } // REFUSE	&*&	6x3 and 7x3
fn p5516() { let _ = m::<U6, U3>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	6x3 and 7
fn p5517() { let _ = Matrix::<f64, U6, U4>::identity(); } // REFUSE	identity	6x4
fn p5518() { let _ = <Matrix::<f64, U6, U4> as One>::one(); } // REFUSE	one	6x4
fn p5519() { m::<U6, U4>().transpose(); } // REFUSE	transpose	6x4
fn p5520() { let _ = m::<U6, U4>().pow(2); } // REFUSE	pow	6x4
fn p5521() { let _ = m::<U6, U4>().determinant(); } // REFUSE	determinant	6x4
fn p5522() { let _ = m::<U6, U4>().inverse(); } // REFUSE	inverse	6x4
fn p5523() { let _ = m::<U6, U4>().cofactor((0, 0)); } // REFUSE	cofactor	6x4
fn p5524() { let _: Matrix<f64, U4, U6> = m::<U6, U4>().transposed(); } // ACCEPT	transposed	6x4
fn p5525() { let _: Matrix<f64, U6, U4> = m::<U6, U4>().transposed(); } // REFUSE	transposed	6x4
fn p5526() { let _ = Matrix::<f64, U6, U4>::diag([0.0; 0]); } // REFUSE	diag	6x4 from 0
fn p5527() { let _ = Matrix::<f64, U6, U4>::diag([0.0; 4]); } // ACCEPT	diag	6x4 from 4
fn p5528() { let _ = Matrix::<f64, U6, U4>::diag([0.0; 5]); } // REFUSE	diag	6x4 from 5
fn p5529() { let _ = Matrix::<f64, U6, U4>::diag([0.0; 6]); } // REFUSE	diag	6x4 from 6
fn p5530() { let _ = Matrix::<f64, U6, U4>::new([[0.0; 6]; 4]); } // REFUSE	Matrix::new	6x4 from 4x6
fn p5531() { let _ = m::<U6, U4>().relative_eq(&m::<U4, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x4 and 4x6
fn p5532() { let _ = m::<U6, U4>().ulps_eq(&m::<U4, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x4 and 4x6
fn p5533() { let _ = m::<U6, U4>() == m::<U4, U6>(); } // REFUSE	==	6x4 and 4x6
fn p5534() { let _ = m::<U6, U4>() + m::<U4, U6>(); } // REFUSE	+	6x4 and 4x6
fn p5535() { let mut x = m::<U6, U4>(); x -= m::<U4, U6>(); } // REFUSE	-=	6x4 and 4x6
fn p5536() { let _ = m::<U6, U4>() * m::<U4, U6>(); } // ACCEPT	*	6x4 and 4x6
fn p5537() { let _ = &m::<U6, U4>() * &m::<U4, U6>(); } // ACCEPT	&*&	6x4 and 4x6
fn p5538() { let _ = m::<U6, U4>() * Vector::<f64, U4>::default(); } // ACCEPT	matrix * vector	6x4 and 4
fn p5539() { let _ = Matrix::<f64, U6, U4>::new([[0.0; 4]; 5]); } // REFUSE	Matrix::new	6x4 from 5x4
fn p5540() { let _ = m::<U6, U4>().relative_eq(&m::<U5, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	6x4 and 5x4
fn p5541() { let _ = m::<U6, U4>().ulps_eq(&m::<U5, U4>(), 0.0, 4); } // REFUSE	ulps_eq	6x4 and 5x4
fn p5542() { let _ = m::<U6, U4>() == m::<U5, U4>(); } // REFUSE	==	6x4 and 5x4
fn p5543() { let _ = m::<U6, U4>() + m::<U5, U4>(); } // REFUSE	+	6x4 and 5x4
fn p5544() { let mut x = m::<U6, U4>(); x -= m::<U5, U4>(); } // REFUSE	-=	6x4 and 5x4
fn p5545() { let _ = m::<U6, U4>() * m::<U5, U4>(); } // REFUSE	*	6x4 and 5x4
fn p5546() { let _ = &m::<U6, U4>() * &m::<U5, U4>(); } // REFUSE	&*&	6x4 and 5x4
fn p5547() { let _ = m::<U6, U4>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	6x4 and 5
fn p5548() { let _ = Matrix::<f64, U6, U4>::new([[0.0; 3]; 6]); } // REFUSE	Matrix::new	6x4 from 6x3
fn p5549() { let _ = m::<U6, U4>().relative_eq(&m::<U6, U3>(), 0.0, 0.0); } // REFUSE	relative_eq	6x4 and 6x3
fn p5550() { let _ = m::<U6, U4>().ulps_eq(&m::<U6, U3>(), 0.0, 4); } // REFUSE	ulps_eq	6x4 and 6x3
fn p5551() { let _ = m::<U6, U4>() == m::<U6, U3>(); } // REFUSE	==	6x4 and 6x3
fn p5552() { let _ = m::<U6, U4>() + m::<U6, U3>(); } // REFUSE	+	6x4 and 6x3
fn p5553() { let mut x = m::<U6, U4>(); x -= m::<U6, U3>(); } // REFUSE	-=	6x4 and 6x3
fn p5554() { let _ = m::<U6, U4>() * m::<U6, U3>(); } // REFUSE	*	6x4 and 6x3
fn p5555() { let _ = &m::<U6, U4>() * &m::<U6, U3>(); } // REFUSE	&*&	6x4 and 6x3
fn p5556() { let _ = Matrix::<f64, U6, U4>::new([[0.0; 4]; 6]); } // ACCEPT	Matrix::new	6x4 from 6x4
fn p5557() { let _ = m::<U6, U4>().relative_eq(&m::<U6, U4>(), 0.0, 0.0); } // ACCEPT	relative_eq	6x4 and 6x4
fn p5558() { let _ = m::<U6, U4>().ulps_eq(&m::<U6, U4>(), 0.0, 4); } // ACCEPT	ulps_eq	6x4 and 6x4
fn p5559() { let _ = m::<U6, U4>() == m::<U6, U4>(); } // ACCEPT	==	6x4 and 6x4
fn p5560() { let _ = m::<U6, U4>() + m::<U6, U4>(); } // ACCEPT	+	6x4 and 6x4
fn p5561() { let mut x = m::<U6, U4>(); x -= m::<U6, U4>(); } // ACCEPT	-=	6x4 and 6x4
fn p5562() { let _ = m::<U6, U4>() * m::<U6, U4>(); } // REFUSE	*	6x4 and 6x4
fn p5563() { let _ = &m::<U6, U4>() * &m::<U6, U4>(); } // REFUSE	&*&	6x4 and 6x4
fn p5564() { let _ = Matrix::<f64, U6, U4>::new([[0.0; 5]; 6]); } // REFUSE	Matrix::new	6x4 from 6x5
fn p5565() { let _ = m::<U6, U4>().relative_eq(&m::<U6, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	6x4 and 6x5
fn p5566() { let _ = m::<U6, U4>().ulps_eq(&m::<U6, U5>(), 0.0, 4); } // REFUSE	ulps_eq	6x4 and 6x5
fn p5567() { let _ = m::<U6, U4>() == m::<U6, U5>(); } // REFUSE	==	6x4 and 6x5
fn p5568() { let _ = m::<U6, U4>() + m::<U6, U5>(); } // REFUSE	+	6x4 and 6x5
fn p5569() { let mut x = m::<U6, U4>(); x -= m::<U6, U5>(); } // REFUSE	-=	6x4 and 6x5
fn p5570() { let _ = m::<U6, U4>() * m::<U6, U5>(); } // REFUSE	*	6x4 and 6x5
fn p5571() { let _ = &m::<U6, U4>() * &m::<U6, U5>(); } // REFUSE	&*&	6x4 and 6x5
fn p5572() { let _ = Matrix::<f64, U6, U4>::new([[0.0; 4]; 7]); } // REFUSE	Matrix::new	6x4 from 7x4
fn p5573() { let _ = m::<U6, U4>().relative_eq(&m::<U7, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	6x4 and 7x4
fn p5574() { let _ = m::<U6, U4>().ulps_eq(&m::<U7, U4>(), 0.0, 4); } // REFUSE	ulps_eq	6x4 and 7x4
fn p5575() { let _ = m::<U6, U4>() == m::<U7, U4>(); } // REFUSE	==	6x4 and 7x4
fn p5576() { let _ = m::<U6, U4>() + m::<U7, U4>(); } // REFUSE	+	6x4 and 7x4
fn p5577() { let mut x = m::<U6, U4>(); x -= m::<U7, U4>(); } // REFUSE	-=	6x4 and 7x4
fn p5578() { let _ = m::<U6, U4>() * m::<U7, U4>(); } // REFUSE	*	6x4 and 7x4
fn p5579() { let _ = &m::<U6, U4>() * &m::<U7, U4>(); } // REFUSE	&*&	6x4 and 7x4
fn p5580() { let _ = m::<U6, U4>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	6x4 and 7
fn p5581() { let _ = Matrix::<f64, U6, U5>::identity(); } // REFUSE	identity	6x5
fn p5582() { let _ = <Matrix::<f64, U6, U5> as One>::one(); } // REFUSE	one	6x5
fn p5583() { m::<U6, U5>().transpose(); } // REFUSE	transpose	6x5
fn p5584() { let _ = m::<U6, U5>().pow(2); } // REFUSE	pow	6x5
fn p5585() { let _ = m::<U6, U5>().determinant(); } // REFUSE	determinant	6x5
fn p5586() { let _ = m::<U6, U5>().inverse(); } // REFUSE	inverse	6x5
fn p5587() { let _ = m::<U6, U5>().cofactor((0, 0)); } // REFUSE	cofactor	6x5
fn p5588() { let _: Matrix<f64, U5, U6> = m::<U6, U5>().transposed(); } // ACCEPT	transposed	6x5
fn p5589() { let _: Matrix<f64, U6, U5> = m::<U6, U5>().transposed(); } // REFUSE	transposed	6x5
fn p5590() { let _ = Matrix::<f64, U6, U5>::diag([0.0; 0]); } // REFUSE	diag	6x5 from 0
fn p5591() { let _ = Matrix::<f64, U6, U5>::diag([0.0; 5]); } // ACCEPT	diag	6x5 from 5
fn p5592() { let _ = Matrix::<f64, U6, U5>::diag([0.0; 6]); } // REFUSE	diag	6x5 from 6
fn p5593() { let _ = Matrix::<f64, U6, U5>::new([[0.0; 5]; 5]); } // REFUSE	Matrix::new	6x5 from 5x5
fn p5594() { let _ = m::<U6, U5>().relative_eq(&m::<U5, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	6x5 and 5x5
fn p5595() { let _ = m::<U6, U5>().ulps_eq(&m::<U5, U5>(), 0.0, 4); } // REFUSE	ulps_eq	6x5 and 5x5
fn p5596() { let _ = m::<U6, U5>() == m::<U5, U5>(); } // REFUSE	==	6x5 and 5x5
fn p5597() { let _ = m::<U6, U5>() + m::<U5, U5>(); } // REFUSE	+	6x5 and 5x5
fn p5598() { let mut x = m::<U6, U5>(); x -= m::<U5, U5>(); } // REFUSE	-=	6x5 and 5x5
fn p5599() { let _ = m::<U6, U5>() * m::<U5, U5>(); } // ACCEPT	*	6x5 and 5x5
fn p5600() { let _ = &m::<U6, U5>() * &m::<U5, U5>(); } // ACCEPT	&*&	6x5 and 5x5
fn p5601() { let _ = m::<U6, U5>() * Vector::<f64, U5>::default(); } // ACCEPT	matrix * vector	6x5 and 5
fn p5602() { let _ = Matrix::<f64, U6, U5>::new([[0.0; 6]; 5]); } // REFUSE	Matrix::new	6x5 from 5x6
fn p5603() { let _ = m::<U6, U5>().relative_eq(&m::<U5, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x5 and 5x6
fn p5604() { let _ = m::<U6, U5>().ulps_eq(&m::<U5, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x5 and 5x6
fn p5605() { let _ = m::<U6, U5>() == m::<U5, U6>(); } // REFUSE	==	6x5 and 5x6
fn p5606() { let _ = m::<U6, U5>() + m::<U5, U6>(); } // REFUSE	+	6x5 and 5x6
fn p5607() { let mut x = m::<U6, U5>(); x -= m::<U5, U6>(); } // REFUSE	-=	6x5 and 5x6
fn p5608() { let _ = m::<U6, U5>() * m::<U5, U6>(); } // ACCEPT	*	6x5 and 5x6
fn p5609() { let _ = &m::<U6, U5>() * &m::<U5, U6>(); } // ACCEPT	&*&	6x5 and 5x6
fn p5610() { let _ = m::<U6, U5>() * Vector::<f64, U5>::default(); } // ACCEPT	matrix * vector	6x5 and 5
fn p5611() { let _ = Matrix::<f64, U6, U5>::new([[0.0; 4]; 6]); } // REFUSE	Matrix::new	6x5 from 6x4
fn p5612() { let _ = m::<U6, U5>().relative_eq(&m::<U6, U4>(), 0.0, 0.0); } // REFUSE	relative_eq	6x5 and 6x4
fn p5613() { let _ = m::<U6, U5>().ulps_eq(&m::<U6, U4>(), 0.0, 4); } // REFUSE	ulps_eq	6x5 and 6x4
fn p5614() { let _ = m::<U6, U5>() == m::<U6, U4>(); } // REFUSE	==	6x5 and 6x4
fn p5615() { let _ = m::<U6, U5>() + m::<U6, U4>(); } // REFUSE	+	6x5 and 6x4
fn p5616() { let mut x = m::<U6, U5>(); x -= m::<U6, U4>(); } // REFUSE	-=	6x5 and 6x4
fn p5617() { let _ = m::<U6, U5>() * m::<U6, U4>(); } // REFUSE	*	6x5 and 6x4
fn p5618() { let _ = &m::<U6, U5>() * &m::<U6, U4>(); } // REFUSE	&*&	6x5 and 6x4
fn p5619() { let _ = Matrix::<f64, U6, U5>::new([[0.0; 5]; 6]); } // ACCEPT	Matrix::new	6x5 from 6x5
fn p5620() { let _ = m::<U6, U5>().relative_eq(&m::<U6, U5>(), 0.0, 0.0); } // ACCEPT	relative_eq	6x5 and 6x5
fn p5621() { let _ = m::<U6, U5>().ulps_eq(&m::<U6, U5>(), 0.0, 4); } // ACCEPT	ulps_eq	6x5 and 6x5
fn p5622() { let _ = m::<U6, U5>() == m::<U6, U5>(); } // ACCEPT	==	6x5 and 6x5
fn p5623() { let _ = m::<U6, U5>() + m::<U6, U5>(); } // ACCEPT	+	6x5 and 6x5
fn p5624() { let mut x = m::<U6, U5>(); x -= m::<U6, U5>(); } // ACCEPT	-=	6x5 and 6x5
fn p5625() { let _ = m::<U6, U5>() * m::<U6, U5>(); } // REFUSE	*	6x5 and 6x5
fn p5626() { let _ = &m::<U6, U5>() * &m::<U6, U5>(); } // REFUSE	&*&	6x5 and 6x5
fn p5627() { let _ = Matrix::<f64, U6, U5>::new([[0.0; 6]; 6]); } // REFUSE	Matrix::new	6x5 from 6x6
fn p5628() { let _ = m::<U6, U5>().relative_eq(&m::<U6, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x5 and 6x6
fn p5629() { let _ = m::<U6, U5>().ulps_eq(&m::<U6, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x5 and 6x6
fn p5630() { let _ = m::<U6, U5>() == m::<U6, U6>(); } // REFUSE	==	6x5 and 6x6
fn p5631() { let _ = m::<U6, U5>() + m::<U6, U6>(); } // REFUSE	+	6x5 and 6x6
fn p5632() { let mut x = m::<U6, U5>(); x -= m::<U6, U6>(); } // REFUSE	-=	6x5 and 6x6
fn p5633() { let _ = m::<U6, U5>() * m::<U6, U6>(); } // REFUSE	*	6x5 and 6x6
fn p5634() { let _ = &m::<U6, U5>() * &m::<U6, U6>(); } // REFUSE	&*&	6x5 and 6x6
fn p5635() { let _ = Matrix::<f64, U6, U5>::new([[0.0; 5]; 7]); } // REFUSE	Matrix::new	6x5 from 7x5
fn p5636() { let _ = m::<U6, U5>().relative_eq(&m::<U7, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	6x5 and 7x5
fn p5637() { let _ = m::<U6, U5>().ulps_eq(&m::<U7, U5>(), 0.0, 4); } // REFUSE	ulps_eq	6x5 and 7x5
fn p5638() { let _ = m::<U6, U5>() == m::<U7, U5>(); } // REFUSE	==	6x5 and 7x5
fn p5639() { let _ = m::<U6, U5>() + m::<U7, U5>(); } // REFUSE	+	6x5 and 7x5
fn p5640() { let mut x = m::<U6, U5>(); x -= m::<U7, U5>(); } // REFUSE	-=	6x5 and 7x5
fn p5641() { let _ = m::<U6, U5>() * m::<U7, U5>(); } // REFUSE	*	6x5 and 7x5
fn p5642() { let _ = &m::<U6, U5>() * &m::<U7, U5>(); } // REFUSE	&*&	6x5 and 7x5
fn p5643() { let _ = m::<U6, U5>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	6x5 and 7
fn p5644() { let _ = Matrix::<f64, U6, U6>::identity(); } // ACCEPT	identity	6x6
fn p5645() { let _ = <Matrix::<f64, U6, U6> as One>::one(); } // ACCEPT	one	6x6
fn p5646() { m::<U6, U6>().transpose(); } // ACCEPT	transpose	6x6
fn p5647() { let _ = m::<U6, U6>().pow(2); } // ACCEPT	pow	6x6
fn p5648() { let _ = m::<U6, U6>().determinant(); } // ACCEPT	determinant	6x6
fn p5649() { let _ = m::<U6, U6>().inverse(); } // ACCEPT	inverse	6x6
fn p5650() { let _ = m::<U6, U6>().cofactor((0, 0)); } // ACCEPT	cofactor	6x6
fn p5651() { let _: Matrix<f64, U6, U6> = m::<U6, U6>().transposed(); } // ACCEPT	transposed	6x6
fn p5652() { let _ = Matrix::<f64, U6, U6>::diag([0.0; 0]); } // REFUSE	diag	6x6 from 0
fn p5653() { let _ = Matrix::<f64, U6, U6>::diag([0.0; 6]); } // ACCEPT	diag	6x6 from 6
fn p5654() { let _ = Matrix::<f64, U6, U6>::diag([0.0; 7]); } // REFUSE	diag	6x6 from 7
fn p5655() { let _ = Matrix::<f64, U6, U6>::new([[0.0; 6]; 5]); } // REFUSE	Matrix::new	6x6 from 5x6
fn p5656() { let _ = m::<U6, U6>().relative_eq(&m::<U5, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x6 and 5x6
fn p5657() { let _ = m::<U6, U6>().ulps_eq(&m::<U5, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x6 and 5x6
fn p5658() { let _ = m::<U6, U6>() == m::<U5, U6>(); } // REFUSE	==	6x6 and 5x6
fn p5659() { let _ = m::<U6, U6>() + m::<U5, U6>(); } // REFUSE	+	6x6 and 5x6
fn p5660() { let mut x = m::<U6, U6>(); x -= m::<U5, U6>(); } // REFUSE	-=	6x6 and 5x6
fn p5661() { let _ = m::<U6, U6>() * m::<U5, U6>(); } // REFUSE	*	6x6 and 5x6
fn p5662() { let _ = &m::<U6, U6>() * &m::<U5, U6>(); } // REFUSE	&*&	6x6 and 5x6
fn p5663() { let _ = m::<U6, U6>() * Vector::<f64, U5>::default(); } // REFUSE	matrix * vector	6x6 and 5
fn p5664() { let _ = Matrix::<f64, U6, U6>::new([[0.0; 5]; 6]); } // REFUSE	Matrix::new	6x6 from 6x5
fn p5665() { let _ = m::<U6, U6>().relative_eq(&m::<U6, U5>(), 0.0, 0.0); } // REFUSE	relative_eq	6x6 and 6x5
fn p5666() { let _ = m::<U6, U6>().ulps_eq(&m::<U6, U5>(), 0.0, 4); } // REFUSE	ulps_eq	6x6 and 6x5
fn p5667() { let _ = m::<U6, U6>() == m::<U6, U5>(); } // REFUSE	==	6x6 and 6x5
fn p5668() { let _ = m::<U6, U6>() + m::<U6, U5>(); } // REFUSE	+	6x6 and 6x5
fn p5669() { let mut x = m::<U6, U6>(); x -= m::<U6, U5>(); } // REFUSE	-=	6x6 and 6x5
fn p5670() { let _ = m::<U6, U6>() * m::<U6, U5>(); } // ACCEPT	*	6x6 and 6x5
fn p5671() { let _ = &m::<U6, U6>() * &m::<U6, U5>(); } // ACCEPT	&*&	6x6 and 6x5
fn p5672() { let _ = Matrix::<f64, U6, U6>::new([[0.0; 6]; 6]); } // ACCEPT	Matrix::new	6x6 from 6x6
fn p5673() { let _ = m::<U6, U6>().relative_eq(&m::<U6, U6>(), 0.0, 0.0); } // ACCEPT	relative_eq	6x6 and 6x6
fn p5674() { let _ = m::<U6, U6>().ulps_eq(&m::<U6, U6>(), 0.0, 4); } // ACCEPT	ulps_eq	6x6 and 6x6
fn p5675() { let _ = m::<U6, U6>() == m::<U6, U6>(); } // ACCEPT	==	6x6 and 6x6
fn p5676() { let _ = m::<U6, U6>() + m::<U6, U6>(); } // ACCEPT	+	6x6 and 6x6
fn p5677() { let mut x = m::<U6, U6>(); x -= m::<U6, U6>(); } // ACCEPT	-=	6x6 and 6x6
fn p5678() { let _ = m::<U6, U6>() * m::<U6, U6>(); } // ACCEPT	*	6x6 and 6x6
fn p5679() { let _ = &m::<U6, U6>() * &m::<U6, U6>(); } // ACCEPT	&*&	6x6 and 6x6
fn p5680() { let _ = Matrix::<f64, U6, U6>::new([[0.0; 7]; 6]); } // REFUSE	Matrix::new	6x6 from 6x7
fn p5681() { let _ = m::<U6, U6>().relative_eq(&m::<U6, U7>(), 0.0, 0.0); } // REFUSE	relative_eq	6x6 and 6x7
fn p5682() { let _ = m::<U6, U6>().ulps_eq(&m::<U6, U7>(), 0.0, 4); } // REFUSE	ulps_eq	6x6 and 6x7
fn p5683() { let _ = m::<U6, U6>() == m::<U6, U7>(); } // REFUSE	==	6x6 and 6x7
fn p5684() { let _ = m::<U6, U6>() + m::<U6, U7>(); } // REFUSE	+	6x6 and 6x7
fn p5685() { let mut x = m::<U6, U6>(); x -= m::<U6, U7>(); } // REFUSE	-=	6x6 and 6x7
fn p5686() { let _ = m::<U6, U6>() * m::<U6, U7>(); } // ACCEPT	*	6x6 and 6x7
fn p5687() { let _ = &m::<U6, U6>() * &m::<U6, U7>(); } // ACCEPT	&*&	6x6 and 6x7
fn p5688() { let _ = Matrix::<f64, U6, U6>::new([[0.0; 6]; 7]); } // REFUSE	Matrix::new	6x6 from 7x6
fn p5689() { let _ = m::<U6, U6>().relative_eq(&m::<U7, U6>(), 0.0, 0.0); } // REFUSE	relative_eq	6x6 and 7x6
fn p5690() { let _ = m::<U6, U6>().ulps_eq(&m::<U7, U6>(), 0.0, 4); } // REFUSE	ulps_eq	6x6 and 7x6
fn p5691() { let _ = m::<U6, U6>() == m::<U7, U6>(); } // REFUSE	==	6x6 and 7x6
fn p5692() { let _ = m::<U6, U6>() + m::<U7, U6>(); } // REFUSE	+	6x6 and 7x6
fn p5693() { let mut x = m::<U6, U6>(); x -= m::<U7, U6>(); } // REFUSE	-=	6x6 and 7x6
fn p5694() { let _ = m::<U6, U6>() * m::<U7, U6>(); } // REFUSE	*	6x6 and 7x6
fn p5695() { let _ = &m::<U6, U6>() * &m::<U7, U6>(); } // REFUSE	&*&	6x6 and 7x6
fn p5696() { let _ = m::<U6, U6>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	6x6 and 7
fn p5697() { let _ = Matrix::<f64, U32, U32>::identity(); } // ACCEPT	identity	32x32
fn p5698() { let _ = <Matrix::<f64, U32, U32> as One>::one(); } // ACCEPT	one	32x32
fn p5699() { m::<U32, U32>().transpose(); } // ACCEPT	transpose	32x32
fn p5700() { let _ = m::<U32, U32>().pow(2); } // ACCEPT	pow	32x32
fn p5701() { let _ = m::<U32, U32>().determinant(); } // ACCEPT	determinant	32x32
fn p5702() { let _ = m::<U32, U32>().inverse(); } // ACCEPT	inverse	32x32
fn p5703() { let _ = m::<U32, U32>().cofactor((0, 0)); } // ACCEPT	cofactor	32x32
fn p5704() { let _: Matrix<f64, U32, U32> = m::<U32, U32>().transposed(); } // ACCEPT	transposed	32x32
fn p5705() { let _ = Matrix::<f64, U32, U32>::diag([0.0; 0]); } // REFUSE	diag	32x32 from 0
fn p5706() { let _ = Matrix::<f64, U32, U32>::diag([0.0; 32]); } // ACCEPT	diag	32x32 from 32
fn p5707() { let _ = Matrix::<f64, U32, U32>::diag([0.0; 33]); } // REFUSE	diag	32x32 from 33
fn p5708() { let _ = Matrix::<f64, U32, U32>::new([[0.0; 32]; 31]); } // REFUSE	Matrix::new	32x32 from 31x32
fn p5709() { let _ = m::<U32, U32>().relative_eq(&m::<U31, U32>(), 0.0, 0.0); } // REFUSE	relative_eq	32x32 and 31x32
fn p5710() { let _ = m::<U32, U32>().ulps_eq(&m::<U31, U32>(), 0.0, 4); } // REFUSE	ulps_eq	32x32 and 31x32
fn p5711() { let _ = m::<U32, U32>() == m::<U31, U32>(); } // REFUSE	==	32x32 and 31x32
fn p5712() { let _ = m::<U32, U32>() + m::<U31, U32>(); } // REFUSE	+	32x32 and 31x32
fn p5713() { let mut x = m::<U32, U32>(); x -= m::<U31, U32>(); } // REFUSE	-=	32x32 and 31x32
fn p5714() { let _ = m::<U32, U32>() * m::<U31, U32>(); } // REFUSE	*	32x32 and 31x32
fn p5715() { let _ = &m::<U32, U32>() * &m::<U31, U32>(); } // REFUSE	&*&	32x32 and 31x32
fn p5716() { let _ = m::<U32, U32>() * Vector::<f64, U31>::default(); } // REFUSE	matrix * vector	32x32 and 31
fn p5717() { let _ = Matrix::<f64, U32, U32>::new([[0.0; 31]; 32]); } // REFUSE	Matrix::new	32x32 from 32x31
fn p5718() { let _ = m::<U32, U32>().relative_eq(&m::<U32, U31>(), 0.0, 0.0); } // REFUSE	relative_eq	32x32 and 32x31
fn p5719() { let _ = m::<U32, U32>().ulps_eq(&m::<U32, U31>(), 0.0, 4); } // REFUSE	ulps_eq	32x32 and 32x31
fn p5720() { let _ = m::<U32, U32>() == m::<U32, U31>(); } // REFUSE	==	32x32 and 32x31
fn p5721() { let _ = m::<U32, U32>() + m::<U32, U31>(); } // REFUSE	+	32x32 and 32x31
fn p5722() { let mut x = m::<U32, U32>(); x -= m::<U32, U31>(); } // REFUSE	-=	32x32 and 32x31
fn p5723() { let _ = m::<U32, U32>() * m::<U32, U31>(); } // ACCEPT	*	32x32 and 32x31
fn p5724() { let _ = &m::<U32, U32>() * &m::<U32, U31>(); } // ACCEPT	&*&	32x32 and 32x31
fn p5725() { let _ = Matrix::<f64, U32, U32>::new([[0.0; 32]; 32]); } // ACCEPT	Matrix::new	32x32 from 32x32
fn p5726() { let _ = m::<U32, U32>().relative_eq(&m::<U32, U32>(), 0.0, 0.0); } // ACCEPT	relative_eq	32x32 and 32x32
fn p5727() { let _ = m::<U32, U32>().ulps_eq(&m::<U32, U32>(), 0.0, 4); } // ACCEPT	ulps_eq	32x32 and 32x32
fn p5728() { let _ = m::<U32, U32>() == m::<U32, U32>(); } // ACCEPT	==	32x32 and 32x32
fn p5729() { let _ = m::<U32, U32>() + m::<U32, U32>(); } // ACCEPT	+	32x32 and 32x32
fn p5730() { let mut x = m::<U32, U32>(); x -= m::<U32, U32>(); } // ACCEPT	-=	32x32 and 32x32
fn p5731() { let _ = m::<U32, U32>() * m::<U32, U32>(); } // ACCEPT	*	32x32 and 32x32
fn p5732() { let _ = &m::<U32, U32>() * &m::<U32, U32>(); } // ACCEPT	&*&	32x32 and 32x32
fn p5733() { let _ = Matrix::<f64, U32, U32>::new([[0.0; 33]; 32]); } // REFUSE	Matrix::new	32x32 from 32x33
fn p5734() { let _ = Matrix::<f64, U32, U32>::new([[0.0; 32]; 33]); } // REFUSE	Matrix::new	32x32 from 33x32
fn p5735() { let _ = Matrix::<f64, U32, U31>::identity(); } // REFUSE	identity	32x31
fn p5736() { let _ = <Matrix::<f64, U32, U31> as One>::one(); } // REFUSE	one	32x31
fn p5737() { m::<U32, U31>().transpose(); } // REFUSE	transpose	32x31
fn p5738() { let _ = m::<U32, U31>().pow(2); } // REFUSE	pow	32x31
fn p5739() { let _ = m::<U32, U31>().determinant(); } // REFUSE	determinant	32x31
fn p5740() { let _ = m::<U32, U31>().inverse(); } // REFUSE	inverse	32x31
fn p5741() { let _ = m::<U32, U31>().cofactor((0, 0)); } // REFUSE	cofactor	32x31
fn p5742() { let _: Matrix<f64, U31, U32> = m::<U32, U31>().transposed(); } // ACCEPT	transposed	32x31
fn p5743() { let _: Matrix<f64, U32, U31> = m::<U32, U31>().transposed(); } // REFUSE	transposed	32x31
fn p5744() { let _ = Matrix::<f64, U32, U31>::diag([0.0; 0]); } // REFUSE	diag	32x31 from 0
fn p5745() { let _ = Matrix::<f64, U32, U31>::diag([0.0; 31]); } // ACCEPT	diag	32x31 from 31
fn p5746() { let _ = Matrix::<f64, U32, U31>::diag([0.0; 32]); } // REFUSE	diag	32x31 from 32
fn p5747() { let _ = Matrix::<f64, U32, U31>::new([[0.0; 31]; 31]); } // REFUSE	Matrix::new	32x31 from 31x31
fn p5748() { let _ = m::<U32, U31>().relative_eq(&m::<U31, U31>(), 0.0, 0.0); } // REFUSE	relative_eq	32x31 and 31x31
fn p5749() { let _ = m::<U32, U31>().ulps_eq(&m::<U31, U31>(), 0.0, 4); } // REFUSE	ulps_eq	32x31 and 31x31
fn p5750() { let _ = m::<U32, U31>() == m::<U31, U31>(); } // REFUSE	==	32x31 and 31x31
fn p5751() { let _ = m::<U32, U31>() + m::<U31, U31>(); } // REFUSE	+	32x31 and 31x31
fn p5752() { let mut x = m::<U32, U31>(); x -= m::<U31, U31>(); } // REFUSE	-=	32x31 and 31x31
fn p5753() { let _ = m::<U32, U31>() * m::<U31, U31>(); } // ACCEPT	*	32x31 and 31x31
fn p5754() { let _ = &m::<U32, U31>() * &m::<U31, U31>(); } // ACCEPT	&*&	32x31 and 31x31
fn p5755() { let _ = m::<U32, U31>() * Vector::<f64, U31>::default(); } // ACCEPT	matrix * vector	32x31 and 31
fn p5756() { let _ = Matrix::<f64, U32, U31>::new([[0.0; 32]; 31]); } // REFUSE	Matrix::new	32x31 from 31x32
fn p5757() { let _ = m::<U32, U31>().relative_eq(&m::<U31, U32>(), 0.0, 0.0); } // REFUSE	relative_eq	32x31 and 31x32
fn p5758() { let _ = m::<U32, U31>().ulps_eq(&m::<U31, U32>(), 0.0, 4); } // REFUSE	ulps_eq	32x31 and 31x32
fn p5759() { let _ = m::<U32, U31>() == m::<U31, U32>(); } // REFUSE	==	32x31 and 31x32
fn p5760() { let _ = m::<U32, U31>() + m::<U31, U32>(); } // REFUSE	+	32x31 and 31x32
fn p5761() { let mut x = m::<U32, U31>(); x -= m::<U31, U32>(); } // REFUSE	-=	32x31 and 31x32
fn p5762() { let _ = m::<U32, U31>() * m::<U31, U32>(); } // ACCEPT	*	32x31 and 31x32
fn p5763() { let _ = &m::<U32, U31>() * &m::<U31, U32>(); } // ACCEPT	&*&	32x31 and 31x32
fn p5764() { let _ = m::<U32, U31>() * Vector::<f64, U31>::default(); } // ACCEPT	matrix * vector	32x31 and 31
fn p5765() { let _ = Matrix::<f64, U32, U31>::new([[0.0; 30]; 32]); } // REFUSE	Matrix::new	32x31 from 32x30
fn p5766() { let _ = m::<U32, U31>().relative_eq(&m::<U32, U30>(), 0.0, 0.0); } // REFUSE	relative_eq	32x31 and 32x30
fn p5767() { let _ = m::<U32, U31>().ulps_eq(&m::<U32, U30>(), 0.0, 4); } // REFUSE	ulps_eq	32x31 and 32x30
fn p5768() { let _ = m::<U32, U31>() == m::<U32, U30>(); } // REFUSE	==	32x31 and 32x30
fn p5769() { let _ = m::<U32, U31>() + m::<U32, U30>(); } // REFUSE	+	32x31 and 32x30
fn p5770() { let mut x = m::<U32, U31>(); x -= m::<U32, U30>(); } // REFUSE	-=	32x31 and 32x30
fn p5771() { let _ = m::<U32, U31>() * m::<U32, U30>(); } // REFUSE	*	32x31 and 32x30
fn p5772() { let _ = &m::<U32, U31>() * &m::<U32, U30>(); } // REFUSE	&*&	32x31 and 32x30
fn p5773() { let _ = Matrix::<f64, U32, U31>::new([[0.0; 31]; 32]); } // ACCEPT	Matrix::new	32x31 from 32x31
fn p5774() { let _ = m::<U32, U31>().relative_eq(&m::<U32, U31>(), 0.0, 0.0); } // ACCEPT	relative_eq	32x31 and 32x31
fn p5775() { let _ = m::<U32, U31>().ulps_eq(&m::<U32, U31>(), 0.0, 4); } // ACCEPT	ulps_eq	32x31 and 32x31
fn p5776() { let _ = m::<U32, U31>() == m::<U32, U31>(); } // ACCEPT	==	32x31 and 32x31
fn p5777() { let _ = m::<U32, U31>() + m::<U32, U31>(); } // ACCEPT	+	32x31 and 32x31
fn p5778() { let mut x = m::<U32, U31>(); x -= m::<U32, U31>(); } // ACCEPT	-=	32x31 and 32x31
fn p5779() { let _ = m::<U32, U31>() * m::<U32, U31>(); } // REFUSE	*	32x31 and 32x31
fn p5780() { let _ = &m::<U32, U31>() * &m::<U32, U31>(); } // REFUSE	&*&	32x31 and 32x31
fn p5781() { let _ = Matrix::<f64, U32, U31>::new([[0.0; 32]; 32]); } // REFUSE	Matrix::new	32x31 from 32x32
fn p5782() { let _ = m::<U32, U31>().relative_eq(&m::<U32, U32>(), 0.0, 0.0); } // REFUSE	relative_eq	32x31 and 32x32
fn p5783() { let _ = m::<U32, U31>().ulps_eq(&m::<U32, U32>(), 0.0, 4); } // REFUSE	ulps_eq	32x31 and 32x32
fn p5784() { let _ = m::<U32, U31>() == m::<U32, U32>(); } // REFUSE	==	32x31 and 32x32
fn p5785() { let _ = m::<U32, U31>() + m::<U32, U32>(); } // REFUSE	+	32x31 and 32x32
fn p5786() { let mut x = m::<U32, U31>(); x -= m::<U32, U32>(); } // REFUSE	-=	32x31 and 32x32
fn p5787() { let _ = m::<U32, U31>() * m::<U32, U32>(); } // REFUSE	*	32x31 and 32x32
fn p5788() { let _ = &m::<U32, U31>() * &m::<U32, U32>(); } // REFUSE	&*&	32x31 and 32x32
fn p5789() { let _ = Matrix::<f64, U32, U31>::new([[0.0; 31]; 33]); } // REFUSE	Matrix::new	32x31 from 33x31
fn p5790() { let _ = Matrix::<f64, U31, U32>::identity(); } // REFUSE	identity	31x32
fn p5791() { let _ = <Matrix::<f64, U31, U32> as One>::one(); } // REFUSE	one	31x32
fn p5792() { m::<U31, U32>().transpose(); } // REFUSE	transpose	31x32
fn p5793() { let _ = m::<U31, U32>().pow(2); } // REFUSE	pow	31x32
fn p5794() { let _ = m::<U31, U32>().determinant(); } // REFUSE	determinant	31x32
fn p5795() { let _ = m::<U31, U32>().inverse(); } // REFUSE	inverse	31x32
fn p5796() { let _ = m::<U31, U32>().cofactor((0, 0)); } // REFUSE	cofactor	31x32
fn p5797() { let _: Matrix<f64, U32, U31> = m::<U31, U32>().transposed(); } // ACCEPT	transposed	31x32
fn p5798() { let _: Matrix<f64, U31, U32> = m::<U31, U32>().transposed(); } // REFUSE	transposed	31x32
fn p5799() { let _ = Matrix::<f64, U31, U32>::diag([0.0; 0]); } // REFUSE	diag	31x32 from 0
fn p5800() { let _ = Matrix::<f64, U31, U32>::diag([0.0; 31]); } // ACCEPT	diag	31x32 from 31
fn p5801() { let _ = Matrix::<f64, U31, U32>::diag([0.0; 32]); } // REFUSE	diag	31x32 from 32
fn p5802() { let _ = Matrix::<f64, U31, U32>::new([[0.0; 32]; 30]); } // REFUSE	Matrix::new	31x32 from 30x32
fn p5803() { let _ = m::<U31, U32>().relative_eq(&m::<U30, U32>(), 0.0, 0.0); } // REFUSE	relative_eq	31x32 and 30x32
fn p5804() { let _ = m::<U31, U32>().ulps_eq(&m::<U30, U32>(), 0.0, 4); } // REFUSE	ulps_eq	31x32 and 30x32
fn p5805() { let _ = m::<U31, U32>() == m::<U30, U32>(); } // REFUSE	==	31x32 and 30x32
fn p5806() { let _ = m::<U31, U32>() + m::<U30, U32>(); } // REFUSE	+	31x32 and 30x32
fn p5807() { let mut x = m::<U31, U32>(); x -= m::<U30, U32>(); } // REFUSE	-=	31x32 and 30x32
fn p5808() { let _ = m::<U31, U32>() * m::<U30, U32>(); } // REFUSE	*	31x32 and 30x32
fn p5809() { let _ = &m::<U31, U32>() * &m::<U30, U32>(); } // REFUSE	&*&	31x32 and 30x32
fn p5810() { let _ = m::<U31, U32>() * Vector::<f64, U30>::default(); } // REFUSE	matrix * vector	31x32 and 30
fn p5811() { let _ = Matrix::<f64, U31, U32>::new([[0.0; 31]; 31]); } // REFUSE	Matrix::new	31x32 from 31x31
fn p5812() { let _ = m::<U31, U32>().relative_eq(&m::<U31, U31>(), 0.0, 0.0); } // REFUSE	relative_eq	31x32 and 31x31
fn p5813() { let _ = m::<U31, U32>().ulps_eq(&m::<U31, U31>(), 0.0, 4); } // REFUSE	ulps_eq	31x32 and 31x31
fn p5814() { let _ = m::<U31, U32>() == m::<U31, U31>(); } // REFUSE	==	31x32 and 31x31
fn p5815() { let _ = m::<U31, U32>() + m::<U31, U31>(); } // REFUSE	+	31x32 and 31x31
fn p5816() { let mut x = m::<U31, U32>(); x -= m::<U31, U31>(); } // REFUSE	-=	31x32 and 31x31
fn p5817() { let _ = m::<U31, U32>() * m::<U31, U31>(); } // REFUSE	*	31x32 and 31x31
fn p5818() { let _ = &m::<U31, U32>() * &m::<U31, U31>(); } // REFUSE	&*&	31x32 and 31x31
fn p5819() { let _ = Matrix::<f64, U31, U32>::new([[0.0; 32]; 31]); } // ACCEPT	Matrix::new	31x32 from 31x32
fn p5820() { let _ = m::<U31, U32>().relative_eq(&m::<U31, U32>(), 0.0, 0.0); } // ACCEPT	relative_eq	31x32 and 31x32
fn p5821() { let _ = m::<U31, U32>().ulps_eq(&m::<U31, U32>(), 0.0, 4); } // ACCEPT	ulps_eq	31x32 and 31x32
fn p5822() { let _ = m::<U31, U32>() == m::<U31, U32>(); } // ACCEPT	==	31x32 and 31x32
fn p5823() { let _ = m::<U31, U32>() + m::<U31, U32>(); } // ACCEPT	+	31x32 and 31x32
fn p5824() { let mut x = m::<U31, U32>(); x -= m::<U31, U32>(); } // ACCEPT	-=	31x32 and 31x32
fn p5825() { let _ = m::<U31, U32>() * m::<U31, U32>(); } // REFUSE	*	31x32 and 31x32
fn p5826() { let _ = &m::<U31, U32>() * &m::<U31, U32>(); } // REFUSE	&*&	31x32 and 31x32
fn p5827() { let _ = Matrix::<f64, U31, U32>::new([[0.0; 33]; 31]); } // REFUSE	Matrix::new	31x32 from 31x33
fn p5828() { let _ = Matrix::<f64, U31, U32>::new([[0.0; 31]; 32]); } // REFUSE	Matrix::new	31x32 from 32x31
fn p5829() { let _ = m::<U31, U32>().relative_eq(&m::<U32, U31>(), 0.0, 0.0); } // REFUSE	relative_eq	31x32 and 32x31
fn p5830() { let _ = m::<U31, U32>().ulps_eq(&m::<U32, U31>(), 0.0, 4); } // REFUSE	ulps_eq	31x32 and 32x31
fn p5831() { let _ = m::<U31, U32>() == m::<U32, U31>(); } // REFUSE	==	31x32 and 32x31
fn p5832() { let _ = m::<U31, U32>() + m::<U32, U31>(); } // REFUSE	+	31x32 and 32x31
fn p5833() { let mut x = m::<U31, U32>(); x -= m::<U32, U31>(); } // REFUSE	-=	31x32 and 32x31
fn p5834() { let _ = m::<U31, U32>() * m::<U32, U31>(); } // ACCEPT	*	31x32 and 32x31
fn p5835() { let _ = &m::<U31, U32>() * &m::<U32, U31>(); } // ACCEPT	&*&	31x32 and 32x31
fn p5836() { let _ = m::<U31, U32>() * Vector::<f64, U32>::default(); } // ACCEPT	matrix * vector	31x32 and 32
fn p5837() { let _ = Matrix::<f64, U31, U32>::new([[0.0; 32]; 32]); } // REFUSE	Matrix::new	31x32 from 32x32
fn p5838() { let _ = m::<U31, U32>().relative_eq(&m::<U32, U32>(), 0.0, 0.0); } // REFUSE	relative_eq	31x32 and 32x32
fn p5839() { let _ = m::<U31, U32>().ulps_eq(&m::<U32, U32>(), 0.0, 4); } // REFUSE	ulps_eq	31x32 and 32x32
fn p5840() { let _ = m::<U31, U32>() == m::<U32, U32>(); } // REFUSE	==	31x32 and 32x32
fn p5841() { let _ = m::<U31, U32>() + m::<U32, U32>(); } // REFUSE	+	31x32 and 32x32
fn p5842() { let mut x = m::<U31, U32>(); x -= m::<U32, U32>(); } // REFUSE	-=	31x32 and 32x32
fn p5843() { let _ = m::<U31, U32>() * m::<U32, U32>(); } // ACCEPT	*	31x32 and 32x32
fn p5844() { let _ = &m::<U31, U32>() * &m::<U32, U32>(); } // ACCEPT	&*&	31x32 and 32x32
fn p5845() { let _ = m::<U31, U32>() * Vector::<f64, U32>::default(); } // ACCEPT	matrix * vector	31x32 and 32
fn p5846() { let _ = Matrix::<f64, U1, U32>::identity(); } // REFUSE	identity	1x32
fn p5847() { let _ = <Matrix::<f64, U1, U32> as One>::one(); } // REFUSE	one	1x32
fn p5848() { m::<U1, U32>().transpose(); } // REFUSE	transpose	1x32
fn p5849() { let _ = m::<U1, U32>().pow(2); } // REFUSE	pow	1x32
fn p5850() { let _ = m::<U1, U32>().determinant(); } // REFUSE	determinant	1x32
fn p5851() { let _ = m::<U1, U32>().inverse(); } // REFUSE	inverse	1x32
fn p5852() { let _ = m::<U1, U32>().cofactor((0, 0)); } // REFUSE	cofactor	1x32
fn p5853() { let _: Matrix<f64, U32, U1> = m::<U1, U32>().transposed(); } // ACCEPT	transposed	1x32
fn p5854() { let _: Matrix<f64, U1, U32> = m::<U1, U32>().transposed(); } // REFUSE	transposed	1x32
fn p5855() { let _ = Matrix::<f64, U1, U32>::diag([0.0; 0]); } // REFUSE	diag	1x32 from 0
fn p5856() { let _ = Matrix::<f64, U1, U32>::diag([0.0; 1]); } // ACCEPT	diag	1x32 from 1
fn p5857() { let _ = Matrix::<f64, U1, U32>::diag([0.0; 2]); } // REFUSE	diag	1x32 from 2
fn p5858() { let _ = Matrix::<f64, U1, U32>::diag([0.0; 32]); } // REFUSE	diag	1x32 from 32
fn p5859() { let _ = Matrix::<f64, U1, U32>::new([[0.0; 32]; 0]); } // REFUSE	Matrix::new	1x32 from 0x32
fn p5860() { let _ = m::<U1, U32>().relative_eq(&m::<U0, U32>(), 0.0, 0.0); } // REFUSE	relative_eq	1x32 and 0x32
fn p5861() { let _ = m::<U1, U32>().ulps_eq(&m::<U0, U32>(), 0.0, 4); } // REFUSE	ulps_eq	1x32 and 0x32
fn p5862() { let _ = m::<U1, U32>() == m::<U0, U32>(); } // REFUSE	==	1x32 and 0x32
fn p5863() { let _ = m::<U1, U32>() + m::<U0, U32>(); } // REFUSE	+	1x32 and 0x32
fn p5864() { let mut x = m::<U1, U32>(); x -= m::<U0, U32>(); } // REFUSE	-=	1x32 and 0x32
fn p5865() { let _ = m::<U1, U32>() * m::<U0, U32>(); } // REFUSE	*	1x32 and 0x32
fn p5866() { let _ = &m::<U1, U32>() * &m::<U0, U32>(); } // REFUSE	&*&	1x32 and 0x32
fn p5867() { let _ = m::<U1, U32>() * Vector::<f64, U0>::default(); } // REFUSE	matrix * vector	1x32 and 0
fn p5868() { let _ = Matrix::<f64, U1, U32>::new([[0.0; 31]; 1]); } // REFUSE	Matrix::new	1x32 from 1x31
fn p5869() { let _ = m::<U1, U32>().relative_eq(&m::<U1, U31>(), 0.0, 0.0); } // REFUSE	relative_eq	1x32 and 1x31
fn p5870() { let _ = m::<U1, U32>().ulps_eq(&m::<U1, U31>(), 0.0, 4); } // REFUSE	ulps_eq	1x32 and 1x31
fn p5871() { let _ = m::<U1, U32>() == m::<U1, U31>(); } // REFUSE	==	1x32 and 1x31
fn p5872() { let _ = m::<U1, U32>() + m::<U1, U31>(); } // REFUSE	+	1x32 and 1x31
fn p5873() { let mut x = m::<U1, U32>(); x -= m::<U1, U31>(); } // REFUSE	-=	1x32 and 1x31
fn p5874() { let _ = m::<U1, U32>() * m::<U1, U31>(); } // REFUSE	*	1x32 and 1x31
fn p5875() { let _ = &m::<U1, U32>() * &m::<U1, U31>(); } // REFUSE	&*&	1x32 and 1x31
fn p5876() { let _ = Matrix::<f64, U1, U32>::new([[0.0; 32]; 1]); } // ACCEPT	Matrix::new	1x32 from 1x32
fn p5877() { let _ = m::<U1, U32>().relative_eq(&m::<U1, U32>(), 0.0, 0.0); } // ACCEPT	relative_eq	1x32 and 1x32
fn p5878() { let _ = m::<U1, U32>().ulps_eq(&m::<U1, U32>(), 0.0, 4); } // ACCEPT	ulps_eq	1x32 and 1x32
fn p5879() { let _ = m::<U1, U32>() == m::<U1, U32>(); } // ACCEPT	==	1x32 and 1x32
fn p5880() { let _ = m::<U1, U32>() + m::<U1, U32>(); } // ACCEPT	+	1x32 and 1x32
fn p5881() { let mut x = m::<U1, U32>(); x -= m::<U1, U32>(); } // ACCEPT	-=	1x32 and 1x32
fn p5882() { let _ = m::<U1, U32>() * m::<U1, U32>(); } // REFUSE	*	1x32 and 1x32
fn p5883() { let _ = &m::<U1, U32>() * &m::<U1, U32>(); } // REFUSE	&*&	1x32 and 1x32
fn p5884() { let _ = Matrix::<f64, U1, U32>::new([[0.0; 33]; 1]); } // REFUSE	Matrix::new	1x32 from 1x33
fn p5885() { let _ = Matrix::<f64, U1, U32>::new([[0.0; 32]; 2]); } // REFUSE	Matrix::new	1x32 from 2x32
fn p5886() { let _ = m::<U1, U32>().relative_eq(&m::<U2, U32>(), 0.0, 0.0); } // REFUSE	relative_eq	1x32 and 2x32
fn p5887() { let _ = m::<U1, U32>().ulps_eq(&m::<U2, U32>(), 0.0, 4); } // REFUSE	ulps_eq	1x32 and 2x32
fn p5888() { let _ = m::<U1, U32>() == m::<U2, U32>(); } // REFUSE	==	1x32 and 2x32
fn p5889() { let _ = m::<U1, U32>() + m::<U2, U32>(); } // REFUSE	+	1x32 and 2x32
fn p5890() { let mut x = m::<U1, U32>(); x -= m::<U2, U32>(); } // REFUSE	-=	1x32 and 2x32
fn p5891() { let _ = m::<U1, U32>() * m::<U2, U32>(); } // REFUSE	*	1x32 and 2x32
fn p5892() { let _ = &m::<U1, U32>() * &m::<U2, U32>(); } // REFUSE	&*&	1x32 and 2x32
fn p5893() { let _ = m::<U1, U32>() * Vector::<f64, U2>::default(); } // REFUSE	matrix * vector	1x32 and 2
fn p5894() { let _ = Matrix::<f64, U1, U32>::new([[0.0; 1]; 32]); } // REFUSE	Matrix::new	1x32 from 32x1
fn p5895() { let _ = m::<U1, U32>().relative_eq(&m::<U32, U1>(), 0.0, 0.0); } // REFUSE	relative_eq	1x32 and 32x1
fn p5896() { let _ = m::<U1, U32>().ulps_eq(&m::<U32, U1>(), 0.0, 4); } // REFUSE	ulps_eq	1x32 and 32x1
fn p5897() { let _ = m::<U1, U32>() == m::<U32, U1>(); } // REFUSE	==	1x32 and 32x1
fn p5898() { let _ = m::<U1, U32>() + m::<U32, U1>(); } // REFUSE	+	1x32 and 32x1
fn p5899() { let mut x = m::<U1, U32>(); x -= m::<U32, U1>(); } // REFUSE	-=	1x32 and 32x1
fn p5900() { let _ = m::<U1, U32>() * m::<U32, U1>(); } // ACCEPT	*	1x32 and 32x1
fn p5901() { let _ = &m::<U1, U32>() * &m::<U32, U1>(); } // ACCEPT	&*&	1x32 and 32x1
fn p5902() { let _ = m::<U1, U32>() * Vector::<f64, U32>::default(); } // ACCEPT	matrix * vector	1x32 and 32
fn p5903() { let _ = Matrix::<f64, U16, U8>::identity(); } // REFUSE	identity	16x8
fn p5904() { let _ = <Matrix::<f64, U16, U8> as One>::one(); } // REFUSE	one	16x8
fn p5905() { m::<U16, U8>().transpose(); } // REFUSE	transpose	16x8
fn p5906() { let _ = m::<U16, U8>().pow(2); } // REFUSE	pow	16x8
fn p5907() { let _ = m::<U16, U8>().determinant(); } // REFUSE	determinant	16x8
fn p5908() { let _ = m::<U16, U8>().inverse(); } // REFUSE	inverse	16x8
fn p5909() { let _ = m::<U16, U8>().cofactor((0, 0)); } // REFUSE	cofactor	16x8
fn p5910() { let _: Matrix<f64, U8, U16> = m::<U16, U8>().transposed(); } // ACCEPT	transposed	16x8
fn p5911() { let _: Matrix<f64, U16, U8> = m::<U16, U8>().transposed(); } // REFUSE	transposed	16x8
fn p5912() { let _ = Matrix::<f64, U16, U8>::diag([0.0; 0]); } // REFUSE	diag	16x8 from 0
fn p5913() { let _ = Matrix::<f64, U16, U8>::diag([0.0; 8]); } // ACCEPT	diag	16x8 from 8
fn p5914() { let _ = Matrix::<f64, U16, U8>::diag([0.0; 9]); } // REFUSE	diag	16x8 from 9
fn p5915() { let _ = Matrix::<f64, U16, U8>::diag([0.0; 16]); } // REFUSE	diag	16x8 from 16
fn p5916() { let _ = Matrix::<f64, U16, U8>::new([[0.0; 16]; 8]); } // REFUSE	Matrix::new	16x8 from 8x16
fn p5917() { let _ = m::<U16, U8>().relative_eq(&m::<U8, U16>(), 0.0, 0.0); } // REFUSE	relative_eq	16x8 and 8x16
fn p5918() { let _ = m::<U16, U8>().ulps_eq(&m::<U8, U16>(), 0.0, 4); } // REFUSE	ulps_eq	16x8 and 8x16
fn p5919() { let _ = m::<U16, U8>() == m::<U8, U16>(); } // REFUSE	==	16x8 and 8x16
fn p5920() { let _ = m::<U16, U8>() + m::<U8, U16>(); } // REFUSE	+	16x8 and 8x16
fn p5921() { let mut x = m::<U16, U8>(); x -= m::<U8, U16>(); } // REFUSE	-=	16x8 and 8x16
fn p5922() { let _ = m::<U16, U8>() * m::<U8, U16>(); } // ACCEPT	*	16x8 and 8x16
fn p5923() { let _ = &m::<U16, U8>() * &m::<U8, U16>(); } // ACCEPT	&*&	16x8 and 8x16
fn p5924() { let _ = m::<U16, U8>() * Vector::<f64, U8>::default(); } // ACCEPT	matrix * vector	16x8 and 8
fn p5925() { let _ = Matrix::<f64, U16, U8>::new([[0.0; 8]; 15]); } // REFUSE	Matrix::new	16x8 from 15x8
fn p5926() { let _ = m::<U16, U8>().relative_eq(&m::<U15, U8>(), 0.0, 0.0); } // REFUSE	relative_eq	16x8 and 15x8
fn p5927() { let _ = m::<U16, U8>().ulps_eq(&m::<U15, U8>(), 0.0, 4); } // REFUSE	ulps_eq	16x8 and 15x8
fn p5928() { let _ = m::<U16, U8>() == m::<U15, U8>(); } // REFUSE	==	16x8 and 15x8
fn p5929() { let _ = m::<U16, U8>() + m::<U15, U8>(); } // REFUSE	+	16x8 and 15x8
fn p5930() { let mut x = m::<U16, U8>(); x -= m::<U15, U8>(); } // REFUSE	-=	16x8 and 15x8
fn p5931() { let _ = m::<U16, U8>() * m::<U15, U8>(); } // REFUSE	*	16x8 and 15x8
fn p5932() { let _ = &m::<U16, U8>() * &m::<U15, U8>(); } // REFUSE	&*&	16x8 and 15x8
fn p5933() { let _ = m::<U16, U8>() * Vector::<f64, U15>::default(); } // REFUSE	matrix * vector	16x8 and 15
fn p5934() { let _ = Matrix::<f64, U16, U8>::new([[0.0; 7]; 16]); } // REFUSE	Matrix::new	16x8 from 16x7
fn p5935() { let _ = m::<U16, U8>().relative_eq(&m::<U16, U7>(), 0.0, 0.0); } // REFUSE	relative_eq	16x8 and 16x7
fn p5936() { let _ = m::<U16, U8>().ulps_eq(&m::<U16, U7>(), 0.0, 4); } // REFUSE	ulps_eq	16x8 and 16x7
fn p5937() { let _ = m::<U16, U8>() == m::<U16, U7>(); } // REFUSE	==	16x8 and 16x7
fn p5938() { let _ = m::<U16, U8>() + m::<U16, U7>(); } // REFUSE	+	16x8 and 16x7
fn p5939() { let mut x = m::<U16, U8>(); x -= m::<U16, U7>(); } // REFUSE	-=	16x8 and 16x7
fn p5940() { let _ = m::<U16, U8>() * m::<U16, U7>(); } // REFUSE	*	16x8 and 16x7
fn p5941() { let _ = &m::<U16, U8>() * &m::<U16, U7>(); } // REFUSE	&*&	16x8 and 16x7
fn p5942() { let _ = Matrix::<f64, U16, U8>::new([[0.0; 8]; 16]); } // ACCEPT	Matrix::new	16x8 from 16x8
fn p5943() { let _ = m::<U16, U8>().relative_eq(&m::<U16, U8>(), 0.0, 0.0); } // ACCEPT	relative_eq	16x8 and 16x8
fn p5944() { let _ = m::<U16, U8>().ulps_eq(&m::<U16, U8>(), 0.0, 4); } // ACCEPT	ulps_eq	16x8 and 16x8
fn p5945() { let _ = m::<U16, U8>() == m::<U16, U8>(); } // ACCEPT	==	16x8 and 16x8
fn p5946() { let _ = m::<U16, U8>() + m::<U16, U8>(); } // ACCEPT	+	16x8 and 16x8
fn p5947() { let mut x = m::<U16, U8>(); x -= m::<U16, U8>(); } // ACCEPT	-=	16x8 and 16x8
fn p5948() { let _ = m::<U16, U8>() * m::<U16, U8>(); } // REFUSE	*	16x8 and 16x8
fn p5949() { let _ = &m::<U16, U8>() * &m::<U16, U8>(); } // REFUSE	&*&	16x8 and 16x8
fn p5950() { let _ = Matrix::<f64, U16, U8>::new([[0.0; 9]; 16]); } // REFUSE	Matrix::new	16x8 from 16x9
fn p5951() { let _ = m::<U16, U8>().relative_eq(&m::<U16, U9>(), 0.0, 0.0); } // REFUSE	relative_eq	16x8 and 16x9
fn p5952() { let _ = m::<U16, U8>().ulps_eq(&m::<U16, U9>(), 0.0, 4); } // REFUSE	ulps_eq	16x8 and 16x9
fn p5953() { let _ = m::<U16, U8>() == m::<U16, U9>(); } // REFUSE	==	16x8 and 16x9
fn p5954() { let _ = m::<U16, U8>() + m::<U16, U9>(); } // REFUSE	+	16x8 and 16x9
fn p5955() { let mut x = m::<U16, U8>(); x -= m::<U16, U9>(); } // REFUSE	-=	16x8 and 16x9
fn p5956() { let _ = m::<U16, U8>() * m::<U16, U9>(); } // REFUSE	*	16x8 and 16x9
fn p5957() { let _ = &m::<U16, U8>() * &m::<U16, U9>(); } // REFUSE	&*&	16x8 and 16x9
fn p5958() { let _ = Matrix::<f64, U16, U8>::new([[0.0; 8]; 17]); } // REFUSE	Matrix::new	16x8 from 17x8
fn p5959() { let _ = m::<U16, U8>().relative_eq(&m::<U17, U8>(), 0.0, 0.0); } // REFUSE	relative_eq	16x8 and 17x8
fn p5960() { let _ = m::<U16, U8>().ulps_eq(&m::<U17, U8>(), 0.0, 4); } // REFUSE	ulps_eq	16x8 and 17x8
fn p5961() { let _ = m::<U16, U8>() == m::<U17, U8>(); } // REFUSE	==	16x8 and 17x8
fn p5962() { let _ = m::<U16, U8>() + m::<U17, U8>(); } // REFUSE	+	16x8 and 17x8
fn p5963() { let mut x = m::<U16, U8>(); x -= m::<U17, U8>(); } // REFUSE	-=	16x8 and 17x8
fn p5964() { let _ = m::<U16, U8>() * m::<U17, U8>(); } // REFUSE	*	16x8 and 17x8
fn p5965() { let _ = &m::<U16, U8>() * &m::<U17, U8>(); } // REFUSE	&*&	16x8 and 17x8
fn p5966() { let _ = m::<U16, U8>() * Vector::<f64, U17>::default(); } // REFUSE	matrix * vector	16x8 and 17
fn p5967() { let _ = Matrix::<f64, U8, U16>::identity(); } // REFUSE	identity	8x16
fn p5968() { let _ = <Matrix::<f64, U8, U16> as One>::one(); } // REFUSE	one	8x16
fn p5969() { m::<U8, U16>().transpose(); } // REFUSE	transpose	8x16
fn p5970() { let _ = m::<U8, U16>().pow(2); } // REFUSE	pow	8x16
fn p5971() { let _ = m::<U8, U16>().determinant(); } // REFUSE	determinant	8x16
fn p5972() { let _ = m::<U8, U16>().inverse(); } // REFUSE	inverse	8x16
fn p5973() { let _ = m::<U8, U16>().cofactor((0, 0)); } // REFUSE	cofactor	8x16
fn p5974() { let _: Matrix<f64, U16, U8> = m::<U8, U16>().transposed(); } // ACCEPT	transposed	8x16
fn p5975() { let _: Matrix<f64, U8, U16> = m::<U8, U16>().transposed(); } // REFUSE	transposed	8x16
fn p5976() { let _ = Matrix::<f64, U8, U16>::diag([0.0; 0]); } // REFUSE	diag	8x16 from 0
fn p5977() { let _ = Matrix::<f64, U8, U16>::diag([0.0; 8]); } // ACCEPT	diag	8x16 from 8
fn p5978() { let _ = Matrix::<f64, U8, U16>::diag([0.0; 9]); } // REFUSE	diag	8x16 from 9
fn p5979() { let _ = Matrix::<f64, U8, U16>::diag([0.0; 16]); } // REFUSE	diag	8x16 from 16
fn p5980() { let _ = Matrix::<f64, U8, U16>::new([[0.0; 16]; 7]); } // REFUSE	Matrix::new	8x16 from 7x16
fn p5981() { let _ = m::<U8, U16>().relative_eq(&m::<U7, U16>(), 0.0, 0.0); } // REFUSE	relative_eq	8x16 and 7x16
fn p5982() { let _ = m::<U8, U16>().ulps_eq(&m::<U7, U16>(), 0.0, 4); } // REFUSE	ulps_eq	8x16 and 7x16
fn p5983() { let _ = m::<U8, U16>() == m::<U7, U16>(); } // REFUSE	==	8x16 and 7x16
fn p5984() { let _ = m::<U8, U16>() + m::<U7, U16>(); } // REFUSE	+	8x16 and 7x16
fn p5985() { let mut x = m::<U8, U16>(); x -= m::<U7, U16>(); } // REFUSE	-=	8x16 and 7x16
fn p5986() { let _ = m::<U8, U16>() * m::<U7, U16>(); } // REFUSE	*	8x16 and 7x16
fn p5987() { let _ = &m::<U8, U16>() * &m::<U7, U16>(); } // REFUSE	&*&	8x16 and 7x16
fn p5988() { let _ = m::<U8, U16>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	8x16 and 7
fn p5989() { let _ = Matrix::<f64, U8, U16>::new([[0.0; 15]; 8]); } // REFUSE	Matrix::new	8x16 from 8x15
fn p5990() { let _ = m::<U8, U16>().relative_eq(&m::<U8, U15>(), 0.0, 0.0); } // REFUSE	relative_eq	8x16 and 8x15
fn p5991() { let _ = m::<U8, U16>().ulps_eq(&m::<U8, U15>(), 0.0, 4); } // REFUSE	ulps_eq	8x16 and 8x15
fn p5992() { let _ = m::<U8, U16>() == m::<U8, U15>(); } // REFUSE	==	8x16 and 8x15
fn p5993() { let _ = m::<U8, U16>() + m::<U8, U15>(); } // REFUSE	+	8x16 and 8x15
fn p5994() { let mut x = m::<U8, U16>(); x -= m::<U8, U15>(); } // REFUSE	-=	8x16 and 8x15
fn p5995() { let _ = m::<U8, U16>() * m::<U8, U15>(); } // REFUSE	*	8x16 and 8x15
fn p5996() { let _ = &m::<U8, U16>() * &m::<U8, U15>(); } // REFUSE	&*&	8x16 and 8x15
fn p5997() { let _ = Matrix::<f64, U8, U16>::new([[0.0; 16]; 8]); } // ACCEPT	Matrix::new	8x16 from 8x16
fn p5998() { let _ = m::<U8, U16>().relative_eq(&m::<U8, U16>(), 0.0, 0.0); } // ACCEPT	relative_eq	8x16 and 8x16
fn p5999() { let _ = m::<U8, U16>().ulps_eq(&m::<U8, U16>(), 0.0, 4); } // ACCEPT	ulps_eq	8x16 and 8x16
fn p6000() { let _ = m::<U8, U16>() == m::<U8, U16>(); } // ACCEPT	==	8x16 and 8x16
fn p6001() { let _ = m::<U8, U16>() + m::<U8, U16>(); } // ACCEPT	+	8x16 and 8x16
fn p6002() { let mut x = m::<U8, U16>(); x -= m::<U8, U16>(); } // ACCEPT	-=	8x16 and 8x16
fn p6003() { let _ = m::<U8, U16>() * m::<U8, U16>(); } // REFUSE	*	8x16 and 8x16
fn p6004() { let _ = &m::<U8, U16>() * &m::<U8, U16>(); } // REFUSE	&*&	8x16 and 8x16
fn p6005() { let _ = Matrix::<f64, U8, U16>::new([[0.0; 17]; 8]); } // REFUSE	Matrix::new	8x16 from 8x17
fn p6006() { let _ = m::<U8, U16>().relative_eq(&m::<U8, U17>(), 0.0, 0.0); } // REFUSE	relative_eq	8x16 and 8x17
fn p6007() { let _ = m::<U8, U16>().ulps_eq(&m::<U8, U17>(), 0.0, 4); } // REFUSE	ulps_eq	8x16 and 8x17
fn p6008() { let _ = m::<U8, U16>() == m::<U8, U17>(); } // REFUSE	==	8x16 and 8x17
fn p6009() { let _ = m::<U8, U16>() + m::<U8, U17>(); } // REFUSE	+	8x16 and 8x17
fn p6010() { let mut x = m::<U8, U16>(); x -= m::<U8, U17>(); } // REFUSE	-=	8x16 and 8x17
fn p6011() { let _ = m::<U8, U16>() * m::<U8, U17>(); } // REFUSE	*	8x16 and 8x17
fn p6012() { let _ = &m::<U8, U16>() * &m::<U8, U17>(); } // REFUSE	&*&	8x16 and 8x17
fn p6013() { let _ = Matrix::<f64, U8, U16>::new([[0.0; 16]; 9]); } // REFUSE	Matrix::new	8x16 from 9x16
fn p6014() { let _ = m::<U8, U16>().relative_eq(&m::<U9, U16>(), 0.0, 0.0); } // REFUSE	relative_eq	8x16 and 9x16
fn p6015() { let _ = m::<U8, U16>().ulps_eq(&m::<U9, U16>(), 0.0, 4); } // REFUSE	ulps_eq	8x16 and 9x16
fn p6016() { let _ = m::<U8, U16>() == m::<U9, U16>(); } // REFUSE	==	8x16 and 9x16
fn p6017() { let _ = m::<U8, U16>() + m::<U9, U16>(); } // REFUSE	+	8x16 and 9x16
fn p6018() { let mut x = m::<U8, U16>(); x -= m::<U9, U16>(); } // REFUSE	-=	8x16 and 9x16
fn p6019() { let _ = m::<U8, U16>() * m::<U9, U16>(); } // REFUSE	*	8x16 and 9x16
fn p6020() { let _ = &m::<U8, U16>() * &m::<U9, U16>(); } // REFUSE	&*&	8x16 and 9x16
fn p6021() { let _ = m::<U8, U16>() * Vector::<f64, U9>::default(); } // REFUSE	matrix * vector	8x16 and 9
fn p6022() { let _ = Matrix::<f64, U8, U16>::new([[0.0; 8]; 16]); } // REFUSE	Matrix::new	8x16 from 16x8
fn p6023() { let _ = m::<U8, U16>().relative_eq(&m::<U16, U8>(), 0.0, 0.0); } // REFUSE	relative_eq	8x16 and 16x8
fn p6024() { let _ = m::<U8, U16>().ulps_eq(&m::<U16, U8>(), 0.0, 4); } // REFUSE	ulps_eq	8x16 and 16x8
fn p6025() { let _ = m::<U8, U16>() == m::<U16, U8>(); } // REFUSE	==	8x16 and 16x8
fn p6026() { let _ = m::<U8, U16>() + m::<U16, U8>(); } // REFUSE	+	8x16 and 16x8
fn p6027() { let mut x = m::<U8, U16>(); x -= m::<U16, U8>(); } // REFUSE	-=	8x16 and 16x8
fn p6028() { let _ = m::<U8, U16>() * m::<U16, U8>(); } // ACCEPT	*	8x16 and 16x8
fn p6029() { let _ = &m::<U8, U16>() * &m::<U16, U8>(); } // ACCEPT	&*&	8x16 and 16x8
fn p6030() { let _ = m::<U8, U16>() * Vector::<f64, U16>::default(); } // ACCEPT	matrix * vector	8x16 and 16
fn p6031() { let _ = Matrix::<f64, U17, U17>::identity(); } // ACCEPT	identity	17x17
fn p6032() { let _ = <Matrix::<f64, U17, U17> as One>::one(); } // ACCEPT	one	17x17
fn p6033() { m::<U17, U17>().transpose(); } // ACCEPT	transpose	17x17
fn p6034() { let _ = m::<U17, U17>().pow(2); } // ACCEPT	pow	17x17
fn p6035() { let _ = m::<U17, U17>().determinant(); } // ACCEPT	determinant	17x17
fn p6036() { let _ = m::<U17, U17>().inverse(); } // ACCEPT	inverse	17x17
fn p6037() { let _ = m::<U17, U17>().cofactor((0, 0)); } // ACCEPT	cofactor	17x17
fn p6038() { let _: Matrix<f64, U17, U17> = m::<U17, U17>().transposed(); } // ACCEPT	transposed	17x17
fn p6039() { let _ = Matrix::<f64, U17, U17>::diag([0.0; 0]); } // REFUSE	diag	17x17 from 0
fn p6040() { let _ = Matrix::<f64, U17, U17>::diag([0.0; 17]); } // ACCEPT	diag	17x17 from 17
fn p6041() { let _ = Matrix::<f64, U17, U17>::diag([0.0; 18]); } // REFUSE	diag	17x17 from 18
fn p6042() { let _ = Matrix::<f64, U17, U17>::new([[0.0; 17]; 16]); } // REFUSE	Matrix::new	17x17 from 16x17
fn p6043() { let _ = m::<U17, U17>().relative_eq(&m::<U16, U17>(), 0.0, 0.0); } // REFUSE	relative_eq	17x17 and 16x17
fn p6044() { let _ = m::<U17, U17>().ulps_eq(&m::<U16, U17>(), 0.0, 4); } // REFUSE	ulps_eq	17x17 and 16x17
fn p6045() { let _ = m::<U17, U17>() == m::<U16, U17>(); } // REFUSE	==	17x17 and 16x17
fn p6046() { let _ = m::<U17, U17>() + m::<U16, U17>(); } // REFUSE	+	17x17 and 16x17
fn p6047() { let mut x = m::<U17, U17>(); x -= m::<U16, U17>(); } // REFUSE	-=	17x17 and 16x17
fn p6048() { let _ = m::<U17, U17>() * m::<U16, U17>(); } // REFUSE	*	17x17 and 16x17
fn p6049() { let _ = &m::<U17, U17>() * &m::<U16, U17>(); } // REFUSE	&*&	17x17 and 16x17
fn p6050() { let _ = m::<U17, U17>() * Vector::<f64, U16>::default(); } // REFUSE	matrix * vector	17x17 and 16
fn p6051() { let _ = Matrix::<f64, U17, U17>::new([[0.0; 16]; 17]); } // REFUSE	Matrix::new	17x17 from 17x16
fn p6052() { let _ = m::<U17, U17>().relative_eq(&m::<U17, U16>(), 0.0, 0.0); } // REFUSE	relative_eq	17x17 and 17x16
fn p6053() { let _ = m::<U17, U17>().ulps_eq(&m::<U17, U16>(), 0.0, 4); } // REFUSE	ulps_eq	17x17 and 17x16
fn p6054() { let _ = m::<U17, U17>() == m::<U17, U16>(); } // REFUSE	==	17x17 and 17x16
fn p6055() { let _ = m::<U17, U17>() + m::<U17, U16>(); } // REFUSE	+	17x17 and 17x16
fn p6056() { let mut x = m::<U17, U17>(); x -= m::<U17, U16>(); } // REFUSE	-=	17x17 and 17x16
fn p6057() { let _ = m::<U17, U17>() * m::<U17, U16>(); } // ACCEPT	*	17x17 and 17x16
fn p6058() { let _ = &m::<U17, U17>() * &m::<U17, U16>(); } // ACCEPT	&*&	17x17 and 17x16
fn p6059() { let _ = Matrix::<f64, U17, U17>::new([[0.0; 17]; 17]); } // ACCEPT	Matrix::new	17x17 from 17x17
fn p6060() { let _ = m::<U17, U17>().relative_eq(&m::<U17, U17>(), 0.0, 0.0); } // ACCEPT	relative_eq	17x17 and 17x17
fn p6061() { let _ = m::<U17, U17>().ulps_eq(&m::<U17, U17>(), 0.0, 4); } // ACCEPT	ulps_eq	17x17 and 17x17
fn p6062() { let _ = m::<U17, U17>() == m::<U17, U17>(); } // ACCEPT	==	17x17 and 17x17
fn p6063() { let _ = m::<U17, U17>() + m::<U17, U17>(); } // ACCEPT	+	17x17 and 17x17
fn p6064() { let mut x = m::<U17, U17>(); x -= m::<U17, U17>(); } // ACCEPT	-=	17x17 and 17x17
fn p6065() { let _ = m::<U17, U17>() * m::<U17, U17>(); } // ACCEPT	*	17x17 and 17x17
fn p6066() { let _ = &m::<U17, U17>() * &m::<U17, U17>(); } // ACCEPT	&*&	17x17 and 17x17
fn p6067() { let _ = Matrix::<f64, U17, U17>::new([[0.0; 18]; 17]); } // REFUSE	Matrix::new	17x17 from 17x18
fn p6068() { let _ = m::<U17, U17>().relative_eq(&m::<U17, U18>(), 0.0, 0.0); } // REFUSE	relative_eq	17x17 and 17x18
fn p6069() { let _ = m::<U17, U17>().ulps_eq(&m::<U17, U18>(), 0.0, 4); } // REFUSE	ulps_eq	17x17 and 17x18
fn p6070() { let _ = m::<U17, U17>() == m::<U17, U18>(); } // REFUSE	==	17x17 and 17x18
fn p6071() { let _ = m::<U17, U17>() + m::<U17, U18>(); } // REFUSE	+	17x17 and 17x18
fn p6072() { let mut x = m::<U17, U17>(); x -= m::<U17, U18>(); } // REFUSE	-=	17x17 and 17x18
fn p6073() { let _ = m::<U17, U17>() * m::<U17, U18>(); } // ACCEPT	*	17x17 and 17x18
fn p6074() { let _ = &m::<U17, U17>() * &m::<U17, U18>(); } // ACCEPT	&*&	17x17 and 17x18
fn p6075() { let _ = Matrix::<f64, U17, U17>::new([[0.0; 17]; 18]); } // REFUSE	Matrix::new	17x17 from 18x17
fn p6076() { let _ = m::<U17, U17>().relative_eq(&m::<U18, U17>(), 0.0, 0.0); } // REFUSE	relative_eq	17x17 and 18x17
fn p6077() { let _ = m::<U17, U17>().ulps_eq(&m::<U18, U17>(), 0.0, 4); } // REFUSE	ulps_eq	17x17 and 18x17
fn p6078() { let _ = m::<U17, U17>() == m::<U18, U17>(); } // REFUSE	==	17x17 and 18x17
fn p6079() { let _ = m::<U17, U17>() + m::<U18, U17>(); } // REFUSE	+	17x17 and 18x17
fn p6080() { let mut x = m::<U17, U17>(); x -= m::<U18, U17>(); } // REFUSE	-=	17x17 and 18x17
fn p6081() { let _ = m::<U17, U17>() * m::<U18, U17>(); } // REFUSE	*	17x17 and 18x17
fn p6082() { let _ = &m::<U17, U17>() * &m::<U18, U17>(); } // REFUSE	&*&	17x17 and 18x17
fn p6083() { let _ = m::<U17, U17>() * Vector::<f64, U18>::default(); } // REFUSE	matrix * vector	17x17 and 18
fn p6084() { let _ = Matrix::<f64, U8, U9>::identity(); } // REFUSE	identity	8x9
fn p6085() { let _ = <Matrix::<f64, U8, U9> as One>::one(); } // REFUSE	one	8x9
fn p6086() { m::<U8, U9>().transpose(); } // REFUSE	transpose	8x9
fn p6087() { let _ = m::<U8, U9>().pow(2); } // REFUSE	pow	8x9
fn p6088() { let _ = m::<U8, U9>().determinant(); } // REFUSE	determinant	8x9
fn p6089() { let _ = m::<U8, U9>().inverse(); } // REFUSE	inverse	8x9
fn p6090() { let _ = m::<U8, U9>().cofactor((0, 0)); } // REFUSE	cofactor	8x9
fn p6091() { let _: Matrix<f64, U9, U8> = m::<U8, U9>().transposed(); } // ACCEPT	transposed	8x9
fn p6092() { let _: Matrix<f64, U8, U9> = m::<U8, U9>().transposed(); } // REFUSE	transposed	8x9
fn p6093() { let _ = Matrix::<f64, U8, U9>::diag([0.0; 0]); } // REFUSE	diag	8x9 from 0
fn p6094() { let _ = Matrix::<f64, U8, U9>::diag([0.0; 8]); } // ACCEPT	diag	8x9 from 8
fn p6095() { let _ = Matrix::<f64, U8, U9>::diag([0.0; 9]); } // REFUSE	diag	8x9 from 9
fn p6096() { let _ = Matrix::<f64, U8, U9>::new([[0.0; 9]; 7]); } // REFUSE	Matrix::new	8x9 from 7x9
fn p6097() { let _ = m::<U8, U9>().relative_eq(&m::<U7, U9>(), 0.0, 0.0); } // REFUSE	relative_eq	8x9 and 7x9
fn p6098() { let _ = m::<U8, U9>().ulps_eq(&m::<U7, U9>(), 0.0, 4); } // REFUSE	ulps_eq	8x9 and 7x9
fn p6099() { let _ = m::<U8, U9>() == m::<U7, U9>(); } // REFUSE	==	8x9 and 7x9
fn p6100() { let _ = m::<U8, U9>() + m::<U7, U9>(); } // REFUSE	+	8x9 and 7x9
fn p6101() { let mut x = m::<U8, U9>(); x -= m::<U7, U9>(); } // REFUSE	-=	8x9 and 7x9
fn p6102() { let _ = m::<U8, U9>() * m::<U7, U9>(); } // REFUSE	*	8x9 and 7x9
fn p6103() { let _ = &m::<U8, U9>() * &m::<U7, U9>(); } // REFUSE	&*&	8x9 and 7x9
fn p6104() { let _ = m::<U8, U9>() * Vector::<f64, U7>::default(); } // REFUSE	matrix * vector	8x9 and 7
fn p6105() { let _ = Matrix::<f64, U8, U9>::new([[0.0; 8]; 8]); } // REFUSE	Matrix::new	8x9 from 8x8
fn p6106() { let _ = m::<U8, U9>().relative_eq(&m::<U8, U8>(), 0.0, 0.0); } // REFUSE	relative_eq	8x9 and 8x8
fn p6107() { let _ = m::<U8, U9>().ulps_eq(&m::<U8, U8>(), 0.0, 4); } // REFUSE	ulps_eq	8x9 and 8x8
fn p6108() { let _ = m::<U8, U9>() == m::<U8, U8>(); } // REFUSE	==	8x9 and 8x8
fn p6109() { let _ = m::<U8, U9>() + m::<U8, U8>(); } // REFUSE	+	8x9 and 8x8
fn p6110() { let mut x = m::<U8, U9>(); x -= m::<U8, U8>(); } // REFUSE	-=	8x9 and 8x8
fn p6111() { let _ = m::<U8, U9>() * m::<U8, U8>(); } // REFUSE	*	8x9 and 8x8
fn p6112() { let _ = &m::<U8, U9>() * &m::<U8, U8>(); } // REFUSE	&*&	8x9 and 8x8
fn p6113() { let _ = Matrix::<f64, U8, U9>::new([[0.0; 9]; 8]); } // ACCEPT	Matrix::new	8x9 from 8x9
fn p6114() { let _ = m::<U8, U9>().relative_eq(&m::<U8, U9>(), 0.0, 0.0); } // ACCEPT	relative_eq	8x9 and 8x9
fn p6115() { let _ = m::<U8, U9>().ulps_eq(&m::<U8, U9>(), 0.0, 4); } // ACCEPT	ulps_eq	8x9 and 8x9
fn p6116() { let _ = m::<U8, U9>() == m::<U8, U9>(); } // ACCEPT	==	8x9 and 8x9
fn p6117() { let _ = m::<U8, U9>() + m::<U8, U9>(); } // ACCEPT	+	8x9 and 8x9
fn p6118() { let mut x = m::<U8, U9>(); x -= m::<U8, U9>(); } // ACCEPT	-=	8x9 and 8x9
fn p6119() { let _ = m::<U8, U9>() * m::<U8, U9>(); } // REFUSE	*	8x9 and 8x9
fn p6120() { let _ = &m::<U8, U9>() * &m::<U8, U9>(); } // REFUSE	&*&	8x9 and 8x9
fn p6121() { let _ = Matrix::<f64, U8, U9>::new([[0.0; 10]; 8]); } // REFUSE	Matrix::new	8x9 from 8x10
fn p6122() { let _ = m::<U8, U9>().relative_eq(&m::<U8, U10>(), 0.0, 0.0); } // REFUSE	relative_eq	8x9 and 8x10
fn p6123() { let _ = m::<U8, U9>().ulps_eq(&m::<U8, U10>(), 0.0, 4); } // REFUSE	ulps_eq	8x9 and 8x10
fn p6124() { let _ = m::<U8, U9>() == m::<U8, U10>(); } // REFUSE	==	8x9 and 8x10
fn p6125() { let _ = m::<U8, U9>() + m::<U8, U10>(); } // REFUSE	+	8x9 and 8x10
fn p6126() { let mut x = m::<U8, U9>(); x -= m::<U8, U10>(); } // REFUSE	-=	8x9 and 8x10
fn p6127() { let _ = m::<U8, U9>() * m::<U8, U10>(); } // REFUSE	*	8x9 and 8x10
fn p6128() { let _ = &m::<U8, U9>() * &m::<U8, U10>(); } // REFUSE	&*&	8x9 and 8x10
fn p6129() { let _ = Matrix::<f64, U8, U9>::new([[0.0; 8]; 9]); } // REFUSE	Matrix::new	8x9 from 9x8
fn p6130() { let _ = m::<U8, U9>().relative_eq(&m::<U9, U8>(), 0.0, 0.0); } // REFUSE	relative_eq	8x9 and 9x8
fn p6131() { let _ = m::<U8, U9>().ulps_eq(&m::<U9, U8>(), 0.0, 4); } // REFUSE	ulps_eq	8x9 and 9x8
fn p6132() { let _ = m::<U8, U9>() == m::<U9, U8>(); } // REFUSE	==	8x9 and 9x8
fn p6133() { let _ = m::<U8, U9>() + m::<U9, U8>(); } // REFUSE	+	8x9 and 9x8
fn p6134() { let mut x = m::<U8, U9>(); x -= m::<U9, U8>(); } // REFUSE	-=	8x9 and 9x8
fn p6135() { let _ = m::<U8, U9>() * m::<U9, U8>(); } // ACCEPT	*	8x9 and 9x8
fn p6136() { let _ = &m::<U8, U9>() * &m::<U9, U8>(); } // ACCEPT	&*&	8x9 and 9x8
fn p6137() { let _ = m::<U8, U9>() * Vector::<f64, U9>::default(); } // ACCEPT	matrix * vector	8x9 and 9
fn p6138() { let _ = Matrix::<f64, U8, U9>::new([[0.0; 9]; 9]); } // REFUSE	Matrix::new	8x9 from 9x9
fn p6139() { let _ = m::<U8, U9>().relative_eq(&m::<U9, U9>(), 0.0, 0.0); } // REFUSE	relative_eq	8x9 and 9x9
fn p6140() { let _ = m::<U8, U9>().ulps_eq(&m::<U9, U9>(), 0.0, 4); } // REFUSE	ulps_eq	8x9 and 9x9
fn p6141() { let _ = m::<U8, U9>() == m::<U9, U9>(); } // REFUSE	==	8x9 and 9x9
fn p6142() { let _ = m::<U8, U9>() + m::<U9, U9>(); } // REFUSE	+	8x9 and 9x9
fn p6143() { let mut x = m::<U8, U9>(); x -= m::<U9, U9>(); } // REFUSE	-=	8x9 and 9x9
fn p6144() { let _ = m::<U8, U9>() * m::<U9, U9>(); } // ACCEPT	*	8x9 and 9x9
fn p6145() { let _ = &m::<U8, U9>() * &m::<U9, U9>(); } // ACCEPT	&*&	8x9 and 9x9
fn p6146() { let _ = m::<U8, U9>() * Vector::<f64, U9>::default(); } // ACCEPT	matrix * vector	8x9 and 9
fn p6147() { let _: Matrix<i64, U0, U1> = v::<U0>().into(); } // ACCEPT	from flat	0x1 from 0
fn p6148() { let _: Matrix<i64, U0, U1> = v::<U1>().into(); } // REFUSE	from flat	0x1 from 1
fn p6149() { let _: Matrix<i64, U0, U2> = v::<U0>().into(); } // ACCEPT	from flat	0x2 from 0
fn p6150() { let _: Matrix<i64, U0, U2> = v::<U1>().into(); } // REFUSE	from flat	0x2 from 1
fn p6151() { let _: Matrix<i64, U0, U2> = v::<U2>().into(); } // REFUSE	from flat	0x2 from 2
fn p6152() { let _: Matrix<i64, U0, U3> = v::<U0>().into(); } // ACCEPT	from flat	0x3 from 0
fn p6153() { let _: Matrix<i64, U0, U3> = v::<U1>().into(); } // REFUSE	from flat	0x3 from 1
fn p6154() { let _: Matrix<i64, U0, U3> = v::<U3>().into(); } // REFUSE	from flat	0x3 from 3
fn p6155() { let _: Matrix<i64, U0, U4> = v::<U0>().into(); } // ACCEPT	from flat	0x4 from 0
fn p6156() { let _: Matrix<i64, U0, U4> = v::<U1>().into(); } // REFUSE	from flat	0x4 from 1
fn p6157() { let _: Matrix<i64, U0, U4> = v::<U4>().into(); } // REFUSE	from flat	0x4 from 4
fn p6158() { let _: Matrix<i64, U0, U5> = v::<U0>().into(); } // ACCEPT	from flat	0x5 from 0
fn p6159() { let _: Matrix<i64, U0, U5> = v::<U1>().into(); } // REFUSE	from flat	0x5 from 1
fn p6160() { let _: Matrix<i64, U0, U5> = v::<U5>().into(); } // REFUSE	from flat	0x5 from 5
fn p6161() { let _: Matrix<i64, U1, U1> = v::<U0>().into(); } // REFUSE	from flat	1x1 from 0
fn p6162() { let _: Matrix<i64, U1, U1> = v::<U1>().into(); } // ACCEPT	from flat	1x1 from 1
fn p6163() { let _: Matrix<i64, U1, U1> = v::<U2>().into(); } // REFUSE	from flat	1x1 from 2
fn p6164() { let _: Matrix<i64, U1, U2> = v::<U1>().into(); } // REFUSE	from flat	1x2 from 1
fn p6165() { let _: Matrix<i64, U1, U2> = v::<U2>().into(); } // ACCEPT	from flat	1x2 from 2
fn p6166() { let _: Matrix<i64, U1, U2> = v::<U3>().into(); } // REFUSE	from flat	1x2 from 3
fn p6167() { let _: Matrix<i64, U1, U3> = v::<U2>().into(); } // REFUSE	from flat	1x3 from 2
fn p6168() { let _: Matrix<i64, U1, U3> = v::<U3>().into(); } // ACCEPT	from flat	1x3 from 3
fn p6169() { let _: Matrix<i64, U1, U3> = v::<U4>().into(); } // REFUSE	from flat	1x3 from 4
fn p6170() { let _: Matrix<i64, U1, U4> = v::<U3>().into(); } // REFUSE	from flat	1x4 from 3
fn p6171() { let _: Matrix<i64, U1, U4> = v::<U4>().into(); } // ACCEPT	from flat	1x4 from 4
fn p6172() { let _: Matrix<i64, U1, U4> = v::<U5>().into(); } // REFUSE	from flat	1x4 from 5
fn p6173() { let _: Matrix<i64, U1, U5> = v::<U4>().into(); } // REFUSE	from flat	1x5 from 4
fn p6174() { let _: Matrix<i64, U1, U5> = v::<U5>().into(); } // ACCEPT	from flat	1x5 from 5
fn p6175() { let _: Matrix<i64, U1, U5> = v::<U6>().into(); } // REFUSE	from flat	1x5 from 6
fn p6176() { let _: Matrix<i64, U2, U1> = v::<U1>().into(); } // REFUSE	from flat	2x1 from 1
fn p6177() { let _: Matrix<i64, U2, U1> = v::<U2>().into(); } // ACCEPT	from flat	2x1 from 2
fn p6178() { let _: Matrix<i64, U2, U1> = v::<U3>().into(); } // REFUSE	from flat	2x1 from 3
fn p6179() { let _: Matrix<i64, U2, U2> = v::<U3>().into(); } // REFUSE	from flat	2x2 from 3
fn p6180() { let _: Matrix<i64, U2, U2> = v::<U4>().into(); } // ACCEPT	from flat	2x2 from 4
fn p6181() { let _: Matrix<i64, U2, U2> = v::<U5>().into(); } // REFUSE	from flat	2x2 from 5
fn p6182() { let _: Matrix<i64, U2, U3> = v::<U5>().into(); } // REFUSE	from flat	2x3 from 5
fn p6183() { let _: Matrix<i64, U2, U3> = v::<U6>().into(); } // ACCEPT	from flat	2x3 from 6
fn p6184() { let _: Matrix<i64, U2, U3> = v::<U7>().into(); } // REFUSE	from flat	2x3 from 7
fn p6185() { let _: Matrix<i64, U2, U4> = v::<U6>().into(); } // REFUSE	from flat	2x4 from 6
fn p6186() { let _: Matrix<i64, U2, U4> = v::<U7>().into(); } // REFUSE	from flat	2x4 from 7
fn p6187() { let _: Matrix<i64, U2, U4> = v::<U8>().into(); } // ACCEPT	from flat	2x4 from 8
fn p6188() { let _: Matrix<i64, U2, U4> = v::<U9>().into(); } // REFUSE	from flat	2x4 from 9
fn p6189() { let _: Matrix<i64, U2, U5> = v::<U7>().into(); } // REFUSE	from flat	2x5 from 7
fn p6190() { let _: Matrix<i64, U2, U5> = v::<U9>().into(); } // REFUSE	from flat	2x5 from 9
fn p6191() { let _: Matrix<i64, U2, U5> = v::<U10>().into(); } // ACCEPT	from flat	2x5 from 10
fn p6192() { let _: Matrix<i64, U2, U5> = v::<U11>().into(); } // REFUSE	from flat	2x5 from 11
fn p6193() { let _: Matrix<i64, U3, U1> = v::<U2>().into(); } // REFUSE	from flat	3x1 from 2
fn p6194() { let _: Matrix<i64, U3, U1> = v::<U3>().into(); } // ACCEPT	from flat	3x1 from 3
fn p6195() { let _: Matrix<i64, U3, U1> = v::<U4>().into(); } // REFUSE	from flat	3x1 from 4
fn p6196() { let _: Matrix<i64, U3, U2> = v::<U5>().into(); } // REFUSE	from flat	3x2 from 5
fn p6197() { let _: Matrix<i64, U3, U2> = v::<U6>().into(); } // ACCEPT	from flat	3x2 from 6
fn p6198() { let _: Matrix<i64, U3, U2> = v::<U7>().into(); } // REFUSE	from flat	3x2 from 7
fn p6199() { let _: Matrix<i64, U3, U3> = v::<U6>().into(); } // REFUSE	from flat	3x3 from 6
fn p6200() { let _: Matrix<i64, U3, U3> = v::<U8>().into(); } // REFUSE	from flat	3x3 from 8
fn p6201() { let _: Matrix<i64, U3, U3> = v::<U9>().into(); } // ACCEPT	from flat	3x3 from 9
fn p6202() { let _: Matrix<i64, U3, U3> = v::<U10>().into(); } // REFUSE	from flat	3x3 from 10
fn p6203() { let _: Matrix<i64, U3, U4> = v::<U7>().into(); } // REFUSE	from flat	3x4 from 7
fn p6204() { let _: Matrix<i64, U3, U4> = v::<U11>().into(); } // REFUSE	from flat	3x4 from 11
fn p6205() { let _: Matrix<i64, U3, U4> = v::<U12>().into(); } // ACCEPT	from flat	3x4 from 12
fn p6206() { let _: Matrix<i64, U3, U4> = v::<U13>().into(); } // REFUSE	from flat	3x4 from 13
fn p6207() { let _: Matrix<i64, U3, U5> = v::<U8>().into(); } // REFUSE	from flat	3x5 from 8
fn p6208() { let _: Matrix<i64, U3, U5> = v::<U14>().into(); } // REFUSE	from flat	3x5 from 14
fn p6209() { let _: Matrix<i64, U3, U5> = v::<U15>().into(); } // ACCEPT	from flat	3x5 from 15
fn p6210() { let _: Matrix<i64, U3, U5> = v::<U16>().into(); } // REFUSE	from flat	3x5 from 16
fn p6211() { let _: Matrix<i64, U4, U1> = v::<U3>().into(); } // REFUSE	from flat	4x1 from 3
fn p6212() { let _: Matrix<i64, U4, U1> = v::<U4>().into(); } // ACCEPT	from flat	4x1 from 4
fn p6213() { let _: Matrix<i64, U4, U1> = v::<U5>().into(); } // REFUSE	from flat	4x1 from 5
fn p6214() { let _: Matrix<i64, U4, U2> = v::<U6>().into(); } // REFUSE	from flat	4x2 from 6
fn p6215() { let _: Matrix<i64, U4, U2> = v::<U7>().into(); } // REFUSE	from flat	4x2 from 7
fn p6216() { let _: Matrix<i64, U4, U2> = v::<U8>().into(); } // ACCEPT	from flat	4x2 from 8
fn p6217() { let _: Matrix<i64, U4, U2> = v::<U9>().into(); } // REFUSE	from flat	4x2 from 9
fn p6218() { let _: Matrix<i64, U4, U3> = v::<U7>().into(); } // REFUSE	from flat	4x3 from 7
fn p6219() { let _: Matrix<i64, U4, U3> = v::<U11>().into(); } // REFUSE	from flat	4x3 from 11
fn p6220() { let _: Matrix<i64, U4, U3> = v::<U12>().into(); } // ACCEPT	from flat	4x3 from 12
fn p6221() { let _: Matrix<i64, U4, U3> = v::<U13>().into(); } // REFUSE	from flat	4x3 from 13
fn p6222() { let _: Matrix<i64, U4, U4> = v::<U8>().into(); } // REFUSE	from flat	4x4 from 8
fn p6223() { let _: Matrix<i64, U4, U4> = v::<U15>().into(); } // REFUSE	from flat	4x4 from 15
fn p6224() { let _: Matrix<i64, U4, U4> = v::<U16>().into(); } // ACCEPT	from flat	4x4 from 16
fn p6225() { let _: Matrix<i64, U4, U4> = v::<U17>().into(); } // REFUSE	from flat	4x4 from 17
fn p6226() { let _: Matrix<i64, U4, U5> = v::<U9>().into(); } // REFUSE	from flat	4x5 from 9
fn p6227() { let _: Matrix<i64, U4, U5> = v::<U19>().into(); } // REFUSE	from flat	4x5 from 19
fn p6228() { let _: Matrix<i64, U4, U5> = v::<U20>().into(); } // ACCEPT	from flat	4x5 from 20
fn p6229() { let _: Matrix<i64, U4, U5> = v::<U21>().into(); } // REFUSE	from flat	4x5 from 21
fn p6230() { let _: Matrix<i64, U5, U1> = v::<U4>().into(); } // REFUSE	from flat	5x1 from 4
fn p6231() { let _: Matrix<i64, U5, U1> = v::<U5>().into(); } // ACCEPT	from flat	5x1 from 5
fn p6232() { let _: Matrix<i64, U5, U1> = v::<U6>().into(); } // REFUSE	from flat	5x1 from 6
fn p6233() { let _: Matrix<i64, U5, U2> = v::<U7>().into(); } // REFUSE	from flat	5x2 from 7
fn p6234() { let _: Matrix<i64, U5, U2> = v::<U9>().into(); } // REFUSE	from flat	5x2 from 9
fn p6235() { let _: Matrix<i64, U5, U2> = v::<U10>().into(); } // ACCEPT	from flat	5x2 from 10
fn p6236() { let _: Matrix<i64, U5, U2> = v::<U11>().into(); } // REFUSE	from flat	5x2 from 11
fn p6237() { let _: Matrix<i64, U5, U3> = v::<U8>().into(); } // REFUSE	from flat	5x3 from 8
fn p6238() { let _: Matrix<i64, U5, U3> = v::<U14>().into(); } // REFUSE	from flat	5x3 from 14
fn p6239() { let _: Matrix<i64, U5, U3> = v::<U15>().into(); } // ACCEPT	from flat	5x3 from 15
fn p6240() { let _: Matrix<i64, U5, U3> = v::<U16>().into(); } // REFUSE	from flat	5x3 from 16
fn p6241() { let _: Matrix<i64, U5, U4> = v::<U9>().into(); } // REFUSE	from flat	5x4 from 9
fn p6242() { let _: Matrix<i64, U5, U4> = v::<U19>().into(); } // REFUSE	from flat	5x4 from 19
fn p6243() { let _: Matrix<i64, U5, U4> = v::<U20>().into(); } // ACCEPT	from flat	5x4 from 20
fn p6244() { let _: Matrix<i64, U5, U4> = v::<U21>().into(); } // REFUSE	from flat	5x4 from 21
fn p6245() { let _: Matrix<i64, U5, U5> = v::<U10>().into(); } // REFUSE	from flat	5x5 from 10
fn p6246() { let _: Matrix<i64, U5, U5> = v::<U24>().into(); } // REFUSE	from flat	5x5 from 24
fn p6247() { let _: Matrix<i64, U5, U5> = v::<U25>().into(); } // ACCEPT	from flat	5x5 from 25
fn p6248() { let _: Matrix<i64, U5, U5> = v::<U26>().into(); } // REFUSE	from flat	5x5 from 26
fn p6249() { let _: Matrix<i64, U6, U1> = v::<U5>().into(); } // REFUSE	from flat	6x1 from 5
fn p6250() { let _: Matrix<i64, U6, U1> = v::<U6>().into(); } // ACCEPT	from flat	6x1 from 6
fn p6251() { let _: Matrix<i64, U6, U1> = v::<U7>().into(); } // REFUSE	from flat	6x1 from 7
fn p6252() { let _: Matrix<i64, U6, U2> = v::<U8>().into(); } // REFUSE	from flat	6x2 from 8
fn p6253() { let _: Matrix<i64, U6, U2> = v::<U11>().into(); } // REFUSE	from flat	6x2 from 11
fn p6254() { let _: Matrix<i64, U6, U2> = v::<U12>().into(); } // ACCEPT	from flat	6x2 from 12
fn p6255() { let _: Matrix<i64, U6, U2> = v::<U13>().into(); } // REFUSE	from flat	6x2 from 13
fn p6256() { let _: Matrix<i64, U6, U3> = v::<U9>().into(); } // REFUSE	from flat	6x3 from 9
fn p6257() { let _: Matrix<i64, U6, U3> = v::<U17>().into(); } // REFUSE	from flat	6x3 from 17
fn p6258() { let _: Matrix<i64, U6, U3> = v::<U18>().into(); } // ACCEPT	from flat	6x3 from 18
fn p6259() { let _: Matrix<i64, U6, U3> = v::<U19>().into(); } // REFUSE	from flat	6x3 from 19
fn p6260() { let _: Matrix<i64, U6, U4> = v::<U10>().into(); } // REFUSE	from flat	6x4 from 10
fn p6261() { let _: Matrix<i64, U6, U4> = v::<U23>().into(); } // REFUSE	from flat	6x4 from 23
fn p6262() { let _: Matrix<i64, U6, U4> = v::<U24>().into(); } // ACCEPT	from flat	6x4 from 24
fn p6263() { let _: Matrix<i64, U6, U4> = v::<U25>().into(); } // REFUSE	from flat	6x4 from 25
fn p6264() { let _: Matrix<i64, U6, U5> = v::<U11>().into(); } // REFUSE	from flat	6x5 from 11
fn p6265() { let _: Matrix<i64, U6, U5> = v::<U29>().into(); } // REFUSE	from flat	6x5 from 29
fn p6266() { let _: Matrix<i64, U6, U5> = v::<U30>().into(); } // ACCEPT	from flat	6x5 from 30
fn p6267() { let _: Matrix<i64, U6, U5> = v::<U31>().into(); } // REFUSE	from flat	6x5 from 31
fn p6268() { let _ = v::<U0>()[U0::new()]; } // REFUSE	index	0 of 0
fn p6269() { v::<U0>()[U0::new()] = 0; } // REFUSE	index_mut	0 of 0
fn p6270() { let _ = v::<U0>()[U1::new()]; } // REFUSE	index	1 of 0
fn p6271() { v::<U0>()[U1::new()] = 0; } // REFUSE	index_mut	1 of 0
fn p6272() { let _ = v::<U1>()[U0::new()]; } // ACCEPT	index	0 of 1
fn p6273() { v::<U1>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 1
fn p6274() { let _ = v::<U1>()[U1::new()]; } // REFUSE	index	1 of 1
fn p6275() { v::<U1>()[U1::new()] = 0; } // REFUSE	index_mut	1 of 1
fn p6276() { let _ = v::<U1>()[U2::new()]; } // REFUSE	index	2 of 1
fn p6277() { v::<U1>()[U2::new()] = 0; } // REFUSE	index_mut	2 of 1
fn p6278() { let _ = v::<U2>()[U0::new()]; } // ACCEPT	index	0 of 2
fn p6279() { v::<U2>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 2
fn p6280() { let _ = v::<U2>()[U1::new()]; } // ACCEPT	index	1 of 2
fn p6281() { v::<U2>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 2
fn p6282() { let _ = v::<U2>()[U2::new()]; } // REFUSE	index	2 of 2
fn p6283() { v::<U2>()[U2::new()] = 0; } // REFUSE	index_mut	2 of 2
fn p6284() { let _ = v::<U2>()[U3::new()]; } // REFUSE	index	3 of 2
fn p6285() { v::<U2>()[U3::new()] = 0; } // REFUSE	index_mut	3 of 2
fn p6286() { let _ = v::<U2>()[U4::new()]; } // REFUSE	index	4 of 2
fn p6287() { v::<U2>()[U4::new()] = 0; } // REFUSE	index_mut	4 of 2
fn p6288() { let _ = v::<U3>()[U0::new()]; } // ACCEPT	index	0 of 3
fn p6289() { v::<U3>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 3
fn p6290() { let _ = v::<U3>()[U1::new()]; } // ACCEPT	index	1 of 3
fn p6291() { v::<U3>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 3
fn p6292() { let _ = v::<U3>()[U2::new()]; } // ACCEPT	index	2 of 3
fn p6293() { v::<U3>()[U2::new()] = 0; } // ACCEPT	index_mut	2 of 3
fn p6294() { let _ = v::<U3>()[U3::new()]; } // REFUSE	index	3 of 3
fn p6295() { v::<U3>()[U3::new()] = 0; } // REFUSE	index_mut	3 of 3
fn p6296() { let _ = v::<U3>()[U4::new()]; } // REFUSE	index	4 of 3
fn p6297() { v::<U3>()[U4::new()] = 0; } // REFUSE	index_mut	4 of 3
fn p6298() { let _ = v::<U3>()[U6::new()]; } // REFUSE	index	6 of 3
fn p6299() { v::<U3>()[U6::new()] = 0; } // REFUSE	index_mut	6 of 3
fn p6300() { let _ = v::<U4>()[U0::new()]; } // ACCEPT	index	0 of 4
fn p6301() { v::<U4>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 4
fn p6302() { let _ = v::<U4>()[U1::new()]; } // ACCEPT	index	1 of 4
fn p6303() { v::<U4>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 4
fn p6304() { let _ = v::<U4>()[U3::new()]; } // ACCEPT	index	3 of 4
fn p6305() { v::<U4>()[U3::new()] = 0; } // ACCEPT	index_mut	3 of 4
fn p6306() { let _ = v::<U4>()[U4::new()]; } // REFUSE	index	4 of 4
fn p6307() { v::<U4>()[U4::new()] = 0; } // REFUSE	index_mut	4 of 4
fn p6308() { let _ = v::<U4>()[U5::new()]; } // REFUSE	index	5 of 4
fn p6309() { v::<U4>()[U5::new()] = 0; } // REFUSE	index_mut	5 of 4
fn p6310() { let _ = v::<U4>()[U8::new()]; } // REFUSE	index	8 of 4
fn p6311() { v::<U4>()[U8::new()] = 0; } // REFUSE	index_mut	8 of 4
fn p6312() { let _ = v::<U7>()[U0::new()]; } // ACCEPT	index	0 of 7
fn p6313() { v::<U7>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 7
fn p6314() { let _ = v::<U7>()[U1::new()]; } // ACCEPT	index	1 of 7
fn p6315() { v::<U7>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 7
fn p6316() { let _ = v::<U7>()[U6::new()]; } // ACCEPT	index	6 of 7
fn p6317() { v::<U7>()[U6::new()] = 0; } // ACCEPT	index_mut	6 of 7
fn p6318() { let _ = v::<U7>()[U7::new()]; } // REFUSE	index	7 of 7
fn p6319() { v::<U7>()[U7::new()] = 0; } // REFUSE	index_mut	7 of 7
fn p6320() { let _ = v::<U7>()[U8::new()]; } // REFUSE	index	8 of 7
fn p6321() { v::<U7>()[U8::new()] = 0; } // REFUSE	index_mut	8 of 7
fn p6322() { let _ = v::<U7>()[U14::new()]; } // REFUSE	index	14 of 7
fn p6323() { v::<U7>()[U14::new()] = 0; } // REFUSE	index_mut	14 of 7
fn p6324() { let _ = v::<U8>()[U0::new()]; } // ACCEPT	index	0 of 8
fn p6325() { v::<U8>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 8
fn p6326() { let _ = v::<U8>()[U1::new()]; } // ACCEPT	index	1 of 8
fn p6327() { v::<U8>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 8
fn p6328() { let _ = v::<U8>()[U7::new()]; } // ACCEPT	index	7 of 8
fn p6329() { v::<U8>()[U7::new()] = 0; } // ACCEPT	index_mut	7 of 8
fn p6330() { let _ = v::<U8>()[U8::new()]; } // REFUSE	index	8 of 8
fn p6331() { v::<U8>()[U8::new()] = 0; } // REFUSE	index_mut	8 of 8
fn p6332() { let _ = v::<U8>()[U9::new()]; } // REFUSE	index	9 of 8
fn p6333() { v::<U8>()[U9::new()] = 0; } // REFUSE	index_mut	9 of 8
fn p6334() { let _ = v::<U8>()[U16::new()]; } // REFUSE	index	16 of 8
fn p6335() { v::<U8>()[U16::new()] = 0; } // REFUSE	index_mut	16 of 8
fn p6336() { let _ = v::<U9>()[U0::new()]; } // ACCEPT	index	0 of 9
fn p6337() { v::<U9>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 9
fn p6338() { let _ = v::<U9>()[U1::new()]; } // ACCEPT	index	1 of 9
fn p6339() { v::<U9>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 9
fn p6340() { let _ = v::<U9>()[U8::new()]; } // ACCEPT	index	8 of 9
fn p6341() { v::<U9>()[U8::new()] = 0; } // ACCEPT	index_mut	8 of 9
fn p6342() { let _ = v::<U9>()[U9::new()]; } // REFUSE	index	9 of 9
fn p6343() { v::<U9>()[U9::new()] = 0; } // REFUSE	index_mut	9 of 9
fn p6344() { let _ = v::<U9>()[U10::new()]; } // REFUSE	index	10 of 9
fn p6345() { v::<U9>()[U10::new()] = 0; } // REFUSE	index_mut	10 of 9
fn p6346() { let _ = v::<U9>()[U18::new()]; } // REFUSE	index	18 of 9
fn p6347() { v::<U9>()[U18::new()] = 0; } // REFUSE	index_mut	18 of 9
fn p6348() { let _ = v::<U15>()[U0::new()]; } // ACCEPT	index	0 of 15
fn p6349() { v::<U15>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 15
fn p6350() { let _ = v::<U15>()[U1::new()]; } // ACCEPT	index	1 of 15
fn p6351() { v::<U15>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 15
fn p6352() { let _ = v::<U15>()[U14::new()]; } // ACCEPT	index	14 of 15
fn p6353() { v::<U15>()[U14::new()] = 0; } // ACCEPT	index_mut	14 of 15
fn p6354() { let _ = v::<U15>()[U15::new()]; } // REFUSE	index	15 of 15
fn p6355() { v::<U15>()[U15::new()] = 0; } // REFUSE	index_mut	15 of 15
fn p6356() { let _ = v::<U15>()[U16::new()]; } // REFUSE	index	16 of 15
fn p6357() { v::<U15>()[U16::new()] = 0; } // REFUSE	index_mut	16 of 15
fn p6358() { let _ = v::<U15>()[U30::new()]; } // REFUSE	index	30 of 15
fn p6359() { v::<U15>()[U30::new()] = 0; } // REFUSE	index_mut	30 of 15
fn p6360() { let _ = v::<U16>()[U0::new()]; } // ACCEPT	index	0 of 16
fn p6361() { v::<U16>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 16
fn p6362() { let _ = v::<U16>()[U1::new()]; } // ACCEPT	index	1 of 16
fn p6363() { v::<U16>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 16
fn p6364() { let _ = v::<U16>()[U15::new()]; } // ACCEPT	index	15 of 16
fn p6365() { v::<U16>()[U15::new()] = 0; } // ACCEPT	index_mut	15 of 16
fn p6366() { let _ = v::<U16>()[U16::new()]; } // REFUSE	index	16 of 16
fn p6367() { v::<U16>()[U16::new()] = 0; } // REFUSE	index_mut	16 of 16
fn p6368() { let _ = v::<U16>()[U17::new()]; } // REFUSE	index	17 of 16
fn p6369() { v::<U16>()[U17::new()] = 0; } // REFUSE	index_mut	17 of 16
fn p6370() { let _ = v::<U16>()[U32::new()]; } // REFUSE	index	32 of 16
fn p6371() { v::<U16>()[U32::new()] = 0; } // REFUSE	index_mut	32 of 16
fn p6372() { let _ = v::<U17>()[U0::new()]; } // ACCEPT	index	0 of 17
fn p6373() { v::<U17>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 17
fn p6374() { let _ = v::<U17>()[U1::new()]; } // ACCEPT	index	1 of 17
fn p6375() { v::<U17>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 17
fn p6376() { let _ = v::<U17>()[U16::new()]; } // ACCEPT	index	16 of 17
fn p6377() { v::<U17>()[U16::new()] = 0; } // ACCEPT	index_mut	16 of 17
fn p6378() { let _ = v::<U17>()[U17::new()]; } // REFUSE	index	17 of 17
fn p6379() { v::<U17>()[U17::new()] = 0; } // REFUSE	index_mut	17 of 17
fn p6380() { let _ = v::<U17>()[U18::new()]; } // REFUSE	index	18 of 17
fn p6381() { v::<U17>()[U18::new()] = 0; } // REFUSE	index_mut	18 of 17
fn p6382() { let _ = v::<U17>()[U34::new()]; } // REFUSE	index	34 of 17
fn p6383() { v::<U17>()[U34::new()] = 0; } // REFUSE	index_mut	34 of 17
fn p6384() { let _ = v::<U31>()[U0::new()]; } // ACCEPT	index	0 of 31
fn p6385() { v::<U31>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 31
fn p6386() { let _ = v::<U31>()[U1::new()]; } // ACCEPT	index	1 of 31
fn p6387() { v::<U31>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 31
fn p6388() { let _ = v::<U31>()[U30::new()]; } // ACCEPT	index	30 of 31
fn p6389() { v::<U31>()[U30::new()] = 0; } // ACCEPT	index_mut	30 of 31
fn p6390() { let _ = v::<U31>()[U31::new()]; } // REFUSE	index	31 of 31
fn p6391() { v::<U31>()[U31::new()] = 0; } // REFUSE	index_mut	31 of 31
fn p6392() { let _ = v::<U31>()[U32::new()]; } // REFUSE	index	32 of 31
fn p6393() { v::<U31>()[U32::new()] = 0; } // REFUSE	index_mut	32 of 31
fn p6394() { let _ = v::<U31>()[U62::new()]; } // REFUSE	index	62 of 31
fn p6395() { v::<U31>()[U62::new()] = 0; } // REFUSE	index_mut	62 of 31
fn p6396() { let _ = v::<U32>()[U0::new()]; } // ACCEPT	index	0 of 32
fn p6397() { v::<U32>()[U0::new()] = 0; } // ACCEPT	index_mut	0 of 32
fn p6398() { let _ = v::<U32>()[U1::new()]; } // ACCEPT	index	1 of 32
fn p6399() { v::<U32>()[U1::new()] = 0; } // ACCEPT	index_mut	1 of 32
fn p6400() { let _ = v::<U32>()[U31::new()]; } // ACCEPT	index	31 of 32
fn p6401() { v::<U32>()[U31::new()] = 0; } // ACCEPT	index_mut	31 of 32
fn p6402() { let _ = v::<U32>()[U32::new()]; } // REFUSE	index	32 of 32
fn p6403() { v::<U32>()[U32::new()] = 0; } // REFUSE	index_mut	32 of 32
fn p6404() { let _ = v::<U32>()[U33::new()]; } // REFUSE	index	33 of 32
fn p6405() { v::<U32>()[U33::new()] = 0; } // REFUSE	index_mut	33 of 32
fn p6406() { let _ = v::<U32>()[U64::new()]; } // REFUSE	index	64 of 32
fn p6407() { v::<U32>()[U64::new()] = 0; } // REFUSE	index_mut	64 of 32
fn p6408() { let _ = k::<U0, U0>()[(U0::new(), U0::new())]; } // REFUSE	index	(0,0) of 0x0
fn p6409() { k::<U0, U0>()[(U0::new(), U0::new())] = 0; } // REFUSE	index_mut	(0,0) of 0x0
fn p6410() { let _ = k::<U0, U0>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 0x0
fn p6411() { k::<U0, U0>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 0x0
fn p6412() { let _ = k::<U0, U1>()[(U0::new(), U0::new())]; } // REFUSE	index	(0,0) of 0x1
fn p6413() { k::<U0, U1>()[(U0::new(), U0::new())] = 0; } // REFUSE	index_mut	(0,0) of 0x1
fn p6414() { let _ = k::<U0, U1>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 0x1
fn p6415() { k::<U0, U1>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 0x1
fn p6416() { let _ = k::<U0, U1>()[(U0::new(), U2::new())]; } // REFUSE	index	(0,2) of 0x1
fn p6417() { k::<U0, U1>()[(U0::new(), U2::new())] = 0; } // REFUSE	index_mut	(0,2) of 0x1
fn p6418() { let _ = k::<U0, U3>()[(U0::new(), U0::new())]; } // REFUSE	index	(0,0) of 0x3
fn p6419() { k::<U0, U3>()[(U0::new(), U0::new())] = 0; } // REFUSE	index_mut	(0,0) of 0x3
fn p6420() { let _ = k::<U0, U3>()[(U0::new(), U2::new())]; } // REFUSE	index	(0,2) of 0x3
fn p6421() { k::<U0, U3>()[(U0::new(), U2::new())] = 0; } // REFUSE	index_mut	(0,2) of 0x3
fn p6422() { let _ = k::<U0, U3>()[(U0::new(), U3::new())]; } // REFUSE	index	(0,3) of 0x3
fn p6423() { k::<U0, U3>()[(U0::new(), U3::new())] = 0; } // REFUSE	index_mut	(0,3) of 0x3
fn p6424() { let _ = k::<U0, U3>()[(U0::new(), U4::new())]; } // REFUSE	index	(0,4) of 0x3
fn p6425() { k::<U0, U3>()[(U0::new(), U4::new())] = 0; } // REFUSE	index_mut	(0,4) of 0x3
fn p6426() { let _ = k::<U0, U32>()[(U0::new(), U0::new())]; } // REFUSE	index	(0,0) of 0x32
fn p6427() { k::<U0, U32>()[(U0::new(), U0::new())] = 0; } // REFUSE	index_mut	(0,0) of 0x32
fn p6428() { let _ = k::<U0, U32>()[(U0::new(), U31::new())]; } // REFUSE	index	(0,31) of 0x32
fn p6429() { k::<U0, U32>()[(U0::new(), U31::new())] = 0; } // REFUSE	index_mut	(0,31) of 0x32
fn p6430() { let _ = k::<U0, U32>()[(U0::new(), U32::new())]; } // REFUSE	index	(0,32) of 0x32
fn p6431() { k::<U0, U32>()[(U0::new(), U32::new())] = 0; } // REFUSE	index_mut	(0,32) of 0x32
fn p6432() { let _ = k::<U0, U32>()[(U0::new(), U33::new())]; } // REFUSE	index	(0,33) of 0x32
fn p6433() { k::<U0, U32>()[(U0::new(), U33::new())] = 0; } // REFUSE	index_mut	(0,33) of 0x32
fn p6434() { let _ = k::<U1, U0>()[(U0::new(), U0::new())]; } // REFUSE	index	(0,0) of 1x0
fn p6435() { k::<U1, U0>()[(U0::new(), U0::new())] = 0; } // REFUSE	index_mut	(0,0) of 1x0
fn p6436() { let _ = k::<U1, U0>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 1x0
fn p6437() { k::<U1, U0>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 1x0
fn p6438() { let _ = k::<U1, U0>()[(U1::new(), U0::new())]; } // REFUSE	index	(1,0) of 1x0
fn p6439() { k::<U1, U0>()[(U1::new(), U0::new())] = 0; } // REFUSE	index_mut	(1,0) of 1x0
fn p6440() { let _ = k::<U1, U0>()[(U1::new(), U1::new())]; } // REFUSE	index	(1,1) of 1x0
fn p6441() { k::<U1, U0>()[(U1::new(), U1::new())] = 0; } // REFUSE	index_mut	(1,1) of 1x0
fn p6442() { let _ = k::<U1, U1>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 1x1
fn p6443() { k::<U1, U1>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 1x1
fn p6444() { let _ = k::<U1, U1>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 1x1
fn p6445() { k::<U1, U1>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 1x1
fn p6446() { let _ = k::<U1, U1>()[(U0::new(), U2::new())]; } // REFUSE	index	(0,2) of 1x1
fn p6447() { k::<U1, U1>()[(U0::new(), U2::new())] = 0; } // REFUSE	index_mut	(0,2) of 1x1
fn p6448() { let _ = k::<U1, U1>()[(U1::new(), U0::new())]; } // REFUSE	index	(1,0) of 1x1
fn p6449() { k::<U1, U1>()[(U1::new(), U0::new())] = 0; } // REFUSE	index_mut	(1,0) of 1x1
fn p6450() { let _ = k::<U1, U1>()[(U1::new(), U1::new())]; } // REFUSE	index	(1,1) of 1x1
fn p6451() { k::<U1, U1>()[(U1::new(), U1::new())] = 0; } // REFUSE	index_mut	(1,1) of 1x1
fn p6452() { let _ = k::<U1, U1>()[(U1::new(), U2::new())]; } // REFUSE	index	(1,2) of 1x1
fn p6453() { k::<U1, U1>()[(U1::new(), U2::new())] = 0; } // REFUSE	index_mut	(1,2) of 1x1
fn p6454() { let _ = k::<U1, U3>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 1x3
fn p6455() { k::<U1, U3>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 1x3
fn p6456() { let _ = k::<U1, U3>()[(U0::new(), U2::new())]; } // ACCEPT	index	(0,2) of 1x3
fn p6457() { k::<U1, U3>()[(U0::new(), U2::new())] = 0; } // ACCEPT	index_mut	(0,2) of 1x3
fn p6458() { let _ = k::<U1, U3>()[(U0::new(), U3::new())]; } // REFUSE	index	(0,3) of 1x3
fn p6459() { k::<U1, U3>()[(U0::new(), U3::new())] = 0; } // REFUSE	index_mut	(0,3) of 1x3
fn p6460() { let _ = k::<U1, U3>()[(U0::new(), U4::new())]; } // REFUSE	index	(0,4) of 1x3
fn p6461() { k::<U1, U3>()[(U0::new(), U4::new())] = 0; } // REFUSE	index_mut	(0,4) of 1x3
fn p6462() { let _ = k::<U1, U3>()[(U1::new(), U0::new())]; } // REFUSE	index	(1,0) of 1x3
fn p6463() { k::<U1, U3>()[(U1::new(), U0::new())] = 0; } // REFUSE	index_mut	(1,0) of 1x3
fn p6464() { let _ = k::<U1, U3>()[(U1::new(), U2::new())]; } // REFUSE	index	(1,2) of 1x3
fn p6465() { k::<U1, U3>()[(U1::new(), U2::new())] = 0; } // REFUSE	index_mut	(1,2) of 1x3
fn p6466() { let _ = k::<U1, U3>()[(U1::new(), U3::new())]; } // REFUSE	index	(1,3) of 1x3
fn p6467() { k::<U1, U3>()[(U1::new(), U3::new())] = 0; } // REFUSE	index_mut	(1,3) of 1x3
fn p6468() { let _ = k::<U1, U3>()[(U1::new(), U4::new())]; } // REFUSE	index	(1,4) of 1x3
fn p6469() { k::<U1, U3>()[(U1::new(), U4::new())] = 0; } // REFUSE	index_mut	(1,4) of 1x3
fn p6470() { let _ = k::<U1, U32>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 1x32
fn p6471() { k::<U1, U32>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 1x32
fn p6472() { let _ = k::<U1, U32>()[(U0::new(), U31::new())]; } // ACCEPT	index	(0,31) of 1x32
fn p6473() { k::<U1, U32>()[(U0::new(), U31::new())] = 0; } // ACCEPT	index_mut	(0,31) of 1x32
fn p6474() { let _ = k::<U1, U32>()[(U0::new(), U32::new())]; } // REFUSE	index	(0,32) of 1x32
fn p6475() { k::<U1, U32>()[(U0::new(), U32::new())] = 0; } // REFUSE	index_mut	(0,32) of 1x32
fn p6476() { let _ = k::<U1, U32>()[(U0::new(), U33::new())]; } // REFUSE	index	(0,33) of 1x32
fn p6477() { k::<U1, U32>()[(U0::new(), U33::new())] = 0; } // REFUSE	index_mut	(0,33) of 1x32
fn p6478() { let _ = k::<U1, U32>()[(U1::new(), U0::new())]; } // REFUSE	index	(1,0) of 1x32
fn p6479() { k::<U1, U32>()[(U1::new(), U0::new())] = 0; } // REFUSE	index_mut	(1,0) of 1x32
fn p6480() { let _ = k::<U1, U32>()[(U1::new(), U31::new())]; } // REFUSE	index	(1,31) of 1x32
fn p6481() { k::<U1, U32>()[(U1::new(), U31::new())] = 0; } // REFUSE	index_mut	(1,31) of 1x32
fn p6482() { let _ = k::<U1, U32>()[(U1::new(), U32::new())]; } // REFUSE	index	(1,32) of 1x32
fn p6483() { k::<U1, U32>()[(U1::new(), U32::new())] = 0; } // REFUSE	index_mut	(1,32) of 1x32
fn p6484() { let _ = k::<U1, U32>()[(U1::new(), U33::new())]; } // REFUSE	index	(1,33) of 1x32
fn p6485() { k::<U1, U32>()[(U1::new(), U33::new())] = 0; } // REFUSE	index_mut	(1,33) of 1x32
fn p6486() { let _ = k::<U2, U0>()[(U0::new(), U0::new())]; } // REFUSE	index	(0,0) of 2x0
fn p6487() { k::<U2, U0>()[(U0::new(), U0::new())] = 0; } // REFUSE	index_mut	(0,0) of 2x0
fn p6488() { let _ = k::<U2, U0>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 2x0
fn p6489() { k::<U2, U0>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 2x0
fn p6490() { let _ = k::<U2, U0>()[(U1::new(), U0::new())]; } // REFUSE	index	(1,0) of 2x0
fn p6491() { k::<U2, U0>()[(U1::new(), U0::new())] = 0; } // REFUSE	index_mut	(1,0) of 2x0
fn p6492() { let _ = k::<U2, U0>()[(U1::new(), U1::new())]; } // REFUSE	index	(1,1) of 2x0
fn p6493() { k::<U2, U0>()[(U1::new(), U1::new())] = 0; } // REFUSE	index_mut	(1,1) of 2x0
fn p6494() { let _ = k::<U2, U0>()[(U2::new(), U0::new())]; } // REFUSE	index	(2,0) of 2x0
fn p6495() { k::<U2, U0>()[(U2::new(), U0::new())] = 0; } // REFUSE	index_mut	(2,0) of 2x0
fn p6496() { let _ = k::<U2, U0>()[(U2::new(), U1::new())]; } // REFUSE	index	(2,1) of 2x0
fn p6497() { k::<U2, U0>()[(U2::new(), U1::new())] = 0; } // REFUSE	index_mut	(2,1) of 2x0
fn p6498() { let _ = k::<U2, U1>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 2x1
fn p6499() { k::<U2, U1>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 2x1
fn p6500() { let _ = k::<U2, U1>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 2x1
fn p6501() { k::<U2, U1>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 2x1
fn p6502() { let _ = k::<U2, U1>()[(U0::new(), U2::new())]; } // REFUSE	index	(0,2) of 2x1
fn p6503() { k::<U2, U1>()[(U0::new(), U2::new())] = 0; } // REFUSE	index_mut	(0,2) of 2x1
fn p6504() { let _ = k::<U2, U1>()[(U1::new(), U0::new())]; } // ACCEPT	index	(1,0) of 2x1
fn p6505() { k::<U2, U1>()[(U1::new(), U0::new())] = 0; } // ACCEPT	index_mut	(1,0) of 2x1
fn p6506() { let _ = k::<U2, U1>()[(U1::new(), U1::new())]; } // REFUSE	index	(1,1) of 2x1
fn p6507() { k::<U2, U1>()[(U1::new(), U1::new())] = 0; } // REFUSE	index_mut	(1,1) of 2x1
fn p6508() { let _ = k::<U2, U1>()[(U1::new(), U2::new())]; } // REFUSE	index	(1,2) of 2x1
fn p6509() { k::<U2, U1>()[(U1::new(), U2::new())] = 0; } // REFUSE	index_mut	(1,2) of 2x1
fn p6510() { let _ = k::<U2, U1>()[(U2::new(), U0::new())]; } // REFUSE	index	(2,0) of 2x1
fn p6511() { k::<U2, U1>()[(U2::new(), U0::new())] = 0; } // REFUSE	index_mut	(2,0) of 2x1
fn p6512() { let _ = k::<U2, U1>()[(U2::new(), U1::new())]; } // REFUSE	index	(2,1) of 2x1
fn p6513() { k::<U2, U1>()[(U2::new(), U1::new())] = 0; } // REFUSE	index_mut	(2,1) of 2x1
fn p6514() { let _ = k::<U2, U1>()[(U2::new(), U2::new())]; } // REFUSE	index	(2,2) of 2x1
fn p6515() { k::<U2, U1>()[(U2::new(), U2::new())] = 0; } // REFUSE	index_mut	(2,2) of 2x1
fn p6516() { let _ = k::<U2, U3>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 2x3
fn p6517() { k::<U2, U3>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 2x3
fn p6518() { let _ = k::<U2, U3>()[(U0::new(), U2::new())]; } // ACCEPT	index	(0,2) of 2x3
fn p6519() { k::<U2, U3>()[(U0::new(), U2::new())] = 0; } // ACCEPT	index_mut	(0,2) of 2x3
fn p6520() { let _ = k::<U2, U3>()[(U0::new(), U3::new())]; } // REFUSE	index	(0,3) of 2x3
fn p6521() { k::<U2, U3>()[(U0::new(), U3::new())] = 0; } // REFUSE	index_mut	(0,3) of 2x3
fn p6522() { let _ = k::<U2, U3>()[(U0::new(), U4::new())]; } // REFUSE	index	(0,4) of 2x3
fn p6523() { k::<U2, U3>()[(U0::new(), U4::new())] = 0; } // REFUSE	index_mut	(0,4) of 2x3
fn p6524() { let _ = k::<U2, U3>()[(U1::new(), U0::new())]; } // ACCEPT	index	(1,0) of 2x3
fn p6525() { k::<U2, U3>()[(U1::new(), U0::new())] = 0; } // ACCEPT	index_mut	(1,0) of 2x3
fn p6526() { let _ = k::<U2, U3>()[(U1::new(), U2::new())]; } // ACCEPT	index	(1,2) of 2x3
fn p6527() { k::<U2, U3>()[(U1::new(), U2::new())] = 0; } // ACCEPT	index_mut	(1,2) of 2x3
fn p6528() { let _ = k::<U2, U3>()[(U1::new(), U3::new())]; } // REFUSE	index	(1,3) of 2x3
fn p6529() { k::<U2, U3>()[(U1::new(), U3::new())] = 0; } // REFUSE	index_mut	(1,3) of 2x3
fn p6530() { let _ = k::<U2, U3>()[(U1::new(), U4::new())]; } // REFUSE	index	(1,4) of 2x3
fn p6531() { k::<U2, U3>()[(U1::new(), U4::new())] = 0; } // REFUSE	index_mut	(1,4) of 2x3
fn p6532() { let _ = k::<U2, U3>()[(U2::new(), U0::new())]; } // REFUSE	index	(2,0) of 2x3
fn p6533() { k::<U2, U3>()[(U2::new(), U0::new())] = 0; } // REFUSE	index_mut	(2,0) of 2x3
fn p6534() { let _ = k::<U2, U3>()[(U2::new(), U2::new())]; } // REFUSE	index	(2,2) of 2x3
fn p6535() { k::<U2, U3>()[(U2::new(), U2::new())] = 0; } // REFUSE	index_mut	(2,2) of 2x3
fn p6536() { let _ = k::<U2, U3>()[(U2::new(), U3::new())]; } // REFUSE	index	(2,3) of 2x3
fn p6537() { k::<U2, U3>()[(U2::new(), U3::new())] = 0; } // REFUSE	index_mut	(2,3) of 2x3
fn p6538() { let _ = k::<U2, U3>()[(U2::new(), U4::new())]; } // REFUSE	index	(2,4) of 2x3
fn p6539() { k::<U2, U3>()[(U2::new(), U4::new())] = 0; } // REFUSE	index_mut	(2,4) of 2x3
fn p6540() { let _ = k::<U2, U32>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 2x32
fn p6541() { k::<U2, U32>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 2x32
fn p6542() { let _ = k::<U2, U32>()[(U0::new(), U31::new())]; } // ACCEPT	index	(0,31) of 2x32
fn p6543() { k::<U2, U32>()[(U0::new(), U31::new())] = 0; } // ACCEPT	index_mut	(0,31) of 2x32
fn p6544() { let _ = k::<U2, U32>()[(U0::new(), U32::new())]; } // REFUSE	index	(0,32) of 2x32
fn p6545() { k::<U2, U32>()[(U0::new(), U32::new())] = 0; } // REFUSE	index_mut	(0,32) of 2x32
fn p6546() { let _ = k::<U2, U32>()[(U0::new(), U33::new())]; } // REFUSE	index	(0,33) of 2x32
fn p6547() { k::<U2, U32>()[(U0::new(), U33::new())] = 0; } // REFUSE	index_mut	(0,33) of 2x32
fn p6548() { let _ = k::<U2, U32>()[(U1::new(), U0::new())]; } // ACCEPT	index	(1,0) of 2x32
fn p6549() { k::<U2, U32>()[(U1::new(), U0::new())] = 0; } // ACCEPT	index_mut	(1,0) of 2x32
fn p6550() { let _ = k::<U2, U32>()[(U1::new(), U31::new())]; } // ACCEPT	index	(1,31) of 2x32
fn p6551() { k::<U2, U32>()[(U1::new(), U31::new())] = 0; } // ACCEPT	index_mut	(1,31) of 2x32
fn p6552() { let _ = k::<U2, U32>()[(U1::new(), U32::new())]; } // REFUSE	index	(1,32) of 2x32
fn p6553() { k::<U2, U32>()[(U1::new(), U32::new())] = 0; } // REFUSE	index_mut	(1,32) of 2x32
fn p6554() { let _ = k::<U2, U32>()[(U1::new(), U33::new())]; } // REFUSE	index	(1,33) of 2x32
fn p6555() { k::<U2, U32>()[(U1::new(), U33::new())] = 0; } // REFUSE	index_mut	(1,33) of 2x32
fn p6556() { let _ = k::<U2, U32>()[(U2::new(), U0::new())]; } // REFUSE	index	(2,0) of 2x32
fn p6557() { k::<U2, U32>()[(U2::new(), U0::new())] = 0; } // REFUSE	index_mut	(2,0) of 2x32
fn p6558() { let _ = k::<U2, U32>()[(U2::new(), U31::new())]; } // REFUSE	index	(2,31) of 2x32
fn p6559() { k::<U2, U32>()[(U2::new(), U31::new())] = 0; } // REFUSE	index_mut	(2,31) of 2x32
fn p6560() { let _ = k::<U2, U32>()[(U2::new(), U32::new())]; } // REFUSE	index	(2,32) of 2x32
fn p6561() { k::<U2, U32>()[(U2::new(), U32::new())] = 0; } // REFUSE	index_mut	(2,32) of 2x32
fn p6562() { let _ = k::<U2, U32>()[(U2::new(), U33::new())]; } // REFUSE	index	(2,33) of 2x32
fn p6563() { k::<U2, U32>()[(U2::new(), U33::new())] = 0; } // REFUSE	index_mut	(2,33) of 2x32
fn p6564() { let _ = k::<U5, U0>()[(U0::new(), U0::new())]; } // REFUSE	index	(0,0) of 5x0
fn p6565() { k::<U5, U0>()[(U0::new(), U0::new())] = 0; } // REFUSE	index_mut	(0,0) of 5x0
fn p6566() { let _ = k::<U5, U0>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 5x0
fn p6567() { k::<U5, U0>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 5x0
fn p6568() { let _ = k::<U5, U0>()[(U4::new(), U0::new())]; } // REFUSE	index	(4,0) of 5x0
fn p6569() { k::<U5, U0>()[(U4::new(), U0::new())] = 0; } // REFUSE	index_mut	(4,0) of 5x0
fn p6570() { let _ = k::<U5, U0>()[(U4::new(), U1::new())]; } // REFUSE	index	(4,1) of 5x0
fn p6571() { k::<U5, U0>()[(U4::new(), U1::new())] = 0; } // REFUSE	index_mut	(4,1) of 5x0
fn p6572() { let _ = k::<U5, U0>()[(U5::new(), U0::new())]; } // REFUSE	index	(5,0) of 5x0
fn p6573() { k::<U5, U0>()[(U5::new(), U0::new())] = 0; } // REFUSE	index_mut	(5,0) of 5x0
fn p6574() { let _ = k::<U5, U0>()[(U5::new(), U1::new())]; } // REFUSE	index	(5,1) of 5x0
fn p6575() { k::<U5, U0>()[(U5::new(), U1::new())] = 0; } // REFUSE	index_mut	(5,1) of 5x0
fn p6576() { let _ = k::<U5, U1>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 5x1
fn p6577() { k::<U5, U1>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 5x1
fn p6578() { let _ = k::<U5, U1>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 5x1
fn p6579() { k::<U5, U1>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 5x1
fn p6580() { let _ = k::<U5, U1>()[(U0::new(), U2::new())]; } // REFUSE	index	(0,2) of 5x1
fn p6581() { k::<U5, U1>()[(U0::new(), U2::new())] = 0; } // REFUSE	index_mut	(0,2) of 5x1
fn p6582() { let _ = k::<U5, U1>()[(U4::new(), U0::new())]; } // ACCEPT	index	(4,0) of 5x1
fn p6583() { k::<U5, U1>()[(U4::new(), U0::new())] = 0; } // ACCEPT	index_mut	(4,0) of 5x1
fn p6584() { let _ = k::<U5, U1>()[(U4::new(), U1::new())]; } // REFUSE	index	(4,1) of 5x1
fn p6585() { k::<U5, U1>()[(U4::new(), U1::new())] = 0; } // REFUSE	index_mut	(4,1) of 5x1
fn p6586() { let _ = k::<U5, U1>()[(U4::new(), U2::new())]; } // REFUSE	index	(4,2) of 5x1
fn p6587() { k::<U5, U1>()[(U4::new(), U2::new())] = 0; } // REFUSE	index_mut	(4,2) of 5x1
fn p6588() { let _ = k::<U5, U1>()[(U5::new(), U0::new())]; } // REFUSE	index	(5,0) of 5x1
fn p6589() { k::<U5, U1>()[(U5::new(), U0::new())] = 0; } // REFUSE	index_mut	(5,0) of 5x1
fn p6590() { let _ = k::<U5, U1>()[(U5::new(), U1::new())]; } // REFUSE	index	(5,1) of 5x1
fn p6591() { k::<U5, U1>()[(U5::new(), U1::new())] = 0; } // REFUSE	index_mut	(5,1) of 5x1
fn p6592() { let _ = k::<U5, U1>()[(U5::new(), U2::new())]; } // REFUSE	index	(5,2) of 5x1
fn p6593() { k::<U5, U1>()[(U5::new(), U2::new())] = 0; } // REFUSE	index_mut	(5,2) of 5x1
fn p6594() { let _ = k::<U5, U3>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 5x3
fn p6595() { k::<U5, U3>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 5x3
fn p6596() { let _ = k::<U5, U3>()[(U0::new(), U2::new())]; } // ACCEPT	index	(0,2) of 5x3
fn p6597() { k::<U5, U3>()[(U0::new(), U2::new())] = 0; } // ACCEPT	index_mut	(0,2) of 5x3
fn p6598() { let _ = k::<U5, U3>()[(U0::new(), U3::new())]; } // REFUSE	index	(0,3) of 5x3
fn p6599() { k::<U5, U3>()[(U0::new(), U3::new())] = 0; } // REFUSE	index_mut	(0,3) of 5x3
fn p6600() { let _ = k::<U5, U3>()[(U0::new(), U4::new())]; } // REFUSE	index	(0,4) of 5x3
fn p6601() { k::<U5, U3>()[(U0::new(), U4::new())] = 0; } // REFUSE	index_mut	(0,4) of 5x3
fn p6602() { let _ = k::<U5, U3>()[(U4::new(), U0::new())]; } // ACCEPT	index	(4,0) of 5x3
fn p6603() { k::<U5, U3>()[(U4::new(), U0::new())] = 0; } // ACCEPT	index_mut	(4,0) of 5x3
fn p6604() { let _ = k::<U5, U3>()[(U4::new(), U2::new())]; } // ACCEPT	index	(4,2) of 5x3
fn p6605() { k::<U5, U3>()[(U4::new(), U2::new())] = 0; } // ACCEPT	index_mut	(4,2) of 5x3
fn p6606() { let _ = k::<U5, U3>()[(U4::new(), U3::new())]; } // REFUSE	index	(4,3) of 5x3
fn p6607() { k::<U5, U3>()[(U4::new(), U3::new())] = 0; } // REFUSE	index_mut	(4,3) of 5x3
fn p6608() { let _ = k::<U5, U3>()[(U4::new(), U4::new())]; } // REFUSE	index	(4,4) of 5x3
fn p6609() { k::<U5, U3>()[(U4::new(), U4::new())] = 0; } // REFUSE	index_mut	(4,4) of 5x3
fn p6610() { let _ = k::<U5, U3>()[(U5::new(), U0::new())]; } // REFUSE	index	(5,0) of 5x3
fn p6611() { k::<U5, U3>()[(U5::new(), U0::new())] = 0; } // REFUSE	index_mut	(5,0) of 5x3
fn p6612() { let _ = k::<U5, U3>()[(U5::new(), U2::new())]; } // REFUSE	index	(5,2) of 5x3
fn p6613() { k::<U5, U3>()[(U5::new(), U2::new())] = 0; } // REFUSE	index_mut	(5,2) of 5x3
fn p6614() { let _ = k::<U5, U3>()[(U5::new(), U3::new())]; } // REFUSE	index	(5,3) of 5x3
fn p6615() { k::<U5, U3>()[(U5::new(), U3::new())] = 0; } // REFUSE	index_mut	(5,3) of 5x3
fn p6616() { let _ = k::<U5, U3>()[(U5::new(), U4::new())]; } // REFUSE	index	(5,4) of 5x3
fn p6617() { k::<U5, U3>()[(U5::new(), U4::new())] = 0; } // REFUSE	index_mut	(5,4) of 5x3
fn p6618() { let _ = k::<U5, U32>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 5x32
fn p6619() { k::<U5, U32>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 5x32
fn p6620() { let _ = k::<U5, U32>()[(U0::new(), U31::new())]; } // ACCEPT	index	(0,31) of 5x32
fn p6621() { k::<U5, U32>()[(U0::new(), U31::new())] = 0; } // ACCEPT	index_mut	(0,31) of 5x32
fn p6622() { let _ = k::<U5, U32>()[(U0::new(), U32::new())]; } // REFUSE	index	(0,32) of 5x32
fn p6623() { k::<U5, U32>()[(U0::new(), U32::new())] = 0; } // REFUSE	index_mut	(0,32) of 5x32
fn p6624() { let _ = k::<U5, U32>()[(U0::new(), U33::new())]; } // REFUSE	index	(0,33) of 5x32
fn p6625() { k::<U5, U32>()[(U0::new(), U33::new())] = 0; } // REFUSE	index_mut	(0,33) of 5x32
fn p6626() { let _ = k::<U5, U32>()[(U4::new(), U0::new())]; } // ACCEPT	index	(4,0) of 5x32
fn p6627() { k::<U5, U32>()[(U4::new(), U0::new())] = 0; } // ACCEPT	index_mut	(4,0) of 5x32
fn p6628() { let _ = k::<U5, U32>()[(U4::new(), U31::new())]; } // ACCEPT	index	(4,31) of 5x32
fn p6629() { k::<U5, U32>()[(U4::new(), U31::new())] = 0; } // ACCEPT	index_mut	(4,31) of 5x32
fn p6630() { let _ = k::<U5, U32>()[(U4::new(), U32::new())]; } // REFUSE	index	(4,32) of 5x32
fn p6631() { k::<U5, U32>()[(U4::new(), U32::new())] = 0; } // REFUSE	index_mut	(4,32) of 5x32
fn p6632() { let _ = k::<U5, U32>()[(U4::new(), U33::new())]; } // REFUSE	index	(4,33) of 5x32
fn p6633() { k::<U5, U32>()[(U4::new(), U33::new())] = 0; } // REFUSE	index_mut	(4,33) of 5x32
fn p6634() { let _ = k::<U5, U32>()[(U5::new(), U0::new())]; } // REFUSE	index	(5,0) of 5x32
fn p6635() { k::<U5, U32>()[(U5::new(), U0::new())] = 0; } // REFUSE	index_mut	(5,0) of 5x32
fn p6636() { let _ = k::<U5, U32>()[(U5::new(), U31::new())]; } // REFUSE	index	(5,31) of 5x32
fn p6637() { k::<U5, U32>()[(U5::new(), U31::new())] = 0; } // REFUSE	index_mut	(5,31) of 5x32
fn p6638() { let _ = k::<U5, U32>()[(U5::new(), U32::new())]; } // REFUSE	index	(5,32) of 5x32
fn p6639() { k::<U5, U32>()[(U5::new(), U32::new())] = 0; } // REFUSE	index_mut	(5,32) of 5x32
fn p6640() { let _ = k::<U5, U32>()[(U5::new(), U33::new())]; } // REFUSE	index	(5,33) of 5x32
fn p6641() { k::<U5, U32>()[(U5::new(), U33::new())] = 0; } // REFUSE	index_mut	(5,33) of 5x32
fn p6642() { let _ = k::<U32, U0>()[(U0::new(), U0::new())]; } // REFUSE	index	(0,0) of 32x0
fn p6643() { k::<U32, U0>()[(U0::new(), U0::new())] = 0; } // REFUSE	index_mut	(0,0) of 32x0
fn p6644() { let _ = k::<U32, U0>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 32x0
fn p6645() { k::<U32, U0>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 32x0
fn p6646() { let _ = k::<U32, U0>()[(U31::new(), U0::new())]; } // REFUSE	index	(31,0) of 32x0
fn p6647() { k::<U32, U0>()[(U31::new(), U0::new())] = 0; } // REFUSE	index_mut	(31,0) of 32x0
fn p6648() { let _ = k::<U32, U0>()[(U31::new(), U1::new())]; } // REFUSE	index	(31,1) of 32x0
fn p6649() { k::<U32, U0>()[(U31::new(), U1::new())] = 0; } // REFUSE	index_mut	(31,1) of 32x0
fn p6650() { let _ = k::<U32, U0>()[(U32::new(), U0::new())]; } // REFUSE	index	(32,0) of 32x0
fn p6651() { k::<U32, U0>()[(U32::new(), U0::new())] = 0; } // REFUSE	index_mut	(32,0) of 32x0
fn p6652() { let _ = k::<U32, U0>()[(U32::new(), U1::new())]; } // REFUSE	index	(32,1) of 32x0
fn p6653() { k::<U32, U0>()[(U32::new(), U1::new())] = 0; } // REFUSE	index_mut	(32,1) of 32x0
fn p6654() { let _ = k::<U32, U1>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 32x1
fn p6655() { k::<U32, U1>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 32x1
fn p6656() { let _ = k::<U32, U1>()[(U0::new(), U1::new())]; } // REFUSE	index	(0,1) of 32x1
fn p6657() { k::<U32, U1>()[(U0::new(), U1::new())] = 0; } // REFUSE	index_mut	(0,1) of 32x1
fn p6658() { let _ = k::<U32, U1>()[(U0::new(), U2::new())]; } // REFUSE	index	(0,2) of 32x1
fn p6659() { k::<U32, U1>()[(U0::new(), U2::new())] = 0; } // REFUSE	index_mut	(0,2) of 32x1
fn p6660() { let _ = k::<U32, U1>()[(U31::new(), U0::new())]; } // ACCEPT	index	(31,0) of 32x1
fn p6661() { k::<U32, U1>()[(U31::new(), U0::new())] = 0; } // ACCEPT	index_mut	(31,0) of 32x1
fn p6662() { let _ = k::<U32, U1>()[(U31::new(), U1::new())]; } // REFUSE	index	(31,1) of 32x1
fn p6663() { k::<U32, U1>()[(U31::new(), U1::new())] = 0; } // REFUSE	index_mut	(31,1) of 32x1
fn p6664() { let _ = k::<U32, U1>()[(U31::new(), U2::new())]; } // REFUSE	index	(31,2) of 32x1
fn p6665() { k::<U32, U1>()[(U31::new(), U2::new())] = 0; } // REFUSE	index_mut	(31,2) of 32x1
fn p6666() { let _ = k::<U32, U1>()[(U32::new(), U0::new())]; } // REFUSE	index	(32,0) of 32x1
fn p6667() { k::<U32, U1>()[(U32::new(), U0::new())] = 0; } // REFUSE	index_mut	(32,0) of 32x1
fn p6668() { let _ = k::<U32, U1>()[(U32::new(), U1::new())]; } // REFUSE	index	(32,1) of 32x1
fn p6669() { k::<U32, U1>()[(U32::new(), U1::new())] = 0; } // REFUSE	index_mut	(32,1) of 32x1
fn p6670() { let _ = k::<U32, U1>()[(U32::new(), U2::new())]; } // REFUSE	index	(32,2) of 32x1
fn p6671() { k::<U32, U1>()[(U32::new(), U2::new())] = 0; } // REFUSE	index_mut	(32,2) of 32x1
fn p6672() { let _ = k::<U32, U3>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 32x3
fn p6673() { k::<U32, U3>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 32x3
fn p6674() { let _ = k::<U32, U3>()[(U0::new(), U2::new())]; } // ACCEPT	index	(0,2) of 32x3
fn p6675() { k::<U32, U3>()[(U0::new(), U2::new())] = 0; } // ACCEPT	index_mut	(0,2) of 32x3
fn p6676() { let _ = k::<U32, U3>()[(U0::new(), U3::new())]; } // REFUSE	index	(0,3) of 32x3
fn p6677() { k::<U32, U3>()[(U0::new(), U3::new())] = 0; } // REFUSE	index_mut	(0,3) of 32x3
fn p6678() { let _ = k::<U32, U3>()[(U0::new(), U4::new())]; } // REFUSE	index	(0,4) of 32x3
fn p6679() { k::<U32, U3>()[(U0::new(), U4::new())] = 0; } // REFUSE	index_mut	(0,4) of 32x3
fn p6680() { let _ = k::<U32, U3>()[(U31::new(), U0::new())]; } // ACCEPT	index	(31,0) of 32x3
fn p6681() { k::<U32, U3>()[(U31::new(), U0::new())] = 0; } // ACCEPT	index_mut	(31,0) of 32x3
fn p6682() { let _ = k::<U32, U3>()[(U31::new(), U2::new())]; } // ACCEPT	index	(31,2) of 32x3
fn p6683() { k::<U32, U3>()[(U31::new(), U2::new())] = 0; } // ACCEPT	index_mut	(31,2) of 32x3
fn p6684() { let _ = k::<U32, U3>()[(U31::new(), U3::new())]; } // REFUSE	index	(31,3) of 32x3
fn p6685() { k::<U32, U3>()[(U31::new(), U3::new())] = 0; } // REFUSE	index_mut	(31,3) of 32x3
fn p6686() { let _ = k::<U32, U3>()[(U31::new(), U4::new())]; } // REFUSE	index	(31,4) of 32x3
fn p6687() { k::<U32, U3>()[(U31::new(), U4::new())] = 0; } // REFUSE	index_mut	(31,4) of 32x3
fn p6688() { let _ = k::<U32, U3>()[(U32::new(), U0::new())]; } // REFUSE	index	(32,0) of 32x3
fn p6689() { k::<U32, U3>()[(U32::new(), U0::new())] = 0; } // REFUSE	index_mut	(32,0) of 32x3
fn p6690() { let _ = k::<U32, U3>()[(U32::new(), U2::new())]; } // REFUSE	index	(32,2) of 32x3
fn p6691() { k::<U32, U3>()[(U32::new(), U2::new())] = 0; } // REFUSE	index_mut	(32,2) of 32x3
fn p6692() { let _ = k::<U32, U3>()[(U32::new(), U3::new())]; } // REFUSE	index	(32,3) of 32x3
fn p6693() { k::<U32, U3>()[(U32::new(), U3::new())] = 0; } // REFUSE	index_mut	(32,3) of 32x3
fn p6694() { let _ = k::<U32, U3>()[(U32::new(), U4::new())]; } // REFUSE	index	(32,4) of 32x3
fn p6695() { k::<U32, U3>()[(U32::new(), U4::new())] = 0; } // REFUSE	index_mut	(32,4) of 32x3
fn p6696() { let _ = k::<U32, U32>()[(U0::new(), U0::new())]; } // ACCEPT	index	(0,0) of 32x32
fn p6697() { k::<U32, U32>()[(U0::new(), U0::new())] = 0; } // ACCEPT	index_mut	(0,0) of 32x32
fn p6698() { let _ = k::<U32, U32>()[(U0::new(), U31::new())]; } // ACCEPT	index	(0,31) of 32x32
fn p6699() { k::<U32, U32>()[(U0::new(), U31::new())] = 0; } // ACCEPT	index_mut	(0,31) of 32x32
fn p6700() { let _ = k::<U32, U32>()[(U0::new(), U32::new())]; } // REFUSE	index	(0,32) of 32x32
fn p6701() { k::<U32, U32>()[(U0::new(), U32::new())] = 0; } // REFUSE	index_mut	(0,32) of 32x32
fn p6702() { let _ = k::<U32, U32>()[(U0::new(), U33::new())]; } // REFUSE	index	(0,33) of 32x32
fn p6703() { k::<U32, U32>()[(U0::new(), U33::new())] = 0; } // REFUSE	index_mut	(0,33) of 32x32
fn p6704() { let _ = k::<U32, U32>()[(U31::new(), U0::new())]; } // ACCEPT	index	(31,0) of 32x32
fn p6705() { k::<U32, U32>()[(U31::new(), U0::new())] = 0; } // ACCEPT	index_mut	(31,0) of 32x32
fn p6706() { let _ = k::<U32, U32>()[(U31::new(), U31::new())]; } // ACCEPT	index	(31,31) of 32x32
fn p6707() { k::<U32, U32>()[(U31::new(), U31::new())] = 0; } // ACCEPT	index_mut	(31,31) of 32x32
fn p6708() { let _ = k::<U32, U32>()[(U31::new(), U32::new())]; } // REFUSE	index	(31,32) of 32x32
fn p6709() { k::<U32, U32>()[(U31::new(), U32::new())] = 0; } // REFUSE	index_mut	(31,32) of 32x32
fn p6710() { let _ = k::<U32, U32>()[(U31::new(), U33::new())]; } // REFUSE	index	(31,33) of 32x32
fn p6711() { k::<U32, U32>()[(U31::new(), U33::new())] = 0; } // REFUSE	index_mut	(31,33) of 32x32
fn p6712() { let _ = k::<U32, U32>()[(U32::new(), U0::new())]; } // REFUSE	index	(32,0) of 32x32
fn p6713() { k::<U32, U32>()[(U32::new(), U0::new())] = 0; } // REFUSE	index_mut	(32,0) of 32x32
fn p6714() { let _ = k::<U32, U32>()[(U32::new(), U31::new())]; } // REFUSE	index	(32,31) of 32x32
fn p6715() { k::<U32, U32>()[(U32::new(), U31::new())] = 0; } // REFUSE	index_mut	(32,31) of 32x32
fn p6716() { let _ = k::<U32, U32>()[(U32::new(), U32::new())]; } // REFUSE	index	(32,32) of 32x32
fn p6717() { k::<U32, U32>()[(U32::new(), U32::new())] = 0; } // REFUSE	index_mut	(32,32) of 32x32
fn p6718() { let _ = k::<U32, U32>()[(U32::new(), U33::new())]; } // REFUSE	index	(32,33) of 32x32
fn p6719() { k::<U32, U32>()[(U32::new(), U33::new())] = 0; } // REFUSE	index_mut	(32,33) of 32x32
