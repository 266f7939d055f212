//! Generated by gen_probes.py: not run, only type- and borrow-checked; each marked line must (not) be an error.
#![allow(unused)]
#[macro_use]
extern crate rowcol;
use rowcol::prelude::*;
use rowcol::vector::{IntoIter, Chunks};
use rowcol::matrix::iter::*;
use num::{One, Zero};
type V = Vector<String, U4>;
type M = Matrix<String, U2, U2>;
type N = Matrix<i64, U2, U2>;
type W = Vector<i64, U4>;
fn v() -> V { Vector::default() }
fn m() -> M { Matrix::default() }
fn n() -> N { Matrix::default() }
fn w() -> W { Vector::default() }
fn rr() -> Vector<Vector<String, U2>, U2> { Vector::default() }
fn main() {}
fn p1() { let mut v = v(); let a = v.iter(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.iter(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0);
fn p2() { let mut v = v(); let a = v.iter(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.iter(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a');
fn p3() { let mut v = v(); let a = v.iter(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.iter(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0);
fn p4() { let mut v = v(); let a = v.iter(); let _b = (&a, 0); v.as_slice_mut()[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.iter(); let _b = (&a, 0); v.as_slice_mut()[0].push('a');
fn p5() { let mut v = v(); let a = v.iter(); v[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.iter(); v[0].push('a'); let _b = (&a, 0);
fn p6() { let mut v = v(); let a = v.iter(); let _b = (&a, 0); v[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.iter(); let _b = (&a, 0); v[0].push('a');
fn p7() { let mut v = v(); let a = v.iter(); v[U1::new()].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.iter(); v[U1::new()].push('a'); let _b = (&a, 0);
fn p8() { let mut v = v(); let a = v.iter(); let _b = (&a, 0); v[U1::new()].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.iter(); let _b = (&a, 0); v[U1::new()].push('a');
fn p9() { let mut v = v(); let a = v.iter(); v.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.iter(); v.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p10() { let mut v = v(); let a = v.iter(); let _b = (&a, 0); v.clamp(String::new(), String::new()); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.iter(); let _b = (&a, 0); v.clamp(String::new(), String::new());
fn p11() { let mut v = v(); let a = v.iter(); (*v)[1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.iter(); (*v)[1].push('a'); let _b = (&a, 0);
fn p12() { let mut v = v(); let a = v.iter(); let _b = (&a, 0); (*v)[1].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.iter(); let _b = (&a, 0); (*v)[1].push('a');
fn p13() { let mut v = v(); let a = v.iter(); v = Vector::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.iter(); v = Vector::default(); let _b = (&a, 0);
fn p14() { let mut v = v(); let a = v.iter(); let _b = (&a, 0); v = Vector::default(); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.iter(); let _b = (&a, 0); v = Vector::default();
fn p15() { let mut v = v(); let a = v.iter(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.iter(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0);
fn p16() { let mut v = v(); let a = v.iter(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default()); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.iter(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default());
fn p17() { let mut v = v(); let a = v.as_slice(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0);
fn p18() { let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a');
fn p19() { let mut v = v(); let a = v.as_slice(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0);
fn p20() { let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v.as_slice_mut()[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v.as_slice_mut()[0].push('a');
fn p21() { let mut v = v(); let a = v.as_slice(); v[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice(); v[0].push('a'); let _b = (&a, 0);
fn p22() { let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v[0].push('a');
fn p23() { let mut v = v(); let a = v.as_slice(); v[U1::new()].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice(); v[U1::new()].push('a'); let _b = (&a, 0);
fn p24() { let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v[U1::new()].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v[U1::new()].push('a');
fn p25() { let mut v = v(); let a = v.as_slice(); v.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice(); v.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p26() { let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v.clamp(String::new(), String::new()); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v.clamp(String::new(), String::new());
fn p27() { let mut v = v(); let a = v.as_slice(); (*v)[1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice(); (*v)[1].push('a'); let _b = (&a, 0);
fn p28() { let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); (*v)[1].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); (*v)[1].push('a');
fn p29() { let mut v = v(); let a = v.as_slice(); v = Vector::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice(); v = Vector::default(); let _b = (&a, 0);
fn p30() { let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v = Vector::default(); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); v = Vector::default();
fn p31() { let mut v = v(); let a = v.as_slice(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0);
fn p32() { let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default()); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default());
fn p33() { let mut v = v(); let a = &v[1]; v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[1]; v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0);
fn p34() { let mut v = v(); let a = &v[1]; let _b = (&a, 0); v.iter_mut().next().unwrap().push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[1]; let _b = (&a, 0); v.iter_mut().next().unwrap().push('a');
fn p35() { let mut v = v(); let a = &v[1]; v.as_slice_mut()[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[1]; v.as_slice_mut()[0].push('a'); let _b = (&a, 0);
fn p36() { let mut v = v(); let a = &v[1]; let _b = (&a, 0); v.as_slice_mut()[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[1]; let _b = (&a, 0); v.as_slice_mut()[0].push('a');
fn p37() { let mut v = v(); let a = &v[1]; v[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[1]; v[0].push('a'); let _b = (&a, 0);
fn p38() { let mut v = v(); let a = &v[1]; let _b = (&a, 0); v[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[1]; let _b = (&a, 0); v[0].push('a');
fn p39() { let mut v = v(); let a = &v[1]; v[U1::new()].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[1]; v[U1::new()].push('a'); let _b = (&a, 0);
fn p40() { let mut v = v(); let a = &v[1]; let _b = (&a, 0); v[U1::new()].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[1]; let _b = (&a, 0); v[U1::new()].push('a');
fn p41() { let mut v = v(); let a = &v[1]; v.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[1]; v.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p42() { let mut v = v(); let a = &v[1]; let _b = (&a, 0); v.clamp(String::new(), String::new()); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[1]; let _b = (&a, 0); v.clamp(String::new(), String::new());
fn p43() { let mut v = v(); let a = &v[1]; (*v)[1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[1]; (*v)[1].push('a'); let _b = (&a, 0);
fn p44() { let mut v = v(); let a = &v[1]; let _b = (&a, 0); (*v)[1].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[1]; let _b = (&a, 0); (*v)[1].push('a');
fn p45() { let mut v = v(); let a = &v[1]; v = Vector::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[1]; v = Vector::default(); let _b = (&a, 0);
fn p46() { let mut v = v(); let a = &v[1]; let _b = (&a, 0); v = Vector::default(); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[1]; let _b = (&a, 0); v = Vector::default();
fn p47() { let mut v = v(); let a = &v[1]; std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[1]; std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0);
fn p48() { let mut v = v(); let a = &v[1]; let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default()); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[1]; let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default());
fn p49() { let mut v = v(); let a = &v[U1::new()]; v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[U1::new()]; v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0);
fn p50() { let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v.iter_mut().next().unwrap().push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v.iter_mut().next().unwrap().push('a');
fn p51() { let mut v = v(); let a = &v[U1::new()]; v.as_slice_mut()[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[U1::new()]; v.as_slice_mut()[0].push('a'); let _b = (&a, 0);
fn p52() { let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v.as_slice_mut()[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v.as_slice_mut()[0].push('a');
fn p53() { let mut v = v(); let a = &v[U1::new()]; v[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[U1::new()]; v[0].push('a'); let _b = (&a, 0);
fn p54() { let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v[0].push('a');
fn p55() { let mut v = v(); let a = &v[U1::new()]; v[U1::new()].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[U1::new()]; v[U1::new()].push('a'); let _b = (&a, 0);
fn p56() { let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v[U1::new()].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v[U1::new()].push('a');
fn p57() { let mut v = v(); let a = &v[U1::new()]; v.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[U1::new()]; v.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p58() { let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v.clamp(String::new(), String::new()); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v.clamp(String::new(), String::new());
fn p59() { let mut v = v(); let a = &v[U1::new()]; (*v)[1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[U1::new()]; (*v)[1].push('a'); let _b = (&a, 0);
fn p60() { let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); (*v)[1].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); (*v)[1].push('a');
fn p61() { let mut v = v(); let a = &v[U1::new()]; v = Vector::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[U1::new()]; v = Vector::default(); let _b = (&a, 0);
fn p62() { let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v = Vector::default(); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); v = Vector::default();
fn p63() { let mut v = v(); let a = &v[U1::new()]; std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = &v[U1::new()]; std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0);
fn p64() { let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default()); } // ACCEPT	change after the borrow	let mut v = v(); let a = &v[U1::new()]; let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default());
fn p65() { let mut v = v(); let a = v.as_slice().iter(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice().iter(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0);
fn p66() { let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a');
fn p67() { let mut v = v(); let a = v.as_slice().iter(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice().iter(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0);
fn p68() { let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v.as_slice_mut()[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v.as_slice_mut()[0].push('a');
fn p69() { let mut v = v(); let a = v.as_slice().iter(); v[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice().iter(); v[0].push('a'); let _b = (&a, 0);
fn p70() { let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v[0].push('a');
fn p71() { let mut v = v(); let a = v.as_slice().iter(); v[U1::new()].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice().iter(); v[U1::new()].push('a'); let _b = (&a, 0);
fn p72() { let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v[U1::new()].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v[U1::new()].push('a');
fn p73() { let mut v = v(); let a = v.as_slice().iter(); v.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice().iter(); v.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p74() { let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v.clamp(String::new(), String::new()); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v.clamp(String::new(), String::new());
fn p75() { let mut v = v(); let a = v.as_slice().iter(); (*v)[1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice().iter(); (*v)[1].push('a'); let _b = (&a, 0);
fn p76() { let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); (*v)[1].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); (*v)[1].push('a');
fn p77() { let mut v = v(); let a = v.as_slice().iter(); v = Vector::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice().iter(); v = Vector::default(); let _b = (&a, 0);
fn p78() { let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v = Vector::default(); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); v = Vector::default();
fn p79() { let mut v = v(); let a = v.as_slice().iter(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = v.as_slice().iter(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0);
fn p80() { let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default()); } // ACCEPT	change after the borrow	let mut v = v(); let a = v.as_slice().iter(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default());
fn p81() { let mut v = v(); let a = (*v).iter(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = (*v).iter(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0);
fn p82() { let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a');
fn p83() { let mut v = v(); let a = (*v).iter(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = (*v).iter(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0);
fn p84() { let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v.as_slice_mut()[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v.as_slice_mut()[0].push('a');
fn p85() { let mut v = v(); let a = (*v).iter(); v[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = (*v).iter(); v[0].push('a'); let _b = (&a, 0);
fn p86() { let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v[0].push('a');
fn p87() { let mut v = v(); let a = (*v).iter(); v[U1::new()].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = (*v).iter(); v[U1::new()].push('a'); let _b = (&a, 0);
fn p88() { let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v[U1::new()].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v[U1::new()].push('a');
fn p89() { let mut v = v(); let a = (*v).iter(); v.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = (*v).iter(); v.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p90() { let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v.clamp(String::new(), String::new()); } // ACCEPT	change after the borrow	let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v.clamp(String::new(), String::new());
fn p91() { let mut v = v(); let a = (*v).iter(); (*v)[1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = (*v).iter(); (*v)[1].push('a'); let _b = (&a, 0);
fn p92() { let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); (*v)[1].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); (*v)[1].push('a');
fn p93() { let mut v = v(); let a = (*v).iter(); v = Vector::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = (*v).iter(); v = Vector::default(); let _b = (&a, 0);
fn p94() { let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v = Vector::default(); } // ACCEPT	change after the borrow	let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); v = Vector::default();
fn p95() { let mut v = v(); let a = (*v).iter(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a = (*v).iter(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0);
fn p96() { let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default()); } // ACCEPT	change after the borrow	let mut v = v(); let a = (*v).iter(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default());
fn p97() { let mut v = v(); let a: &[String] = v.as_ref(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a: &[String] = v.as_ref(); v.iter_mut().next().unwrap().push('a'); let _b = (&a, 0);
fn p98() { let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v.iter_mut().next().unwrap().push('a');
fn p99() { let mut v = v(); let a: &[String] = v.as_ref(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a: &[String] = v.as_ref(); v.as_slice_mut()[0].push('a'); let _b = (&a, 0);
fn p100() { let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v.as_slice_mut()[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v.as_slice_mut()[0].push('a');
fn p101() { let mut v = v(); let a: &[String] = v.as_ref(); v[0].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a: &[String] = v.as_ref(); v[0].push('a'); let _b = (&a, 0);
fn p102() { let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v[0].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v[0].push('a');
fn p103() { let mut v = v(); let a: &[String] = v.as_ref(); v[U1::new()].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a: &[String] = v.as_ref(); v[U1::new()].push('a'); let _b = (&a, 0);
fn p104() { let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v[U1::new()].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v[U1::new()].push('a');
fn p105() { let mut v = v(); let a: &[String] = v.as_ref(); v.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a: &[String] = v.as_ref(); v.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p106() { let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v.clamp(String::new(), String::new()); } // ACCEPT	change after the borrow	let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v.clamp(String::new(), String::new());
fn p107() { let mut v = v(); let a: &[String] = v.as_ref(); (*v)[1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a: &[String] = v.as_ref(); (*v)[1].push('a'); let _b = (&a, 0);
fn p108() { let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); (*v)[1].push('a'); } // ACCEPT	change after the borrow	let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); (*v)[1].push('a');
fn p109() { let mut v = v(); let a: &[String] = v.as_ref(); v = Vector::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a: &[String] = v.as_ref(); v = Vector::default(); let _b = (&a, 0);
fn p110() { let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v = Vector::default(); } // ACCEPT	change after the borrow	let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); v = Vector::default();
fn p111() { let mut v = v(); let a: &[String] = v.as_ref(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = v(); let a: &[String] = v.as_ref(); std::mem::swap(&mut v, &mut Vector::default()); let _b = (&a, 0);
fn p112() { let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default()); } // ACCEPT	change after the borrow	let mut v = v(); let a: &[String] = v.as_ref(); let _b = (&a, 0); std::mem::swap(&mut v, &mut Vector::default());
fn p113() { let mut v = v(); let a = v.iter_mut(); { let a = v.iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.iter_mut(); { let a = v.iter(); let _b = (&a, 0); } let _c = a;
fn p114() { let mut v = v(); let a = v.iter_mut(); { let a = v.as_slice(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.iter_mut(); { let a = v.as_slice(); let _b = (&a, 0); } let _c = a;
fn p115() { let mut v = v(); let a = v.iter_mut(); { let a = &v[1]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.iter_mut(); { let a = &v[1]; let _b = (&a, 0); } let _c = a;
fn p116() { let mut v = v(); let a = v.iter_mut(); { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.iter_mut(); { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a;
fn p117() { let mut v = v(); let a = v.iter_mut(); { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.iter_mut(); { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a;
fn p118() { let mut v = v(); let a = v.iter_mut(); { let a = (*v).iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.iter_mut(); { let a = (*v).iter(); let _b = (&a, 0); } let _c = a;
fn p119() { let mut v = v(); let a = v.iter_mut(); { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.iter_mut(); { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a;
fn p120() { let mut v = v(); let a = v.iter_mut(); let b = v.iter_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.iter_mut(); let b = v.iter_mut(); let _c = (a, b);
fn p121() { let mut v = v(); let a = v.iter_mut(); let b = v.as_slice_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.iter_mut(); let b = v.as_slice_mut(); let _c = (a, b);
fn p122() { let mut v = v(); let a = v.iter_mut(); let b = &mut v[1]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.iter_mut(); let b = &mut v[1]; let _c = (a, b);
fn p123() { let mut v = v(); let a = v.iter_mut(); let b = &mut v[U1::new()]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.iter_mut(); let b = &mut v[U1::new()]; let _c = (a, b);
fn p124() { let mut v = v(); let a = v.iter_mut(); let b = &mut *v; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.iter_mut(); let b = &mut *v; let _c = (a, b);
fn p125() { let mut v = v(); let a = v.as_slice_mut(); { let a = v.iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.as_slice_mut(); { let a = v.iter(); let _b = (&a, 0); } let _c = a;
fn p126() { let mut v = v(); let a = v.as_slice_mut(); { let a = v.as_slice(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.as_slice_mut(); { let a = v.as_slice(); let _b = (&a, 0); } let _c = a;
fn p127() { let mut v = v(); let a = v.as_slice_mut(); { let a = &v[1]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.as_slice_mut(); { let a = &v[1]; let _b = (&a, 0); } let _c = a;
fn p128() { let mut v = v(); let a = v.as_slice_mut(); { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.as_slice_mut(); { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a;
fn p129() { let mut v = v(); let a = v.as_slice_mut(); { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.as_slice_mut(); { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a;
fn p130() { let mut v = v(); let a = v.as_slice_mut(); { let a = (*v).iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.as_slice_mut(); { let a = (*v).iter(); let _b = (&a, 0); } let _c = a;
fn p131() { let mut v = v(); let a = v.as_slice_mut(); { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = v.as_slice_mut(); { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a;
fn p132() { let mut v = v(); let a = v.as_slice_mut(); let b = v.iter_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.as_slice_mut(); let b = v.iter_mut(); let _c = (a, b);
fn p133() { let mut v = v(); let a = v.as_slice_mut(); let b = v.as_slice_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.as_slice_mut(); let b = v.as_slice_mut(); let _c = (a, b);
fn p134() { let mut v = v(); let a = v.as_slice_mut(); let b = &mut v[1]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.as_slice_mut(); let b = &mut v[1]; let _c = (a, b);
fn p135() { let mut v = v(); let a = v.as_slice_mut(); let b = &mut v[U1::new()]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.as_slice_mut(); let b = &mut v[U1::new()]; let _c = (a, b);
fn p136() { let mut v = v(); let a = v.as_slice_mut(); let b = &mut *v; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = v.as_slice_mut(); let b = &mut *v; let _c = (a, b);
fn p137() { let mut v = v(); let a = &mut v[1]; { let a = v.iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[1]; { let a = v.iter(); let _b = (&a, 0); } let _c = a;
fn p138() { let mut v = v(); let a = &mut v[1]; { let a = v.as_slice(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[1]; { let a = v.as_slice(); let _b = (&a, 0); } let _c = a;
fn p139() { let mut v = v(); let a = &mut v[1]; { let a = &v[1]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[1]; { let a = &v[1]; let _b = (&a, 0); } let _c = a;
fn p140() { let mut v = v(); let a = &mut v[1]; { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[1]; { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a;
fn p141() { let mut v = v(); let a = &mut v[1]; { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[1]; { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a;
fn p142() { let mut v = v(); let a = &mut v[1]; { let a = (*v).iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[1]; { let a = (*v).iter(); let _b = (&a, 0); } let _c = a;
fn p143() { let mut v = v(); let a = &mut v[1]; { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[1]; { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a;
fn p144() { let mut v = v(); let a = &mut v[1]; let b = v.iter_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[1]; let b = v.iter_mut(); let _c = (a, b);
fn p145() { let mut v = v(); let a = &mut v[1]; let b = v.as_slice_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[1]; let b = v.as_slice_mut(); let _c = (a, b);
fn p146() { let mut v = v(); let a = &mut v[1]; let b = &mut v[1]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[1]; let b = &mut v[1]; let _c = (a, b);
fn p147() { let mut v = v(); let a = &mut v[1]; let b = &mut v[U1::new()]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[1]; let b = &mut v[U1::new()]; let _c = (a, b);
fn p148() { let mut v = v(); let a = &mut v[1]; let b = &mut *v; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[1]; let b = &mut *v; let _c = (a, b);
fn p149() { let mut v = v(); let a = &mut v[U1::new()]; { let a = v.iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[U1::new()]; { let a = v.iter(); let _b = (&a, 0); } let _c = a;
fn p150() { let mut v = v(); let a = &mut v[U1::new()]; { let a = v.as_slice(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[U1::new()]; { let a = v.as_slice(); let _b = (&a, 0); } let _c = a;
fn p151() { let mut v = v(); let a = &mut v[U1::new()]; { let a = &v[1]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[U1::new()]; { let a = &v[1]; let _b = (&a, 0); } let _c = a;
fn p152() { let mut v = v(); let a = &mut v[U1::new()]; { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[U1::new()]; { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a;
fn p153() { let mut v = v(); let a = &mut v[U1::new()]; { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[U1::new()]; { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a;
fn p154() { let mut v = v(); let a = &mut v[U1::new()]; { let a = (*v).iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[U1::new()]; { let a = (*v).iter(); let _b = (&a, 0); } let _c = a;
fn p155() { let mut v = v(); let a = &mut v[U1::new()]; { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut v[U1::new()]; { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a;
fn p156() { let mut v = v(); let a = &mut v[U1::new()]; let b = v.iter_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[U1::new()]; let b = v.iter_mut(); let _c = (a, b);
fn p157() { let mut v = v(); let a = &mut v[U1::new()]; let b = v.as_slice_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[U1::new()]; let b = v.as_slice_mut(); let _c = (a, b);
fn p158() { let mut v = v(); let a = &mut v[U1::new()]; let b = &mut v[1]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[U1::new()]; let b = &mut v[1]; let _c = (a, b);
fn p159() { let mut v = v(); let a = &mut v[U1::new()]; let b = &mut v[U1::new()]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[U1::new()]; let b = &mut v[U1::new()]; let _c = (a, b);
fn p160() { let mut v = v(); let a = &mut v[U1::new()]; let b = &mut *v; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut v[U1::new()]; let b = &mut *v; let _c = (a, b);
fn p161() { let mut v = v(); let a = &mut *v; { let a = v.iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut *v; { let a = v.iter(); let _b = (&a, 0); } let _c = a;
fn p162() { let mut v = v(); let a = &mut *v; { let a = v.as_slice(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut *v; { let a = v.as_slice(); let _b = (&a, 0); } let _c = a;
fn p163() { let mut v = v(); let a = &mut *v; { let a = &v[1]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut *v; { let a = &v[1]; let _b = (&a, 0); } let _c = a;
fn p164() { let mut v = v(); let a = &mut *v; { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut *v; { let a = &v[U1::new()]; let _b = (&a, 0); } let _c = a;
fn p165() { let mut v = v(); let a = &mut *v; { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut *v; { let a = v.as_slice().iter(); let _b = (&a, 0); } let _c = a;
fn p166() { let mut v = v(); let a = &mut *v; { let a = (*v).iter(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut *v; { let a = (*v).iter(); let _b = (&a, 0); } let _c = a;
fn p167() { let mut v = v(); let a = &mut *v; { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a; } // REFUSE	read while mutably borrowed	let mut v = v(); let a = &mut *v; { let a: &[String] = v.as_ref(); let _b = (&a, 0); } let _c = a;
fn p168() { let mut v = v(); let a = &mut *v; let b = v.iter_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut *v; let b = v.iter_mut(); let _c = (a, b);
fn p169() { let mut v = v(); let a = &mut *v; let b = v.as_slice_mut(); let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut *v; let b = v.as_slice_mut(); let _c = (a, b);
fn p170() { let mut v = v(); let a = &mut *v; let b = &mut v[1]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut *v; let b = &mut v[1]; let _c = (a, b);
fn p171() { let mut v = v(); let a = &mut *v; let b = &mut v[U1::new()]; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut *v; let b = &mut v[U1::new()]; let _c = (a, b);
fn p172() { let mut v = v(); let a = &mut *v; let b = &mut *v; let _c = (a, b); } // REFUSE	borrowed mutably twice	let mut v = v(); let a = &mut *v; let b = &mut *v; let _c = (a, b);
fn p173() { let mut m = m(); let a = m.rows_iter(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p174() { let mut m = m(); let a = m.rows_iter(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p175() { let mut m = m(); let a = m.rows_iter(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p176() { let mut m = m(); let a = m.rows_iter(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p177() { let mut m = m(); let a = m.rows_iter(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p178() { let mut m = m(); let a = m.rows_iter(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter(); m.transpose(); let _b = (&a, 0);
fn p179() { let mut m = m(); let a = m.rows_iter(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p180() { let mut m = m(); let a = m.rows_iter(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter(); m = Matrix::default(); let _b = (&a, 0);
fn p181() { let mut m = m(); let a = m.rows_iter(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.rows_iter(); let _b = (&a, 0); m.transpose();
fn p182() { let m = m(); let a = m.rows_iter(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.rows_iter(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p183() { let mut m = m(); let a = m.cols_iter(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p184() { let mut m = m(); let a = m.cols_iter(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p185() { let mut m = m(); let a = m.cols_iter(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p186() { let mut m = m(); let a = m.cols_iter(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p187() { let mut m = m(); let a = m.cols_iter(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p188() { let mut m = m(); let a = m.cols_iter(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter(); m.transpose(); let _b = (&a, 0);
fn p189() { let mut m = m(); let a = m.cols_iter(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p190() { let mut m = m(); let a = m.cols_iter(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter(); m = Matrix::default(); let _b = (&a, 0);
fn p191() { let mut m = m(); let a = m.cols_iter(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.cols_iter(); let _b = (&a, 0); m.transpose();
fn p192() { let m = m(); let a = m.cols_iter(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.cols_iter(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p193() { let mut m = m(); let a = m.rows_iter_ref(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p194() { let mut m = m(); let a = m.rows_iter_ref(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p195() { let mut m = m(); let a = m.rows_iter_ref(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p196() { let mut m = m(); let a = m.rows_iter_ref(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p197() { let mut m = m(); let a = m.rows_iter_ref(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p198() { let mut m = m(); let a = m.rows_iter_ref(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref(); m.transpose(); let _b = (&a, 0);
fn p199() { let mut m = m(); let a = m.rows_iter_ref(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p200() { let mut m = m(); let a = m.rows_iter_ref(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref(); m = Matrix::default(); let _b = (&a, 0);
fn p201() { let mut m = m(); let a = m.rows_iter_ref(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.rows_iter_ref(); let _b = (&a, 0); m.transpose();
fn p202() { let m = m(); let a = m.rows_iter_ref(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.rows_iter_ref(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p203() { let mut m = m(); let a = m.cols_iter_ref(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p204() { let mut m = m(); let a = m.cols_iter_ref(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p205() { let mut m = m(); let a = m.cols_iter_ref(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p206() { let mut m = m(); let a = m.cols_iter_ref(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p207() { let mut m = m(); let a = m.cols_iter_ref(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p208() { let mut m = m(); let a = m.cols_iter_ref(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref(); m.transpose(); let _b = (&a, 0);
fn p209() { let mut m = m(); let a = m.cols_iter_ref(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p210() { let mut m = m(); let a = m.cols_iter_ref(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref(); m = Matrix::default(); let _b = (&a, 0);
fn p211() { let mut m = m(); let a = m.cols_iter_ref(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.cols_iter_ref(); let _b = (&a, 0); m.transpose();
fn p212() { let m = m(); let a = m.cols_iter_ref(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.cols_iter_ref(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p213() { let mut m = m(); let a = m.rows_iter_ref().next(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p214() { let mut m = m(); let a = m.rows_iter_ref().next(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p215() { let mut m = m(); let a = m.rows_iter_ref().next(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p216() { let mut m = m(); let a = m.rows_iter_ref().next(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p217() { let mut m = m(); let a = m.rows_iter_ref().next(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p218() { let mut m = m(); let a = m.rows_iter_ref().next(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next(); m.transpose(); let _b = (&a, 0);
fn p219() { let mut m = m(); let a = m.rows_iter_ref().next(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p220() { let mut m = m(); let a = m.rows_iter_ref().next(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next(); m = Matrix::default(); let _b = (&a, 0);
fn p221() { let mut m = m(); let a = m.rows_iter_ref().next(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.rows_iter_ref().next(); let _b = (&a, 0); m.transpose();
fn p222() { let m = m(); let a = m.rows_iter_ref().next(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.rows_iter_ref().next(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p223() { let mut m = m(); let a = m.cols_iter_ref().next(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p224() { let mut m = m(); let a = m.cols_iter_ref().next(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p225() { let mut m = m(); let a = m.cols_iter_ref().next(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p226() { let mut m = m(); let a = m.cols_iter_ref().next(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p227() { let mut m = m(); let a = m.cols_iter_ref().next(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p228() { let mut m = m(); let a = m.cols_iter_ref().next(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next(); m.transpose(); let _b = (&a, 0);
fn p229() { let mut m = m(); let a = m.cols_iter_ref().next(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p230() { let mut m = m(); let a = m.cols_iter_ref().next(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next(); m = Matrix::default(); let _b = (&a, 0);
fn p231() { let mut m = m(); let a = m.cols_iter_ref().next(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.cols_iter_ref().next(); let _b = (&a, 0); m.transpose();
fn p232() { let m = m(); let a = m.cols_iter_ref().next(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.cols_iter_ref().next(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p233() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p234() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p235() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p236() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p237() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p238() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m.transpose(); let _b = (&a, 0);
fn p239() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p240() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); m = Matrix::default(); let _b = (&a, 0);
fn p241() { let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.cols_iter_ref().next().unwrap().next(); let _b = (&a, 0); m.transpose();
fn p242() { let m = m(); let a = m.cols_iter_ref().next().unwrap().next(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.cols_iter_ref().next().unwrap().next(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p243() { let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p244() { let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p245() { let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p246() { let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p247() { let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next_back(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p248() { let mut m = m(); let a = m.rows_iter_ref().next_back(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next_back(); m.transpose(); let _b = (&a, 0);
fn p249() { let mut m = m(); let a = m.rows_iter_ref().next_back(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next_back(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p250() { let mut m = m(); let a = m.rows_iter_ref().next_back(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.rows_iter_ref().next_back(); m = Matrix::default(); let _b = (&a, 0);
fn p251() { let mut m = m(); let a = m.rows_iter_ref().next_back(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.rows_iter_ref().next_back(); let _b = (&a, 0); m.transpose();
fn p252() { let m = m(); let a = m.rows_iter_ref().next_back(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.rows_iter_ref().next_back(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p253() { let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(0, 0)].push('a'); let _b = (&a, 0);
fn p254() { let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p255() { let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p256() { let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p257() { let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next_back(); m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p258() { let mut m = m(); let a = m.cols_iter_ref().next_back(); m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next_back(); m.transpose(); let _b = (&a, 0);
fn p259() { let mut m = m(); let a = m.cols_iter_ref().next_back(); m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next_back(); m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p260() { let mut m = m(); let a = m.cols_iter_ref().next_back(); m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = m.cols_iter_ref().next_back(); m = Matrix::default(); let _b = (&a, 0);
fn p261() { let mut m = m(); let a = m.cols_iter_ref().next_back(); let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = m.cols_iter_ref().next_back(); let _b = (&a, 0); m.transpose();
fn p262() { let m = m(); let a = m.cols_iter_ref().next_back(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = m.cols_iter_ref().next_back(); let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p263() { let mut m = m(); let a = &m[(0, 1)]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(0, 1)]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p264() { let mut m = m(); let a = &m[(0, 1)]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(0, 1)]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p265() { let mut m = m(); let a = &m[(0, 1)]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(0, 1)]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p266() { let mut m = m(); let a = &m[(0, 1)]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(0, 1)]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p267() { let mut m = m(); let a = &m[(0, 1)]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(0, 1)]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p268() { let mut m = m(); let a = &m[(0, 1)]; m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(0, 1)]; m.transpose(); let _b = (&a, 0);
fn p269() { let mut m = m(); let a = &m[(0, 1)]; m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(0, 1)]; m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p270() { let mut m = m(); let a = &m[(0, 1)]; m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(0, 1)]; m = Matrix::default(); let _b = (&a, 0);
fn p271() { let mut m = m(); let a = &m[(0, 1)]; let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = &m[(0, 1)]; let _b = (&a, 0); m.transpose();
fn p272() { let m = m(); let a = &m[(0, 1)]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = &m[(0, 1)]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p273() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p274() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p275() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p276() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p277() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U0::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p278() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U0::new())]; m.transpose(); let _b = (&a, 0);
fn p279() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U0::new())]; m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p280() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U0::new())]; m = Matrix::default(); let _b = (&a, 0);
fn p281() { let mut m = m(); let a = &m[(U0::new(), U0::new())]; let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = &m[(U0::new(), U0::new())]; let _b = (&a, 0); m.transpose();
fn p282() { let m = m(); let a = &m[(U0::new(), U0::new())]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = &m[(U0::new(), U0::new())]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p283() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p284() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p285() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p286() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p287() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U1::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p288() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U1::new())]; m.transpose(); let _b = (&a, 0);
fn p289() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U1::new())]; m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p290() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U0::new(), U1::new())]; m = Matrix::default(); let _b = (&a, 0);
fn p291() { let mut m = m(); let a = &m[(U0::new(), U1::new())]; let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = &m[(U0::new(), U1::new())]; let _b = (&a, 0); m.transpose();
fn p292() { let m = m(); let a = &m[(U0::new(), U1::new())]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = &m[(U0::new(), U1::new())]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p293() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p294() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p295() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p296() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p297() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U0::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p298() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U0::new())]; m.transpose(); let _b = (&a, 0);
fn p299() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U0::new())]; m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p300() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U0::new())]; m = Matrix::default(); let _b = (&a, 0);
fn p301() { let mut m = m(); let a = &m[(U1::new(), U0::new())]; let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = &m[(U1::new(), U0::new())]; let _b = (&a, 0); m.transpose();
fn p302() { let m = m(); let a = &m[(U1::new(), U0::new())]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = &m[(U1::new(), U0::new())]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p303() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p304() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p305() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p306() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p307() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U1::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p308() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; m.transpose(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U1::new())]; m.transpose(); let _b = (&a, 0);
fn p309() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; m.clamp(String::new(), String::new()); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U1::new())]; m.clamp(String::new(), String::new()); let _b = (&a, 0);
fn p310() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; m = Matrix::default(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = m(); let a = &m[(U1::new(), U1::new())]; m = Matrix::default(); let _b = (&a, 0);
fn p311() { let mut m = m(); let a = &m[(U1::new(), U1::new())]; let _b = (&a, 0); m.transpose(); } // ACCEPT	change after the borrow	let mut m = m(); let a = &m[(U1::new(), U1::new())]; let _b = (&a, 0); m.transpose();
fn p312() { let m = m(); let a = &m[(U1::new(), U1::new())]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0); } // ACCEPT	read while borrowed	let m = m(); let a = &m[(U1::new(), U1::new())]; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; let _b = (&a, 0);
fn p313() { let mut m = m(); let a = &mut m[(0, 0)]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(0, 0)]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p314() { let mut m = m(); let a = &mut m[(0, 0)]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(0, 0)]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p315() { let mut m = m(); let a = &mut m[(0, 0)]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(0, 0)]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p316() { let mut m = m(); let a = &mut m[(0, 0)]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(0, 0)]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p317() { let mut m = m(); let a = &mut m[(0, 0)]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(0, 0)]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p318() { let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p319() { let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p320() { let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p321() { let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p322() { let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U0::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p323() { let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p324() { let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p325() { let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p326() { let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p327() { let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U0::new(), U1::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p328() { let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p329() { let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p330() { let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p331() { let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p332() { let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U0::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p333() { let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(0, 0)].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(0, 0)].push('a'); let _b = (&a, 0);
fn p334() { let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(U0::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p335() { let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(U0::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p336() { let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(U1::new(), U0::new())].push('a'); let _b = (&a, 0);
fn p337() { let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0); } // REFUSE	borrowed mutably twice	let mut m = m(); let a = &mut m[(U1::new(), U1::new())]; m[(U1::new(), U1::new())].push('a'); let _b = (&a, 0);
fn p338() { let mut m = n(); let a = m.rows_iter_ref(); m *= n(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = n(); let a = m.rows_iter_ref(); m *= n(); let _b = (&a, 0);
fn p339() { let mut m = n(); let a = m.rows_iter_ref(); m += n(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = n(); let a = m.rows_iter_ref(); m += n(); let _b = (&a, 0);
fn p340() { let mut m = n(); let a = m.rows_iter_ref(); m -= n(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = n(); let a = m.rows_iter_ref(); m -= n(); let _b = (&a, 0);
fn p341() { let mut m = n(); let a = m.rows_iter_ref(); m *= 2; let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = n(); let a = m.rows_iter_ref(); m *= 2; let _b = (&a, 0);
fn p342() { let mut m = n(); let a = m.rows_iter_ref(); m /= 2; let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = n(); let a = m.rows_iter_ref(); m /= 2; let _b = (&a, 0);
fn p343() { let mut m = n(); let a = m.rows_iter_ref(); m = -m; let _b = (&a, 0); } // REFUSE	change while borrowed	let mut m = n(); let a = m.rows_iter_ref(); m = -m; let _b = (&a, 0);
fn p344() { let mut v = w(); let a = v.iter(); v *= 2; let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = w(); let a = v.iter(); v *= 2; let _b = (&a, 0);
fn p345() { let mut v = w(); let a = v.iter(); v /= 2; let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = w(); let a = v.iter(); v /= 2; let _b = (&a, 0);
fn p346() { let mut v = w(); let a = v.iter(); v += w(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = w(); let a = v.iter(); v += w(); let _b = (&a, 0);
fn p347() { let mut v = w(); let a = v.iter(); v -= w(); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut v = w(); let a = v.iter(); v -= w(); let _b = (&a, 0);
fn p348() { let v = v(); let a = v.into_iter(); let b = v.len(); } // REFUSE	use after it was moved	let v = v(); let a = v.into_iter(); let b = v.len();
fn p349() { let v = v(); let a = v.into_iter(); let b = v.into_inner(); } // REFUSE	use after it was moved	let v = v(); let a = v.into_iter(); let b = v.into_inner();
fn p350() { let v = v(); let r = v.iter(); let a = v.into_iter(); let b = r.count(); } // REFUSE	moved while borrowed	let v = v(); let r = v.iter(); let a = v.into_iter(); let b = r.count();
fn p351() { let v = v(); let a = v.into_inner(); let b = v.len(); } // REFUSE	use after it was moved	let v = v(); let a = v.into_inner(); let b = v.len();
fn p352() { let v = v(); let a = v.into_inner(); let b = v.into_inner(); } // REFUSE	use after it was moved	let v = v(); let a = v.into_inner(); let b = v.into_inner();
fn p353() { let v = v(); let r = v.iter(); let a = v.into_inner(); let b = r.count(); } // REFUSE	moved while borrowed	let v = v(); let r = v.iter(); let a = v.into_inner(); let b = r.count();
fn p354() { let v = v(); let a = v.into_chunks::<U2>(); let b = v.len(); } // REFUSE	use after it was moved	let v = v(); let a = v.into_chunks::<U2>(); let b = v.len();
fn p355() { let v = v(); let a = v.into_chunks::<U2>(); let b = v.into_inner(); } // REFUSE	use after it was moved	let v = v(); let a = v.into_chunks::<U2>(); let b = v.into_inner();
fn p356() { let v = v(); let r = v.iter(); let a = v.into_chunks::<U2>(); let b = r.count(); } // REFUSE	moved while borrowed	let v = v(); let r = v.iter(); let a = v.into_chunks::<U2>(); let b = r.count();
fn p357() { let v = v(); let a = Matrix::<String, U2, U2>::from(v); let b = v.len(); } // REFUSE	use after it was moved	let v = v(); let a = Matrix::<String, U2, U2>::from(v); let b = v.len();
fn p358() { let v = v(); let a = Matrix::<String, U2, U2>::from(v); let b = v.into_inner(); } // REFUSE	use after it was moved	let v = v(); let a = Matrix::<String, U2, U2>::from(v); let b = v.into_inner();
fn p359() { let v = v(); let r = v.iter(); let a = Matrix::<String, U2, U2>::from(v); let b = r.count(); } // REFUSE	moved while borrowed	let v = v(); let r = v.iter(); let a = Matrix::<String, U2, U2>::from(v); let b = r.count();
fn p360() { let v = v(); let a = Some(v).into_iter().collect::<Vector<V, U1>>(); let b = v.len(); } // REFUSE	use after it was moved	let v = v(); let a = Some(v).into_iter().collect::<Vector<V, U1>>(); let b = v.len();
fn p361() { let v = v(); let a = Some(v).into_iter().collect::<Vector<V, U1>>(); let b = v.into_inner(); } // REFUSE	use after it was moved	let v = v(); let a = Some(v).into_iter().collect::<Vector<V, U1>>(); let b = v.into_inner();
fn p362() { let v = v(); let r = v.iter(); let a = Some(v).into_iter().collect::<Vector<V, U1>>(); let b = r.count(); } // REFUSE	moved while borrowed	let v = v(); let r = v.iter(); let a = Some(v).into_iter().collect::<Vector<V, U1>>(); let b = r.count();
fn p363() { let v = w(); let a = v.into_iter(); let b = v.len(); } // ACCEPT	a copy may be used after it was moved	let v = w(); let a = v.into_iter(); let b = v.len();
fn p364() { let v = w(); let a = v.into_inner(); let b = v.len(); } // ACCEPT	a copy may be used after it was moved	let v = w(); let a = v.into_inner(); let b = v.len();
fn p365() { let v = w(); let a = v.into_chunks::<U2>(); let b = v.len(); } // ACCEPT	a copy may be used after it was moved	let v = w(); let a = v.into_chunks::<U2>(); let b = v.len();
fn p366() { let v = w(); let a = -v; let b = v.len(); } // ACCEPT	a copy may be used after it was moved	let v = w(); let a = -v; let b = v.len();
fn p367() { let v = w(); let a = v + w(); let b = v.len(); } // ACCEPT	a copy may be used after it was moved	let v = w(); let a = v + w(); let b = v.len();
fn p368() { let v = w(); let a = v - w(); let b = v.len(); } // ACCEPT	a copy may be used after it was moved	let v = w(); let a = v - w(); let b = v.len();
fn p369() { let v = w(); let a = v * 2; let b = v.len(); } // ACCEPT	a copy may be used after it was moved	let v = w(); let a = v * 2; let b = v.len();
fn p370() { let v = w(); let a = v / 2; let b = v.len(); } // ACCEPT	a copy may be used after it was moved	let v = w(); let a = v / 2; let b = v.len();
fn p371() { let m = m(); let a = m.map(|_, x| x); let b = m.rows(); } // REFUSE	use after it was moved	let m = m(); let a = m.map(|_, x| x); let b = m.rows();
fn p372() { let m = m(); let r = m.rows_iter_ref(); let a = m.map(|_, x| x); let b = r.count(); } // REFUSE	moved while borrowed	let m = m(); let r = m.rows_iter_ref(); let a = m.map(|_, x| x); let b = r.count();
fn p373() { let m = m(); let r = m.cols_iter_ref().next().unwrap(); let a = m.map(|_, x| x); let b = r.count(); } // REFUSE	moved while borrowed	let m = m(); let r = m.cols_iter_ref().next().unwrap(); let a = m.map(|_, x| x); let b = r.count();
fn p374() { let m = m(); let a = m.map(|_, x| x.len()); let b = m.rows(); } // REFUSE	use after it was moved	let m = m(); let a = m.map(|_, x| x.len()); let b = m.rows();
fn p375() { let m = m(); let r = m.rows_iter_ref(); let a = m.map(|_, x| x.len()); let b = r.count(); } // REFUSE	moved while borrowed	let m = m(); let r = m.rows_iter_ref(); let a = m.map(|_, x| x.len()); let b = r.count();
fn p376() { let m = m(); let r = m.cols_iter_ref().next().unwrap(); let a = m.map(|_, x| x.len()); let b = r.count(); } // REFUSE	moved while borrowed	let m = m(); let r = m.cols_iter_ref().next().unwrap(); let a = m.map(|_, x| x.len()); let b = r.count();
fn p377() { let m = m(); let a = Vector::<M, U1>::new([m]); let b = m.rows(); } // REFUSE	use after it was moved	let m = m(); let a = Vector::<M, U1>::new([m]); let b = m.rows();
fn p378() { let m = m(); let r = m.rows_iter_ref(); let a = Vector::<M, U1>::new([m]); let b = r.count(); } // REFUSE	moved while borrowed	let m = m(); let r = m.rows_iter_ref(); let a = Vector::<M, U1>::new([m]); let b = r.count();
fn p379() { let m = m(); let r = m.cols_iter_ref().next().unwrap(); let a = Vector::<M, U1>::new([m]); let b = r.count(); } // REFUSE	moved while borrowed	let m = m(); let r = m.cols_iter_ref().next().unwrap(); let a = Vector::<M, U1>::new([m]); let b = r.count();
fn p380() { let c = v().into_iter(); let a = c.count(); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_iter(); let a = c.count(); let b = c.len();
fn p381() { let c = v().into_chunks::<U2>(); let a = c.count(); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_chunks::<U2>(); let a = c.count(); let b = c.len();
fn p382() { let m = m(); let c = m.cols_iter_ref(); let a = c.count(); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.cols_iter_ref(); let a = c.count(); let b = c.len();
fn p383() { let m = m(); let c = m.rows_iter(); let a = c.count(); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.rows_iter(); let a = c.count(); let b = c.len();
fn p384() { let c = v().into_iter(); let a = c.rev(); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_iter(); let a = c.rev(); let b = c.len();
fn p385() { let c = v().into_chunks::<U2>(); let a = c.rev(); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_chunks::<U2>(); let a = c.rev(); let b = c.len();
fn p386() { let m = m(); let c = m.cols_iter_ref(); let a = c.rev(); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.cols_iter_ref(); let a = c.rev(); let b = c.len();
fn p387() { let m = m(); let c = m.rows_iter(); let a = c.rev(); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.rows_iter(); let a = c.rev(); let b = c.len();
fn p388() { let c = v().into_iter(); let a = c.last(); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_iter(); let a = c.last(); let b = c.len();
fn p389() { let c = v().into_chunks::<U2>(); let a = c.last(); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_chunks::<U2>(); let a = c.last(); let b = c.len();
fn p390() { let m = m(); let c = m.cols_iter_ref(); let a = c.last(); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.cols_iter_ref(); let a = c.last(); let b = c.len();
fn p391() { let m = m(); let c = m.rows_iter(); let a = c.last(); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.rows_iter(); let a = c.last(); let b = c.len();
fn p392() { let c = v().into_iter(); let a = c.map(|x| x); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_iter(); let a = c.map(|x| x); let b = c.len();
fn p393() { let c = v().into_chunks::<U2>(); let a = c.map(|x| x); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_chunks::<U2>(); let a = c.map(|x| x); let b = c.len();
fn p394() { let m = m(); let c = m.cols_iter_ref(); let a = c.map(|x| x); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.cols_iter_ref(); let a = c.map(|x| x); let b = c.len();
fn p395() { let m = m(); let c = m.rows_iter(); let a = c.map(|x| x); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.rows_iter(); let a = c.map(|x| x); let b = c.len();
fn p396() { let c = v().into_iter(); let a = c.collect::<Vec<_>>(); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_iter(); let a = c.collect::<Vec<_>>(); let b = c.len();
fn p397() { let c = v().into_chunks::<U2>(); let a = c.collect::<Vec<_>>(); let b = c.len(); } // REFUSE	use after it was moved	let c = v().into_chunks::<U2>(); let a = c.collect::<Vec<_>>(); let b = c.len();
fn p398() { let m = m(); let c = m.cols_iter_ref(); let a = c.collect::<Vec<_>>(); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.cols_iter_ref(); let a = c.collect::<Vec<_>>(); let b = c.len();
fn p399() { let m = m(); let c = m.rows_iter(); let a = c.collect::<Vec<_>>(); let b = c.len(); } // REFUSE	use after it was moved	let m = m(); let c = m.rows_iter(); let a = c.collect::<Vec<_>>(); let b = c.len();
fn p400() { let a; { let v = v(); a = v.iter(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let v = v(); a = v.iter(); } let _b = (&a, 0);
fn p401() { let v = v(); let a; { a = v.iter(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let v = v(); let a; { a = v.iter(); } let _b = (&a, 0);
fn p402() { let a; { let v = v(); a = v.as_slice(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let v = v(); a = v.as_slice(); } let _b = (&a, 0);
fn p403() { let v = v(); let a; { a = v.as_slice(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let v = v(); let a; { a = v.as_slice(); } let _b = (&a, 0);
fn p404() { let a; { let v = v(); a = &v[0]; } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let v = v(); a = &v[0]; } let _b = (&a, 0);
fn p405() { let v = v(); let a; { a = &v[0]; } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let v = v(); let a; { a = &v[0]; } let _b = (&a, 0);
fn p406() { let a; { let v = v(); a = &v[U0::new()]; } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let v = v(); a = &v[U0::new()]; } let _b = (&a, 0);
fn p407() { let v = v(); let a; { a = &v[U0::new()]; } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let v = v(); let a; { a = &v[U0::new()]; } let _b = (&a, 0);
fn p408() { let a; { let v = v(); a = &*v; } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let v = v(); a = &*v; } let _b = (&a, 0);
fn p409() { let v = v(); let a; { a = &*v; } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let v = v(); let a; { a = &*v; } let _b = (&a, 0);
fn p410() { let a; { let mut v = v(); a = v.iter_mut(); } let _b = a; } // REFUSE	outlives the value	let a; { let mut v = v(); a = v.iter_mut(); } let _b = a;
fn p411() { let a; { let mut v = v(); a = v.as_slice_mut(); } let _b = a; } // REFUSE	outlives the value	let a; { let mut v = v(); a = v.as_slice_mut(); } let _b = a;
fn p412() { let a; { let mut v = v(); a = &mut v[0]; } let _b = a; } // REFUSE	outlives the value	let a; { let mut v = v(); a = &mut v[0]; } let _b = a;
fn p413() { let a; { let mut v = v(); a = &mut v[U0::new()]; } let _b = a; } // REFUSE	outlives the value	let a; { let mut v = v(); a = &mut v[U0::new()]; } let _b = a;
fn p414() { let a; { let m = m(); a = m.rows_iter(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.rows_iter(); } let _b = (&a, 0);
fn p415() { let m = m(); let a; { a = m.rows_iter(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.rows_iter(); } let _b = (&a, 0);
fn p416() { let a; { let m = m(); a = m.cols_iter(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.cols_iter(); } let _b = (&a, 0);
fn p417() { let m = m(); let a; { a = m.cols_iter(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.cols_iter(); } let _b = (&a, 0);
fn p418() { let a; { let m = m(); a = m.rows_iter_ref(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.rows_iter_ref(); } let _b = (&a, 0);
fn p419() { let m = m(); let a; { a = m.rows_iter_ref(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.rows_iter_ref(); } let _b = (&a, 0);
fn p420() { let a; { let m = m(); a = m.cols_iter_ref(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.cols_iter_ref(); } let _b = (&a, 0);
fn p421() { let m = m(); let a; { a = m.cols_iter_ref(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.cols_iter_ref(); } let _b = (&a, 0);
fn p422() { let a; { let m = m(); a = m.rows_iter_ref().next(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.rows_iter_ref().next(); } let _b = (&a, 0);
fn p423() { let m = m(); let a; { a = m.rows_iter_ref().next(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.rows_iter_ref().next(); } let _b = (&a, 0);
fn p424() { let a; { let m = m(); a = m.cols_iter_ref().next(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.cols_iter_ref().next(); } let _b = (&a, 0);
fn p425() { let m = m(); let a; { a = m.cols_iter_ref().next(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.cols_iter_ref().next(); } let _b = (&a, 0);
fn p426() { let a; { let m = m(); a = m.cols_iter_ref().next().unwrap().next(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.cols_iter_ref().next().unwrap().next(); } let _b = (&a, 0);
fn p427() { let m = m(); let a; { a = m.cols_iter_ref().next().unwrap().next(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.cols_iter_ref().next().unwrap().next(); } let _b = (&a, 0);
fn p428() { let a; { let m = m(); a = m.rows_iter_ref().next_back(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.rows_iter_ref().next_back(); } let _b = (&a, 0);
fn p429() { let m = m(); let a; { a = m.rows_iter_ref().next_back(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.rows_iter_ref().next_back(); } let _b = (&a, 0);
fn p430() { let a; { let m = m(); a = m.cols_iter_ref().next_back(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = m.cols_iter_ref().next_back(); } let _b = (&a, 0);
fn p431() { let m = m(); let a; { a = m.cols_iter_ref().next_back(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = m.cols_iter_ref().next_back(); } let _b = (&a, 0);
fn p432() { let a; { let m = m(); a = &m[(0, 1)]; } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = &m[(0, 1)]; } let _b = (&a, 0);
fn p433() { let m = m(); let a; { a = &m[(0, 1)]; } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = &m[(0, 1)]; } let _b = (&a, 0);
fn p434() { let a; { let m = m(); a = &m[(U0::new(), U0::new())]; } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = &m[(U0::new(), U0::new())]; } let _b = (&a, 0);
fn p435() { let m = m(); let a; { a = &m[(U0::new(), U0::new())]; } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = &m[(U0::new(), U0::new())]; } let _b = (&a, 0);
fn p436() { let a; { let m = m(); a = &m[(U0::new(), U1::new())]; } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = &m[(U0::new(), U1::new())]; } let _b = (&a, 0);
fn p437() { let m = m(); let a; { a = &m[(U0::new(), U1::new())]; } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = &m[(U0::new(), U1::new())]; } let _b = (&a, 0);
fn p438() { let a; { let m = m(); a = &m[(U1::new(), U0::new())]; } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = &m[(U1::new(), U0::new())]; } let _b = (&a, 0);
fn p439() { let m = m(); let a; { a = &m[(U1::new(), U0::new())]; } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = &m[(U1::new(), U0::new())]; } let _b = (&a, 0);
fn p440() { let a; { let m = m(); a = &m[(U1::new(), U1::new())]; } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let m = m(); a = &m[(U1::new(), U1::new())]; } let _b = (&a, 0);
fn p441() { let m = m(); let a; { a = &m[(U1::new(), U1::new())]; } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let m = m(); let a; { a = &m[(U1::new(), U1::new())]; } let _b = (&a, 0);
fn p442() { let m = m(); let a; { let mut c = m.rows_iter_ref(); a = c.next(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.rows_iter_ref(); a = c.next(); } let _b = (&a, 0);
fn p443() { let a; { let m = m(); let mut c = m.rows_iter_ref(); a = c.next(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.rows_iter_ref(); a = c.next(); } let _b = (&a, 0);
fn p444() { let m = m(); let a; { let mut c = m.cols_iter_ref(); a = c.next(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.cols_iter_ref(); a = c.next(); } let _b = (&a, 0);
fn p445() { let a; { let m = m(); let mut c = m.cols_iter_ref(); a = c.next(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.cols_iter_ref(); a = c.next(); } let _b = (&a, 0);
fn p446() { let m = m(); let a; { let mut c = m.cols_iter_ref().next().unwrap(); a = c.next(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.cols_iter_ref().next().unwrap(); a = c.next(); } let _b = (&a, 0);
fn p447() { let a; { let m = m(); let mut c = m.cols_iter_ref().next().unwrap(); a = c.next(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.cols_iter_ref().next().unwrap(); a = c.next(); } let _b = (&a, 0);
fn p448() { let a; { let m = m(); let mut c = m.rows_iter(); a = c.next(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the matrix	let a; { let m = m(); let mut c = m.rows_iter(); a = c.next(); } let _b = (&a, 0);
fn p449() { let a; { let m = m(); let mut c = m.cols_iter(); a = c.next(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the matrix	let a; { let m = m(); let mut c = m.cols_iter(); a = c.next(); } let _b = (&a, 0);
fn p450() { let a; { let mut c = v().into_iter(); a = c.next(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the iterator	let a; { let mut c = v().into_iter(); a = c.next(); } let _b = (&a, 0);
fn p451() { let a; { let mut c = v().into_chunks::<U2>(); a = c.next(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the iterator	let a; { let mut c = v().into_chunks::<U2>(); a = c.next(); } let _b = (&a, 0);
fn p452() { let m = m(); let a; { let mut c = m.rows_iter_ref(); a = c.next_back(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.rows_iter_ref(); a = c.next_back(); } let _b = (&a, 0);
fn p453() { let a; { let m = m(); let mut c = m.rows_iter_ref(); a = c.next_back(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.rows_iter_ref(); a = c.next_back(); } let _b = (&a, 0);
fn p454() { let m = m(); let a; { let mut c = m.cols_iter_ref(); a = c.next_back(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.cols_iter_ref(); a = c.next_back(); } let _b = (&a, 0);
fn p455() { let a; { let m = m(); let mut c = m.cols_iter_ref(); a = c.next_back(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.cols_iter_ref(); a = c.next_back(); } let _b = (&a, 0);
fn p456() { let m = m(); let a; { let mut c = m.cols_iter_ref().next().unwrap(); a = c.next_back(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.cols_iter_ref().next().unwrap(); a = c.next_back(); } let _b = (&a, 0);
fn p457() { let a; { let m = m(); let mut c = m.cols_iter_ref().next().unwrap(); a = c.next_back(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.cols_iter_ref().next().unwrap(); a = c.next_back(); } let _b = (&a, 0);
fn p458() { let a; { let m = m(); let mut c = m.rows_iter(); a = c.next_back(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the matrix	let a; { let m = m(); let mut c = m.rows_iter(); a = c.next_back(); } let _b = (&a, 0);
fn p459() { let a; { let m = m(); let mut c = m.cols_iter(); a = c.next_back(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the matrix	let a; { let m = m(); let mut c = m.cols_iter(); a = c.next_back(); } let _b = (&a, 0);
fn p460() { let a; { let mut c = v().into_iter(); a = c.next_back(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the iterator	let a; { let mut c = v().into_iter(); a = c.next_back(); } let _b = (&a, 0);
fn p461() { let a; { let mut c = v().into_chunks::<U2>(); a = c.next_back(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the iterator	let a; { let mut c = v().into_chunks::<U2>(); a = c.next_back(); } let _b = (&a, 0);
fn p462() { let m = m(); let a; { let mut c = m.rows_iter_ref(); a = c.nth(1); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.rows_iter_ref(); a = c.nth(1); } let _b = (&a, 0);
fn p463() { let a; { let m = m(); let mut c = m.rows_iter_ref(); a = c.nth(1); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.rows_iter_ref(); a = c.nth(1); } let _b = (&a, 0);
fn p464() { let m = m(); let a; { let mut c = m.cols_iter_ref(); a = c.nth(1); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.cols_iter_ref(); a = c.nth(1); } let _b = (&a, 0);
fn p465() { let a; { let m = m(); let mut c = m.cols_iter_ref(); a = c.nth(1); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.cols_iter_ref(); a = c.nth(1); } let _b = (&a, 0);
fn p466() { let m = m(); let a; { let mut c = m.cols_iter_ref().next().unwrap(); a = c.nth(1); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.cols_iter_ref().next().unwrap(); a = c.nth(1); } let _b = (&a, 0);
fn p467() { let a; { let m = m(); let mut c = m.cols_iter_ref().next().unwrap(); a = c.nth(1); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.cols_iter_ref().next().unwrap(); a = c.nth(1); } let _b = (&a, 0);
fn p468() { let a; { let m = m(); let mut c = m.rows_iter(); a = c.nth(1); } let _b = (&a, 0); } // ACCEPT	items by value outlive the matrix	let a; { let m = m(); let mut c = m.rows_iter(); a = c.nth(1); } let _b = (&a, 0);
fn p469() { let a; { let m = m(); let mut c = m.cols_iter(); a = c.nth(1); } let _b = (&a, 0); } // ACCEPT	items by value outlive the matrix	let a; { let m = m(); let mut c = m.cols_iter(); a = c.nth(1); } let _b = (&a, 0);
fn p470() { let a; { let mut c = v().into_iter(); a = c.nth(1); } let _b = (&a, 0); } // ACCEPT	items by value outlive the iterator	let a; { let mut c = v().into_iter(); a = c.nth(1); } let _b = (&a, 0);
fn p471() { let a; { let mut c = v().into_chunks::<U2>(); a = c.nth(1); } let _b = (&a, 0); } // ACCEPT	items by value outlive the iterator	let a; { let mut c = v().into_chunks::<U2>(); a = c.nth(1); } let _b = (&a, 0);
fn p472() { let m = m(); let a; { let mut c = m.rows_iter_ref(); a = c.last(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.rows_iter_ref(); a = c.last(); } let _b = (&a, 0);
fn p473() { let a; { let m = m(); let mut c = m.rows_iter_ref(); a = c.last(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.rows_iter_ref(); a = c.last(); } let _b = (&a, 0);
fn p474() { let m = m(); let a; { let mut c = m.cols_iter_ref(); a = c.last(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.cols_iter_ref(); a = c.last(); } let _b = (&a, 0);
fn p475() { let a; { let m = m(); let mut c = m.cols_iter_ref(); a = c.last(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.cols_iter_ref(); a = c.last(); } let _b = (&a, 0);
fn p476() { let m = m(); let a; { let mut c = m.cols_iter_ref().next().unwrap(); a = c.last(); } let _b = (&a, 0); } // ACCEPT	items outlive the iterator	let m = m(); let a; { let mut c = m.cols_iter_ref().next().unwrap(); a = c.last(); } let _b = (&a, 0);
fn p477() { let a; { let m = m(); let mut c = m.cols_iter_ref().next().unwrap(); a = c.last(); } let _b = (&a, 0); } // REFUSE	items outlive the value	let a; { let m = m(); let mut c = m.cols_iter_ref().next().unwrap(); a = c.last(); } let _b = (&a, 0);
fn p478() { let a; { let m = m(); let mut c = m.rows_iter(); a = c.last(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the matrix	let a; { let m = m(); let mut c = m.rows_iter(); a = c.last(); } let _b = (&a, 0);
fn p479() { let a; { let m = m(); let mut c = m.cols_iter(); a = c.last(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the matrix	let a; { let m = m(); let mut c = m.cols_iter(); a = c.last(); } let _b = (&a, 0);
fn p480() { let a; { let mut c = v().into_iter(); a = c.last(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the iterator	let a; { let mut c = v().into_iter(); a = c.last(); } let _b = (&a, 0);
fn p481() { let a; { let mut c = v().into_chunks::<U2>(); a = c.last(); } let _b = (&a, 0); } // ACCEPT	items by value outlive the iterator	let a; { let mut c = v().into_chunks::<U2>(); a = c.last(); } let _b = (&a, 0);
fn p482() { let a; { let r = rr(); a = RowsIter::new(&r); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = RowsIter::new(&r); } let _b = (&a, 0);
fn p483() { let r = rr(); let a; { a = RowsIter::new(&r); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = RowsIter::new(&r); } let _b = (&a, 0);
fn p484() { let r = rr(); let a = RowsIter::new(&r); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = RowsIter::new(&r); drop(r); let _b = (&a, 0);
fn p485() { let mut r = rr(); let a = RowsIter::new(&r); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = RowsIter::new(&r); r[0][1].push('a'); let _b = (&a, 0);
fn p486() { let mut r = rr(); let a = RowsIter::new(&r); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = RowsIter::new(&r); let _b = (&a, 0); r[0][1].push('a');
fn p487() { let a; { let r = rr(); a = ColsIter::new(&r); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = ColsIter::new(&r); } let _b = (&a, 0);
fn p488() { let r = rr(); let a; { a = ColsIter::new(&r); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = ColsIter::new(&r); } let _b = (&a, 0);
fn p489() { let r = rr(); let a = ColsIter::new(&r); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = ColsIter::new(&r); drop(r); let _b = (&a, 0);
fn p490() { let mut r = rr(); let a = ColsIter::new(&r); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = ColsIter::new(&r); r[0][1].push('a'); let _b = (&a, 0);
fn p491() { let mut r = rr(); let a = ColsIter::new(&r); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = ColsIter::new(&r); let _b = (&a, 0); r[0][1].push('a');
fn p492() { let a; { let r = rr(); a = RowsIterRef::new(&r); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = RowsIterRef::new(&r); } let _b = (&a, 0);
fn p493() { let r = rr(); let a; { a = RowsIterRef::new(&r); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = RowsIterRef::new(&r); } let _b = (&a, 0);
fn p494() { let r = rr(); let a = RowsIterRef::new(&r); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = RowsIterRef::new(&r); drop(r); let _b = (&a, 0);
fn p495() { let mut r = rr(); let a = RowsIterRef::new(&r); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = RowsIterRef::new(&r); r[0][1].push('a'); let _b = (&a, 0);
fn p496() { let mut r = rr(); let a = RowsIterRef::new(&r); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = RowsIterRef::new(&r); let _b = (&a, 0); r[0][1].push('a');
fn p497() { let a; { let r = rr(); a = ColsIterRef::new(&r); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = ColsIterRef::new(&r); } let _b = (&a, 0);
fn p498() { let r = rr(); let a; { a = ColsIterRef::new(&r); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = ColsIterRef::new(&r); } let _b = (&a, 0);
fn p499() { let r = rr(); let a = ColsIterRef::new(&r); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = ColsIterRef::new(&r); drop(r); let _b = (&a, 0);
fn p500() { let mut r = rr(); let a = ColsIterRef::new(&r); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = ColsIterRef::new(&r); r[0][1].push('a'); let _b = (&a, 0);
fn p501() { let mut r = rr(); let a = ColsIterRef::new(&r); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = ColsIterRef::new(&r); let _b = (&a, 0); r[0][1].push('a');
fn p502() { let a; { let r = rr(); a = ColsIterRefInner::new(&r, 1); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = ColsIterRefInner::new(&r, 1); } let _b = (&a, 0);
fn p503() { let r = rr(); let a; { a = ColsIterRefInner::new(&r, 1); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = ColsIterRefInner::new(&r, 1); } let _b = (&a, 0);
fn p504() { let r = rr(); let a = ColsIterRefInner::new(&r, 1); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = ColsIterRefInner::new(&r, 1); drop(r); let _b = (&a, 0);
fn p505() { let mut r = rr(); let a = ColsIterRefInner::new(&r, 1); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = ColsIterRefInner::new(&r, 1); r[0][1].push('a'); let _b = (&a, 0);
fn p506() { let mut r = rr(); let a = ColsIterRefInner::new(&r, 1); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = ColsIterRefInner::new(&r, 1); let _b = (&a, 0); r[0][1].push('a');
fn p507() { let a; { let r = rr(); a = RowsIterRef::new(&r).next(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = RowsIterRef::new(&r).next(); } let _b = (&a, 0);
fn p508() { let r = rr(); let a; { a = RowsIterRef::new(&r).next(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = RowsIterRef::new(&r).next(); } let _b = (&a, 0);
fn p509() { let r = rr(); let a = RowsIterRef::new(&r).next(); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = RowsIterRef::new(&r).next(); drop(r); let _b = (&a, 0);
fn p510() { let mut r = rr(); let a = RowsIterRef::new(&r).next(); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = RowsIterRef::new(&r).next(); r[0][1].push('a'); let _b = (&a, 0);
fn p511() { let mut r = rr(); let a = RowsIterRef::new(&r).next(); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = RowsIterRef::new(&r).next(); let _b = (&a, 0); r[0][1].push('a');
fn p512() { let a; { let r = rr(); a = ColsIterRef::new(&r).next(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = ColsIterRef::new(&r).next(); } let _b = (&a, 0);
fn p513() { let r = rr(); let a; { a = ColsIterRef::new(&r).next(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = ColsIterRef::new(&r).next(); } let _b = (&a, 0);
fn p514() { let r = rr(); let a = ColsIterRef::new(&r).next(); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = ColsIterRef::new(&r).next(); drop(r); let _b = (&a, 0);
fn p515() { let mut r = rr(); let a = ColsIterRef::new(&r).next(); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = ColsIterRef::new(&r).next(); r[0][1].push('a'); let _b = (&a, 0);
fn p516() { let mut r = rr(); let a = ColsIterRef::new(&r).next(); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = ColsIterRef::new(&r).next(); let _b = (&a, 0); r[0][1].push('a');
fn p517() { let a; { let r = rr(); a = ColsIterRefInner::new(&r, 1).next(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = ColsIterRefInner::new(&r, 1).next(); } let _b = (&a, 0);
fn p518() { let r = rr(); let a; { a = ColsIterRefInner::new(&r, 1).next(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = ColsIterRefInner::new(&r, 1).next(); } let _b = (&a, 0);
fn p519() { let r = rr(); let a = ColsIterRefInner::new(&r, 1).next(); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = ColsIterRefInner::new(&r, 1).next(); drop(r); let _b = (&a, 0);
fn p520() { let mut r = rr(); let a = ColsIterRefInner::new(&r, 1).next(); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = ColsIterRefInner::new(&r, 1).next(); r[0][1].push('a'); let _b = (&a, 0);
fn p521() { let mut r = rr(); let a = ColsIterRefInner::new(&r, 1).next(); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = ColsIterRefInner::new(&r, 1).next(); let _b = (&a, 0); r[0][1].push('a');
fn p522() { let a; { let r = rr(); a = ColsIterRefInner::new(&r, 1).next_back(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = ColsIterRefInner::new(&r, 1).next_back(); } let _b = (&a, 0);
fn p523() { let r = rr(); let a; { a = ColsIterRefInner::new(&r, 1).next_back(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = ColsIterRefInner::new(&r, 1).next_back(); } let _b = (&a, 0);
fn p524() { let r = rr(); let a = ColsIterRefInner::new(&r, 1).next_back(); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = ColsIterRefInner::new(&r, 1).next_back(); drop(r); let _b = (&a, 0);
fn p525() { let mut r = rr(); let a = ColsIterRefInner::new(&r, 1).next_back(); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = ColsIterRefInner::new(&r, 1).next_back(); r[0][1].push('a'); let _b = (&a, 0);
fn p526() { let mut r = rr(); let a = ColsIterRefInner::new(&r, 1).next_back(); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = ColsIterRefInner::new(&r, 1).next_back(); let _b = (&a, 0); r[0][1].push('a');
fn p527() { let a; { let r = rr(); a = ColsIterRef::new(&r).next_back().unwrap().next(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = ColsIterRef::new(&r).next_back().unwrap().next(); } let _b = (&a, 0);
fn p528() { let r = rr(); let a; { a = ColsIterRef::new(&r).next_back().unwrap().next(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = ColsIterRef::new(&r).next_back().unwrap().next(); } let _b = (&a, 0);
fn p529() { let r = rr(); let a = ColsIterRef::new(&r).next_back().unwrap().next(); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = ColsIterRef::new(&r).next_back().unwrap().next(); drop(r); let _b = (&a, 0);
fn p530() { let mut r = rr(); let a = ColsIterRef::new(&r).next_back().unwrap().next(); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = ColsIterRef::new(&r).next_back().unwrap().next(); r[0][1].push('a'); let _b = (&a, 0);
fn p531() { let mut r = rr(); let a = ColsIterRef::new(&r).next_back().unwrap().next(); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = ColsIterRef::new(&r).next_back().unwrap().next(); let _b = (&a, 0); r[0][1].push('a');
fn p532() { let a; { let r = rr(); a = RowsIterRef::new(&r).last(); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = RowsIterRef::new(&r).last(); } let _b = (&a, 0);
fn p533() { let r = rr(); let a; { a = RowsIterRef::new(&r).last(); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = RowsIterRef::new(&r).last(); } let _b = (&a, 0);
fn p534() { let r = rr(); let a = RowsIterRef::new(&r).last(); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = RowsIterRef::new(&r).last(); drop(r); let _b = (&a, 0);
fn p535() { let mut r = rr(); let a = RowsIterRef::new(&r).last(); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = RowsIterRef::new(&r).last(); r[0][1].push('a'); let _b = (&a, 0);
fn p536() { let mut r = rr(); let a = RowsIterRef::new(&r).last(); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = RowsIterRef::new(&r).last(); let _b = (&a, 0); r[0][1].push('a');
fn p537() { let a; { let r = rr(); a = ColsIterRefInner::new(&r, 0).nth(1); } let _b = (&a, 0); } // REFUSE	outlives the value	let a; { let r = rr(); a = ColsIterRefInner::new(&r, 0).nth(1); } let _b = (&a, 0);
fn p538() { let r = rr(); let a; { a = ColsIterRefInner::new(&r, 0).nth(1); } let _b = (&a, 0); } // ACCEPT	lives as long as the value	let r = rr(); let a; { a = ColsIterRefInner::new(&r, 0).nth(1); } let _b = (&a, 0);
fn p539() { let r = rr(); let a = ColsIterRefInner::new(&r, 0).nth(1); drop(r); let _b = (&a, 0); } // REFUSE	moved while borrowed	let r = rr(); let a = ColsIterRefInner::new(&r, 0).nth(1); drop(r); let _b = (&a, 0);
fn p540() { let mut r = rr(); let a = ColsIterRefInner::new(&r, 0).nth(1); r[0][1].push('a'); let _b = (&a, 0); } // REFUSE	change while borrowed	let mut r = rr(); let a = ColsIterRefInner::new(&r, 0).nth(1); r[0][1].push('a'); let _b = (&a, 0);
fn p541() { let mut r = rr(); let a = ColsIterRefInner::new(&r, 0).nth(1); let _b = (&a, 0); r[0][1].push('a'); } // ACCEPT	change after the borrow	let mut r = rr(); let a = ColsIterRefInner::new(&r, 0).nth(1); let _b = (&a, 0); r[0][1].push('a');
fn p542() { fn f(v: &V) -> &'static [String] { v.as_slice() } } // REFUSE	outlives the value	fn f(v: &V) -> &'static [String] { v.as_slice() }
fn p543() { fn f(v: &V) -> &[String] { v.as_slice() } } // ACCEPT	lives as long as the value	fn f(v: &V) -> &[String] { v.as_slice() }
fn p544() { fn f(v: &V) -> &'static String { &v[0] } } // REFUSE	outlives the value	fn f(v: &V) -> &'static String { &v[0] }
fn p545() { fn f(v: &V) -> &String { &v[0] } } // ACCEPT	lives as long as the value	fn f(v: &V) -> &String { &v[0] }
fn p546() { fn f(v: &V) -> &'static String { &v[U1::new()] } } // REFUSE	outlives the value	fn f(v: &V) -> &'static String { &v[U1::new()] }
fn p547() { fn f(v: &V) -> &String { &v[U1::new()] } } // ACCEPT	lives as long as the value	fn f(v: &V) -> &String { &v[U1::new()] }
fn p548() { fn f(v: &V) -> &'static String { v.iter().next().unwrap() } } // REFUSE	outlives the value	fn f(v: &V) -> &'static String { v.iter().next().unwrap() }
fn p549() { fn f(v: &V) -> &String { v.iter().next().unwrap() } } // ACCEPT	lives as long as the value	fn f(v: &V) -> &String { v.iter().next().unwrap() }
fn p550() { fn f(v: &V) -> &'static [String] { &**v } } // REFUSE	outlives the value	fn f(v: &V) -> &'static [String] { &**v }
fn p551() { fn f(v: &V) -> &[String] { &**v } } // ACCEPT	lives as long as the value	fn f(v: &V) -> &[String] { &**v }
fn p552() { fn f(v: &V) -> &'static [String] { v.as_ref() } } // REFUSE	outlives the value	fn f(v: &V) -> &'static [String] { v.as_ref() }
fn p553() { fn f(v: &V) -> &[String] { v.as_ref() } } // ACCEPT	lives as long as the value	fn f(v: &V) -> &[String] { v.as_ref() }
fn p554() { fn f(m: &M) -> &'static [String] { m.rows_iter_ref().next().unwrap() } } // REFUSE	outlives the value	fn f(m: &M) -> &'static [String] { m.rows_iter_ref().next().unwrap() }
fn p555() { fn f(m: &M) -> &[String] { m.rows_iter_ref().next().unwrap() } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &[String] { m.rows_iter_ref().next().unwrap() }
fn p556() { fn f(m: &M) -> &'static String { m.cols_iter_ref().next().unwrap().next().unwrap() } } // REFUSE	outlives the value	fn f(m: &M) -> &'static String { m.cols_iter_ref().next().unwrap().next().unwrap() }
fn p557() { fn f(m: &M) -> &String { m.cols_iter_ref().next().unwrap().next().unwrap() } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &String { m.cols_iter_ref().next().unwrap().next().unwrap() }
fn p558() { fn f(m: &M) -> &'static String { m.cols_iter_ref().next_back().unwrap().next_back().unwrap() } } // REFUSE	outlives the value	fn f(m: &M) -> &'static String { m.cols_iter_ref().next_back().unwrap().next_back().unwrap() }
fn p559() { fn f(m: &M) -> &String { m.cols_iter_ref().next_back().unwrap().next_back().unwrap() } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &String { m.cols_iter_ref().next_back().unwrap().next_back().unwrap() }
fn p560() { fn f(m: &M) -> &'static String { &m[(0, 1)] } } // REFUSE	outlives the value	fn f(m: &M) -> &'static String { &m[(0, 1)] }
fn p561() { fn f(m: &M) -> &String { &m[(0, 1)] } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &String { &m[(0, 1)] }
fn p562() { fn f(m: &M) -> &'static String { &m[(U0::new(), U0::new())] } } // REFUSE	outlives the value	fn f(m: &M) -> &'static String { &m[(U0::new(), U0::new())] }
fn p563() { fn f(m: &M) -> &String { &m[(U0::new(), U0::new())] } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &String { &m[(U0::new(), U0::new())] }
fn p564() { fn f(m: &M) -> &'static String { &m[(U0::new(), U1::new())] } } // REFUSE	outlives the value	fn f(m: &M) -> &'static String { &m[(U0::new(), U1::new())] }
fn p565() { fn f(m: &M) -> &String { &m[(U0::new(), U1::new())] } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &String { &m[(U0::new(), U1::new())] }
fn p566() { fn f(m: &M) -> &'static String { &m[(U1::new(), U0::new())] } } // REFUSE	outlives the value	fn f(m: &M) -> &'static String { &m[(U1::new(), U0::new())] }
fn p567() { fn f(m: &M) -> &String { &m[(U1::new(), U0::new())] } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &String { &m[(U1::new(), U0::new())] }
fn p568() { fn f(m: &M) -> &'static String { &m[(U1::new(), U1::new())] } } // REFUSE	outlives the value	fn f(m: &M) -> &'static String { &m[(U1::new(), U1::new())] }
fn p569() { fn f(m: &M) -> &String { &m[(U1::new(), U1::new())] } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &String { &m[(U1::new(), U1::new())] }
fn p570() { fn f(m: &M) -> &'static String { unsafe { m.get_unchecked((0, 0)) } } } // REFUSE	outlives the value	fn f(m: &M) -> &'static String { unsafe { m.get_unchecked((0, 0)) } }
fn p571() { fn f(m: &M) -> &String { unsafe { m.get_unchecked((0, 0)) } } } // ACCEPT	lives as long as the value	fn f(m: &M) -> &String { unsafe { m.get_unchecked((0, 0)) } }
fn p572() { let a; { let x = String::new(); a = vector![&x]; } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x]; } let _b = (&a, 0);
fn p573() { let x = String::new(); let a; { a = vector![&x]; } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x]; } let _b = (&a, 0);
fn p574() { let a; { let x = String::new(); a = Vector::<&String, U1>::generate(|_| &x); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = Vector::<&String, U1>::generate(|_| &x); } let _b = (&a, 0);
fn p575() { let x = String::new(); let a; { a = Vector::<&String, U1>::generate(|_| &x); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = Vector::<&String, U1>::generate(|_| &x); } let _b = (&a, 0);
fn p576() { let a; { let x = String::new(); a = Some(&x).into_iter().collect::<Vector<&String, U1>>(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = Some(&x).into_iter().collect::<Vector<&String, U1>>(); } let _b = (&a, 0);
fn p577() { let x = String::new(); let a; { a = Some(&x).into_iter().collect::<Vector<&String, U1>>(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = Some(&x).into_iter().collect::<Vector<&String, U1>>(); } let _b = (&a, 0);
fn p578() { let a; { let x = String::new(); a = vector![&x].clone(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x].clone(); } let _b = (&a, 0);
fn p579() { let x = String::new(); let a; { a = vector![&x].clone(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x].clone(); } let _b = (&a, 0);
fn p580() { let a; { let x = String::new(); a = vector![&x].into_iter(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x].into_iter(); } let _b = (&a, 0);
fn p581() { let x = String::new(); let a; { a = vector![&x].into_iter(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x].into_iter(); } let _b = (&a, 0);
fn p582() { let a; { let x = String::new(); a = vector![&x].into_iter().next(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x].into_iter().next(); } let _b = (&a, 0);
fn p583() { let x = String::new(); let a; { a = vector![&x].into_iter().next(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x].into_iter().next(); } let _b = (&a, 0);
fn p584() { let a; { let x = String::new(); a = vector![&x].into_inner(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x].into_inner(); } let _b = (&a, 0);
fn p585() { let x = String::new(); let a; { a = vector![&x].into_inner(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x].into_inner(); } let _b = (&a, 0);
fn p586() { let a; { let x = String::new(); a = vector![&x, &x].into_chunks::<U1>().next(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x, &x].into_chunks::<U1>().next(); } let _b = (&a, 0);
fn p587() { let x = String::new(); let a; { a = vector![&x, &x].into_chunks::<U1>().next(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x, &x].into_chunks::<U1>().next(); } let _b = (&a, 0);
fn p588() { let a; { let x = String::new(); a = matrix![[&x]].transposed(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = matrix![[&x]].transposed(); } let _b = (&a, 0);
fn p589() { let x = String::new(); let a; { a = matrix![[&x]].transposed(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = matrix![[&x]].transposed(); } let _b = (&a, 0);
fn p590() { let a; { let x = String::new(); a = matrix![[0]].map(|_, _| &x); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = matrix![[0]].map(|_, _| &x); } let _b = (&a, 0);
fn p591() { let x = String::new(); let a; { a = matrix![[0]].map(|_, _| &x); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = matrix![[0]].map(|_, _| &x); } let _b = (&a, 0);
fn p592() { let a; { let x = String::new(); a = matrix![[&x]].map(|_, y| y); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = matrix![[&x]].map(|_, y| y); } let _b = (&a, 0);
fn p593() { let x = String::new(); let a; { a = matrix![[&x]].map(|_, y| y); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = matrix![[&x]].map(|_, y| y); } let _b = (&a, 0);
fn p594() { let a; { let x = String::new(); a = Matrix::<&String, U1, U1>::from(vector![&x]); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = Matrix::<&String, U1, U1>::from(vector![&x]); } let _b = (&a, 0);
fn p595() { let x = String::new(); let a; { a = Matrix::<&String, U1, U1>::from(vector![&x]); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = Matrix::<&String, U1, U1>::from(vector![&x]); } let _b = (&a, 0);
fn p596() { let a; { let x = String::new(); a = Matrix::<&String, U1, U1>::generate(|_| &x); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = Matrix::<&String, U1, U1>::generate(|_| &x); } let _b = (&a, 0);
fn p597() { let x = String::new(); let a; { a = Matrix::<&String, U1, U1>::generate(|_| &x); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = Matrix::<&String, U1, U1>::generate(|_| &x); } let _b = (&a, 0);
fn p598() { let a; { let x = String::new(); a = matrix![[&x]].rows_iter().next(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = matrix![[&x]].rows_iter().next(); } let _b = (&a, 0);
fn p599() { let x = String::new(); let a; { a = matrix![[&x]].rows_iter().next(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = matrix![[&x]].rows_iter().next(); } let _b = (&a, 0);
fn p600() { let a; { let x = String::new(); a = matrix![[&x]].cols_iter().next(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = matrix![[&x]].cols_iter().next(); } let _b = (&a, 0);
fn p601() { let x = String::new(); let a; { a = matrix![[&x]].cols_iter().next(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = matrix![[&x]].cols_iter().next(); } let _b = (&a, 0);
fn p602() { let a; { let x = String::new(); a = *vector![&x].iter().next().unwrap(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = *vector![&x].iter().next().unwrap(); } let _b = (&a, 0);
fn p603() { let x = String::new(); let a; { a = *vector![&x].iter().next().unwrap(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = *vector![&x].iter().next().unwrap(); } let _b = (&a, 0);
fn p604() { let a; { let x = String::new(); a = vector![&x].max(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x].max(); } let _b = (&a, 0);
fn p605() { let x = String::new(); let a; { a = vector![&x].max(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x].max(); } let _b = (&a, 0);
fn p606() { let a; { let x = String::new(); a = vector![&x].clamped(&x, &x); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x].clamped(&x, &x); } let _b = (&a, 0);
fn p607() { let x = String::new(); let a; { a = vector![&x].clamped(&x, &x); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x].clamped(&x, &x); } let _b = (&a, 0);
fn p608() { let a; { let x = String::new(); a = matrix![[&x]].max(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = matrix![[&x]].max(); } let _b = (&a, 0);
fn p609() { let x = String::new(); let a; { a = matrix![[&x]].max(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = matrix![[&x]].max(); } let _b = (&a, 0);
fn p610() { let a; { let x = String::new(); a = matrix![[&x]].clamped(&x, &x); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = matrix![[&x]].clamped(&x, &x); } let _b = (&a, 0);
fn p611() { let x = String::new(); let a; { a = matrix![[&x]].clamped(&x, &x); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = matrix![[&x]].clamped(&x, &x); } let _b = (&a, 0);
fn p612() { let a; { let x = String::new(); a = vector![1].into_iter().map(|_| &x).collect::<Vector<_, U1>>(); } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![1].into_iter().map(|_| &x).collect::<Vector<_, U1>>(); } let _b = (&a, 0);
fn p613() { let x = String::new(); let a; { a = vector![1].into_iter().map(|_| &x).collect::<Vector<_, U1>>(); } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![1].into_iter().map(|_| &x).collect::<Vector<_, U1>>(); } let _b = (&a, 0);
fn p614() { let a; { let x = String::new(); a = vector![&x][0]; } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = vector![&x][0]; } let _b = (&a, 0);
fn p615() { let x = String::new(); let a; { a = vector![&x][0]; } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = vector![&x][0]; } let _b = (&a, 0);
fn p616() { let a; { let x = String::new(); a = matrix![[&x]][(0, 0)]; } let _b = (&a, 0); } // REFUSE	elements outlive what they borrow	let a; { let x = String::new(); a = matrix![[&x]][(0, 0)]; } let _b = (&a, 0);
fn p617() { let x = String::new(); let a; { a = matrix![[&x]][(0, 0)]; } let _b = (&a, 0); } // ACCEPT	elements live as long as what they borrow	let x = String::new(); let a; { a = matrix![[&x]][(0, 0)]; } let _b = (&a, 0);
fn p618() { let a = v().get_unchecked(0).len(); } // REFUSE	unchecked access outside unsafe	let a = v().get_unchecked(0).len();
fn p619() { let a = unsafe { v().get_unchecked(0).len() }; } // ACCEPT	unchecked access inside unsafe	let a = unsafe { v().get_unchecked(0).len() };
fn p620() { let a = v().get_unchecked_mut(0).len(); } // REFUSE	unchecked access outside unsafe	let a = v().get_unchecked_mut(0).len();
fn p621() { let a = unsafe { v().get_unchecked_mut(0).len() }; } // ACCEPT	unchecked access inside unsafe	let a = unsafe { v().get_unchecked_mut(0).len() };
fn p622() { let a = m().get_unchecked((0, 0)).len(); } // REFUSE	unchecked access outside unsafe	let a = m().get_unchecked((0, 0)).len();
fn p623() { let a = unsafe { m().get_unchecked((0, 0)).len() }; } // ACCEPT	unchecked access inside unsafe	let a = unsafe { m().get_unchecked((0, 0)).len() };
fn p624() { let a = m().get_unchecked_mut((0, 0)).len(); } // REFUSE	unchecked access outside unsafe	let a = m().get_unchecked_mut((0, 0)).len();
fn p625() { let a = unsafe { m().get_unchecked_mut((0, 0)).len() }; } // ACCEPT	unchecked access inside unsafe	let a = unsafe { m().get_unchecked_mut((0, 0)).len() };
