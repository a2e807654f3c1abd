// Generated by gen_layouts.py from layouts.json
#![allow(warnings)]
use crate::lay::*;
use flatdata::*;

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum Eu8 { P0 = 0, P1 = 1, P2 = 2, P3 = 3 }
impl flatdata::helper::Int for Eu8 { const IS_SIGNED: bool = false; }
impl Val for Eu8 { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { 0 => Eu8::P0, 1 => Eu8::P1, 2 => Eu8::P2, 3 => Eu8::P3, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(i8)]
pub enum Ei8 { M2 = -2, M1 = -1, P0 = 0, P1 = 1 }
impl flatdata::helper::Int for Ei8 { const IS_SIGNED: bool = true; }
impl Val for Ei8 { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { -2 => Ei8::M2, -1 => Ei8::M1, 0 => Ei8::P0, 1 => Ei8::P1, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u16)]
pub enum Eu16 { P0 = 0, P300 = 300, P511 = 511 }
impl flatdata::helper::Int for Eu16 { const IS_SIGNED: bool = false; }
impl Val for Eu16 { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { 0 => Eu16::P0, 300 => Eu16::P300, 511 => Eu16::P511, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(i16)]
pub enum Ei16 { M100 = -100, M1 = -1, P0 = 0, P99 = 99 }
impl flatdata::helper::Int for Ei16 { const IS_SIGNED: bool = true; }
impl Val for Ei16 { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { -100 => Ei16::M100, -1 => Ei16::M1, 0 => Ei16::P0, 99 => Ei16::P99, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u32)]
pub enum Eu32 { P0 = 0, P1 = 1, P65537 = 65537 }
impl flatdata::helper::Int for Eu32 { const IS_SIGNED: bool = false; }
impl Val for Eu32 { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { 0 => Eu32::P0, 1 => Eu32::P1, 65537 => Eu32::P65537, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(i32)]
pub enum Ei32 { M65536 = -65536, M1 = -1, P0 = 0, P65535 = 65535 }
impl flatdata::helper::Int for Ei32 { const IS_SIGNED: bool = true; }
impl Val for Ei32 { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { -65536 => Ei32::M65536, -1 => Ei32::M1, 0 => Ei32::P0, 65535 => Ei32::P65535, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u64)]
pub enum Eu64 { P0 = 0, P7 = 7, P2147483647 = 2147483647 }
impl flatdata::helper::Int for Eu64 { const IS_SIGNED: bool = false; }
impl Val for Eu64 { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { 0 => Eu64::P0, 7 => Eu64::P7, 2147483647 => Eu64::P2147483647, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(i64)]
pub enum Ei64 { M2147483647 = -2147483647, M5 = -5, P0 = 0, P2147483646 = 2147483646 }
impl flatdata::helper::Int for Ei64 { const IS_SIGNED: bool = true; }
impl Val for Ei64 { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { -2147483647 => Ei64::M2147483647, -5 => Ei64::M5, 0 => Ei64::P0, 2147483646 => Ei64::P2147483646, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum Eb { P0 = 0, P1 = 1 }
impl flatdata::helper::Int for Eb { const IS_SIGNED: bool = false; }
impl Val for Eb { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { 0 => Eb::P0, 1 => Eb::P1, x => crate::json::tool_error(&format!("bad enum value {}", x)) } } }

define_struct!(S1, RefS1, RefMutS1, "schema of S1", 14, (a, set_a, bool, 0, 1), (b, set_b, u8, 1, 5), (c, set_c, u16, 6, 11), (d, set_d, u32, 17, 29), (e, set_e, u64, 46, 64));
impl Lay for S1 {
    const NAME: &'static str = "S1";
    const NF: usize = 5;
    fn get<'a>(x: &RefS1<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutS1<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutS1<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_a(Val::from8(v)), 1 => x.set_b(Val::from8(v)), 2 => x.set_c(Val::from8(v)), 3 => x.set_d(Val::from8(v)), 4 => x.set_e(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutS1<'a>, y: &RefS1<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefS1<'a> { S1::create_mut(d).into_ref() }
}

define_struct!(S2, RefS2, RefMutS2, "schema of S2", 19, (a, set_a, i8, 3, 5), (b, set_b, i16, 8, 13), (c, set_c, i32, 21, 31), (d, set_d, i64, 52, 64), (e, set_e, i64, 116, 33));
impl Lay for S2 {
    const NAME: &'static str = "S2";
    const NF: usize = 5;
    fn get<'a>(x: &RefS2<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutS2<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutS2<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_a(Val::from8(v)), 1 => x.set_b(Val::from8(v)), 2 => x.set_c(Val::from8(v)), 3 => x.set_d(Val::from8(v)), 4 => x.set_e(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutS2<'a>, y: &RefS2<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefS2<'a> { S2::create_mut(d).into_ref() }
}

define_struct!(S3, RefS3, RefMutS3, "schema of S3", 30, (a, set_a, u8, 0, 8), (b, set_b, u16, 8, 16), (c, set_c, u32, 24, 32), (d, set_d, u64, 56, 64), (e, set_e, i8, 120, 8), (f, set_f, i16, 128, 16), (g, set_g, i32, 144, 32), (h, set_h, i64, 176, 64));
impl Lay for S3 {
    const NAME: &'static str = "S3";
    const NF: usize = 8;
    fn get<'a>(x: &RefS3<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), 5 => x.f().to8(), 6 => x.g().to8(), 7 => x.h().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutS3<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), 5 => x.f().to8(), 6 => x.g().to8(), 7 => x.h().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutS3<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_a(Val::from8(v)), 1 => x.set_b(Val::from8(v)), 2 => x.set_c(Val::from8(v)), 3 => x.set_d(Val::from8(v)), 4 => x.set_e(Val::from8(v)), 5 => x.set_f(Val::from8(v)), 6 => x.set_g(Val::from8(v)), 7 => x.set_h(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutS3<'a>, y: &RefS3<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefS3<'a> { S3::create_mut(d).into_ref() }
}

define_struct!(S4, RefS4, RefMutS4, "schema of S4", 27, (a, set_a, Eu8: u8, 1, 2), (b, set_b, Ei8: i8, 3, 2), (c, set_c, Eu16: u16, 5, 9), (d, set_d, Ei16: i16, 14, 8), (e, set_e, Eu32: u32, 22, 17), (f, set_f, Ei32: i32, 39, 17), (g, set_g, Eu64: u64, 56, 33), (h, set_h, Ei64: i64, 89, 60), (i, set_i, Eb: u8, 149, 1), (j, set_j, bool: bool, 151, 1));
impl Lay for S4 {
    const NAME: &'static str = "S4";
    const NF: usize = 10;
    fn get<'a>(x: &RefS4<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), 5 => x.f().to8(), 6 => x.g().to8(), 7 => x.h().to8(), 8 => x.i().to8(), 9 => x.j().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutS4<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), 5 => x.f().to8(), 6 => x.g().to8(), 7 => x.h().to8(), 8 => x.i().to8(), 9 => x.j().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutS4<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_a(Val::from8(v)), 1 => x.set_b(Val::from8(v)), 2 => x.set_c(Val::from8(v)), 3 => x.set_d(Val::from8(v)), 4 => x.set_e(Val::from8(v)), 5 => x.set_f(Val::from8(v)), 6 => x.set_g(Val::from8(v)), 7 => x.set_h(Val::from8(v)), 8 => x.set_i(Val::from8(v)), 9 => x.set_j(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutS4<'a>, y: &RefS4<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefS4<'a> { S4::create_mut(d).into_ref() }
}

define_struct!(S5, RefS5, RefMutS5, "schema of S5", 1, (only, set_only, bool, 0, 1));
impl Lay for S5 {
    const NAME: &'static str = "S5";
    const NF: usize = 1;
    fn get<'a>(x: &RefS5<'a>, f: usize) -> [u8; 8] { match f { 0 => x.only().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutS5<'a>, f: usize) -> [u8; 8] { match f { 0 => x.only().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutS5<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_only(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutS5<'a>, y: &RefS5<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefS5<'a> { S5::create_mut(d).into_ref() }
}

define_struct!(S6, RefS6, RefMutS6, "schema of S6", 9, (x, set_x, u64, 7, 58), (y, set_y, u8, 0, 7), (z, set_z, u8, 65, 7));
impl Lay for S6 {
    const NAME: &'static str = "S6";
    const NF: usize = 3;
    fn get<'a>(x: &RefS6<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), 2 => x.z().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutS6<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), 2 => x.z().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutS6<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), 1 => x.set_y(Val::from8(v)), 2 => x.set_z(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutS6<'a>, y: &RefS6<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefS6<'a> { S6::create_mut(d).into_ref() }
}

define_struct!(S7, RefS7, RefMutS7, "schema of S7", 2, (a, set_a, u8, 0, 1), (b, set_b, u8, 1, 1), (c, set_c, u16, 2, 1), (d, set_d, u32, 3, 3), (e, set_e, u64, 6, 3), (f, set_f, i8, 9, 2), (g, set_g, u64, 11, 1), (h, set_h, i64, 12, 4));
impl Lay for S7 {
    const NAME: &'static str = "S7";
    const NF: usize = 8;
    fn get<'a>(x: &RefS7<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), 5 => x.f().to8(), 6 => x.g().to8(), 7 => x.h().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutS7<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), 3 => x.d().to8(), 4 => x.e().to8(), 5 => x.f().to8(), 6 => x.g().to8(), 7 => x.h().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutS7<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_a(Val::from8(v)), 1 => x.set_b(Val::from8(v)), 2 => x.set_c(Val::from8(v)), 3 => x.set_d(Val::from8(v)), 4 => x.set_e(Val::from8(v)), 5 => x.set_f(Val::from8(v)), 6 => x.set_g(Val::from8(v)), 7 => x.set_h(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutS7<'a>, y: &RefS7<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefS7<'a> { S7::create_mut(d).into_ref() }
}

define_struct!(S8, RefS8, RefMutS8, "schema of S8", 25, (a, set_a, u64, 5, 61), (b, set_b, i64, 70, 62), (c, set_c, i64, 135, 59));
impl Lay for S8 {
    const NAME: &'static str = "S8";
    const NF: usize = 3;
    fn get<'a>(x: &RefS8<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutS8<'a>, f: usize) -> [u8; 8] { match f { 0 => x.a().to8(), 1 => x.b().to8(), 2 => x.c().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutS8<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_a(Val::from8(v)), 1 => x.set_b(Val::from8(v)), 2 => x.set_c(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutS8<'a>, y: &RefS8<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefS8<'a> { S8::create_mut(d).into_ref() }
}

define_struct!(V1, RefV1, RefMutV1, "schema of V1", 1, (x, set_x, u8, 0, 8));
impl Lay for V1 {
    const NAME: &'static str = "V1";
    const NF: usize = 1;
    fn get<'a>(x: &RefV1<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutV1<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutV1<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutV1<'a>, y: &RefV1<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefV1<'a> { V1::create_mut(d).into_ref() }
}

define_struct!(V2, RefV2, RefMutV2, "schema of V2", 2, (x, set_x, u16, 0, 9), (y, set_y, u8, 9, 7));
impl Lay for V2 {
    const NAME: &'static str = "V2";
    const NF: usize = 2;
    fn get<'a>(x: &RefV2<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutV2<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutV2<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), 1 => x.set_y(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutV2<'a>, y: &RefV2<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefV2<'a> { V2::create_mut(d).into_ref() }
}

define_struct!(V3, RefV3, RefMutV3, "schema of V3", 3, (x, set_x, u32, 0, 24));
impl Lay for V3 {
    const NAME: &'static str = "V3";
    const NF: usize = 1;
    fn get<'a>(x: &RefV3<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutV3<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutV3<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutV3<'a>, y: &RefV3<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefV3<'a> { V3::create_mut(d).into_ref() }
}

define_struct!(V4, RefV4, RefMutV4, "schema of V4", 4, (x, set_x, u16, 0, 16), (y, set_y, u16, 16, 16));
impl Lay for V4 {
    const NAME: &'static str = "V4";
    const NF: usize = 2;
    fn get<'a>(x: &RefV4<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutV4<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutV4<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), 1 => x.set_y(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutV4<'a>, y: &RefV4<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefV4<'a> { V4::create_mut(d).into_ref() }
}

define_struct!(V5, RefV5, RefMutV5, "schema of V5", 5, (x, set_x, u32, 3, 29), (y, set_y, u8, 33, 6));
impl Lay for V5 {
    const NAME: &'static str = "V5";
    const NF: usize = 2;
    fn get<'a>(x: &RefV5<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutV5<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutV5<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), 1 => x.set_y(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutV5<'a>, y: &RefV5<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefV5<'a> { V5::create_mut(d).into_ref() }
}

define_struct!(V16, RefV16, RefMutV16, "schema of V16", 16, (x, set_x, u64, 0, 30), (y, set_y, u32, 97, 30));
impl Lay for V16 {
    const NAME: &'static str = "V16";
    const NF: usize = 2;
    fn get<'a>(x: &RefV16<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutV16<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutV16<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), 1 => x.set_y(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutV16<'a>, y: &RefV16<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefV16<'a> { V16::create_mut(d).into_ref() }
}

define_struct!(HUGE, RefHUGE, RefMutHUGE, "schema of HUGE", 11534339, (x, set_x, u32, 0, 31), (y, set_y, u32, 92274680, 31));
impl Lay for HUGE {
    const NAME: &'static str = "HUGE";
    const NF: usize = 2;
    fn get<'a>(x: &RefHUGE<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutHUGE<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutHUGE<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), 1 => x.set_y(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutHUGE<'a>, y: &RefHUGE<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefHUGE<'a> { HUGE::create_mut(d).into_ref() }
}

define_struct!(BIG33, RefBIG33, RefMutBIG33, "schema of BIG33", 34603010, (x, set_x, u32, 8, 31), (y, set_y, u32, 276824048, 31));
impl Lay for BIG33 {
    const NAME: &'static str = "BIG33";
    const NF: usize = 2;
    fn get<'a>(x: &RefBIG33<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn getm<'a>(x: &RefMutBIG33<'a>, f: usize) -> [u8; 8] { match f { 0 => x.x().to8(), 1 => x.y().to8(), _ => bad_field() } }
    fn set<'a>(x: &mut RefMutBIG33<'a>, f: usize, v: [u8; 8]) { match f { 0 => x.set_x(Val::from8(v)), 1 => x.set_y(Val::from8(v)), _ => bad_field() } }
    fn fill<'a, 'b>(x: &mut RefMutBIG33<'a>, y: &RefBIG33<'b>) { x.fill_from(y) }
    fn into_ref<'a>(d: &'a mut [u8]) -> RefBIG33<'a> { BIG33::create_mut(d).into_ref() }
}

define_index!(I8, RefI8, RefMutI8, "schema of I8", 1, 8);
define_index!(I32, RefI32, RefMutI32, "schema of I32", 4, 32);
define_index!(I40, RefI40, RefMutI40, "schema of I40", 5, 40);
define_index!(I64, RefI64, RefMutI64, "schema of I64", 8, 64);
define_index!(IB, RefIB, RefMutIB, "schema of IB", 5242880, 32);
define_index!(IC, RefIC, RefMutIC, "schema of IC", 12582912, 32);

define_variadic_struct!(TsA, RefTsA, BuilderTsA, I32, 0 => (V1, add_v1), 1 => (V3, add_v3), 2 => (V5, add_v5));
impl Variadic for TsA {
    type Idx = I32;
    fn add<'a>(b: &mut BuilderTsA<'a>, t: i64, vals: &[[u8; 8]]) { match t { 0 => { let mut x = b.add_v1(); set_all::<V1>(&mut x, vals) }, 1 => { let mut x = b.add_v3(); set_all::<V3>(&mut x, vals) }, 2 => { let mut x = b.add_v5(); set_all::<V5>(&mut x, vals) }, _ => bad_field() } }
    fn tag<'a>(x: &RefTsA<'a>) -> i64 { match x { RefTsA::V1(_) => 0, RefTsA::V3(_) => 1, RefTsA::V5(_) => 2 } }
    fn tags() -> Vec<(i64, usize)> { vec![(0, 1), (1, 1), (2, 2)] }
    fn fields<'a>(x: &RefTsA<'a>) -> Vec<[u8; 8]> { match x { RefTsA::V1(y) => get_all::<V1>(y), RefTsA::V3(y) => get_all::<V3>(y), RefTsA::V5(y) => get_all::<V5>(y) } }
}

define_variadic_struct!(TsB, RefTsB, BuilderTsB, I40, 3 => (V4, add_v4), 255 => (V16, add_v16), 0 => (V2, add_v2), 128 => (V1, add_v1));
impl Variadic for TsB {
    type Idx = I40;
    fn add<'a>(b: &mut BuilderTsB<'a>, t: i64, vals: &[[u8; 8]]) { match t { 3 => { let mut x = b.add_v4(); set_all::<V4>(&mut x, vals) }, 255 => { let mut x = b.add_v16(); set_all::<V16>(&mut x, vals) }, 0 => { let mut x = b.add_v2(); set_all::<V2>(&mut x, vals) }, 128 => { let mut x = b.add_v1(); set_all::<V1>(&mut x, vals) }, _ => bad_field() } }
    fn tag<'a>(x: &RefTsB<'a>) -> i64 { match x { RefTsB::V4(_) => 3, RefTsB::V16(_) => 255, RefTsB::V2(_) => 0, RefTsB::V1(_) => 128 } }
    fn tags() -> Vec<(i64, usize)> { vec![(3, 2), (255, 2), (0, 2), (128, 1)] }
    fn fields<'a>(x: &RefTsB<'a>) -> Vec<[u8; 8]> { match x { RefTsB::V4(y) => get_all::<V4>(y), RefTsB::V16(y) => get_all::<V16>(y), RefTsB::V2(y) => get_all::<V2>(y), RefTsB::V1(y) => get_all::<V1>(y) } }
}

define_variadic_struct!(TsC, RefTsC, BuilderTsC, I64, 0 => (V3, add_v3));
impl Variadic for TsC {
    type Idx = I64;
    fn add<'a>(b: &mut BuilderTsC<'a>, t: i64, vals: &[[u8; 8]]) { match t { 0 => { let mut x = b.add_v3(); set_all::<V3>(&mut x, vals) }, _ => bad_field() } }
    fn tag<'a>(x: &RefTsC<'a>) -> i64 { match x { RefTsC::V3(_) => 0 } }
    fn tags() -> Vec<(i64, usize)> { vec![(0, 1)] }
    fn fields<'a>(x: &RefTsC<'a>) -> Vec<[u8; 8]> { match x { RefTsC::V3(y) => get_all::<V3>(y) } }
}

define_variadic_struct!(TsD, RefTsD, BuilderTsD, I8, 0 => (V1, add_v1), 1 => (V3, add_v3), 2 => (V5, add_v5));
impl Variadic for TsD {
    type Idx = I8;
    fn add<'a>(b: &mut BuilderTsD<'a>, t: i64, vals: &[[u8; 8]]) { match t { 0 => { let mut x = b.add_v1(); set_all::<V1>(&mut x, vals) }, 1 => { let mut x = b.add_v3(); set_all::<V3>(&mut x, vals) }, 2 => { let mut x = b.add_v5(); set_all::<V5>(&mut x, vals) }, _ => bad_field() } }
    fn tag<'a>(x: &RefTsD<'a>) -> i64 { match x { RefTsD::V1(_) => 0, RefTsD::V3(_) => 1, RefTsD::V5(_) => 2 } }
    fn tags() -> Vec<(i64, usize)> { vec![(0, 1), (1, 1), (2, 2)] }
    fn fields<'a>(x: &RefTsD<'a>) -> Vec<[u8; 8]> { match x { RefTsD::V1(y) => get_all::<V1>(y), RefTsD::V3(y) => get_all::<V3>(y), RefTsD::V5(y) => get_all::<V5>(y) } }
}

define_variadic_struct!(TsH, RefTsH, BuilderTsH, IB, 0 => (V1, add_v1), 7 => (HUGE, add_huge), 200 => (V3, add_v3));
impl Variadic for TsH {
    type Idx = IB;
    fn add<'a>(b: &mut BuilderTsH<'a>, t: i64, vals: &[[u8; 8]]) { match t { 0 => { let mut x = b.add_v1(); set_all::<V1>(&mut x, vals) }, 7 => { let mut x = b.add_huge(); set_all::<HUGE>(&mut x, vals) }, 200 => { let mut x = b.add_v3(); set_all::<V3>(&mut x, vals) }, _ => bad_field() } }
    fn tag<'a>(x: &RefTsH<'a>) -> i64 { match x { RefTsH::V1(_) => 0, RefTsH::HUGE(_) => 7, RefTsH::V3(_) => 200 } }
    fn tags() -> Vec<(i64, usize)> { vec![(0, 1), (7, 2), (200, 1)] }
    fn fields<'a>(x: &RefTsH<'a>) -> Vec<[u8; 8]> { match x { RefTsH::V1(y) => get_all::<V1>(y), RefTsH::HUGE(y) => get_all::<HUGE>(y), RefTsH::V3(y) => get_all::<V3>(y) } }
}

define_variadic_struct!(TsG, RefTsG, BuilderTsG, I32, 1 => (V3, add_v3), 2 => (HUGE, add_huge), 9 => (BIG33, add_big33));
impl Variadic for TsG {
    type Idx = I32;
    fn add<'a>(b: &mut BuilderTsG<'a>, t: i64, vals: &[[u8; 8]]) { match t { 1 => { let mut x = b.add_v3(); set_all::<V3>(&mut x, vals) }, 2 => { let mut x = b.add_huge(); set_all::<HUGE>(&mut x, vals) }, 9 => { let mut x = b.add_big33(); set_all::<BIG33>(&mut x, vals) }, _ => bad_field() } }
    fn tag<'a>(x: &RefTsG<'a>) -> i64 { match x { RefTsG::V3(_) => 1, RefTsG::HUGE(_) => 2, RefTsG::BIG33(_) => 9 } }
    fn tags() -> Vec<(i64, usize)> { vec![(1, 1), (2, 2), (9, 2)] }
    fn fields<'a>(x: &RefTsG<'a>) -> Vec<[u8; 8]> { match x { RefTsG::V3(y) => get_all::<V3>(y), RefTsG::HUGE(y) => get_all::<HUGE>(y), RefTsG::BIG33(y) => get_all::<BIG33>(y) } }
}

define_variadic_struct!(TsW, RefTsW, BuilderTsW, I64, 1 => (V3, add_v3), 9 => (BIG33, add_big33), 2 => (HUGE, add_huge));
impl Variadic for TsW {
    type Idx = I64;
    fn add<'a>(b: &mut BuilderTsW<'a>, t: i64, vals: &[[u8; 8]]) { match t { 1 => { let mut x = b.add_v3(); set_all::<V3>(&mut x, vals) }, 9 => { let mut x = b.add_big33(); set_all::<BIG33>(&mut x, vals) }, 2 => { let mut x = b.add_huge(); set_all::<HUGE>(&mut x, vals) }, _ => bad_field() } }
    fn tag<'a>(x: &RefTsW<'a>) -> i64 { match x { RefTsW::V3(_) => 1, RefTsW::BIG33(_) => 9, RefTsW::HUGE(_) => 2 } }
    fn tags() -> Vec<(i64, usize)> { vec![(1, 1), (9, 2), (2, 2)] }
    fn fields<'a>(x: &RefTsW<'a>) -> Vec<[u8; 8]> { match x { RefTsW::V3(y) => get_all::<V3>(y), RefTsW::BIG33(y) => get_all::<BIG33>(y), RefTsW::HUGE(y) => get_all::<HUGE>(y) } }
}

define_variadic_struct!(TsI, RefTsI, BuilderTsI, IC, 0 => (V1, add_v1), 7 => (V3, add_v3));
impl Variadic for TsI {
    type Idx = IC;
    fn add<'a>(b: &mut BuilderTsI<'a>, t: i64, vals: &[[u8; 8]]) { match t { 0 => { let mut x = b.add_v1(); set_all::<V1>(&mut x, vals) }, 7 => { let mut x = b.add_v3(); set_all::<V3>(&mut x, vals) }, _ => bad_field() } }
    fn tag<'a>(x: &RefTsI<'a>) -> i64 { match x { RefTsI::V1(_) => 0, RefTsI::V3(_) => 7 } }
    fn tags() -> Vec<(i64, usize)> { vec![(0, 1), (7, 1)] }
    fn fields<'a>(x: &RefTsI<'a>) -> Vec<[u8; 8]> { match x { RefTsI::V1(y) => get_all::<V1>(y), RefTsI::V3(y) => get_all::<V3>(y) } }
}

define_archive!(Leaf, LeafBuilder, "archive Leaf\n{\n  r : raw_data;\n}\n";
    ;
    ;
    ;
    (r, set_r, "schema of Leaf.r", false);
    
);
impl Arc for Leaf {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        { let x = self.r(); out.push(("r".to_string(), raw_id(x))); }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("r", String::new())]
    }
}
impl Bld for LeafBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "r" => self.set_r(&raw_of(k)),
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            _ => bad_field(),
        })
    }
}

define_archive!(Mid, MidBuilder, "archive Mid";
    ;
    ;
    ;
    (m, set_m, "schema of Mid.m", true);
    (leaf, Leaf, LeafBuilder, "schema of Mid.leaf", false)
);
impl Arc for Mid {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        out.push(("m".to_string(), match self.m() { Some(x) => raw_id(x), None => NONE }));
        out.extend(prefixed("leaf", self.leaf().content()));
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("m", String::new()), ("leaf", crate::json::shown(&self.leaf()))]
    }
}
impl Bld for MidBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "m" => self.set_m(&raw_of(k)),
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            "leaf" => Box::leak(Box::new(self.leaf()?)),
            _ => bad_field(),
        })
    }
}

define_archive!(Midway, MidwayBuilder, "archive Mid";
    ;
    ;
    ;
    (m, set_m, "schema of Midway.m", true);
    
);
impl Arc for Midway {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        out.push(("m".to_string(), match self.m() { Some(x) => raw_id(x), None => NONE }));
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("m", String::new())]
    }
}
impl Bld for MidwayBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "m" => self.set_m(&raw_of(k)),
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            _ => bad_field(),
        })
    }
}

define_archive!(Simple, SimpleBuilder, "archive Simple {}";
    ;
    (v, set_v, start_v, V3, "schema of Simple.v", false);
    ;
    (r, set_r, "schema of Simple.r", false);
    
);
impl Arc for Simple {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        { let x = self.v(); out.push(("v".to_string(), vec_id::<V3>(&x))); }
        { let x = self.r(); out.push(("r".to_string(), raw_id(x))); }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("v", crate::json::shown(&self.v())), ("r", String::new())]
    }
}
impl Bld for SimpleBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "v" => { let v = vec_of::<V3>(k); self.set_v(&v.as_view()) }
            "r" => self.set_r(&raw_of(k)),
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "v" => Box::new(EvW::<V3>(Some(self.start_v()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            _ => bad_field(),
        })
    }
}

define_archive!(Full, FullBuilder, "namespace n {\narchive Full\n{\n  a : V4;\n}\n}\n";
    (a, set_a, V4, "schema of Full.a", false), (b, set_b, V5, "schema of Full.b", true);
    (v, set_v, start_v, V3, "schema of Full.v", false), (w, set_w, start_w, V16, "schema of Full.w", true);
    (m, start_m, TsA, "schema of Full.m", m_index, I32, false), (n, start_n, TsB, "schema of Full.n", n_index, I40, true);
    (r, set_r, "schema of Full.r", false), (s, set_s, "schema of Full.s", true);
    (arch, Leaf, LeafBuilder, "schema of Full.arch", false), (oarch, Leaf, LeafBuilder, "schema of Full.oarch", true)
);
impl Arc for Full {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        { let x = self.a(); out.push(("a".to_string(), struct_id::<V4>(&x))); }
        out.push(("b".to_string(), match self.b() { Some(x) => struct_id::<V5>(&x), None => NONE }));
        { let x = self.v(); out.push(("v".to_string(), vec_id::<V3>(&x))); }
        out.push(("w".to_string(), match self.w() { Some(x) => vec_id::<V16>(&x), None => NONE }));
        { let x = self.m(); out.push(("m".to_string(), mv_id::<TsA>(&x))); }
        out.push(("n".to_string(), match self.n() { Some(x) => mv_id::<TsB>(&x), None => NONE }));
        { let x = self.r(); out.push(("r".to_string(), raw_id(x))); }
        out.push(("s".to_string(), match self.s() { Some(x) => raw_id(x), None => NONE }));
        out.extend(prefixed("arch", self.arch().content()));
        match self.oarch() { Some(x) => out.extend(prefixed("oarch", x.content())), None => out.push(("oarch".to_string(), NONE)) }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("a", crate::json::shown(&self.a())), ("b", crate::json::shown(&self.b())), ("v", crate::json::shown(&self.v())), ("w", crate::json::shown(&self.w())), ("m", crate::json::shown(&self.m())), ("n", crate::json::shown(&self.n())), ("r", String::new()), ("s", String::new()), ("arch", crate::json::shown(&self.arch())), ("oarch", crate::json::shown(&self.oarch()))]
    }
}
impl Bld for FullBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "a" => { let b = struct_of::<V4>(k); self.set_a(b.get()) }
            "b" => { let b = struct_of::<V5>(k); self.set_b(b.get()) }
            "v" => { let v = vec_of::<V3>(k); self.set_v(&v.as_view()) }
            "w" => { let v = vec_of::<V16>(k); self.set_w(&v.as_view()) }
            "r" => self.set_r(&raw_of(k)),
            "s" => self.set_s(&raw_of(k)),
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "v" => Box::new(EvW::<V3>(Some(self.start_v()?), 0)),
            "w" => Box::new(EvW::<V16>(Some(self.start_w()?), 0)),
            "m" => Box::new(MvW::<TsA>(Some(self.start_m()?), 0)),
            "n" => Box::new(MvW::<TsB>(Some(self.start_n()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            "arch" => Box::leak(Box::new(self.arch()?)),
            "oarch" => Box::leak(Box::new(self.oarch()?)),
            _ => bad_field(),
        })
    }
}

define_archive!(Opt, OptBuilder, "archive Opt\n";
    (b, set_b, V2, "schema of Opt.b", true);
    (w, set_w, start_w, V1, "schema of Opt.w", true);
    (n, start_n, TsC, "schema of Opt.n", n_index, I64, true);
    (s, set_s, "schema of Opt.s", true);
    (oarch, Mid, MidBuilder, "schema of Opt.oarch", true)
);
impl Arc for Opt {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        out.push(("b".to_string(), match self.b() { Some(x) => struct_id::<V2>(&x), None => NONE }));
        out.push(("w".to_string(), match self.w() { Some(x) => vec_id::<V1>(&x), None => NONE }));
        out.push(("n".to_string(), match self.n() { Some(x) => mv_id::<TsC>(&x), None => NONE }));
        out.push(("s".to_string(), match self.s() { Some(x) => raw_id(x), None => NONE }));
        match self.oarch() { Some(x) => out.extend(prefixed("oarch", x.content())), None => out.push(("oarch".to_string(), NONE)) }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("b", crate::json::shown(&self.b())), ("w", crate::json::shown(&self.w())), ("n", crate::json::shown(&self.n())), ("s", String::new()), ("oarch", crate::json::shown(&self.oarch()))]
    }
}
impl Bld for OptBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "b" => { let b = struct_of::<V2>(k); self.set_b(b.get()) }
            "w" => { let v = vec_of::<V1>(k); self.set_w(&v.as_view()) }
            "s" => self.set_s(&raw_of(k)),
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "w" => Box::new(EvW::<V1>(Some(self.start_w()?), 0)),
            "n" => Box::new(MvW::<TsC>(Some(self.start_n()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            "oarch" => Box::leak(Box::new(self.oarch()?)),
            _ => bad_field(),
        })
    }
}

define_archive!(Deep, DeepBuilder, "archive Deep";
    ;
    ;
    ;
    ;
    (mid, Mid, MidBuilder, "schema of Deep.mid", false), (omid, Mid, MidBuilder, "schema of Deep.omid", true), (simple, Simple, SimpleBuilder, "schema of Deep.simple", true)
);
impl Arc for Deep {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        out.extend(prefixed("mid", self.mid().content()));
        match self.omid() { Some(x) => out.extend(prefixed("omid", x.content())), None => out.push(("omid".to_string(), NONE)) }
        match self.simple() { Some(x) => out.extend(prefixed("simple", x.content())), None => out.push(("simple".to_string(), NONE)) }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("mid", crate::json::shown(&self.mid())), ("omid", crate::json::shown(&self.omid())), ("simple", crate::json::shown(&self.simple()))]
    }
}
impl Bld for DeepBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            "mid" => Box::leak(Box::new(self.mid()?)),
            "omid" => Box::leak(Box::new(self.omid()?)),
            "simple" => Box::leak(Box::new(self.simple()?)),
            _ => bad_field(),
        })
    }
}

define_archive!(Vecs, VecsBuilder, "archive Vecs";
    ;
    (v, set_v, start_v, V4, "schema of Vecs.v", false), (w, set_w, start_w, V5, "schema of Vecs.w", true);
    (m, start_m, TsC, "schema of Vecs.m", m_index, I64, false), (n, start_n, TsA, "schema of Vecs.n", n_index, I32, true);
    ;
    
);
impl Arc for Vecs {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        { let x = self.v(); out.push(("v".to_string(), vec_id::<V4>(&x))); }
        out.push(("w".to_string(), match self.w() { Some(x) => vec_id::<V5>(&x), None => NONE }));
        { let x = self.m(); out.push(("m".to_string(), mv_id::<TsC>(&x))); }
        out.push(("n".to_string(), match self.n() { Some(x) => mv_id::<TsA>(&x), None => NONE }));
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("v", crate::json::shown(&self.v())), ("w", crate::json::shown(&self.w())), ("m", crate::json::shown(&self.m())), ("n", crate::json::shown(&self.n()))]
    }
}
impl Bld for VecsBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "v" => { let v = vec_of::<V4>(k); self.set_v(&v.as_view()) }
            "w" => { let v = vec_of::<V5>(k); self.set_w(&v.as_view()) }
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "v" => Box::new(EvW::<V4>(Some(self.start_v()?), 0)),
            "w" => Box::new(EvW::<V5>(Some(self.start_w()?), 0)),
            "m" => Box::new(MvW::<TsC>(Some(self.start_m()?), 0)),
            "n" => Box::new(MvW::<TsA>(Some(self.start_n()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            _ => bad_field(),
        })
    }
}

define_archive!(Near, NearBuilder, "";
    (m_schema, set_m_schema, V2, "schema of Near.m_schema", true);
    (v, set_v, start_v, V3, "", false), (v_index, set_v_index, start_v_index, V1, "schema of Near.v_index", true);
    (m, start_m, TsA, "", m_index, I32, false);
    (r, set_r, "", true), (r_index, set_r_index, "schema of Near.r_index", false);
    (m_data, Leaf, LeafBuilder, "schema of Near.m_data", true)
);
impl Arc for Near {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        out.push(("m_schema".to_string(), match self.m_schema() { Some(x) => struct_id::<V2>(&x), None => NONE }));
        { let x = self.v(); out.push(("v".to_string(), vec_id::<V3>(&x))); }
        out.push(("v_index".to_string(), match self.v_index() { Some(x) => vec_id::<V1>(&x), None => NONE }));
        { let x = self.m(); out.push(("m".to_string(), mv_id::<TsA>(&x))); }
        out.push(("r".to_string(), match self.r() { Some(x) => raw_id(x), None => NONE }));
        { let x = self.r_index(); out.push(("r_index".to_string(), raw_id(x))); }
        match self.m_data() { Some(x) => out.extend(prefixed("m_data", x.content())), None => out.push(("m_data".to_string(), NONE)) }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("m_schema", crate::json::shown(&self.m_schema())), ("v", crate::json::shown(&self.v())), ("v_index", crate::json::shown(&self.v_index())), ("m", crate::json::shown(&self.m())), ("r", String::new()), ("r_index", String::new()), ("m_data", crate::json::shown(&self.m_data()))]
    }
}
impl Bld for NearBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "m_schema" => { let b = struct_of::<V2>(k); self.set_m_schema(b.get()) }
            "v" => { let v = vec_of::<V3>(k); self.set_v(&v.as_view()) }
            "v_index" => { let v = vec_of::<V1>(k); self.set_v_index(&v.as_view()) }
            "r" => self.set_r(&raw_of(k)),
            "r_index" => self.set_r_index(&raw_of(k)),
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "v" => Box::new(EvW::<V3>(Some(self.start_v()?), 0)),
            "v_index" => Box::new(EvW::<V1>(Some(self.start_v_index()?), 0)),
            "m" => Box::new(MvW::<TsA>(Some(self.start_m()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            "m_data" => Box::leak(Box::new(self.m_data()?)),
            _ => bad_field(),
        })
    }
}

define_archive!(TransportationNetworkOfNorthAmerica, TransportationNetworkOfNorthAmericaBuilder, "archive TransportationNetworkOfNorthAmerica {}";
    ;
    (navigable_roads_of_the_continent_reverse, set_navigable_roads_of_the_continent_reverse, start_navigable_roads_of_the_continent_reverse, V3, "schema of TransportationNetworkOfNorthAmerica.navigable_roads_of_the_continent_reverse", true);
    ;
    (navigable_roads_of_the_continent, set_navigable_roads_of_the_continent, "schema of TransportationNetworkOfNorthAmerica.navigable_roads_of_the_continent", false);
    
);
impl Arc for TransportationNetworkOfNorthAmerica {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        out.push(("navigable_roads_of_the_continent_reverse".to_string(), match self.navigable_roads_of_the_continent_reverse() { Some(x) => vec_id::<V3>(&x), None => NONE }));
        { let x = self.navigable_roads_of_the_continent(); out.push(("navigable_roads_of_the_continent".to_string(), raw_id(x))); }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("navigable_roads_of_the_continent_reverse", crate::json::shown(&self.navigable_roads_of_the_continent_reverse())), ("navigable_roads_of_the_continent", String::new())]
    }
}
impl Bld for TransportationNetworkOfNorthAmericaBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "navigable_roads_of_the_continent_reverse" => { let v = vec_of::<V3>(k); self.set_navigable_roads_of_the_continent_reverse(&v.as_view()) }
            "navigable_roads_of_the_continent" => self.set_navigable_roads_of_the_continent(&raw_of(k)),
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "navigable_roads_of_the_continent_reverse" => Box::new(EvW::<V3>(Some(self.start_navigable_roads_of_the_continent_reverse()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            _ => bad_field(),
        })
    }
}

define_archive!(TransportationNetworkOfSouthAmerica, TransportationNetworkOfSouthAmericaBuilder, "archive TransportationNetworkOfSouthAmerica {}";
    (navigable_roads_of_the_continent, set_navigable_roads_of_the_continent, V2, "schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent", true);
    ;
    (navigable_roads_of_the_continent_forward, start_navigable_roads_of_the_continent_forward, TsA, "schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent_forward", navigable_roads_of_the_continent_forward_index, I32, true);
    ;
    (navigable_roads_of_the_continent_and_its_islands, TransportationNetworkOfNorthAmerica, TransportationNetworkOfNorthAmericaBuilder, "schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent_and_its_islands", true)
);
impl Arc for TransportationNetworkOfSouthAmerica {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        out.push(("navigable_roads_of_the_continent".to_string(), match self.navigable_roads_of_the_continent() { Some(x) => struct_id::<V2>(&x), None => NONE }));
        out.push(("navigable_roads_of_the_continent_forward".to_string(), match self.navigable_roads_of_the_continent_forward() { Some(x) => mv_id::<TsA>(&x), None => NONE }));
        match self.navigable_roads_of_the_continent_and_its_islands() { Some(x) => out.extend(prefixed("navigable_roads_of_the_continent_and_its_islands", x.content())), None => out.push(("navigable_roads_of_the_continent_and_its_islands".to_string(), NONE)) }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("navigable_roads_of_the_continent", crate::json::shown(&self.navigable_roads_of_the_continent())), ("navigable_roads_of_the_continent_forward", crate::json::shown(&self.navigable_roads_of_the_continent_forward())), ("navigable_roads_of_the_continent_and_its_islands", crate::json::shown(&self.navigable_roads_of_the_continent_and_its_islands()))]
    }
}
impl Bld for TransportationNetworkOfSouthAmericaBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "navigable_roads_of_the_continent" => { let b = struct_of::<V2>(k); self.set_navigable_roads_of_the_continent(b.get()) }
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "navigable_roads_of_the_continent_forward" => Box::new(MvW::<TsA>(Some(self.start_navigable_roads_of_the_continent_forward()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            "navigable_roads_of_the_continent_and_its_islands" => Box::leak(Box::new(self.navigable_roads_of_the_continent_and_its_islands()?)),
            _ => bad_field(),
        })
    }
}

define_archive!(Big, BigBuilder, "archive Big";
    ;
    (v, set_v, start_v, HUGE, "schema of Big.v", false);
    (m, start_m, TsG, "schema of Big.m", m_index, I32, true);
    ;
    
);
impl Arc for Big {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        { let x = self.v(); out.push(("v".to_string(), vec_id::<HUGE>(&x))); }
        out.push(("m".to_string(), match self.m() { Some(x) => mv_id::<TsG>(&x), None => NONE }));
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("v", crate::json::shown(&self.v())), ("m", crate::json::shown(&self.m()))]
    }
}
impl Bld for BigBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            "v" => { let v = vec_of::<HUGE>(k); self.set_v(&v.as_view()) }
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "v" => Box::new(EvW::<HUGE>(Some(self.start_v()?), 0)),
            "m" => Box::new(MvW::<TsG>(Some(self.start_m()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            _ => bad_field(),
        })
    }
}

define_archive!(Sparse, SparseBuilder, "archive Sparse";
    ;
    ;
    (m, start_m, TsI, "schema of Sparse.m", m_index, IC, false);
    ;
    
);
impl Arc for Sparse {
    fn content(&self) -> Vec<(String, i64)> {
        let mut out = vec![];
        { let x = self.m(); out.push(("m".to_string(), mv_id::<TsI>(&x))); }
        out
    }
    fn debug(&self) -> String { crate::json::shown(self) }
    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }
    fn pieces(&self) -> Vec<(&'static str, String)> {
        vec![("m", crate::json::shown(&self.m()))]
    }
}
impl Bld for SparseBuilder {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {
        match res {
            _ => bad_field(),
        }
    }
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {
        Ok(match res {
            "m" => Box::new(MvW::<TsI>(Some(self.start_m()?), 0)),
            _ => bad_field(),
        })
    }
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {
        Ok(match res {
            _ => bad_field(),
        })
    }
}

pub fn open_archive(name: &str, st: std::rc::Rc<dyn ResourceStorage>) -> Result<Box<dyn Arc>, ResourceStorageError> {
    Ok(match name {
        "Leaf" => Box::new(<Leaf as Archive>::open(st)?),
        "Mid" => Box::new(<Mid as Archive>::open(st)?),
        "Midway" => Box::new(<Midway as Archive>::open(st)?),
        "Simple" => Box::new(<Simple as Archive>::open(st)?),
        "Full" => Box::new(<Full as Archive>::open(st)?),
        "Opt" => Box::new(<Opt as Archive>::open(st)?),
        "Deep" => Box::new(<Deep as Archive>::open(st)?),
        "Vecs" => Box::new(<Vecs as Archive>::open(st)?),
        "Near" => Box::new(<Near as Archive>::open(st)?),
        "TransportationNetworkOfNorthAmerica" => Box::new(<TransportationNetworkOfNorthAmerica as Archive>::open(st)?),
        "TransportationNetworkOfSouthAmerica" => Box::new(<TransportationNetworkOfSouthAmerica as Archive>::open(st)?),
        "Big" => Box::new(<Big as Archive>::open(st)?),
        "Sparse" => Box::new(<Sparse as Archive>::open(st)?),
        _ => bad_field(),
    })
}
pub fn new_archive(name: &str, st: std::rc::Rc<dyn ResourceStorage>) -> Result<&'static dyn Bld, ResourceStorageError> {
    Ok(match name {
        "Leaf" => Box::leak(Box::new(<LeafBuilder as ArchiveBuilder>::new(st)?)),
        "Mid" => Box::leak(Box::new(<MidBuilder as ArchiveBuilder>::new(st)?)),
        "Midway" => Box::leak(Box::new(<MidwayBuilder as ArchiveBuilder>::new(st)?)),
        "Simple" => Box::leak(Box::new(<SimpleBuilder as ArchiveBuilder>::new(st)?)),
        "Full" => Box::leak(Box::new(<FullBuilder as ArchiveBuilder>::new(st)?)),
        "Opt" => Box::leak(Box::new(<OptBuilder as ArchiveBuilder>::new(st)?)),
        "Deep" => Box::leak(Box::new(<DeepBuilder as ArchiveBuilder>::new(st)?)),
        "Vecs" => Box::leak(Box::new(<VecsBuilder as ArchiveBuilder>::new(st)?)),
        "Near" => Box::leak(Box::new(<NearBuilder as ArchiveBuilder>::new(st)?)),
        "TransportationNetworkOfNorthAmerica" => Box::leak(Box::new(<TransportationNetworkOfNorthAmericaBuilder as ArchiveBuilder>::new(st)?)),
        "TransportationNetworkOfSouthAmerica" => Box::leak(Box::new(<TransportationNetworkOfSouthAmericaBuilder as ArchiveBuilder>::new(st)?)),
        "Big" => Box::leak(Box::new(<BigBuilder as ArchiveBuilder>::new(st)?)),
        "Sparse" => Box::leak(Box::new(<SparseBuilder as ArchiveBuilder>::new(st)?)),
        _ => bad_field(),
    })
}
/// Names and schemas of all stored resources of an archive
pub fn stored(name: &str) -> Vec<(&'static str, &'static str)> {
    match name {
        "Leaf" => vec![("Leaf.archive", "archive Leaf\n{\n  r : raw_data;\n}\n"), ("r", "schema of Leaf.r")],
        "Mid" => vec![("Mid.archive", "archive Mid"), ("m", "schema of Mid.m"), ("leaf/Leaf.archive", "archive Leaf\n{\n  r : raw_data;\n}\n"), ("leaf/r", "schema of Leaf.r")],
        "Midway" => vec![("Midway.archive", "archive Mid"), ("m", "schema of Midway.m")],
        "Simple" => vec![("Simple.archive", "archive Simple {}"), ("v", "schema of Simple.v"), ("r", "schema of Simple.r")],
        "Full" => vec![("Full.archive", "namespace n {\narchive Full\n{\n  a : V4;\n}\n}\n"), ("a", "schema of Full.a"), ("b", "schema of Full.b"), ("v", "schema of Full.v"), ("w", "schema of Full.w"), ("m_index", "index(schema of Full.m)"), ("m", "schema of Full.m"), ("n_index", "index(schema of Full.n)"), ("n", "schema of Full.n"), ("r", "schema of Full.r"), ("s", "schema of Full.s"), ("arch/Leaf.archive", "archive Leaf\n{\n  r : raw_data;\n}\n"), ("arch/r", "schema of Leaf.r"), ("oarch/Leaf.archive", "archive Leaf\n{\n  r : raw_data;\n}\n"), ("oarch/r", "schema of Leaf.r")],
        "Opt" => vec![("Opt.archive", "archive Opt\n"), ("b", "schema of Opt.b"), ("w", "schema of Opt.w"), ("n_index", "index(schema of Opt.n)"), ("n", "schema of Opt.n"), ("s", "schema of Opt.s"), ("oarch/Mid.archive", "archive Mid"), ("oarch/m", "schema of Mid.m"), ("oarch/leaf/Leaf.archive", "archive Leaf\n{\n  r : raw_data;\n}\n"), ("oarch/leaf/r", "schema of Leaf.r")],
        "Deep" => vec![("Deep.archive", "archive Deep"), ("mid/Mid.archive", "archive Mid"), ("mid/m", "schema of Mid.m"), ("mid/leaf/Leaf.archive", "archive Leaf\n{\n  r : raw_data;\n}\n"), ("mid/leaf/r", "schema of Leaf.r"), ("omid/Mid.archive", "archive Mid"), ("omid/m", "schema of Mid.m"), ("omid/leaf/Leaf.archive", "archive Leaf\n{\n  r : raw_data;\n}\n"), ("omid/leaf/r", "schema of Leaf.r"), ("simple/Simple.archive", "archive Simple {}"), ("simple/v", "schema of Simple.v"), ("simple/r", "schema of Simple.r")],
        "Vecs" => vec![("Vecs.archive", "archive Vecs"), ("v", "schema of Vecs.v"), ("w", "schema of Vecs.w"), ("m_index", "index(schema of Vecs.m)"), ("m", "schema of Vecs.m"), ("n_index", "index(schema of Vecs.n)"), ("n", "schema of Vecs.n")],
        "Near" => vec![("Near.archive", ""), ("m_schema", "schema of Near.m_schema"), ("v", ""), ("v_index", "schema of Near.v_index"), ("m_index", "index()"), ("m", ""), ("r", ""), ("r_index", "schema of Near.r_index"), ("m_data/Leaf.archive", "archive Leaf\n{\n  r : raw_data;\n}\n"), ("m_data/r", "schema of Leaf.r")],
        "TransportationNetworkOfNorthAmerica" => vec![("TransportationNetworkOfNorthAmerica.archive", "archive TransportationNetworkOfNorthAmerica {}"), ("navigable_roads_of_the_continent_reverse", "schema of TransportationNetworkOfNorthAmerica.navigable_roads_of_the_continent_reverse"), ("navigable_roads_of_the_continent", "schema of TransportationNetworkOfNorthAmerica.navigable_roads_of_the_continent")],
        "TransportationNetworkOfSouthAmerica" => vec![("TransportationNetworkOfSouthAmerica.archive", "archive TransportationNetworkOfSouthAmerica {}"), ("navigable_roads_of_the_continent", "schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent"), ("navigable_roads_of_the_continent_forward_index", "index(schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent_forward)"), ("navigable_roads_of_the_continent_forward", "schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent_forward"), ("navigable_roads_of_the_continent_and_its_islands/TransportationNetworkOfNorthAmerica.archive", "archive TransportationNetworkOfNorthAmerica {}"), ("navigable_roads_of_the_continent_and_its_islands/navigable_roads_of_the_continent_reverse", "schema of TransportationNetworkOfNorthAmerica.navigable_roads_of_the_continent_reverse"), ("navigable_roads_of_the_continent_and_its_islands/navigable_roads_of_the_continent", "schema of TransportationNetworkOfNorthAmerica.navigable_roads_of_the_continent")],
        "Big" => vec![("Big.archive", "archive Big"), ("v", "schema of Big.v"), ("m_index", "index(schema of Big.m)"), ("m", "schema of Big.m")],
        "Sparse" => vec![("Sparse.archive", "archive Sparse"), ("m_index", "index(schema of Sparse.m)"), ("m", "schema of Sparse.m")],
        _ => bad_field(),
    }
}
/// Kinds, names, layouts and schemas of the resources of an archive
pub fn resources(name: &str) -> Vec<(&'static str, &'static str, &'static str, &'static str)> {
    match name {
        "Leaf" => vec![("raw", "r", "", "schema of Leaf.r")],
        "Mid" => vec![("raw", "m", "", "schema of Mid.m"), ("sub", "leaf", "Leaf", "schema of Mid.leaf")],
        "Midway" => vec![("raw", "m", "", "schema of Midway.m")],
        "Simple" => vec![("vec", "v", "V3", "schema of Simple.v"), ("raw", "r", "", "schema of Simple.r")],
        "Full" => vec![("struct", "a", "V4", "schema of Full.a"), ("struct", "b", "V5", "schema of Full.b"), ("vec", "v", "V3", "schema of Full.v"), ("vec", "w", "V16", "schema of Full.w"), ("mv", "m", "TsA", "schema of Full.m"), ("mv", "n", "TsB", "schema of Full.n"), ("raw", "r", "", "schema of Full.r"), ("raw", "s", "", "schema of Full.s"), ("sub", "arch", "Leaf", "schema of Full.arch"), ("sub", "oarch", "Leaf", "schema of Full.oarch")],
        "Opt" => vec![("struct", "b", "V2", "schema of Opt.b"), ("vec", "w", "V1", "schema of Opt.w"), ("mv", "n", "TsC", "schema of Opt.n"), ("raw", "s", "", "schema of Opt.s"), ("sub", "oarch", "Mid", "schema of Opt.oarch")],
        "Deep" => vec![("sub", "mid", "Mid", "schema of Deep.mid"), ("sub", "omid", "Mid", "schema of Deep.omid"), ("sub", "simple", "Simple", "schema of Deep.simple")],
        "Vecs" => vec![("vec", "v", "V4", "schema of Vecs.v"), ("vec", "w", "V5", "schema of Vecs.w"), ("mv", "m", "TsC", "schema of Vecs.m"), ("mv", "n", "TsA", "schema of Vecs.n")],
        "Near" => vec![("struct", "m_schema", "V2", "schema of Near.m_schema"), ("vec", "v", "V3", ""), ("vec", "v_index", "V1", "schema of Near.v_index"), ("mv", "m", "TsA", ""), ("raw", "r", "", ""), ("raw", "r_index", "", "schema of Near.r_index"), ("sub", "m_data", "Leaf", "schema of Near.m_data")],
        "TransportationNetworkOfNorthAmerica" => vec![("vec", "navigable_roads_of_the_continent_reverse", "V3", "schema of TransportationNetworkOfNorthAmerica.navigable_roads_of_the_continent_reverse"), ("raw", "navigable_roads_of_the_continent", "", "schema of TransportationNetworkOfNorthAmerica.navigable_roads_of_the_continent")],
        "TransportationNetworkOfSouthAmerica" => vec![("struct", "navigable_roads_of_the_continent", "V2", "schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent"), ("mv", "navigable_roads_of_the_continent_forward", "TsA", "schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent_forward"), ("sub", "navigable_roads_of_the_continent_and_its_islands", "TransportationNetworkOfNorthAmerica", "schema of TransportationNetworkOfSouthAmerica.navigable_roads_of_the_continent_and_its_islands")],
        "Big" => vec![("vec", "v", "HUGE", "schema of Big.v"), ("mv", "m", "TsG", "schema of Big.m")],
        "Sparse" => vec![("mv", "m", "TsI", "schema of Sparse.m")],
        _ => bad_field(),
    }
}
#[macro_export]
macro_rules! with_struct {
    ($n:expr, $L:ident => $e:expr) => {
        match $n {
            "S1" => { type $L = crate::layouts::S1; $e }
            "S2" => { type $L = crate::layouts::S2; $e }
            "S3" => { type $L = crate::layouts::S3; $e }
            "S4" => { type $L = crate::layouts::S4; $e }
            "S5" => { type $L = crate::layouts::S5; $e }
            "S6" => { type $L = crate::layouts::S6; $e }
            "S7" => { type $L = crate::layouts::S7; $e }
            "S8" => { type $L = crate::layouts::S8; $e }
            x => crate::json::tool_error(&format!("unknown layout {}", x)),
        }
    };
}
#[macro_export]
macro_rules! with_elem {
    ($n:expr, $L:ident => $e:expr) => {
        match $n {
            "V1" => { type $L = crate::layouts::V1; $e }
            "V2" => { type $L = crate::layouts::V2; $e }
            "V3" => { type $L = crate::layouts::V3; $e }
            "V4" => { type $L = crate::layouts::V4; $e }
            "V5" => { type $L = crate::layouts::V5; $e }
            "V16" => { type $L = crate::layouts::V16; $e }
            "HUGE" => { type $L = crate::layouts::HUGE; $e }
            "BIG33" => { type $L = crate::layouts::BIG33; $e }
            x => crate::json::tool_error(&format!("unknown layout {}", x)),
        }
    };
}
#[macro_export]
macro_rules! with_variadic {
    ($n:expr, $L:ident => $e:expr) => {
        match $n {
            "TsA" => { type $L = crate::layouts::TsA; $e }
            "TsB" => { type $L = crate::layouts::TsB; $e }
            "TsC" => { type $L = crate::layouts::TsC; $e }
            "TsD" => { type $L = crate::layouts::TsD; $e }
            "TsH" => { type $L = crate::layouts::TsH; $e }
            "TsG" => { type $L = crate::layouts::TsG; $e }
            "TsW" => { type $L = crate::layouts::TsW; $e }
            "TsI" => { type $L = crate::layouts::TsI; $e }
            x => crate::json::tool_error(&format!("unknown layout {}", x)),
        }
    };
}
