// Generated by gen_types.py. Do not edit.
#![allow(unused_imports, dead_code, clippy::all)]
use kit::*;
use validators::{errors::*, prelude::*};
use validators::byte_unit::{Bit, Byte};
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer)]
pub struct T0(pub u8);
impl Sub for T0 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90))))]
pub struct T1(pub u8);
impl Sub for T1 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90, inclusive = false))))]
pub struct T2(pub u8);
impl Sub for T2 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct T3(pub u8);
impl Sub for T3 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90))))]
pub struct T4(pub u8);
impl Sub for T4 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90, inclusive = false))))]
pub struct T5(pub u8);
impl Sub for T5 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 90))))]
pub struct T6(pub u8);
impl Sub for T6 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 91, inclusive = false))))]
pub struct T7(pub u8);
impl Sub for T7 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90))))]
pub struct T8(pub u8);
impl Sub for T8 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90, inclusive = false))))]
pub struct T9(pub u8);
impl Sub for T9 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90))))]
pub struct T10(pub u8);
impl Sub for T10 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3))))]
pub struct T11(pub u8);
impl Sub for T11 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3, inclusive = false))))]
pub struct T12(pub u8);
impl Sub for T12 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90, max = 90))))]
pub struct T13(pub u8);
impl Sub for T13 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 4, inclusive = false))))]
pub struct T14(pub u8);
impl Sub for T14 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 254))))]
pub struct T15(pub u8);
impl Sub for T15 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 255))))]
pub struct T16(pub u8);
impl Sub for T16 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 255, inclusive = false))))]
pub struct T17(pub u8);
impl Sub for T17 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 1, max = 255))))]
pub struct T18(pub u8);
impl Sub for T18 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 33, max = 65))))]
pub struct T19(pub u8);
impl Sub for T19 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer)]
pub struct T20(pub u16);
impl Sub for T20 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90))))]
pub struct T21(pub u16);
impl Sub for T21 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90, inclusive = false))))]
pub struct T22(pub u16);
impl Sub for T22 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct T23(pub u16);
impl Sub for T23 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90))))]
pub struct T24(pub u16);
impl Sub for T24 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90, inclusive = false))))]
pub struct T25(pub u16);
impl Sub for T25 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 90))))]
pub struct T26(pub u16);
impl Sub for T26 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 91, inclusive = false))))]
pub struct T27(pub u16);
impl Sub for T27 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90))))]
pub struct T28(pub u16);
impl Sub for T28 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90, inclusive = false))))]
pub struct T29(pub u16);
impl Sub for T29 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90))))]
pub struct T30(pub u16);
impl Sub for T30 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3))))]
pub struct T31(pub u16);
impl Sub for T31 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3, inclusive = false))))]
pub struct T32(pub u16);
impl Sub for T32 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90, max = 90))))]
pub struct T33(pub u16);
impl Sub for T33 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 4, inclusive = false))))]
pub struct T34(pub u16);
impl Sub for T34 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 65534))))]
pub struct T35(pub u16);
impl Sub for T35 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 65535))))]
pub struct T36(pub u16);
impl Sub for T36 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 65535, inclusive = false))))]
pub struct T37(pub u16);
impl Sub for T37 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 1, max = 65535))))]
pub struct T38(pub u16);
impl Sub for T38 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 8193, max = 16385))))]
pub struct T39(pub u16);
impl Sub for T39 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer)]
pub struct T40(pub u32);
impl Sub for T40 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90))))]
pub struct T41(pub u32);
impl Sub for T41 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90, inclusive = false))))]
pub struct T42(pub u32);
impl Sub for T42 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct T43(pub u32);
impl Sub for T43 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90))))]
pub struct T44(pub u32);
impl Sub for T44 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90, inclusive = false))))]
pub struct T45(pub u32);
impl Sub for T45 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 90))))]
pub struct T46(pub u32);
impl Sub for T46 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 91, inclusive = false))))]
pub struct T47(pub u32);
impl Sub for T47 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90))))]
pub struct T48(pub u32);
impl Sub for T48 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90, inclusive = false))))]
pub struct T49(pub u32);
impl Sub for T49 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90))))]
pub struct T50(pub u32);
impl Sub for T50 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3))))]
pub struct T51(pub u32);
impl Sub for T51 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3, inclusive = false))))]
pub struct T52(pub u32);
impl Sub for T52 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90, max = 90))))]
pub struct T53(pub u32);
impl Sub for T53 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 4, inclusive = false))))]
pub struct T54(pub u32);
impl Sub for T54 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 4294967294))))]
pub struct T55(pub u32);
impl Sub for T55 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 4294967295))))]
pub struct T56(pub u32);
impl Sub for T56 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 4294967295, inclusive = false))))]
pub struct T57(pub u32);
impl Sub for T57 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 1, max = 4294967295))))]
pub struct T58(pub u32);
impl Sub for T58 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 536870913, max = 1073741825))))]
pub struct T59(pub u32);
impl Sub for T59 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer)]
pub struct T60(pub u64);
impl Sub for T60 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90))))]
pub struct T61(pub u64);
impl Sub for T61 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90, inclusive = false))))]
pub struct T62(pub u64);
impl Sub for T62 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct T63(pub u64);
impl Sub for T63 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90))))]
pub struct T64(pub u64);
impl Sub for T64 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90, inclusive = false))))]
pub struct T65(pub u64);
impl Sub for T65 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 90))))]
pub struct T66(pub u64);
impl Sub for T66 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 91, inclusive = false))))]
pub struct T67(pub u64);
impl Sub for T67 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90))))]
pub struct T68(pub u64);
impl Sub for T68 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90, inclusive = false))))]
pub struct T69(pub u64);
impl Sub for T69 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90))))]
pub struct T70(pub u64);
impl Sub for T70 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3))))]
pub struct T71(pub u64);
impl Sub for T71 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3, inclusive = false))))]
pub struct T72(pub u64);
impl Sub for T72 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90, max = 90))))]
pub struct T73(pub u64);
impl Sub for T73 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 4, inclusive = false))))]
pub struct T74(pub u64);
impl Sub for T74 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 18446744073709551614))))]
pub struct T75(pub u64);
impl Sub for T75 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551615))))]
pub struct T76(pub u64);
impl Sub for T76 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551615, inclusive = false))))]
pub struct T77(pub u64);
impl Sub for T77 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 1, max = 18446744073709551615))))]
pub struct T78(pub u64);
impl Sub for T78 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2305843009213693953, max = 4611686018427387905))))]
pub struct T79(pub u64);
impl Sub for T79 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer)]
pub struct T80(pub u128);
impl Sub for T80 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90))))]
pub struct T81(pub u128);
impl Sub for T81 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90, inclusive = false))))]
pub struct T82(pub u128);
impl Sub for T82 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct T83(pub u128);
impl Sub for T83 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90))))]
pub struct T84(pub u128);
impl Sub for T84 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90, inclusive = false))))]
pub struct T85(pub u128);
impl Sub for T85 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 90))))]
pub struct T86(pub u128);
impl Sub for T86 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 91, inclusive = false))))]
pub struct T87(pub u128);
impl Sub for T87 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90))))]
pub struct T88(pub u128);
impl Sub for T88 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90, inclusive = false))))]
pub struct T89(pub u128);
impl Sub for T89 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90))))]
pub struct T90(pub u128);
impl Sub for T90 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3))))]
pub struct T91(pub u128);
impl Sub for T91 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3, inclusive = false))))]
pub struct T92(pub u128);
impl Sub for T92 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90, max = 90))))]
pub struct T93(pub u128);
impl Sub for T93 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 4, inclusive = false))))]
pub struct T94(pub u128);
impl Sub for T94 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 340282366920938463463374607431768211454))))]
pub struct T95(pub u128);
impl Sub for T95 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 340282366920938463463374607431768211455))))]
pub struct T96(pub u128);
impl Sub for T96 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 340282366920938463463374607431768211455, inclusive = false))))]
pub struct T97(pub u128);
impl Sub for T97 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 1, max = 340282366920938463463374607431768211455))))]
pub struct T98(pub u128);
impl Sub for T98 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42535295865117307932921825928971026433, max = 85070591730234615865843651857942052865))))]
pub struct T99(pub u128);
impl Sub for T99 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer)]
pub struct T100(pub usize);
impl Sub for T100 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90))))]
pub struct T101(pub usize);
impl Sub for T101 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 90, inclusive = false))))]
pub struct T102(pub usize);
impl Sub for T102 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct T103(pub usize);
impl Sub for T103 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90))))]
pub struct T104(pub usize);
impl Sub for T104 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(max = 90, inclusive = false))))]
pub struct T105(pub usize);
impl Sub for T105 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 90))))]
pub struct T106(pub usize);
impl Sub for T106 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 90, max = 91, inclusive = false))))]
pub struct T107(pub usize);
impl Sub for T107 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90))))]
pub struct T108(pub usize);
impl Sub for T108 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 90, inclusive = false))))]
pub struct T109(pub usize);
impl Sub for T109 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90))))]
pub struct T110(pub usize);
impl Sub for T110 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3))))]
pub struct T111(pub usize);
impl Sub for T111 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(max = 3, inclusive = false))))]
pub struct T112(pub usize);
impl Sub for T112 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 90, max = 90))))]
pub struct T113(pub usize);
impl Sub for T113 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 4, inclusive = false))))]
pub struct T114(pub usize);
impl Sub for T114 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 18446744073709551614))))]
pub struct T115(pub usize);
impl Sub for T115 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551615))))]
pub struct T116(pub usize);
impl Sub for T116 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551615, inclusive = false))))]
pub struct T117(pub usize);
impl Sub for T117 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Outside(min = 1, max = 18446744073709551615))))]
pub struct T118(pub usize);
impl Sub for T118 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2305843009213693953, max = 4611686018427387905))))]
pub struct T119(pub usize);
impl Sub for T119 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer)]
pub struct T120(pub i8);
impl Sub for T120 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9))))]
pub struct T121(pub i8);
impl Sub for T121 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9, inclusive = false))))]
pub struct T122(pub i8);
impl Sub for T122 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct T123(pub i8);
impl Sub for T123 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9))))]
pub struct T124(pub i8);
impl Sub for T124 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9, inclusive = false))))]
pub struct T125(pub i8);
impl Sub for T125 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 9))))]
pub struct T126(pub i8);
impl Sub for T126 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 10, inclusive = false))))]
pub struct T127(pub i8);
impl Sub for T127 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9))))]
pub struct T128(pub i8);
impl Sub for T128 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9, inclusive = false))))]
pub struct T129(pub i8);
impl Sub for T129 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9))))]
pub struct T130(pub i8);
impl Sub for T130 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct T131(pub i8);
impl Sub for T131 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct T132(pub i8);
impl Sub for T132 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9, max = 9))))]
pub struct T133(pub i8);
impl Sub for T133 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = -6, inclusive = false))))]
pub struct T134(pub i8);
impl Sub for T134 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -127, max = 126))))]
pub struct T135(pub i8);
impl Sub for T135 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 127))))]
pub struct T136(pub i8);
impl Sub for T136 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 127, inclusive = false))))]
pub struct T137(pub i8);
impl Sub for T137 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 1, max = 127))))]
pub struct T138(pub i8);
impl Sub for T138 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 33, max = 65))))]
pub struct T139(pub i8);
impl Sub for T139 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -65, max = -33))))]
pub struct T140(pub i8);
impl Sub for T140 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -127, max = -1))))]
pub struct T141(pub i8);
impl Sub for T141 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer)]
pub struct T142(pub i16);
impl Sub for T142 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9))))]
pub struct T143(pub i16);
impl Sub for T143 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9, inclusive = false))))]
pub struct T144(pub i16);
impl Sub for T144 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct T145(pub i16);
impl Sub for T145 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9))))]
pub struct T146(pub i16);
impl Sub for T146 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9, inclusive = false))))]
pub struct T147(pub i16);
impl Sub for T147 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 9))))]
pub struct T148(pub i16);
impl Sub for T148 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 10, inclusive = false))))]
pub struct T149(pub i16);
impl Sub for T149 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9))))]
pub struct T150(pub i16);
impl Sub for T150 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9, inclusive = false))))]
pub struct T151(pub i16);
impl Sub for T151 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9))))]
pub struct T152(pub i16);
impl Sub for T152 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct T153(pub i16);
impl Sub for T153 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct T154(pub i16);
impl Sub for T154 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9, max = 9))))]
pub struct T155(pub i16);
impl Sub for T155 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = -6, inclusive = false))))]
pub struct T156(pub i16);
impl Sub for T156 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -32767, max = 32766))))]
pub struct T157(pub i16);
impl Sub for T157 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 32767))))]
pub struct T158(pub i16);
impl Sub for T158 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 32767, inclusive = false))))]
pub struct T159(pub i16);
impl Sub for T159 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 1, max = 32767))))]
pub struct T160(pub i16);
impl Sub for T160 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 8193, max = 16385))))]
pub struct T161(pub i16);
impl Sub for T161 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -16385, max = -8193))))]
pub struct T162(pub i16);
impl Sub for T162 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -32767, max = -1))))]
pub struct T163(pub i16);
impl Sub for T163 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer)]
pub struct T164(pub i32);
impl Sub for T164 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9))))]
pub struct T165(pub i32);
impl Sub for T165 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9, inclusive = false))))]
pub struct T166(pub i32);
impl Sub for T166 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct T167(pub i32);
impl Sub for T167 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9))))]
pub struct T168(pub i32);
impl Sub for T168 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9, inclusive = false))))]
pub struct T169(pub i32);
impl Sub for T169 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 9))))]
pub struct T170(pub i32);
impl Sub for T170 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 10, inclusive = false))))]
pub struct T171(pub i32);
impl Sub for T171 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9))))]
pub struct T172(pub i32);
impl Sub for T172 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9, inclusive = false))))]
pub struct T173(pub i32);
impl Sub for T173 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9))))]
pub struct T174(pub i32);
impl Sub for T174 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct T175(pub i32);
impl Sub for T175 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct T176(pub i32);
impl Sub for T176 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9, max = 9))))]
pub struct T177(pub i32);
impl Sub for T177 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = -6, inclusive = false))))]
pub struct T178(pub i32);
impl Sub for T178 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -2147483647, max = 2147483646))))]
pub struct T179(pub i32);
impl Sub for T179 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 2147483647))))]
pub struct T180(pub i32);
impl Sub for T180 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 2147483647, inclusive = false))))]
pub struct T181(pub i32);
impl Sub for T181 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 1, max = 2147483647))))]
pub struct T182(pub i32);
impl Sub for T182 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 536870913, max = 1073741825))))]
pub struct T183(pub i32);
impl Sub for T183 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -1073741825, max = -536870913))))]
pub struct T184(pub i32);
impl Sub for T184 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -2147483647, max = -1))))]
pub struct T185(pub i32);
impl Sub for T185 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer)]
pub struct T186(pub i64);
impl Sub for T186 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9))))]
pub struct T187(pub i64);
impl Sub for T187 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9, inclusive = false))))]
pub struct T188(pub i64);
impl Sub for T188 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct T189(pub i64);
impl Sub for T189 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9))))]
pub struct T190(pub i64);
impl Sub for T190 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9, inclusive = false))))]
pub struct T191(pub i64);
impl Sub for T191 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 9))))]
pub struct T192(pub i64);
impl Sub for T192 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 10, inclusive = false))))]
pub struct T193(pub i64);
impl Sub for T193 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9))))]
pub struct T194(pub i64);
impl Sub for T194 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9, inclusive = false))))]
pub struct T195(pub i64);
impl Sub for T195 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9))))]
pub struct T196(pub i64);
impl Sub for T196 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct T197(pub i64);
impl Sub for T197 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct T198(pub i64);
impl Sub for T198 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9, max = 9))))]
pub struct T199(pub i64);
impl Sub for T199 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = -6, inclusive = false))))]
pub struct T200(pub i64);
impl Sub for T200 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775807, max = 9223372036854775806))))]
pub struct T201(pub i64);
impl Sub for T201 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 9223372036854775807))))]
pub struct T202(pub i64);
impl Sub for T202 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 9223372036854775807, inclusive = false))))]
pub struct T203(pub i64);
impl Sub for T203 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 1, max = 9223372036854775807))))]
pub struct T204(pub i64);
impl Sub for T204 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 2305843009213693953, max = 4611686018427387905))))]
pub struct T205(pub i64);
impl Sub for T205 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -4611686018427387905, max = -2305843009213693953))))]
pub struct T206(pub i64);
impl Sub for T206 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775807, max = -1))))]
pub struct T207(pub i64);
impl Sub for T207 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer)]
pub struct T208(pub i128);
impl Sub for T208 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9))))]
pub struct T209(pub i128);
impl Sub for T209 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9, inclusive = false))))]
pub struct T210(pub i128);
impl Sub for T210 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct T211(pub i128);
impl Sub for T211 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9))))]
pub struct T212(pub i128);
impl Sub for T212 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9, inclusive = false))))]
pub struct T213(pub i128);
impl Sub for T213 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 9))))]
pub struct T214(pub i128);
impl Sub for T214 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 10, inclusive = false))))]
pub struct T215(pub i128);
impl Sub for T215 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9))))]
pub struct T216(pub i128);
impl Sub for T216 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9, inclusive = false))))]
pub struct T217(pub i128);
impl Sub for T217 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9))))]
pub struct T218(pub i128);
impl Sub for T218 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct T219(pub i128);
impl Sub for T219 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct T220(pub i128);
impl Sub for T220 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9, max = 9))))]
pub struct T221(pub i128);
impl Sub for T221 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = -6, inclusive = false))))]
pub struct T222(pub i128);
impl Sub for T222 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105727, max = 170141183460469231731687303715884105726))))]
pub struct T223(pub i128);
impl Sub for T223 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 170141183460469231731687303715884105727))))]
pub struct T224(pub i128);
impl Sub for T224 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 170141183460469231731687303715884105727, inclusive = false))))]
pub struct T225(pub i128);
impl Sub for T225 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 1, max = 170141183460469231731687303715884105727))))]
pub struct T226(pub i128);
impl Sub for T226 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 42535295865117307932921825928971026433, max = 85070591730234615865843651857942052865))))]
pub struct T227(pub i128);
impl Sub for T227 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -85070591730234615865843651857942052865, max = -42535295865117307932921825928971026433))))]
pub struct T228(pub i128);
impl Sub for T228 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105727, max = -1))))]
pub struct T229(pub i128);
impl Sub for T229 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer)]
pub struct T230(pub isize);
impl Sub for T230 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9))))]
pub struct T231(pub isize);
impl Sub for T231 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 9, inclusive = false))))]
pub struct T232(pub isize);
impl Sub for T232 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct T233(pub isize);
impl Sub for T233 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9))))]
pub struct T234(pub isize);
impl Sub for T234 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(max = 9, inclusive = false))))]
pub struct T235(pub isize);
impl Sub for T235 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 9))))]
pub struct T236(pub isize);
impl Sub for T236 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 9, max = 10, inclusive = false))))]
pub struct T237(pub isize);
impl Sub for T237 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9))))]
pub struct T238(pub isize);
impl Sub for T238 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 9, inclusive = false))))]
pub struct T239(pub isize);
impl Sub for T239 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9))))]
pub struct T240(pub isize);
impl Sub for T240 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct T241(pub isize);
impl Sub for T241 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct T242(pub isize);
impl Sub for T242 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 9, max = 9))))]
pub struct T243(pub isize);
impl Sub for T243 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = -6, inclusive = false))))]
pub struct T244(pub isize);
impl Sub for T244 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775807, max = 9223372036854775806))))]
pub struct T245(pub isize);
impl Sub for T245 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 9223372036854775807))))]
pub struct T246(pub isize);
impl Sub for T246 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 0, max = 9223372036854775807, inclusive = false))))]
pub struct T247(pub isize);
impl Sub for T247 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = 1, max = 9223372036854775807))))]
pub struct T248(pub isize);
impl Sub for T248 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = 2305843009213693953, max = 4611686018427387905))))]
pub struct T249(pub isize);
impl Sub for T249 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Inside(min = -4611686018427387905, max = -2305843009213693953))))]
pub struct T250(pub isize);
impl Sub for T250 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775807, max = -1))))]
pub struct T251(pub isize);
impl Sub for T251 {
    fn view(&self) -> View {
        view! {"n": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow)))]
pub struct T252(pub f32);
impl Sub for T252 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must)))]
pub struct T253(pub f32);
impl Sub for T253 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow)))]
pub struct T254(pub f32);
impl Sub for T254 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5)), nan(Allow)))]
pub struct T255(pub f32);
impl Sub for T255 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5)), nan(Must), conflict(Allow)))]
pub struct T256(pub f32);
impl Sub for T256 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5)), nan(Disallow)))]
pub struct T257(pub f32);
impl Sub for T257 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5, inclusive = false)), nan(Allow)))]
pub struct T258(pub f32);
impl Sub for T258 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5, inclusive = false)), nan(Disallow)))]
pub struct T259(pub f32);
impl Sub for T259 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.0)), nan(Allow)))]
pub struct T260(pub f32);
impl Sub for T260 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.0)), nan(Disallow)))]
pub struct T261(pub f32);
impl Sub for T261 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(max = 100.25)), nan(Allow)))]
pub struct T262(pub f32);
impl Sub for T262 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(max = 100.25)), nan(Disallow)))]
pub struct T263(pub f32);
impl Sub for T263 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(max = 100.25, inclusive = false)), nan(Allow)))]
pub struct T264(pub f32);
impl Sub for T264 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(max = 100.25, inclusive = false)), nan(Disallow)))]
pub struct T265(pub f32);
impl Sub for T265 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 2.5, max = 2.5)), nan(Allow)))]
pub struct T266(pub f32);
impl Sub for T266 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 2.5, max = 2.5)), nan(Must), conflict(Allow)))]
pub struct T267(pub f32);
impl Sub for T267 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 2.5, max = 2.5)), nan(Disallow)))]
pub struct T268(pub f32);
impl Sub for T268 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.0, max = 1.0, inclusive = false)), nan(Allow)))]
pub struct T269(pub f32);
impl Sub for T269 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.0, max = 1.0, inclusive = false)), nan(Disallow)))]
pub struct T270(pub f32);
impl Sub for T270 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5)), nan(Allow)))]
pub struct T271(pub f32);
impl Sub for T271 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5)), nan(Must)))]
pub struct T272(pub f32);
impl Sub for T272 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5)), nan(Disallow)))]
pub struct T273(pub f32);
impl Sub for T273 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5, inclusive = false)), nan(Allow)))]
pub struct T274(pub f32);
impl Sub for T274 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5, inclusive = false)), nan(Disallow)))]
pub struct T275(pub f32);
impl Sub for T275 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.0)), nan(Allow)))]
pub struct T276(pub f32);
impl Sub for T276 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.0)), nan(Disallow)))]
pub struct T277(pub f32);
impl Sub for T277 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(max = 0.0)), nan(Allow)))]
pub struct T278(pub f32);
impl Sub for T278 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(max = 0.0)), nan(Disallow)))]
pub struct T279(pub f32);
impl Sub for T279 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(max = 0.0, inclusive = false)), nan(Allow)))]
pub struct T280(pub f32);
impl Sub for T280 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(max = 0.0, inclusive = false)), nan(Disallow)))]
pub struct T281(pub f32);
impl Sub for T281 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.5, max = 0.5)), nan(Allow)))]
pub struct T282(pub f32);
impl Sub for T282 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.5, max = 0.5)), nan(Must)))]
pub struct T283(pub f32);
impl Sub for T283 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.5, max = 0.5)), nan(Disallow)))]
pub struct T284(pub f32);
impl Sub for T284 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3)), nan(Allow)))]
pub struct T285(pub f32);
impl Sub for T285 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3)), nan(Disallow)))]
pub struct T286(pub f32);
impl Sub for T286 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3, inclusive = false)), nan(Allow)))]
pub struct T287(pub f32);
impl Sub for T287 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3, inclusive = false)), nan(Disallow)))]
pub struct T288(pub f32);
impl Sub for T288 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.3)), nan(Allow)))]
pub struct T289(pub f32);
impl Sub for T289 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.3)), nan(Disallow)))]
pub struct T290(pub f32);
impl Sub for T290 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -16777217.0, max = 9007199254740993.0)), nan(Allow)))]
pub struct T291(pub f32);
impl Sub for T291 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -16777217.0, max = 9007199254740993.0)), nan(Disallow)))]
pub struct T292(pub f32);
impl Sub for T292 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow)))]
pub struct T293(pub f64);
impl Sub for T293 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must)))]
pub struct T294(pub f64);
impl Sub for T294 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow)))]
pub struct T295(pub f64);
impl Sub for T295 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5)), nan(Allow)))]
pub struct T296(pub f64);
impl Sub for T296 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5)), nan(Must), conflict(Allow)))]
pub struct T297(pub f64);
impl Sub for T297 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5)), nan(Disallow)))]
pub struct T298(pub f64);
impl Sub for T298 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5, inclusive = false)), nan(Allow)))]
pub struct T299(pub f64);
impl Sub for T299 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.5, max = 2.5, inclusive = false)), nan(Disallow)))]
pub struct T300(pub f64);
impl Sub for T300 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.0)), nan(Allow)))]
pub struct T301(pub f64);
impl Sub for T301 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.0)), nan(Disallow)))]
pub struct T302(pub f64);
impl Sub for T302 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(max = 100.25)), nan(Allow)))]
pub struct T303(pub f64);
impl Sub for T303 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(max = 100.25)), nan(Disallow)))]
pub struct T304(pub f64);
impl Sub for T304 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(max = 100.25, inclusive = false)), nan(Allow)))]
pub struct T305(pub f64);
impl Sub for T305 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(max = 100.25, inclusive = false)), nan(Disallow)))]
pub struct T306(pub f64);
impl Sub for T306 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 2.5, max = 2.5)), nan(Allow)))]
pub struct T307(pub f64);
impl Sub for T307 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 2.5, max = 2.5)), nan(Must), conflict(Allow)))]
pub struct T308(pub f64);
impl Sub for T308 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 2.5, max = 2.5)), nan(Disallow)))]
pub struct T309(pub f64);
impl Sub for T309 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.0, max = 1.0, inclusive = false)), nan(Allow)))]
pub struct T310(pub f64);
impl Sub for T310 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.0, max = 1.0, inclusive = false)), nan(Disallow)))]
pub struct T311(pub f64);
impl Sub for T311 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5)), nan(Allow)))]
pub struct T312(pub f64);
impl Sub for T312 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5)), nan(Must)))]
pub struct T313(pub f64);
impl Sub for T313 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5)), nan(Disallow)))]
pub struct T314(pub f64);
impl Sub for T314 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5, inclusive = false)), nan(Allow)))]
pub struct T315(pub f64);
impl Sub for T315 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.5, max = 2.5, inclusive = false)), nan(Disallow)))]
pub struct T316(pub f64);
impl Sub for T316 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.0)), nan(Allow)))]
pub struct T317(pub f64);
impl Sub for T317 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.0)), nan(Disallow)))]
pub struct T318(pub f64);
impl Sub for T318 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(max = 0.0)), nan(Allow)))]
pub struct T319(pub f64);
impl Sub for T319 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(max = 0.0)), nan(Disallow)))]
pub struct T320(pub f64);
impl Sub for T320 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(max = 0.0, inclusive = false)), nan(Allow)))]
pub struct T321(pub f64);
impl Sub for T321 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(max = 0.0, inclusive = false)), nan(Disallow)))]
pub struct T322(pub f64);
impl Sub for T322 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.5, max = 0.5)), nan(Allow)))]
pub struct T323(pub f64);
impl Sub for T323 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.5, max = 0.5)), nan(Must)))]
pub struct T324(pub f64);
impl Sub for T324 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.5, max = 0.5)), nan(Disallow)))]
pub struct T325(pub f64);
impl Sub for T325 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3)), nan(Allow)))]
pub struct T326(pub f64);
impl Sub for T326 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3)), nan(Disallow)))]
pub struct T327(pub f64);
impl Sub for T327 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3, inclusive = false)), nan(Allow)))]
pub struct T328(pub f64);
impl Sub for T328 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.3, inclusive = false)), nan(Disallow)))]
pub struct T329(pub f64);
impl Sub for T329 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.3)), nan(Allow)))]
pub struct T330(pub f64);
impl Sub for T330 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.3)), nan(Disallow)))]
pub struct T331(pub f64);
impl Sub for T331 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -16777217.0, max = 9007199254740993.0)), nan(Allow)))]
pub struct T332(pub f64);
impl Sub for T332 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -16777217.0, max = 9007199254740993.0)), nan(Disallow)))]
pub struct T333(pub f64);
impl Sub for T333 {
    fn view(&self) -> View {
        fview(self.0 as f64)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(boolean)]
pub struct T334(pub bool);
impl Sub for T334 {
    fn view(&self) -> View {
        view! {"b": self.0.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit)]
pub struct T335(pub Bit);
impl Sub for T335 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(min = 10, max = 1000)))]
pub struct T336(pub Bit);
impl Sub for T336 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(min = 10, max = 1000, inclusive = false)))]
pub struct T337(pub Bit);
impl Sub for T337 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(min = 8)))]
pub struct T338(pub Bit);
impl Sub for T338 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(max = 4096)))]
pub struct T339(pub Bit);
impl Sub for T339 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(max = 4096, inclusive = false)))]
pub struct T340(pub Bit);
impl Sub for T340 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(min = 512, max = 512)))]
pub struct T341(pub Bit);
impl Sub for T341 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(min = 7, max = 8, inclusive = false)))]
pub struct T342(pub Bit);
impl Sub for T342 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(min = 0, max = 18446744073709551616)))]
pub struct T343(pub Bit);
impl Sub for T343 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(min = 9007199254740993, max = 36893488147419103233)))]
pub struct T344(pub Bit);
impl Sub for T344 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(bit(range(min = 18446744073709551615, max = 1180591620717411303425, inclusive = false)))]
pub struct T345(pub Bit);
impl Sub for T345 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(ignore_case(false)))]
pub struct T346(pub Byte);
impl Sub for T346 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte)]
pub struct T347(pub Byte);
impl Sub for T347 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 10, max = 1000), ignore_case(false)))]
pub struct T348(pub Byte);
impl Sub for T348 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 10, max = 1000)))]
pub struct T349(pub Byte);
impl Sub for T349 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 10, max = 1000, inclusive = false), ignore_case(false)))]
pub struct T350(pub Byte);
impl Sub for T350 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 10, max = 1000, inclusive = false)))]
pub struct T351(pub Byte);
impl Sub for T351 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 8), ignore_case(false)))]
pub struct T352(pub Byte);
impl Sub for T352 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 8)))]
pub struct T353(pub Byte);
impl Sub for T353 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(max = 4096), ignore_case(false)))]
pub struct T354(pub Byte);
impl Sub for T354 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(max = 4096)))]
pub struct T355(pub Byte);
impl Sub for T355 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(max = 4096, inclusive = false), ignore_case(false)))]
pub struct T356(pub Byte);
impl Sub for T356 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(max = 4096, inclusive = false)))]
pub struct T357(pub Byte);
impl Sub for T357 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 512, max = 512), ignore_case(false)))]
pub struct T358(pub Byte);
impl Sub for T358 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 512, max = 512)))]
pub struct T359(pub Byte);
impl Sub for T359 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 7, max = 8, inclusive = false), ignore_case(false)))]
pub struct T360(pub Byte);
impl Sub for T360 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 7, max = 8, inclusive = false)))]
pub struct T361(pub Byte);
impl Sub for T361 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 0, max = 18446744073709551616), ignore_case(false)))]
pub struct T362(pub Byte);
impl Sub for T362 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 0, max = 18446744073709551616)))]
pub struct T363(pub Byte);
impl Sub for T363 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 9007199254740993, max = 36893488147419103233), ignore_case(false)))]
pub struct T364(pub Byte);
impl Sub for T364 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 9007199254740993, max = 36893488147419103233)))]
pub struct T365(pub Byte);
impl Sub for T365 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 18446744073709551615, max = 1180591620717411303425, inclusive = false), ignore_case(false)))]
pub struct T366(pub Byte);
impl Sub for T366 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(byte(range(min = 18446744073709551615, max = 1180591620717411303425, inclusive = false)))]
pub struct T367(pub Byte);
impl Sub for T367 {
    fn view(&self) -> View {
        view! {"n": self.0.as_u128().to_string()}
    }
}

pub fn subjects(v: &mut Vec<Subject>) {
    part0(v);
    part1(v);
    part2(v);
    part3(v);
    part4(v);
    part5(v);
    part6(v);
    part7(v);
    part8(v);
    part9(v);
    part10(v);
    part11(v);
    part12(v);
    part13(v);
    part14(v);
    part15(v);
    part16(v);
    part17(v);
    part18(v);
}
fn part0(v: &mut Vec<Subject>) {
    v.push(subject!("unsigned_integer/u8-0", T0, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Any }, [text, uint, rich]));
    v.push(subject!("unsigned_integer/u8-1", T1, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(3), max: Some(90), incl: true } }, [text, uint, rich]));
    v.push(subject!("unsigned_integer/u8-2", T2, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-3", T3, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(3), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-4", T4, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: None, max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-5", T5, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: None, max: Some(90), incl: false } }, [text, uint, rich]));
    v.push(subject!("unsigned_integer/u8-6", T6, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-7", T7, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(90), max: Some(91), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-8", T8, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Out { min: Some(3), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-9", T9, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Out { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-10", T10, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Out { min: Some(90), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-11", T11, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Out { min: None, max: Some(3), incl: true } }, [text, uint, rich]));
    v.push(subject!("unsigned_integer/u8-12", T12, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Out { min: None, max: Some(3), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-13", T13, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Out { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-14", T14, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Out { min: Some(3), max: Some(4), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-15", T15, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(1), max: Some(254), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-16", T16, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(0), max: Some(255), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-17", T17, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(0), max: Some(255), incl: false } }, [text, uint, rich]));
    v.push(subject!("unsigned_integer/u8-18", T18, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::Out { min: Some(1), max: Some(255), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u8-19", T19, UnsignedIntegerError, Spec::UInt { bits: 8, r: Rng::In { min: Some(33), max: Some(65), incl: true } }, [text, uint]));
}
fn part1(v: &mut Vec<Subject>) {
    v.push(subject!("unsigned_integer/u16-0", T20, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Any }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u16-1", T21, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(3), max: Some(90), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u16-2", T22, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-3", T23, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(3), max: None, incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u16-4", T24, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: None, max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-5", T25, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: None, max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-6", T26, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-7", T27, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(90), max: Some(91), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-8", T28, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Out { min: Some(3), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-9", T29, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Out { min: Some(3), max: Some(90), incl: false } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u16-10", T30, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Out { min: Some(90), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-11", T31, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Out { min: None, max: Some(3), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-12", T32, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Out { min: None, max: Some(3), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-13", T33, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Out { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-14", T34, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Out { min: Some(3), max: Some(4), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-15", T35, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(1), max: Some(65534), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u16-16", T36, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(0), max: Some(65535), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-17", T37, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(0), max: Some(65535), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-18", T38, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::Out { min: Some(1), max: Some(65535), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u16-19", T39, UnsignedIntegerError, Spec::UInt { bits: 16, r: Rng::In { min: Some(8193), max: Some(16385), incl: true } }, [text, uint]));
}
fn part2(v: &mut Vec<Subject>) {
    v.push(subject!("unsigned_integer/u32-0", T40, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Any }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u32-1", T41, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(3), max: Some(90), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u32-2", T42, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-3", T43, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(3), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-4", T44, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: None, max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-5", T45, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: None, max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-6", T46, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-7", T47, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(90), max: Some(91), incl: false } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u32-8", T48, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Out { min: Some(3), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-9", T49, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Out { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-10", T50, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Out { min: Some(90), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-11", T51, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Out { min: None, max: Some(3), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-12", T52, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Out { min: None, max: Some(3), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-13", T53, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Out { min: Some(90), max: Some(90), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u32-14", T54, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Out { min: Some(3), max: Some(4), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-15", T55, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(1), max: Some(4294967294), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-16", T56, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(0), max: Some(4294967295), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-17", T57, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(0), max: Some(4294967295), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-18", T58, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::Out { min: Some(1), max: Some(4294967295), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u32-19", T59, UnsignedIntegerError, Spec::UInt { bits: 32, r: Rng::In { min: Some(536870913), max: Some(1073741825), incl: true } }, [text, uint, rich, web]));
}
fn part3(v: &mut Vec<Subject>) {
    v.push(subject!("unsigned_integer/u64-0", T60, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Any }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u64-1", T61, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(3), max: Some(90), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u64-2", T62, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-3", T63, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(3), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-4", T64, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: None, max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-5", T65, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: None, max: Some(90), incl: false } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u64-6", T66, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-7", T67, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(90), max: Some(91), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-8", T68, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(3), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-9", T69, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-10", T70, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(90), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-11", T71, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: None, max: Some(3), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u64-12", T72, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: None, max: Some(3), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-13", T73, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-14", T74, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(3), max: Some(4), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-15", T75, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(1), max: Some(18446744073709551614), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-16", T76, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(0), max: Some(18446744073709551615), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-17", T77, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(0), max: Some(18446744073709551615), incl: false } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u64-18", T78, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(1), max: Some(18446744073709551615), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u64-19", T79, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(2305843009213693953), max: Some(4611686018427387905), incl: true } }, [text, uint]));
}
fn part4(v: &mut Vec<Subject>) {
    v.push(subject!("unsigned_integer/u128-0", T80, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Any }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u128-1", T81, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(3), max: Some(90), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u128-2", T82, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-3", T83, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(3), max: None, incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u128-4", T84, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: None, max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-5", T85, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: None, max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-6", T86, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-7", T87, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(90), max: Some(91), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-8", T88, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Out { min: Some(3), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-9", T89, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Out { min: Some(3), max: Some(90), incl: false } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u128-10", T90, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Out { min: Some(90), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-11", T91, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Out { min: None, max: Some(3), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-12", T92, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Out { min: None, max: Some(3), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-13", T93, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Out { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-14", T94, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Out { min: Some(3), max: Some(4), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-15", T95, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(1), max: Some(340282366920938463463374607431768211454), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/u128-16", T96, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(0), max: Some(340282366920938463463374607431768211455), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-17", T97, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(0), max: Some(340282366920938463463374607431768211455), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-18", T98, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::Out { min: Some(1), max: Some(340282366920938463463374607431768211455), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/u128-19", T99, UnsignedIntegerError, Spec::UInt { bits: 128, r: Rng::In { min: Some(42535295865117307932921825928971026433), max: Some(85070591730234615865843651857942052865), incl: true } }, [text, uint]));
}
fn part5(v: &mut Vec<Subject>) {
    v.push(subject!("unsigned_integer/usize-0", T100, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Any }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/usize-1", T101, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(3), max: Some(90), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/usize-2", T102, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-3", T103, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(3), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-4", T104, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: None, max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-5", T105, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: None, max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-6", T106, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(90), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-7", T107, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(90), max: Some(91), incl: false } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/usize-8", T108, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(3), max: Some(90), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-9", T109, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(3), max: Some(90), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-10", T110, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(90), max: None, incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-11", T111, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: None, max: Some(3), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-12", T112, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: None, max: Some(3), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-13", T113, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(90), max: Some(90), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("unsigned_integer/usize-14", T114, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(3), max: Some(4), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-15", T115, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(1), max: Some(18446744073709551614), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-16", T116, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(0), max: Some(18446744073709551615), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-17", T117, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(0), max: Some(18446744073709551615), incl: false } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-18", T118, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::Out { min: Some(1), max: Some(18446744073709551615), incl: true } }, [text, uint]));
    v.push(subject!("unsigned_integer/usize-19", T119, UnsignedIntegerError, Spec::UInt { bits: 64, r: Rng::In { min: Some(2305843009213693953), max: Some(4611686018427387905), incl: true } }, [text, uint, rich, web]));
}
fn part6(v: &mut Vec<Subject>) {
    v.push(subject!("signed_integer/i8-0", T120, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Any }, [text, sint, rich]));
    v.push(subject!("signed_integer/i8-1", T121, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(-7), max: Some(9), incl: true } }, [text, sint, rich]));
    v.push(subject!("signed_integer/i8-2", T122, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i8-3", T123, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(-7), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-4", T124, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: None, max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-5", T125, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: None, max: Some(9), incl: false } }, [text, sint, rich]));
    v.push(subject!("signed_integer/i8-6", T126, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-7", T127, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(9), max: Some(10), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i8-8", T128, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: Some(-7), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-9", T129, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i8-10", T130, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: Some(9), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-11", T131, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: None, max: Some(-7), incl: true } }, [text, sint, rich]));
    v.push(subject!("signed_integer/i8-12", T132, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: None, max: Some(-7), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i8-13", T133, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-14", T134, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: Some(-7), max: Some(-6), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i8-15", T135, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(-127), max: Some(126), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-16", T136, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(0), max: Some(127), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-17", T137, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(0), max: Some(127), incl: false } }, [text, sint, rich]));
    v.push(subject!("signed_integer/i8-18", T138, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: Some(1), max: Some(127), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-19", T139, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(33), max: Some(65), incl: true } }, [text, sint]));
}
fn part7(v: &mut Vec<Subject>) {
    v.push(subject!("signed_integer/i8-20", T140, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::In { min: Some(-65), max: Some(-33), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i8-21", T141, SignedIntegerError, Spec::SInt { bits: 8, r: Rng::Out { min: Some(-127), max: Some(-1), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-0", T142, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Any }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i16-1", T143, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(-7), max: Some(9), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i16-2", T144, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i16-3", T145, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(-7), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-4", T146, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: None, max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-5", T147, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: None, max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i16-6", T148, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-7", T149, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(9), max: Some(10), incl: false } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i16-8", T150, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: Some(-7), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-9", T151, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i16-10", T152, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: Some(9), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-11", T153, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: None, max: Some(-7), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-12", T154, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: None, max: Some(-7), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i16-13", T155, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: Some(9), max: Some(9), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i16-14", T156, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: Some(-7), max: Some(-6), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i16-15", T157, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(-32767), max: Some(32766), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-16", T158, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(0), max: Some(32767), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-17", T159, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(0), max: Some(32767), incl: false } }, [text, sint]));
}
fn part8(v: &mut Vec<Subject>) {
    v.push(subject!("signed_integer/i16-18", T160, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: Some(1), max: Some(32767), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-19", T161, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(8193), max: Some(16385), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i16-20", T162, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::In { min: Some(-16385), max: Some(-8193), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i16-21", T163, SignedIntegerError, Spec::SInt { bits: 16, r: Rng::Out { min: Some(-32767), max: Some(-1), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-0", T164, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Any }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i32-1", T165, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(-7), max: Some(9), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i32-2", T166, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i32-3", T167, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(-7), max: None, incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i32-4", T168, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: None, max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-5", T169, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: None, max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i32-6", T170, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-7", T171, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(9), max: Some(10), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i32-8", T172, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: Some(-7), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-9", T173, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: Some(-7), max: Some(9), incl: false } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i32-10", T174, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: Some(9), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-11", T175, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: None, max: Some(-7), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-12", T176, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: None, max: Some(-7), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i32-13", T177, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-14", T178, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: Some(-7), max: Some(-6), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i32-15", T179, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(-2147483647), max: Some(2147483646), incl: true } }, [text, sint, rich, web]));
}
fn part9(v: &mut Vec<Subject>) {
    v.push(subject!("signed_integer/i32-16", T180, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(0), max: Some(2147483647), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-17", T181, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(0), max: Some(2147483647), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i32-18", T182, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: Some(1), max: Some(2147483647), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-19", T183, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(536870913), max: Some(1073741825), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-20", T184, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::In { min: Some(-1073741825), max: Some(-536870913), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i32-21", T185, SignedIntegerError, Spec::SInt { bits: 32, r: Rng::Out { min: Some(-2147483647), max: Some(-1), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i64-0", T186, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Any }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i64-1", T187, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-7), max: Some(9), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i64-2", T188, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i64-3", T189, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-7), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-4", T190, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: None, max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-5", T191, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: None, max: Some(9), incl: false } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i64-6", T192, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-7", T193, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(9), max: Some(10), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i64-8", T194, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(-7), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-9", T195, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i64-10", T196, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(9), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-11", T197, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: None, max: Some(-7), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i64-12", T198, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: None, max: Some(-7), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i64-13", T199, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
}
fn part10(v: &mut Vec<Subject>) {
    v.push(subject!("signed_integer/i64-14", T200, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(-7), max: Some(-6), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i64-15", T201, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-9223372036854775807), max: Some(9223372036854775806), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-16", T202, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(0), max: Some(9223372036854775807), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-17", T203, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(0), max: Some(9223372036854775807), incl: false } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i64-18", T204, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(1), max: Some(9223372036854775807), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-19", T205, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(2305843009213693953), max: Some(4611686018427387905), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-20", T206, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-4611686018427387905), max: Some(-2305843009213693953), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i64-21", T207, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(-9223372036854775807), max: Some(-1), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-0", T208, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Any }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i128-1", T209, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(-7), max: Some(9), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i128-2", T210, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i128-3", T211, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(-7), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-4", T212, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: None, max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-5", T213, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: None, max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i128-6", T214, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-7", T215, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(9), max: Some(10), incl: false } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i128-8", T216, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: Some(-7), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-9", T217, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i128-10", T218, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: Some(9), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-11", T219, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: None, max: Some(-7), incl: true } }, [text, sint]));
}
fn part11(v: &mut Vec<Subject>) {
    v.push(subject!("signed_integer/i128-12", T220, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: None, max: Some(-7), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i128-13", T221, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: Some(9), max: Some(9), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i128-14", T222, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: Some(-7), max: Some(-6), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i128-15", T223, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(-170141183460469231731687303715884105727), max: Some(170141183460469231731687303715884105726), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-16", T224, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(0), max: Some(170141183460469231731687303715884105727), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-17", T225, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(0), max: Some(170141183460469231731687303715884105727), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/i128-18", T226, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: Some(1), max: Some(170141183460469231731687303715884105727), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-19", T227, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(42535295865117307932921825928971026433), max: Some(85070591730234615865843651857942052865), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/i128-20", T228, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::In { min: Some(-85070591730234615865843651857942052865), max: Some(-42535295865117307932921825928971026433), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/i128-21", T229, SignedIntegerError, Spec::SInt { bits: 128, r: Rng::Out { min: Some(-170141183460469231731687303715884105727), max: Some(-1), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-0", T230, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Any }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/isize-1", T231, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-7), max: Some(9), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/isize-2", T232, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-7), max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/isize-3", T233, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-7), max: None, incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/isize-4", T234, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: None, max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-5", T235, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: None, max: Some(9), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/isize-6", T236, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-7", T237, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(9), max: Some(10), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/isize-8", T238, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(-7), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-9", T239, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(-7), max: Some(9), incl: false } }, [text, sint, rich, web]));
}
fn part12(v: &mut Vec<Subject>) {
    v.push(subject!("signed_integer/isize-10", T240, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(9), max: None, incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-11", T241, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: None, max: Some(-7), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-12", T242, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: None, max: Some(-7), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/isize-13", T243, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(9), max: Some(9), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-14", T244, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(-7), max: Some(-6), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/isize-15", T245, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-9223372036854775807), max: Some(9223372036854775806), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("signed_integer/isize-16", T246, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(0), max: Some(9223372036854775807), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-17", T247, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(0), max: Some(9223372036854775807), incl: false } }, [text, sint]));
    v.push(subject!("signed_integer/isize-18", T248, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(1), max: Some(9223372036854775807), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-19", T249, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(2305843009213693953), max: Some(4611686018427387905), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-20", T250, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::In { min: Some(-4611686018427387905), max: Some(-2305843009213693953), incl: true } }, [text, sint]));
    v.push(subject!("signed_integer/isize-21", T251, SignedIntegerError, Spec::SInt { bits: 64, r: Rng::Out { min: Some(-9223372036854775807), max: Some(-1), incl: true } }, [text, sint, rich, web]));
    v.push(subject!("number/f32-0-A", T252, NumberError, Spec::Num { f32_: true, r: Rng::Any, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-0-M", T253, NumberError, Spec::Num { f32_: true, r: Rng::Any, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f32-0-D", T254, NumberError, Spec::Num { f32_: true, r: Rng::Any, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-1-A", T255, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-1-M", T256, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f32-1-D", T257, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::D }, [text, num, rich, web]));
    v.push(subject!("number/f32-2-A", T258, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: false }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-2-D", T259, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: false }, nan: Tri::D }, [text, num]));
}
fn part13(v: &mut Vec<Subject>) {
    v.push(subject!("number/f32-3-A", T260, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(0.0f32 as f64), max: None, incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-3-D", T261, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(0.0f32 as f64), max: None, incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-4-A", T262, NumberError, Spec::Num { f32_: true, r: Rng::In { min: None, max: Some(100.25f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-4-D", T263, NumberError, Spec::Num { f32_: true, r: Rng::In { min: None, max: Some(100.25f32 as f64), incl: true }, nan: Tri::D }, [text, num, rich, web]));
    v.push(subject!("number/f32-5-A", T264, NumberError, Spec::Num { f32_: true, r: Rng::In { min: None, max: Some(100.25f32 as f64), incl: false }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-5-D", T265, NumberError, Spec::Num { f32_: true, r: Rng::In { min: None, max: Some(100.25f32 as f64), incl: false }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-6-A", T266, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(2.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-6-M", T267, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(2.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f32-6-D", T268, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(2.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-7-A", T269, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(0.0f32 as f64), max: Some(1.0f32 as f64), incl: false }, nan: Tri::A }, [text, num, rich, web]));
    v.push(subject!("number/f32-7-D", T270, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(0.0f32 as f64), max: Some(1.0f32 as f64), incl: false }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-8-A", T271, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-8-M", T272, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f32-8-D", T273, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-9-A", T274, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: false }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-9-D", T275, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(-1.5f32 as f64), max: Some(2.5f32 as f64), incl: false }, nan: Tri::D }, [text, num, rich, web]));
    v.push(subject!("number/f32-10-A", T276, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(0.0f32 as f64), max: None, incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-10-D", T277, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(0.0f32 as f64), max: None, incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-11-A", T278, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: None, max: Some(0.0f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-11-D", T279, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: None, max: Some(0.0f32 as f64), incl: true }, nan: Tri::D }, [text, num]));
}
fn part14(v: &mut Vec<Subject>) {
    v.push(subject!("number/f32-12-A", T280, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: None, max: Some(0.0f32 as f64), incl: false }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-12-D", T281, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: None, max: Some(0.0f32 as f64), incl: false }, nan: Tri::D }, [text, num, rich, web]));
    v.push(subject!("number/f32-13-A", T282, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(0.5f32 as f64), max: Some(0.5f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-13-M", T283, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(0.5f32 as f64), max: Some(0.5f32 as f64), incl: true }, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f32-13-D", T284, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(0.5f32 as f64), max: Some(0.5f32 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-14-A", T285, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(0.1f32 as f64), max: Some(0.3f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-14-D", T286, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(0.1f32 as f64), max: Some(0.3f32 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-15-A", T287, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(0.1f32 as f64), max: Some(0.3f32 as f64), incl: false }, nan: Tri::A }, [text, num, rich, web]));
    v.push(subject!("number/f32-15-D", T288, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(0.1f32 as f64), max: Some(0.3f32 as f64), incl: false }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-16-A", T289, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(0.1f32 as f64), max: Some(0.3f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-16-D", T290, NumberError, Spec::Num { f32_: true, r: Rng::Out { min: Some(0.1f32 as f64), max: Some(0.3f32 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f32-17-A", T291, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(-16777217.0f32 as f64), max: Some(9007199254740993.0f32 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f32-17-D", T292, NumberError, Spec::Num { f32_: true, r: Rng::In { min: Some(-16777217.0f32 as f64), max: Some(9007199254740993.0f32 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-0-A", T293, NumberError, Spec::Num { f32_: false, r: Rng::Any, nan: Tri::A }, [text, num, rich, web]));
    v.push(subject!("number/f64-0-M", T294, NumberError, Spec::Num { f32_: false, r: Rng::Any, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f64-0-D", T295, NumberError, Spec::Num { f32_: false, r: Rng::Any, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-1-A", T296, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-1-M", T297, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f64-1-D", T298, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::D }, [text, num, rich, web]));
    v.push(subject!("number/f64-2-A", T299, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: false }, nan: Tri::A }, [text, num, rich, web]));
}
fn part15(v: &mut Vec<Subject>) {
    v.push(subject!("number/f64-2-D", T300, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: false }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-3-A", T301, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(0.0f64 as f64), max: None, incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-3-D", T302, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(0.0f64 as f64), max: None, incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-4-A", T303, NumberError, Spec::Num { f32_: false, r: Rng::In { min: None, max: Some(100.25f64 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-4-D", T304, NumberError, Spec::Num { f32_: false, r: Rng::In { min: None, max: Some(100.25f64 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-5-A", T305, NumberError, Spec::Num { f32_: false, r: Rng::In { min: None, max: Some(100.25f64 as f64), incl: false }, nan: Tri::A }, [text, num, rich, web]));
    v.push(subject!("number/f64-5-D", T306, NumberError, Spec::Num { f32_: false, r: Rng::In { min: None, max: Some(100.25f64 as f64), incl: false }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-6-A", T307, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(2.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-6-M", T308, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(2.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f64-6-D", T309, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(2.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-7-A", T310, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(0.0f64 as f64), max: Some(1.0f64 as f64), incl: false }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-7-D", T311, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(0.0f64 as f64), max: Some(1.0f64 as f64), incl: false }, nan: Tri::D }, [text, num, rich, web]));
    v.push(subject!("number/f64-8-A", T312, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-8-M", T313, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f64-8-D", T314, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-9-A", T315, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: false }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-9-D", T316, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(-1.5f64 as f64), max: Some(2.5f64 as f64), incl: false }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-10-A", T317, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(0.0f64 as f64), max: None, incl: true }, nan: Tri::A }, [text, num, rich, web]));
    v.push(subject!("number/f64-10-D", T318, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(0.0f64 as f64), max: None, incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-11-A", T319, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: None, max: Some(0.0f64 as f64), incl: true }, nan: Tri::A }, [text, num]));
}
fn part16(v: &mut Vec<Subject>) {
    v.push(subject!("number/f64-11-D", T320, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: None, max: Some(0.0f64 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-12-A", T321, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: None, max: Some(0.0f64 as f64), incl: false }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-12-D", T322, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: None, max: Some(0.0f64 as f64), incl: false }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-13-A", T323, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(0.5f64 as f64), max: Some(0.5f64 as f64), incl: true }, nan: Tri::A }, [text, num, rich, web]));
    v.push(subject!("number/f64-13-M", T324, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(0.5f64 as f64), max: Some(0.5f64 as f64), incl: true }, nan: Tri::M }, [text, num]));
    v.push(subject!("number/f64-13-D", T325, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(0.5f64 as f64), max: Some(0.5f64 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-14-A", T326, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(0.1f64 as f64), max: Some(0.3f64 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-14-D", T327, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(0.1f64 as f64), max: Some(0.3f64 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-15-A", T328, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(0.1f64 as f64), max: Some(0.3f64 as f64), incl: false }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-15-D", T329, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(0.1f64 as f64), max: Some(0.3f64 as f64), incl: false }, nan: Tri::D }, [text, num, rich, web]));
    v.push(subject!("number/f64-16-A", T330, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(0.1f64 as f64), max: Some(0.3f64 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-16-D", T331, NumberError, Spec::Num { f32_: false, r: Rng::Out { min: Some(0.1f64 as f64), max: Some(0.3f64 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("number/f64-17-A", T332, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(-16777217.0f64 as f64), max: Some(9007199254740993.0f64 as f64), incl: true }, nan: Tri::A }, [text, num]));
    v.push(subject!("number/f64-17-D", T333, NumberError, Spec::Num { f32_: false, r: Rng::In { min: Some(-16777217.0f64 as f64), max: Some(9007199254740993.0f64 as f64), incl: true }, nan: Tri::D }, [text, num]));
    v.push(subject!("boolean", T334, BooleanError, Spec::Bool, [text, boolean, chr, sint, uint, rich, web]));
    v.push(subject!("bit/0", T335, BitError, Spec::Bit { r: Rng::Any }, [text, uint, rich, web]));
    v.push(subject!("bit/1", T336, BitError, Spec::Bit { r: Rng::In { min: Some(10), max: Some(1000), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("bit/2", T337, BitError, Spec::Bit { r: Rng::In { min: Some(10), max: Some(1000), incl: false } }, [text, uint]));
    v.push(subject!("bit/3", T338, BitError, Spec::Bit { r: Rng::In { min: Some(8), max: None, incl: true } }, [text, uint]));
    v.push(subject!("bit/4", T339, BitError, Spec::Bit { r: Rng::In { min: None, max: Some(4096), incl: true } }, [text, uint]));
}
fn part17(v: &mut Vec<Subject>) {
    v.push(subject!("bit/5", T340, BitError, Spec::Bit { r: Rng::In { min: None, max: Some(4096), incl: false } }, [text, uint]));
    v.push(subject!("bit/6", T341, BitError, Spec::Bit { r: Rng::In { min: Some(512), max: Some(512), incl: true } }, [text, uint, rich, web]));
    v.push(subject!("bit/7", T342, BitError, Spec::Bit { r: Rng::In { min: Some(7), max: Some(8), incl: false } }, [text, uint]));
    v.push(subject!("bit/8", T343, BitError, Spec::Bit { r: Rng::In { min: Some(0), max: Some(18446744073709551616), incl: true } }, [text, uint]));
    v.push(subject!("bit/9", T344, BitError, Spec::Bit { r: Rng::In { min: Some(9007199254740993), max: Some(36893488147419103233), incl: true } }, [text, uint]));
    v.push(subject!("bit/10", T345, BitError, Spec::Bit { r: Rng::In { min: Some(18446744073709551615), max: Some(1180591620717411303425), incl: false } }, [text, uint]));
    v.push(subject!("byte/0", T346, ByteError, Spec::Byte { r: Rng::Any, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/0-ic", T347, ByteError, Spec::Byte { r: Rng::Any, ignore_case: true }, [text, uint, rich, web]));
    v.push(subject!("byte/1", T348, ByteError, Spec::Byte { r: Rng::In { min: Some(10), max: Some(1000), incl: true }, ignore_case: false }, [text, uint, rich, web]));
    v.push(subject!("byte/1-ic", T349, ByteError, Spec::Byte { r: Rng::In { min: Some(10), max: Some(1000), incl: true }, ignore_case: true }, [text, uint]));
    v.push(subject!("byte/2", T350, ByteError, Spec::Byte { r: Rng::In { min: Some(10), max: Some(1000), incl: false }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/2-ic", T351, ByteError, Spec::Byte { r: Rng::In { min: Some(10), max: Some(1000), incl: false }, ignore_case: true }, [text, uint]));
    v.push(subject!("byte/3", T352, ByteError, Spec::Byte { r: Rng::In { min: Some(8), max: None, incl: true }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/3-ic", T353, ByteError, Spec::Byte { r: Rng::In { min: Some(8), max: None, incl: true }, ignore_case: true }, [text, uint, rich, web]));
    v.push(subject!("byte/4", T354, ByteError, Spec::Byte { r: Rng::In { min: None, max: Some(4096), incl: true }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/4-ic", T355, ByteError, Spec::Byte { r: Rng::In { min: None, max: Some(4096), incl: true }, ignore_case: true }, [text, uint]));
    v.push(subject!("byte/5", T356, ByteError, Spec::Byte { r: Rng::In { min: None, max: Some(4096), incl: false }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/5-ic", T357, ByteError, Spec::Byte { r: Rng::In { min: None, max: Some(4096), incl: false }, ignore_case: true }, [text, uint]));
    v.push(subject!("byte/6", T358, ByteError, Spec::Byte { r: Rng::In { min: Some(512), max: Some(512), incl: true }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/6-ic", T359, ByteError, Spec::Byte { r: Rng::In { min: Some(512), max: Some(512), incl: true }, ignore_case: true }, [text, uint, rich, web]));
}
fn part18(v: &mut Vec<Subject>) {
    v.push(subject!("byte/7", T360, ByteError, Spec::Byte { r: Rng::In { min: Some(7), max: Some(8), incl: false }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/7-ic", T361, ByteError, Spec::Byte { r: Rng::In { min: Some(7), max: Some(8), incl: false }, ignore_case: true }, [text, uint]));
    v.push(subject!("byte/8", T362, ByteError, Spec::Byte { r: Rng::In { min: Some(0), max: Some(18446744073709551616), incl: true }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/8-ic", T363, ByteError, Spec::Byte { r: Rng::In { min: Some(0), max: Some(18446744073709551616), incl: true }, ignore_case: true }, [text, uint]));
    v.push(subject!("byte/9", T364, ByteError, Spec::Byte { r: Rng::In { min: Some(9007199254740993), max: Some(36893488147419103233), incl: true }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/9-ic", T365, ByteError, Spec::Byte { r: Rng::In { min: Some(9007199254740993), max: Some(36893488147419103233), incl: true }, ignore_case: true }, [text, uint, rich, web]));
    v.push(subject!("byte/10", T366, ByteError, Spec::Byte { r: Rng::In { min: Some(18446744073709551615), max: Some(1180591620717411303425), incl: false }, ignore_case: false }, [text, uint]));
    v.push(subject!("byte/10-ic", T367, ByteError, Spec::Byte { r: Rng::In { min: Some(18446744073709551615), max: Some(1180591620717411303425), incl: false }, ignore_case: true }, [text, uint]));
}
