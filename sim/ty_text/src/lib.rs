// Generated by gen_types.py. Do not edit.
#![allow(unused_imports, dead_code, clippy::all)]
use kit::*;
use validators::{errors::*, prelude::*};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use validators::regex::Regex;
pub static RE_WORD: std::sync::LazyLock<Regex> = std::sync::LazyLock::new(|| Regex::new(r"\A[\w-]{2,8}\z").unwrap());
/// a caller-defined collection whose reported length may change between reads
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Own(pub Vec<u32>);
impl CollView for Own {
    fn coll_view(&self) -> View {
        own_view(&self.0)
    }
}
impl CollectionLength for Own {
    fn len(&self) -> usize {
        own_len(self.0.len())
    }
}

#[derive(Debug, Clone, Validator)]
#[validator(text)]
pub struct T0(pub String);
impl Sub for T0 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2)))]
pub struct T1(pub String);
impl Sub for T1 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 1)))]
pub struct T2(pub String);
impl Sub for T2 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 3)))]
pub struct T3(pub String);
impl Sub for T3 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(max = 6)))]
pub struct T4(pub String);
impl Sub for T4 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, trimmed_min = 1)))]
pub struct T5(pub String);
impl Sub for T5 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 3, trimmed_min = 3)))]
pub struct T6(pub String);
impl Sub for T6 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, max = 6)))]
pub struct T7(pub String);
impl Sub for T7 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 1, max = 6)))]
pub struct T8(pub String);
impl Sub for T8 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 3, max = 5)))]
pub struct T9(pub String);
impl Sub for T9 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, trimmed_min = 1, max = 6)))]
pub struct T10(pub String);
impl Sub for T10 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 4, trimmed_min = 2, max = 9)))]
pub struct T11(pub String);
impl Sub for T11 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 3, trimmed_min = 3, max = 3)))]
pub struct T12(pub String);
impl Sub for T12 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 0, trimmed_min = 0, max = 4)))]
pub struct T13(pub String);
impl Sub for T13 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 0, max = 3)))]
pub struct T14(pub String);
impl Sub for T14 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, trimmed_min = 0, max = 5)))]
pub struct T15(pub String);
impl Sub for T15 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, trimmed_min = 0)))]
pub struct T16(pub String);
impl Sub for T16 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 0)))]
pub struct T17(pub String);
impl Sub for T17 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 1, max = 1)))]
pub struct T18(pub String);
impl Sub for T18 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 5, max = 5)))]
pub struct T19(pub String);
impl Sub for T19 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 1, trimmed_min = 1, max = 64)))]
pub struct T20(pub String);
impl Sub for T20 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 0, max = 0)))]
pub struct T21(pub String);
impl Sub for T21 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(max = 255)))]
pub struct T22(pub String);
impl Sub for T22 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 7)))]
pub struct T23(pub String);
impl Sub for T23 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 6, max = 20)))]
pub struct T24(pub String);
impl Sub for T24 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 8, trimmed_min = 4, max = 12)))]
pub struct T25(pub String);
impl Sub for T25 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 10, trimmed_min = 6)))]
pub struct T26(pub String);
impl Sub for T26 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 20, trimmed_min = 16, max = 24)))]
pub struct T27(pub String);
impl Sub for T27 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 33, max = 64)))]
pub struct T28(pub String);
impl Sub for T28 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 100, trimmed_min = 64)))]
pub struct T29(pub String);
impl Sub for T29 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2)))]
pub struct T30(pub String);
impl Sub for T30 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 1)))]
pub struct T31(pub String);
impl Sub for T31 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 3)))]
pub struct T32(pub String);
impl Sub for T32 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(max = 6)))]
pub struct T33(pub String);
impl Sub for T33 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, trimmed_min = 1)))]
pub struct T34(pub String);
impl Sub for T34 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 3, trimmed_min = 3)))]
pub struct T35(pub String);
impl Sub for T35 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, max = 6)))]
pub struct T36(pub String);
impl Sub for T36 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 1, max = 6)))]
pub struct T37(pub String);
impl Sub for T37 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 3, max = 5)))]
pub struct T38(pub String);
impl Sub for T38 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, trimmed_min = 1, max = 6)))]
pub struct T39(pub String);
impl Sub for T39 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 4, trimmed_min = 2, max = 9)))]
pub struct T40(pub String);
impl Sub for T40 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 3, trimmed_min = 3, max = 3)))]
pub struct T41(pub String);
impl Sub for T41 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 0, trimmed_min = 0, max = 4)))]
pub struct T42(pub String);
impl Sub for T42 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 0, max = 3)))]
pub struct T43(pub String);
impl Sub for T43 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, trimmed_min = 0, max = 5)))]
pub struct T44(pub String);
impl Sub for T44 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, trimmed_min = 0)))]
pub struct T45(pub String);
impl Sub for T45 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 0)))]
pub struct T46(pub String);
impl Sub for T46 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 1, max = 1)))]
pub struct T47(pub String);
impl Sub for T47 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 5, max = 5)))]
pub struct T48(pub String);
impl Sub for T48 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 1, trimmed_min = 1, max = 64)))]
pub struct T49(pub String);
impl Sub for T49 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 0, max = 0)))]
pub struct T50(pub String);
impl Sub for T50 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(max = 255)))]
pub struct T51(pub String);
impl Sub for T51 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 7)))]
pub struct T52(pub String);
impl Sub for T52 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 6, max = 20)))]
pub struct T53(pub String);
impl Sub for T53 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 8, trimmed_min = 4, max = 12)))]
pub struct T54(pub String);
impl Sub for T54 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 10, trimmed_min = 6)))]
pub struct T55(pub String);
impl Sub for T55 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 20, trimmed_min = 16, max = 24)))]
pub struct T56(pub String);
impl Sub for T56 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 33, max = 64)))]
pub struct T57(pub String);
impl Sub for T57 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 100, trimmed_min = 64)))]
pub struct T58(pub String);
impl Sub for T58 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line)]
pub struct T59(pub String);
impl Sub for T59 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2)))]
pub struct T60(pub String);
impl Sub for T60 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 1)))]
pub struct T61(pub String);
impl Sub for T61 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 3)))]
pub struct T62(pub String);
impl Sub for T62 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(max = 6)))]
pub struct T63(pub String);
impl Sub for T63 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, trimmed_min = 1)))]
pub struct T64(pub String);
impl Sub for T64 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 3, trimmed_min = 3)))]
pub struct T65(pub String);
impl Sub for T65 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, max = 6)))]
pub struct T66(pub String);
impl Sub for T66 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 1, max = 6)))]
pub struct T67(pub String);
impl Sub for T67 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 3, max = 5)))]
pub struct T68(pub String);
impl Sub for T68 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, trimmed_min = 1, max = 6)))]
pub struct T69(pub String);
impl Sub for T69 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 4, trimmed_min = 2, max = 9)))]
pub struct T70(pub String);
impl Sub for T70 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 3, trimmed_min = 3, max = 3)))]
pub struct T71(pub String);
impl Sub for T71 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 0, trimmed_min = 0, max = 4)))]
pub struct T72(pub String);
impl Sub for T72 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 0, max = 3)))]
pub struct T73(pub String);
impl Sub for T73 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, trimmed_min = 0, max = 5)))]
pub struct T74(pub String);
impl Sub for T74 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, trimmed_min = 0)))]
pub struct T75(pub String);
impl Sub for T75 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 0)))]
pub struct T76(pub String);
impl Sub for T76 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 1, max = 1)))]
pub struct T77(pub String);
impl Sub for T77 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 5, max = 5)))]
pub struct T78(pub String);
impl Sub for T78 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 1, trimmed_min = 1, max = 64)))]
pub struct T79(pub String);
impl Sub for T79 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 0, max = 0)))]
pub struct T80(pub String);
impl Sub for T80 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(max = 255)))]
pub struct T81(pub String);
impl Sub for T81 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 7)))]
pub struct T82(pub String);
impl Sub for T82 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 6, max = 20)))]
pub struct T83(pub String);
impl Sub for T83 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 8, trimmed_min = 4, max = 12)))]
pub struct T84(pub String);
impl Sub for T84 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 10, trimmed_min = 6)))]
pub struct T85(pub String);
impl Sub for T85 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 20, trimmed_min = 16, max = 24)))]
pub struct T86(pub String);
impl Sub for T86 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 33, max = 64)))]
pub struct T87(pub String);
impl Sub for T87 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 100, trimmed_min = 64)))]
pub struct T88(pub String);
impl Sub for T88 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2)))]
pub struct T89(pub String);
impl Sub for T89 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 1)))]
pub struct T90(pub String);
impl Sub for T90 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 3)))]
pub struct T91(pub String);
impl Sub for T91 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(max = 6)))]
pub struct T92(pub String);
impl Sub for T92 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, trimmed_min = 1)))]
pub struct T93(pub String);
impl Sub for T93 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 3, trimmed_min = 3)))]
pub struct T94(pub String);
impl Sub for T94 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, max = 6)))]
pub struct T95(pub String);
impl Sub for T95 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 1, max = 6)))]
pub struct T96(pub String);
impl Sub for T96 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 3, max = 5)))]
pub struct T97(pub String);
impl Sub for T97 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, trimmed_min = 1, max = 6)))]
pub struct T98(pub String);
impl Sub for T98 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 4, trimmed_min = 2, max = 9)))]
pub struct T99(pub String);
impl Sub for T99 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 3, trimmed_min = 3, max = 3)))]
pub struct T100(pub String);
impl Sub for T100 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 0, trimmed_min = 0, max = 4)))]
pub struct T101(pub String);
impl Sub for T101 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 0, max = 3)))]
pub struct T102(pub String);
impl Sub for T102 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, trimmed_min = 0, max = 5)))]
pub struct T103(pub String);
impl Sub for T103 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, trimmed_min = 0)))]
pub struct T104(pub String);
impl Sub for T104 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 0)))]
pub struct T105(pub String);
impl Sub for T105 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 1, max = 1)))]
pub struct T106(pub String);
impl Sub for T106 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 5, max = 5)))]
pub struct T107(pub String);
impl Sub for T107 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 1, trimmed_min = 1, max = 64)))]
pub struct T108(pub String);
impl Sub for T108 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 0, max = 0)))]
pub struct T109(pub String);
impl Sub for T109 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(max = 255)))]
pub struct T110(pub String);
impl Sub for T110 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 7)))]
pub struct T111(pub String);
impl Sub for T111 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 6, max = 20)))]
pub struct T112(pub String);
impl Sub for T112 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 8, trimmed_min = 4, max = 12)))]
pub struct T113(pub String);
impl Sub for T113 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 10, trimmed_min = 6)))]
pub struct T114(pub String);
impl Sub for T114 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 20, trimmed_min = 16, max = 24)))]
pub struct T115(pub String);
impl Sub for T115 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 33, max = 64)))]
pub struct T116(pub String);
impl Sub for T116 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 100, trimmed_min = 64)))]
pub struct T117(pub String);
impl Sub for T117 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"^[a-z]+$"))]
pub struct T118(pub String);
impl Sub for T118 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"(?i)^(yes|no|maybe)$"))]
pub struct T119(pub String);
impl Sub for T119 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"\A\d{3}-\d{4}\z"))]
pub struct T120(pub String);
impl Sub for T120 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"a.c"))]
pub struct T121(pub String);
impl Sub for T121 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"^$"))]
pub struct T122(pub String);
impl Sub for T122 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"(?s)^.{0,4}$"))]
pub struct T123(pub String);
impl Sub for T123 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"^\p{Greek}+$"))]
pub struct T124(pub String);
impl Sub for T124 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"^(?:(?:25[0-5]|2[0-4]\d|1?\d?\d)(?:\.|$)){4}"))]
pub struct T125(pub String);
impl Sub for T125 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"(?m)^x$"))]
pub struct T126(pub String);
impl Sub for T126 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = r"\bfoo\b"))]
pub struct T127(pub String);
impl Sub for T127 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(regex(regex = RE_WORD))]
pub struct T128(pub String);
impl Sub for T128 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct T129(pub Vec<u32>);
impl Sub for T129 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct T130(pub Vec<u32>);
impl Sub for T130 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
pub struct T131(pub Vec<u32>);
impl Sub for T131 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3, max = 3))]
pub struct T132(pub Vec<u32>);
impl Sub for T132 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct T133(pub Vec<u32>);
impl Sub for T133 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct T134(pub BTreeMap<String, u32>);
impl Sub for T134 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
pub struct T135(pub BTreeMap<String, u32>);
impl Sub for T135 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct T136(pub BTreeSet<u32>);
impl Sub for T136 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
pub struct T137(pub BTreeSet<u32>);
impl Sub for T137 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct T138(pub BinaryHeap<u32>);
impl Sub for T138 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
pub struct T139(pub BinaryHeap<u32>);
impl Sub for T139 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct T140(pub HashMap<String, u32>);
impl Sub for T140 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct T141(pub HashMap<String, u32>);
impl Sub for T141 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
pub struct T142(pub HashMap<String, u32>);
impl Sub for T142 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3, max = 3))]
pub struct T143(pub HashMap<String, u32>);
impl Sub for T143 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct T144(pub HashMap<String, u32>);
impl Sub for T144 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct T145(pub HashSet<u32>);
impl Sub for T145 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
pub struct T146(pub HashSet<u32>);
impl Sub for T146 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct T147(pub serde_json::Map<String, serde_json::Value>);
impl Sub for T147 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
pub struct T148(pub serde_json::Map<String, serde_json::Value>);
impl Sub for T148 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1))]
pub struct T149(pub Own);
impl Sub for T149 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(max = 3))]
pub struct T150(pub Own);
impl Sub for T150 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
pub struct T151(pub Own);
impl Sub for T151 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 3, max = 3))]
pub struct T152(pub Own);
impl Sub for T152 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(length(min = 0, max = 0))]
pub struct T153(pub Own);
impl Sub for T153 {
    fn view(&self) -> View {
        self.0.coll_view()
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base32(padding(Allow)))]
pub struct T154(pub String);
impl Sub for T154 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base32(padding(Must)))]
pub struct T155(pub String);
impl Sub for T155 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base32(padding(Disallow)))]
pub struct T156(pub String);
impl Sub for T156 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base32_decoded(padding(Allow)))]
pub struct T157(pub Vec<u8>);
impl Sub for T157 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base32_decoded(padding(Must)))]
pub struct T158(pub Vec<u8>);
impl Sub for T158 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base32_decoded(padding(Disallow)))]
pub struct T159(pub Vec<u8>);
impl Sub for T159 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64(padding(Allow)))]
pub struct T160(pub String);
impl Sub for T160 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64(padding(Must)))]
pub struct T161(pub String);
impl Sub for T161 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64(padding(Disallow)))]
pub struct T162(pub String);
impl Sub for T162 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_decoded(padding(Allow)))]
pub struct T163(pub Vec<u8>);
impl Sub for T163 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_decoded(padding(Must)))]
pub struct T164(pub Vec<u8>);
impl Sub for T164 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_decoded(padding(Disallow)))]
pub struct T165(pub Vec<u8>);
impl Sub for T165 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_url(padding(Allow)))]
pub struct T166(pub String);
impl Sub for T166 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_url(padding(Must)))]
pub struct T167(pub String);
impl Sub for T167 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_url(padding(Disallow)))]
pub struct T168(pub String);
impl Sub for T168 {
    fn view(&self) -> View {
        view! {"text": q(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_url_decoded(padding(Allow)))]
pub struct T169(pub Vec<u8>);
impl Sub for T169 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_url_decoded(padding(Must)))]
pub struct T170(pub Vec<u8>);
impl Sub for T170 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(base64_url_decoded(padding(Disallow)))]
pub struct T171(pub Vec<u8>);
impl Sub for T171 {
    fn view(&self) -> View {
        view! {"bytes": format!("{:02x?}", self.0), "len": format!("{}/{}", CollectionLength::len(self), CollectionLength::is_empty(self))}
    }
}

pub fn subjects(v: &mut Vec<Subject>) {
    part0(v);
    part1(v);
    part2(v);
    part3(v);
    part4(v);
    part5(v);
    part6(v);
    part7(v);
    part8(v);
}
fn part0(v: &mut Vec<Subject>) {
    v.push(subject!("text/char-None-None-None", T0, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: None, max: None }, [text]));
    v.push(subject!("text/char-2-None-None", T1, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(2), tmin: None, max: None }, [text]));
    v.push(subject!("text/char-None-1-None", T2, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(1), max: None }, [text]));
    v.push(subject!("text/char-None-3-None", T3, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(3), max: None }, [text]));
    v.push(subject!("text/char-None-None-6", T4, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: None, max: Some(6) }, [text, rich, web]));
    v.push(subject!("text/char-2-1-None", T5, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(2), tmin: Some(1), max: None }, [text, rich, web]));
    v.push(subject!("text/char-3-3-None", T6, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(3), tmin: Some(3), max: None }, [text]));
    v.push(subject!("text/char-2-None-6", T7, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(2), tmin: None, max: Some(6) }, [text]));
    v.push(subject!("text/char-None-1-6", T8, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(1), max: Some(6) }, [text]));
    v.push(subject!("text/char-None-3-5", T9, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(3), max: Some(5) }, [text]));
    v.push(subject!("text/char-2-1-6", T10, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(2), tmin: Some(1), max: Some(6) }, [text, rich, web]));
    v.push(subject!("text/char-4-2-9", T11, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(4), tmin: Some(2), max: Some(9) }, [text, rich, web]));
    v.push(subject!("text/char-3-3-3", T12, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(3), tmin: Some(3), max: Some(3) }, [text]));
    v.push(subject!("text/char-0-0-4", T13, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(0), tmin: Some(0), max: Some(4) }, [text]));
    v.push(subject!("text/char-None-0-3", T14, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(0), max: Some(3) }, [text]));
    v.push(subject!("text/char-2-0-5", T15, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(2), tmin: Some(0), max: Some(5) }, [text]));
    v.push(subject!("text/char-2-0-None", T16, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(2), tmin: Some(0), max: None }, [text]));
    v.push(subject!("text/char-None-0-None", T17, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(0), max: None }, [text, rich, web]));
    v.push(subject!("text/char-1-None-1", T18, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(1), tmin: None, max: Some(1) }, [text]));
    v.push(subject!("text/char-5-None-5", T19, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(5), tmin: None, max: Some(5) }, [text]));
}
fn part1(v: &mut Vec<Subject>) {
    v.push(subject!("text/char-1-1-64", T20, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(1), tmin: Some(1), max: Some(64) }, [text]));
    v.push(subject!("text/char-0-None-0", T21, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(0), tmin: None, max: Some(0) }, [text]));
    v.push(subject!("text/char-None-None-255", T22, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: None, max: Some(255) }, [text]));
    v.push(subject!("text/char-None-7-None", T23, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(7), max: None }, [text, rich, web]));
    v.push(subject!("text/char-None-6-20", T24, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(6), max: Some(20) }, [text]));
    v.push(subject!("text/char-8-4-12", T25, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(8), tmin: Some(4), max: Some(12) }, [text]));
    v.push(subject!("text/char-10-6-None", T26, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(10), tmin: Some(6), max: None }, [text]));
    v.push(subject!("text/char-20-16-24", T27, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(20), tmin: Some(16), max: Some(24) }, [text]));
    v.push(subject!("text/char-None-33-64", T28, TextError, Spec::Text { line: false, unit: Unit::Chars, min: None, tmin: Some(33), max: Some(64) }, [text]));
    v.push(subject!("text/char-100-64-None", T29, TextError, Spec::Text { line: false, unit: Unit::Chars, min: Some(100), tmin: Some(64), max: None }, [text, rich, web]));
    v.push(subject!("text/byte-2-None-None", T30, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(2), tmin: None, max: None }, [text]));
    v.push(subject!("text/byte-None-1-None", T31, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(1), max: None }, [text]));
    v.push(subject!("text/byte-None-3-None", T32, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(3), max: None }, [text]));
    v.push(subject!("text/byte-None-None-6", T33, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: None, max: Some(6) }, [text]));
    v.push(subject!("text/byte-2-1-None", T34, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(2), tmin: Some(1), max: None }, [text]));
    v.push(subject!("text/byte-3-3-None", T35, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(3), tmin: Some(3), max: None }, [text, rich, web]));
    v.push(subject!("text/byte-2-None-6", T36, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(2), tmin: None, max: Some(6) }, [text]));
    v.push(subject!("text/byte-None-1-6", T37, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(1), max: Some(6) }, [text]));
    v.push(subject!("text/byte-None-3-5", T38, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(3), max: Some(5) }, [text]));
    v.push(subject!("text/byte-2-1-6", T39, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(2), tmin: Some(1), max: Some(6) }, [text]));
}
fn part2(v: &mut Vec<Subject>) {
    v.push(subject!("text/byte-4-2-9", T40, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(4), tmin: Some(2), max: Some(9) }, [text]));
    v.push(subject!("text/byte-3-3-3", T41, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(3), tmin: Some(3), max: Some(3) }, [text, rich, web]));
    v.push(subject!("text/byte-0-0-4", T42, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(0), tmin: Some(0), max: Some(4) }, [text]));
    v.push(subject!("text/byte-None-0-3", T43, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(0), max: Some(3) }, [text]));
    v.push(subject!("text/byte-2-0-5", T44, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(2), tmin: Some(0), max: Some(5) }, [text]));
    v.push(subject!("text/byte-2-0-None", T45, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(2), tmin: Some(0), max: None }, [text]));
    v.push(subject!("text/byte-None-0-None", T46, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(0), max: None }, [text]));
    v.push(subject!("text/byte-1-None-1", T47, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(1), tmin: None, max: Some(1) }, [text, rich, web]));
    v.push(subject!("text/byte-5-None-5", T48, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(5), tmin: None, max: Some(5) }, [text]));
    v.push(subject!("text/byte-1-1-64", T49, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(1), tmin: Some(1), max: Some(64) }, [text]));
    v.push(subject!("text/byte-0-None-0", T50, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(0), tmin: None, max: Some(0) }, [text]));
    v.push(subject!("text/byte-None-None-255", T51, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: None, max: Some(255) }, [text]));
    v.push(subject!("text/byte-None-7-None", T52, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(7), max: None }, [text]));
    v.push(subject!("text/byte-None-6-20", T53, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(6), max: Some(20) }, [text, rich, web]));
    v.push(subject!("text/byte-8-4-12", T54, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(8), tmin: Some(4), max: Some(12) }, [text]));
    v.push(subject!("text/byte-10-6-None", T55, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(10), tmin: Some(6), max: None }, [text]));
    v.push(subject!("text/byte-20-16-24", T56, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(20), tmin: Some(16), max: Some(24) }, [text]));
    v.push(subject!("text/byte-None-33-64", T57, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: None, tmin: Some(33), max: Some(64) }, [text]));
    v.push(subject!("text/byte-100-64-None", T58, TextError, Spec::Text { line: false, unit: Unit::Bytes, min: Some(100), tmin: Some(64), max: None }, [text]));
    v.push(subject!("line/char-None-None-None", T59, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: None, max: None }, [text, rich, web]));
}
fn part3(v: &mut Vec<Subject>) {
    v.push(subject!("line/char-2-None-None", T60, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(2), tmin: None, max: None }, [text]));
    v.push(subject!("line/char-None-1-None", T61, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(1), max: None }, [text]));
    v.push(subject!("line/char-None-3-None", T62, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(3), max: None }, [text]));
    v.push(subject!("line/char-None-None-6", T63, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: None, max: Some(6) }, [text, rich, web]));
    v.push(subject!("line/char-2-1-None", T64, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(2), tmin: Some(1), max: None }, [text]));
    v.push(subject!("line/char-3-3-None", T65, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(3), tmin: Some(3), max: None }, [text, rich, web]));
    v.push(subject!("line/char-2-None-6", T66, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(2), tmin: None, max: Some(6) }, [text]));
    v.push(subject!("line/char-None-1-6", T67, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(1), max: Some(6) }, [text]));
    v.push(subject!("line/char-None-3-5", T68, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(3), max: Some(5) }, [text]));
    v.push(subject!("line/char-2-1-6", T69, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(2), tmin: Some(1), max: Some(6) }, [text, rich, web]));
    v.push(subject!("line/char-4-2-9", T70, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(4), tmin: Some(2), max: Some(9) }, [text]));
    v.push(subject!("line/char-3-3-3", T71, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(3), tmin: Some(3), max: Some(3) }, [text, rich, web]));
    v.push(subject!("line/char-0-0-4", T72, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(0), tmin: Some(0), max: Some(4) }, [text]));
    v.push(subject!("line/char-None-0-3", T73, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(0), max: Some(3) }, [text]));
    v.push(subject!("line/char-2-0-5", T74, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(2), tmin: Some(0), max: Some(5) }, [text]));
    v.push(subject!("line/char-2-0-None", T75, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(2), tmin: Some(0), max: None }, [text]));
    v.push(subject!("line/char-None-0-None", T76, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(0), max: None }, [text]));
    v.push(subject!("line/char-1-None-1", T77, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(1), tmin: None, max: Some(1) }, [text, rich, web]));
    v.push(subject!("line/char-5-None-5", T78, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(5), tmin: None, max: Some(5) }, [text]));
    v.push(subject!("line/char-1-1-64", T79, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(1), tmin: Some(1), max: Some(64) }, [text]));
}
fn part4(v: &mut Vec<Subject>) {
    v.push(subject!("line/char-0-None-0", T80, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(0), tmin: None, max: Some(0) }, [text]));
    v.push(subject!("line/char-None-None-255", T81, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: None, max: Some(255) }, [text]));
    v.push(subject!("line/char-None-7-None", T82, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(7), max: None }, [text]));
    v.push(subject!("line/char-None-6-20", T83, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(6), max: Some(20) }, [text, rich, web]));
    v.push(subject!("line/char-8-4-12", T84, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(8), tmin: Some(4), max: Some(12) }, [text]));
    v.push(subject!("line/char-10-6-None", T85, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(10), tmin: Some(6), max: None }, [text]));
    v.push(subject!("line/char-20-16-24", T86, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(20), tmin: Some(16), max: Some(24) }, [text]));
    v.push(subject!("line/char-None-33-64", T87, LineError, Spec::Text { line: true, unit: Unit::Chars, min: None, tmin: Some(33), max: Some(64) }, [text]));
    v.push(subject!("line/char-100-64-None", T88, LineError, Spec::Text { line: true, unit: Unit::Chars, min: Some(100), tmin: Some(64), max: None }, [text]));
    v.push(subject!("line/byte-2-None-None", T89, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(2), tmin: None, max: None }, [text, rich, web]));
    v.push(subject!("line/byte-None-1-None", T90, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(1), max: None }, [text]));
    v.push(subject!("line/byte-None-3-None", T91, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(3), max: None }, [text]));
    v.push(subject!("line/byte-None-None-6", T92, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: None, max: Some(6) }, [text]));
    v.push(subject!("line/byte-2-1-None", T93, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(2), tmin: Some(1), max: None }, [text]));
    v.push(subject!("line/byte-3-3-None", T94, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(3), tmin: Some(3), max: None }, [text]));
    v.push(subject!("line/byte-2-None-6", T95, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(2), tmin: None, max: Some(6) }, [text, rich, web]));
    v.push(subject!("line/byte-None-1-6", T96, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(1), max: Some(6) }, [text]));
    v.push(subject!("line/byte-None-3-5", T97, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(3), max: Some(5) }, [text]));
    v.push(subject!("line/byte-2-1-6", T98, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(2), tmin: Some(1), max: Some(6) }, [text]));
    v.push(subject!("line/byte-4-2-9", T99, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(4), tmin: Some(2), max: Some(9) }, [text]));
}
fn part5(v: &mut Vec<Subject>) {
    v.push(subject!("line/byte-3-3-3", T100, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(3), tmin: Some(3), max: Some(3) }, [text]));
    v.push(subject!("line/byte-0-0-4", T101, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(0), tmin: Some(0), max: Some(4) }, [text, rich, web]));
    v.push(subject!("line/byte-None-0-3", T102, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(0), max: Some(3) }, [text]));
    v.push(subject!("line/byte-2-0-5", T103, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(2), tmin: Some(0), max: Some(5) }, [text]));
    v.push(subject!("line/byte-2-0-None", T104, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(2), tmin: Some(0), max: None }, [text]));
    v.push(subject!("line/byte-None-0-None", T105, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(0), max: None }, [text]));
    v.push(subject!("line/byte-1-None-1", T106, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(1), tmin: None, max: Some(1) }, [text]));
    v.push(subject!("line/byte-5-None-5", T107, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(5), tmin: None, max: Some(5) }, [text, rich, web]));
    v.push(subject!("line/byte-1-1-64", T108, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(1), tmin: Some(1), max: Some(64) }, [text]));
    v.push(subject!("line/byte-0-None-0", T109, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(0), tmin: None, max: Some(0) }, [text]));
    v.push(subject!("line/byte-None-None-255", T110, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: None, max: Some(255) }, [text]));
    v.push(subject!("line/byte-None-7-None", T111, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(7), max: None }, [text]));
    v.push(subject!("line/byte-None-6-20", T112, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(6), max: Some(20) }, [text]));
    v.push(subject!("line/byte-8-4-12", T113, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(8), tmin: Some(4), max: Some(12) }, [text, rich, web]));
    v.push(subject!("line/byte-10-6-None", T114, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(10), tmin: Some(6), max: None }, [text]));
    v.push(subject!("line/byte-20-16-24", T115, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(20), tmin: Some(16), max: Some(24) }, [text]));
    v.push(subject!("line/byte-None-33-64", T116, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: None, tmin: Some(33), max: Some(64) }, [text]));
    v.push(subject!("line/byte-100-64-None", T117, LineError, Spec::Text { line: true, unit: Unit::Bytes, min: Some(100), tmin: Some(64), max: None }, [text]));
    v.push(subject!("regex/0", T118, RegexError, Spec::Regex { pat: r"^[a-z]+$" }, [text, rich, web]));
    v.push(subject!("regex/1", T119, RegexError, Spec::Regex { pat: r"(?i)^(yes|no|maybe)$" }, [text, rich, web]));
}
fn part6(v: &mut Vec<Subject>) {
    v.push(subject!("regex/2", T120, RegexError, Spec::Regex { pat: r"\A\d{3}-\d{4}\z" }, [text]));
    v.push(subject!("regex/3", T121, RegexError, Spec::Regex { pat: r"a.c" }, [text]));
    v.push(subject!("regex/4", T122, RegexError, Spec::Regex { pat: r"^$" }, [text]));
    v.push(subject!("regex/5", T123, RegexError, Spec::Regex { pat: r"(?s)^.{0,4}$" }, [text]));
    v.push(subject!("regex/6", T124, RegexError, Spec::Regex { pat: r"^\p{Greek}+$" }, [text]));
    v.push(subject!("regex/7", T125, RegexError, Spec::Regex { pat: r"^(?:(?:25[0-5]|2[0-4]\d|1?\d?\d)(?:\.|$)){4}" }, [text, rich, web]));
    v.push(subject!("regex/8", T126, RegexError, Spec::Regex { pat: r"(?m)^x$" }, [text]));
    v.push(subject!("regex/9", T127, RegexError, Spec::Regex { pat: r"\bfoo\b" }, [text]));
    v.push(subject!("regex/static", T128, RegexError, Spec::Regex { pat: r"\A[\w-]{2,8}\z" }, [text]));
    v.push(subject!("length/vec-1-None", T129, LengthError, Spec::Length { min: Some(1), max: None, coll: Coll::Vec }, [coll(Vec<u32>)]));
    v.push(subject!("length/vec-None-3", T130, LengthError, Spec::Length { min: None, max: Some(3), coll: Coll::Vec }, [coll(Vec<u32>)]));
    v.push(subject!("length/vec-2-4", T131, LengthError, Spec::Length { min: Some(2), max: Some(4), coll: Coll::Vec }, [coll(Vec<u32>)]));
    v.push(subject!("length/vec-3-3", T132, LengthError, Spec::Length { min: Some(3), max: Some(3), coll: Coll::Vec }, [coll(Vec<u32>)]));
    v.push(subject!("length/vec-0-0", T133, LengthError, Spec::Length { min: Some(0), max: Some(0), coll: Coll::Vec }, [coll(Vec<u32>)]));
    v.push(subject!("length/btmap-1-None", T134, LengthError, Spec::Length { min: Some(1), max: None, coll: Coll::Btmap }, [coll(BTreeMap<String, u32>)]));
    v.push(subject!("length/btmap-2-4", T135, LengthError, Spec::Length { min: Some(2), max: Some(4), coll: Coll::Btmap }, [coll(BTreeMap<String, u32>)]));
    v.push(subject!("length/btset-1-None", T136, LengthError, Spec::Length { min: Some(1), max: None, coll: Coll::Btset }, [coll(BTreeSet<u32>)]));
    v.push(subject!("length/btset-2-4", T137, LengthError, Spec::Length { min: Some(2), max: Some(4), coll: Coll::Btset }, [coll(BTreeSet<u32>)]));
    v.push(subject!("length/heap-1-None", T138, LengthError, Spec::Length { min: Some(1), max: None, coll: Coll::Heap }, [coll(BinaryHeap<u32>)]));
    v.push(subject!("length/heap-2-4", T139, LengthError, Spec::Length { min: Some(2), max: Some(4), coll: Coll::Heap }, [coll(BinaryHeap<u32>)]));
}
fn part7(v: &mut Vec<Subject>) {
    v.push(subject!("length/hmap-1-None", T140, LengthError, Spec::Length { min: Some(1), max: None, coll: Coll::Hmap }, [coll(HashMap<String, u32>)]));
    v.push(subject!("length/hmap-None-3", T141, LengthError, Spec::Length { min: None, max: Some(3), coll: Coll::Hmap }, [coll(HashMap<String, u32>)]));
    v.push(subject!("length/hmap-2-4", T142, LengthError, Spec::Length { min: Some(2), max: Some(4), coll: Coll::Hmap }, [coll(HashMap<String, u32>)]));
    v.push(subject!("length/hmap-3-3", T143, LengthError, Spec::Length { min: Some(3), max: Some(3), coll: Coll::Hmap }, [coll(HashMap<String, u32>)]));
    v.push(subject!("length/hmap-0-0", T144, LengthError, Spec::Length { min: Some(0), max: Some(0), coll: Coll::Hmap }, [coll(HashMap<String, u32>)]));
    v.push(subject!("length/hset-1-None", T145, LengthError, Spec::Length { min: Some(1), max: None, coll: Coll::Hset }, [coll(HashSet<u32>)]));
    v.push(subject!("length/hset-2-4", T146, LengthError, Spec::Length { min: Some(2), max: Some(4), coll: Coll::Hset }, [coll(HashSet<u32>)]));
    v.push(subject!("length/jmap-1-None", T147, LengthError, Spec::Length { min: Some(1), max: None, coll: Coll::Jmap }, [coll(serde_json::Map<String, serde_json::Value>)]));
    v.push(subject!("length/jmap-2-4", T148, LengthError, Spec::Length { min: Some(2), max: Some(4), coll: Coll::Jmap }, [coll(serde_json::Map<String, serde_json::Value>)]));
    v.push(subject!("length/own-1-None", T149, LengthError, Spec::Length { min: Some(1), max: None, coll: Coll::Own }, [coll(Own)]));
    v.push(subject!("length/own-None-3", T150, LengthError, Spec::Length { min: None, max: Some(3), coll: Coll::Own }, [coll(Own)]));
    v.push(subject!("length/own-2-4", T151, LengthError, Spec::Length { min: Some(2), max: Some(4), coll: Coll::Own }, [coll(Own)]));
    v.push(subject!("length/own-3-3", T152, LengthError, Spec::Length { min: Some(3), max: Some(3), coll: Coll::Own }, [coll(Own)]));
    v.push(subject!("length/own-0-0", T153, LengthError, Spec::Length { min: Some(0), max: Some(0), coll: Coll::Own }, [coll(Own)]));
    v.push(subject!("base32/A", T154, Base32Error, Spec::Base { alpha: Alpha::B32, decoded: false, pad: Tri::A }, [text, bytes, rich]));
    v.push(subject!("base32/M", T155, Base32Error, Spec::Base { alpha: Alpha::B32, decoded: false, pad: Tri::M }, [text, bytes, rich]));
    v.push(subject!("base32/D", T156, Base32Error, Spec::Base { alpha: Alpha::B32, decoded: false, pad: Tri::D }, [text, bytes]));
    v.push(subject!("base32_decoded/A", T157, Base32DecodedError, Spec::Base { alpha: Alpha::B32, decoded: true, pad: Tri::A }, [text, bytes, rich, web]));
    v.push(subject!("base32_decoded/M", T158, Base32DecodedError, Spec::Base { alpha: Alpha::B32, decoded: true, pad: Tri::M }, [text, bytes]));
    v.push(subject!("base32_decoded/D", T159, Base32DecodedError, Spec::Base { alpha: Alpha::B32, decoded: true, pad: Tri::D }, [text, bytes]));
}
fn part8(v: &mut Vec<Subject>) {
    v.push(subject!("base64/A", T160, Base64Error, Spec::Base { alpha: Alpha::B64, decoded: false, pad: Tri::A }, [text, bytes, rich, web]));
    v.push(subject!("base64/M", T161, Base64Error, Spec::Base { alpha: Alpha::B64, decoded: false, pad: Tri::M }, [text, bytes, rich, web]));
    v.push(subject!("base64/D", T162, Base64Error, Spec::Base { alpha: Alpha::B64, decoded: false, pad: Tri::D }, [text, bytes]));
    v.push(subject!("base64_decoded/A", T163, Base64DecodedError, Spec::Base { alpha: Alpha::B64, decoded: true, pad: Tri::A }, [text, bytes, rich, web]));
    v.push(subject!("base64_decoded/M", T164, Base64DecodedError, Spec::Base { alpha: Alpha::B64, decoded: true, pad: Tri::M }, [text, bytes]));
    v.push(subject!("base64_decoded/D", T165, Base64DecodedError, Spec::Base { alpha: Alpha::B64, decoded: true, pad: Tri::D }, [text, bytes]));
    v.push(subject!("base64_url/A", T166, Base64UrlError, Spec::Base { alpha: Alpha::B64Url, decoded: false, pad: Tri::A }, [text, bytes, rich]));
    v.push(subject!("base64_url/M", T167, Base64UrlError, Spec::Base { alpha: Alpha::B64Url, decoded: false, pad: Tri::M }, [text, bytes, rich]));
    v.push(subject!("base64_url/D", T168, Base64UrlError, Spec::Base { alpha: Alpha::B64Url, decoded: false, pad: Tri::D }, [text, bytes]));
    v.push(subject!("base64_url_decoded/A", T169, Base64UrlDecodedError, Spec::Base { alpha: Alpha::B64Url, decoded: true, pad: Tri::A }, [text, bytes, rich]));
    v.push(subject!("base64_url_decoded/M", T170, Base64UrlDecodedError, Spec::Base { alpha: Alpha::B64Url, decoded: true, pad: Tri::M }, [text, bytes]));
    v.push(subject!("base64_url_decoded/D", T171, Base64UrlDecodedError, Spec::Base { alpha: Alpha::B64Url, decoded: true, pad: Tri::D }, [text, bytes]));
}
