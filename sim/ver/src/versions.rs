//! Written by tools/mkver.py: the versions of the types the nodes hold.
#![allow(clippy::all)]
use super::*;

pub mod v0 {
use super::*;
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Addr {
    #[musli(Binary, name = 13)] #[musli(Text, name = "K13")] #[musli(default)] pub f13: Vec<Option<i32>>,
    #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] pub f28: Option<BTreeMap<String, u64>>,
    #[musli(Binary, name = 33)] #[musli(Text, name = "key-33")] #[musli(default)] pub f33: Vec<Option<i32>>,
    #[musli(Binary, name = 24)] #[musli(Text, name = "k24")] #[musli(default)] pub f24: Vec<String>,
    #[musli(Binary, name = 18)] #[musli(Text, name = "naïve 18")] #[musli(default)] pub f18: Option<Wrapping<i8>>,
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] pub f37: i32,
}
impl Gen for Addr { fn gen() -> Self { Addr { f13: Gen::gen(), f28: Gen::gen(), f33: Gen::gen(), f24: Gen::gen(), f18: Gen::gen(), f37: Gen::gen() } } }
impl Model for Addr {
    fn model(&self) -> M { M::Rec([(13, self.f13.model()), (28, self.f28.model()), (33, self.f33.model()), (24, self.f24.model()), (18, self.f18.model()), (37, self.f37.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(13, Dflt(<Vec<Option<i32>> as Default>::default().model()), <Vec<Option<i32>> as Model>::schema()), (28, Must, <Option<BTreeMap<String, u64>> as Model>::schema()), (33, Dflt(<Vec<Option<i32>> as Default>::default().model()), <Vec<Option<i32>> as Model>::schema()), (24, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (18, Dflt(<Option<Wrapping<i8>> as Default>::default().model()), <Option<Wrapping<i8>> as Model>::schema()), (37, Must, <i32 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(Binary, name(type = u16))]
pub struct Item {
    #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] pub f1: Option<Addr>,
    #[musli(Binary, name = 2)] #[musli(Text, name = "naïve 2")] #[musli(default)] pub f2: BTreeMap<String, Color>,
    #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] #[musli(default, skip_encoding_if = Option::is_none)] pub f17: Option<Addr>,
    #[musli(Binary, name = 31)] #[musli(Text, name = "31")] #[musli(default)] pub f31: i128,
    #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(default)] pub f11: i16,
    #[musli(Binary, name = 0)] #[musli(Text, name = "k0")] #[musli(default)] pub f0: Vec<Addr>,
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] #[musli(default)] pub f16: Vec<Color>,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] pub f8: Option<Color>,
}
impl Gen for Item { fn gen() -> Self { Item { f1: Gen::gen(), f2: Gen::gen(), f17: Gen::gen(), f31: Gen::gen(), f11: Gen::gen(), f0: Gen::gen(), f16: Gen::gen(), f8: Gen::gen() } } }
impl Model for Item {
    fn model(&self) -> M { M::Rec([(1, self.f1.model()), (2, self.f2.model()), (17, self.f17.model()), (31, self.f31.model()), (11, self.f11.model()), (0, self.f0.model()), (16, self.f16.model()), (8, self.f8.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(1, Must, <Option<Addr> as Model>::schema()), (2, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema()), (17, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (31, Dflt(<i128 as Default>::default().model()), <i128 as Model>::schema()), (11, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (0, Dflt(<Vec<Addr> as Default>::default().model()), <Vec<Addr> as Model>::schema()), (16, Dflt(<Vec<Color> as Default>::default().model()), <Vec<Color> as Model>::schema()), (8, Must, <Option<Color> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Named {
    #[musli(default)] pub f34: Vec<String>,
    #[musli(default = seven)] pub f30: u32,
    #[musli(default)] pub f31: char,
     pub f37: BTreeMap<String, u64>,
    #[musli(default)] pub f5: F32,
     pub f25: NonZeroU16,
}
impl Gen for Named { fn gen() -> Self { Named { f34: Gen::gen(), f30: Gen::gen(), f31: Gen::gen(), f37: Gen::gen(), f5: Gen::gen(), f25: Gen::gen() } } }
impl Model for Named {
    fn model(&self) -> M { M::Rec([(34, self.f34.model()), (30, self.f30.model()), (31, self.f31.model()), (37, self.f37.model()), (5, self.f5.model()), (25, self.f25.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(34, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (30, Dflt(seven().model()), <u32 as Model>::schema()), (31, Dflt(<char as Default>::default().model()), <char as Model>::schema()), (37, Must, <BTreeMap<String, u64> as Model>::schema()), (5, Dflt(<F32 as Default>::default().model()), <F32 as Model>::schema()), (25, Must, <NonZeroU16 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = i32))]
pub struct Odd {
    #[musli(name = 9)] pub f29: isize,
    #[musli(name = -19)] #[musli(default)] pub f1: char,
    #[musli(name = -2)] #[musli(skip_encoding_if = Option::is_none, default)] pub f18: Option<Vec<Vec<u8>>>,
    #[musli(name = -5)] pub f15: BTreeMap<String, Addr>,
}
impl Gen for Odd { fn gen() -> Self { Odd { f29: Gen::gen(), f1: Gen::gen(), f18: Gen::gen(), f15: Gen::gen() } } }
impl Model for Odd {
    fn model(&self) -> M { M::Rec([(29, self.f29.model()), (1, self.f1.model()), (18, self.f18.model()), (15, self.f15.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(29, Must, <isize as Model>::schema()), (1, Dflt(<char as Default>::default().model()), <char as Model>::schema()), (18, Omit(M::Opt(None)), <Option<Vec<Vec<u8>>> as Model>::schema()), (15, Must, <BTreeMap<String, Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Late {
}
impl Gen for Late { fn gen() -> Self { Late {  } } }
impl Model for Late {
    fn model(&self) -> M { M::Rec([].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub struct Tup(#[musli(name = 0)] pub TrU32, #[musli(name = 1)] pub String);
impl Gen for Tup { fn gen() -> Self { Tup(Gen::gen(), Gen::gen()) } }
impl Model for Tup {
    fn model(&self) -> M { M::Rec([(0, self.0.model()), (1, self.1.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(0, Must, <TrU32 as Model>::schema()), (1, Must, <String as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub enum Color {
    #[musli(name = 13)] V13,
    #[musli(name = 9)] V9,
    #[musli(name = 25)] V25,
    #[musli(name = 17)] V17,
    #[musli(name = 0)] V0,
    #[musli(default)] #[musli(name = 9999)] Unknown,
}
impl Gen for Color { fn gen() -> Self { match choose(5) {
    0 => Color::V13,
    1 => Color::V9,
    2 => Color::V25,
    3 => Color::V17,
    _ => Color::V0,
} } }
impl Model for Color {
    fn model(&self) -> M { match self { Color::V13 => M::Var(13, Box::new(M::Rec(Default::default()))), Color::V9 => M::Var(9, Box::new(M::Rec(Default::default()))), Color::V25 => M::Var(25, Box::new(M::Rec(Default::default()))), Color::V17 => M::Var(17, Box::new(M::Rec(Default::default()))), Color::V0 => M::Var(0, Box::new(M::Rec(Default::default()))), Color::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(13, T::Rec(vec![])), (9, T::Rec(vec![])), (25, T::Rec(vec![])), (17, T::Rec(vec![])), (0, T::Rec(vec![])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Kind {
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] V4 {
        #[musli(Binary, name = 20)] #[musli(Text, name = "sl\\ash/20")] #[musli(default)] f20: Option<String>,
    },
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] V10(Vec<u8>),
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] V6,
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] V7,
    #[musli(Binary, name = 27)] #[musli(Text, name = "quo\"te27")] #[musli(transparent)] V27(Late),
    #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] V9(Tup),
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] V8,
}
impl Gen for Kind { fn gen() -> Self { match choose(7) {
    0 => Kind::V4 { f20: Gen::gen() },
    1 => Kind::V10(Gen::gen()),
    2 => Kind::V6,
    3 => Kind::V7,
    4 => Kind::V27(Gen::gen()),
    5 => Kind::V9(Gen::gen()),
    _ => Kind::V8,
} } }
impl Model for Kind {
    fn model(&self) -> M { match self { Kind::V4 { f20 } => M::Var(4, Box::new(M::Rec([(20, f20.model())].into_iter().collect()))), Kind::V10(a) => M::Var(10, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::V6 => M::Var(6, Box::new(M::Rec(Default::default()))), Kind::V7 => M::Var(7, Box::new(M::Rec(Default::default()))), Kind::V27(a) => M::Var(27, Box::new(a.model())), Kind::V9(a) => M::Var(9, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::V8 => M::Var(8, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(4, T::Rec(vec![(20, Dflt(<Option<String> as Default>::default().model()), <Option<String> as Model>::schema())])), (10, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (6, T::Rec(vec![])), (7, T::Rec(vec![])), (27, <Late as Model>::schema()), (9, T::Rec(vec![(0, Must, <Tup as Model>::schema())])), (8, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c")]
pub enum Adj {
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] V7 {
        #[musli(Binary, name = 34)] #[musli(Text, name = "naïve 34")] #[musli(default)] f34: Box<str>,
    },
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] V10 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] f9: char,
    },
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] V23(Option<u64>),
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] V4,
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] V19 {
        #[musli(Binary, name = 25)] #[musli(Text, name = "key-25")] f25: i128,
    },
    #[musli(Binary, name = 20)] #[musli(Text, name = "sl\\ash/20")] V20 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] f9: Option<u64>,
    },
}
impl Gen for Adj { fn gen() -> Self { match choose(6) {
    0 => Adj::V7 { f34: Gen::gen() },
    1 => Adj::V10 { f9: Gen::gen() },
    2 => Adj::V23(Gen::gen()),
    3 => Adj::V4,
    4 => Adj::V19 { f25: Gen::gen() },
    _ => Adj::V20 { f9: Gen::gen() },
} } }
impl Model for Adj {
    fn model(&self) -> M { match self { Adj::V7 { f34 } => M::Var(7, Box::new(M::Rec([(34, f34.model())].into_iter().collect()))), Adj::V10 { f9 } => M::Var(10, Box::new(M::Rec([(9, f9.model())].into_iter().collect()))), Adj::V23(a) => M::Var(23, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::V4 => M::Var(4, Box::new(M::Rec(Default::default()))), Adj::V19 { f25 } => M::Var(19, Box::new(M::Rec([(25, f25.model())].into_iter().collect()))), Adj::V20 { f9 } => M::Var(20, Box::new(M::Rec([(9, f9.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(7, T::Rec(vec![(34, Dflt(<Box<str> as Default>::default().model()), <Box<str> as Model>::schema())])), (10, T::Rec(vec![(9, Must, <char as Model>::schema())])), (23, T::Rec(vec![(0, Must, <Option<u64> as Model>::schema())])), (4, T::Rec(vec![])), (19, T::Rec(vec![(25, Must, <i128 as Model>::schema())])), (20, T::Rec(vec![(9, Must, <Option<u64> as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
pub enum Job {
     V13,
    #[musli(name_all = "name")] V24 {
         f3: Option<IpAddr>,
        #[musli(skip_encoding_if = Option::is_none, default)] f25: Option<Named>,
        #[musli(default)] f5: i128,
        #[musli(default)] f32: F64,
    },
    #[musli(name_all = "name")] V23 {
        #[musli(default)] f3: BTreeMap<String, Vec<String>>,
    },
     V29,
    #[musli(name_all = "name")] V7 {
        #[musli(default)] f28: (),
        #[musli(default, skip_encoding_if = Option::is_none)] f23: Option<Vec<String>>,
    },
    #[musli(name_all = "name")] V17 {
        #[musli(skip_encoding_if = Option::is_none, default)] f33: Option<(u32, i64, Vec<String>)>,
         f1: Addr,
    },
}
impl Gen for Job { fn gen() -> Self { match choose(6) {
    0 => Job::V13,
    1 => Job::V24 { f3: Gen::gen(), f25: Gen::gen(), f5: Gen::gen(), f32: Gen::gen() },
    2 => Job::V23 { f3: Gen::gen() },
    3 => Job::V29,
    4 => Job::V7 { f28: Gen::gen(), f23: Gen::gen() },
    _ => Job::V17 { f33: Gen::gen(), f1: Gen::gen() },
} } }
impl Model for Job {
    fn model(&self) -> M { match self { Job::V13 => M::Var(13, Box::new(M::Rec(Default::default()))), Job::V24 { f3, f25, f5, f32 } => M::Var(24, Box::new(M::Rec([(3, f3.model()), (25, f25.model()), (5, f5.model()), (32, f32.model())].into_iter().collect()))), Job::V23 { f3 } => M::Var(23, Box::new(M::Rec([(3, f3.model())].into_iter().collect()))), Job::V29 => M::Var(29, Box::new(M::Rec(Default::default()))), Job::V7 { f28, f23 } => M::Var(7, Box::new(M::Rec([(28, f28.model()), (23, f23.model())].into_iter().collect()))), Job::V17 { f33, f1 } => M::Var(17, Box::new(M::Rec([(33, f33.model()), (1, f1.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(13, T::Rec(vec![])), (24, T::Rec(vec![(3, Must, <Option<IpAddr> as Model>::schema()), (25, Omit(M::Opt(None)), <Option<Named> as Model>::schema()), (5, Dflt(<i128 as Default>::default().model()), <i128 as Model>::schema()), (32, Dflt(<F64 as Default>::default().model()), <F64 as Model>::schema())])), (23, T::Rec(vec![(3, Dflt(<BTreeMap<String, Vec<String>> as Default>::default().model()), <BTreeMap<String, Vec<String>> as Model>::schema())])), (29, T::Rec(vec![])), (7, T::Rec(vec![(28, Dflt(<() as Default>::default().model()), <() as Model>::schema()), (23, Omit(M::Opt(None)), <Option<Vec<String>> as Model>::schema())])), (17, T::Rec(vec![(33, Omit(M::Opt(None)), <Option<(u32, i64, Vec<String>)> as Model>::schema()), (1, Must, <Addr as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub enum Word {
    #[musli(name = "quo\"te19")] #[musli(name(type = str))] V19 {
    },
    #[musli(name = "15")] V15,
    #[musli(name = "naïve 2")] V2,
    #[musli(name = "sl\\ash/20")] V20(u32),
    #[musli(default)]  Unknown,
}
impl Gen for Word { fn gen() -> Self { match choose(4) {
    0 => Word::V19 {  },
    1 => Word::V15,
    2 => Word::V2,
    _ => Word::V20(Gen::gen()),
} } }
impl Model for Word {
    fn model(&self) -> M { match self { Word::V19 {  } => M::Var(19, Box::new(M::Rec([].into_iter().collect()))), Word::V15 => M::Var(15, Box::new(M::Rec(Default::default()))), Word::V2 => M::Var(2, Box::new(M::Rec(Default::default()))), Word::V20(a) => M::Var(20, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Word::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(19, T::Rec(vec![])), (15, T::Rec(vec![])), (2, T::Rec(vec![])), (20, T::Rec(vec![(0, Must, <u32 as Model>::schema())])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Root {
    #[musli(Binary, name = 254)] #[musli(Text, name = "\u{1F600}254")] #[musli(default)] pub f254: Wrapping<i8>,
    #[musli(Binary, name = 209)] #[musli(Text, name = "key-209")] pub f209: Option<Adj>,
    #[musli(Binary, name = 408)] #[musli(Text, name = "k408")] #[musli(default)] pub f408: Vec<Word>,
    #[musli(Binary, name = 162)] #[musli(Text, name = "naïve 162")] #[musli(default)] pub f162: TrU32,
    #[musli(Binary, name = 185)] #[musli(Text, name = "key-185")] #[musli(default, skip_encoding_if = Option::is_none)] pub f185: Option<Addr>,
    #[musli(Binary, name = 137)] #[musli(Text, name = "key-137")] #[musli(skip_encoding_if = Option::is_none, default)] pub f137: Option<Box<Odd>>,
    #[musli(Binary, name = 83)] #[musli(Text, name = "quo\"te83")] #[musli(default, skip_encoding_if = Option::is_none)] pub f83: Option<Vec<(u32, i64, Vec<String>)>>,
    #[musli(Binary, name = 49)] #[musli(Text, name = "key-49")] #[musli(default)] pub f49: i16,
    #[musli(Binary, name = 403)] #[musli(Text, name = "quo\"te403")] #[musli(default)] pub f403: BTreeMap<String, Color>,
    #[musli(Binary, name = 406)] #[musli(Text, name = "\u{1F600}406")] #[musli(default)] pub f406: Vec<Late>,
    #[musli(Binary, name = 269)] #[musli(Text, name = "K269")] #[musli(default)] pub f269: Option<Box<Late>>,
    #[musli(Binary, name = 89)] #[musli(Text, name = "key-89")] #[musli(default)] pub f89: BTreeMap<String, u64>,
    #[musli(Binary, name = 124)] #[musli(Text, name = "sl\\ash/124")] pub f124: Vec<Color>,
    #[musli(Binary, name = 96)] #[musli(Text, name = "k96")] #[musli(default)] pub f96: BTreeMap<String, Word>,
    #[musli(Binary, name = 257)] #[musli(Text, name = "key-257")] #[musli(default, skip_encoding_if = Option::is_none)] pub f257: Option<Odd>,
    #[musli(Binary, name = 163)] #[musli(Text, name = "quo\"te163")] pub f163: u128,
    #[musli(Binary, name = 400)] #[musli(Text, name = "k400")] pub f400: Kind,
    #[musli(Binary, name = 52)] #[musli(Text, name = "sl\\ash/52")] #[musli(default)] pub f52: Option<Vec<Vec<u8>>>,
    #[musli(Binary, name = 203)] #[musli(Text, name = "quo\"te203")] #[musli(default)] pub f203: Option<Word>,
    #[musli(Binary, name = 218)] #[musli(Text, name = "naïve 218")] #[musli(default)] pub f218: F64,
    #[musli(Binary, name = 401)] #[musli(Text, name = "key-401")] #[musli(default)] pub f401: Vec<Late>,
}
impl Gen for Root { fn gen() -> Self { Root { f254: Gen::gen(), f209: Gen::gen(), f408: Gen::gen(), f162: Gen::gen(), f185: Gen::gen(), f137: Gen::gen(), f83: Gen::gen(), f49: Gen::gen(), f403: Gen::gen(), f406: Gen::gen(), f269: Gen::gen(), f89: Gen::gen(), f124: Gen::gen(), f96: Gen::gen(), f257: Gen::gen(), f163: Gen::gen(), f400: Gen::gen(), f52: Gen::gen(), f203: Gen::gen(), f218: Gen::gen(), f401: Gen::gen() } } }
impl Model for Root {
    fn model(&self) -> M { M::Rec([(254, self.f254.model()), (209, self.f209.model()), (408, self.f408.model()), (162, self.f162.model()), (185, self.f185.model()), (137, self.f137.model()), (83, self.f83.model()), (49, self.f49.model()), (403, self.f403.model()), (406, self.f406.model()), (269, self.f269.model()), (89, self.f89.model()), (124, self.f124.model()), (96, self.f96.model()), (257, self.f257.model()), (163, self.f163.model()), (400, self.f400.model()), (52, self.f52.model()), (203, self.f203.model()), (218, self.f218.model()), (401, self.f401.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(254, Dflt(<Wrapping<i8> as Default>::default().model()), <Wrapping<i8> as Model>::schema()), (209, Must, <Option<Adj> as Model>::schema()), (408, Dflt(<Vec<Word> as Default>::default().model()), <Vec<Word> as Model>::schema()), (162, Dflt(<TrU32 as Default>::default().model()), <TrU32 as Model>::schema()), (185, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (137, Omit(M::Opt(None)), <Option<Box<Odd>> as Model>::schema()), (83, Omit(M::Opt(None)), <Option<Vec<(u32, i64, Vec<String>)>> as Model>::schema()), (49, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (403, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema()), (406, Dflt(<Vec<Late> as Default>::default().model()), <Vec<Late> as Model>::schema()), (269, Dflt(<Option<Box<Late>> as Default>::default().model()), <Option<Box<Late>> as Model>::schema()), (89, Dflt(<BTreeMap<String, u64> as Default>::default().model()), <BTreeMap<String, u64> as Model>::schema()), (124, Must, <Vec<Color> as Model>::schema()), (96, Dflt(<BTreeMap<String, Word> as Default>::default().model()), <BTreeMap<String, Word> as Model>::schema()), (257, Omit(M::Opt(None)), <Option<Odd> as Model>::schema()), (163, Must, <u128 as Model>::schema()), (400, Must, <Kind as Model>::schema()), (52, Dflt(<Option<Vec<Vec<u8>>> as Default>::default().model()), <Option<Vec<Vec<u8>>> as Model>::schema()), (203, Dflt(<Option<Word> as Default>::default().model()), <Option<Word> as Model>::schema()), (218, Dflt(<F64 as Default>::default().model()), <F64 as Model>::schema()), (401, Dflt(<Vec<Late> as Default>::default().model()), <Vec<Late> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Big {
    #[musli(name = "15")] #[musli(skip_encoding_if = Option::is_none, default)] pub f15: Option<Kind>,
    #[musli(name = "K37")] #[musli(default, skip_encoding_if = Option::is_none)] pub f37: Option<Adj>,
    #[musli(name = "key-17")] #[musli(default)] pub f17: Box<usize>,
    #[musli(name = "k32")] pub f32: Option<Named>,
    #[musli(name = "k8")] #[musli(default)] pub f8: BTreeMap<u32, String>,
    #[musli(name = "key-25")] #[musli(default)] pub f25: i16,
    #[musli(name = "quo\"te35")] #[musli(skip_encoding_if = Option::is_none, default)] pub f35: Option<Wrapping<i8>>,
}
impl Gen for Big { fn gen() -> Self { Big { f15: Gen::gen(), f37: Gen::gen(), f17: Gen::gen(), f32: Gen::gen(), f8: Gen::gen(), f25: Gen::gen(), f35: Gen::gen() } } }
impl Model for Big {
    fn model(&self) -> M { M::Rec([(15, self.f15.model()), (37, self.f37.model()), (17, self.f17.model()), (32, self.f32.model()), (8, self.f8.model()), (25, self.f25.model()), (35, self.f35.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(15, Omit(M::Opt(None)), <Option<Kind> as Model>::schema()), (37, Omit(M::Opt(None)), <Option<Adj> as Model>::schema()), (17, Dflt(<Box<usize> as Default>::default().model()), <Box<usize> as Model>::schema()), (32, Must, <Option<Named> as Model>::schema()), (8, Dflt(<BTreeMap<u32, String> as Default>::default().model()), <BTreeMap<u32, String> as Model>::schema()), (25, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (35, Omit(M::Opt(None)), <Option<Wrapping<i8>> as Model>::schema())]) }
}
}
pub mod v1 {
use super::*;
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Addr {
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] #[musli(default, skip_encoding_if = Option::is_none)] pub g8: Option<i8>,
    #[musli(Binary, name = 33)] #[musli(Text, name = "key-33")] #[musli(default)] pub g33: Vec<Option<i32>>,
    #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] pub g28: Option<BTreeMap<String, u64>>,
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] pub g37: i32,
}
impl Gen for Addr { fn gen() -> Self { Addr { g8: Gen::gen(), g33: Gen::gen(), g28: Gen::gen(), g37: Gen::gen() } } }
impl Model for Addr {
    fn model(&self) -> M { M::Rec([(8, self.g8.model()), (33, self.g33.model()), (28, self.g28.model()), (37, self.g37.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(8, Omit(M::Opt(None)), <Option<i8> as Model>::schema()), (33, Dflt(<Vec<Option<i32>> as Default>::default().model()), <Vec<Option<i32>> as Model>::schema()), (28, Must, <Option<BTreeMap<String, u64>> as Model>::schema()), (37, Must, <i32 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(Binary, name(type = u16))]
pub struct Item {
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] #[musli(default)] pub g23: Vec<Addr>,
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] #[musli(default)] pub g16: Vec<Color>,
    #[musli(Binary, name = 0)] #[musli(Text, name = "k0")] #[musli(default)] pub g0: Vec<Addr>,
    #[musli(Binary, name = 2)] #[musli(Text, name = "naïve 2")] #[musli(default)] pub g2: BTreeMap<String, Color>,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] pub g8: Option<Color>,
    #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] pub g1: Option<Addr>,
    #[musli(Binary, name = 31)] #[musli(Text, name = "31")] #[musli(default)] pub g31: i128,
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] #[musli(default)] pub g4: Option<Color>,
    #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] #[musli(skip_encoding_if = Option::is_none, default)] pub g17: Option<Addr>,
}
impl Gen for Item { fn gen() -> Self { Item { g23: Gen::gen(), g16: Gen::gen(), g0: Gen::gen(), g2: Gen::gen(), g8: Gen::gen(), g1: Gen::gen(), g31: Gen::gen(), g4: Gen::gen(), g17: Gen::gen() } } }
impl Model for Item {
    fn model(&self) -> M { M::Rec([(23, self.g23.model()), (16, self.g16.model()), (0, self.g0.model()), (2, self.g2.model()), (8, self.g8.model()), (1, self.g1.model()), (31, self.g31.model()), (4, self.g4.model()), (17, self.g17.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(23, Dflt(<Vec<Addr> as Default>::default().model()), <Vec<Addr> as Model>::schema()), (16, Dflt(<Vec<Color> as Default>::default().model()), <Vec<Color> as Model>::schema()), (0, Dflt(<Vec<Addr> as Default>::default().model()), <Vec<Addr> as Model>::schema()), (2, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema()), (8, Must, <Option<Color> as Model>::schema()), (1, Must, <Option<Addr> as Model>::schema()), (31, Dflt(<i128 as Default>::default().model()), <i128 as Model>::schema()), (4, Dflt(<Option<Color> as Default>::default().model()), <Option<Color> as Model>::schema()), (17, Omit(M::Opt(None)), <Option<Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Named {
     pub f25: NonZeroU16,
    #[musli(skip_encoding_if = Option::is_none, default)] pub f11: Option<Color>,
    #[musli(default)] pub f34: Vec<String>,
    #[musli(default = seven)] pub f30: u32,
    #[musli(skip_encoding_if = Option::is_none, default)] pub f36: Option<Vec<Color>>,
    #[musli(default)] pub f22: Option<Addr>,
     pub f37: BTreeMap<String, u64>,
}
impl Gen for Named { fn gen() -> Self { Named { f25: Gen::gen(), f11: Gen::gen(), f34: Gen::gen(), f30: Gen::gen(), f36: Gen::gen(), f22: Gen::gen(), f37: Gen::gen() } } }
impl Model for Named {
    fn model(&self) -> M { M::Rec([(25, self.f25.model()), (11, self.f11.model()), (34, self.f34.model()), (30, self.f30.model()), (36, self.f36.model()), (22, self.f22.model()), (37, self.f37.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(25, Must, <NonZeroU16 as Model>::schema()), (11, Omit(M::Opt(None)), <Option<Color> as Model>::schema()), (34, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (30, Dflt(seven().model()), <u32 as Model>::schema()), (36, Omit(M::Opt(None)), <Option<Vec<Color>> as Model>::schema()), (22, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema()), (37, Must, <BTreeMap<String, u64> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = i32))]
pub struct Odd {
    #[musli(name = -6)] #[musli(default, skip_encoding_if = Option::is_none)] pub g14: Option<Addr>,
    #[musli(name = 9)] pub g29: isize,
    #[musli(name = -10)] #[musli(default)] pub g10: F64,
    #[musli(name = -19)] #[musli(default)] pub g1: char,
    #[musli(name = 1)] #[musli(skip_encoding_if = Option::is_none, default)] pub g21: Option<Addr>,
    #[musli(name = -2)] #[musli(skip_encoding_if = Option::is_none, default)] pub g18: Option<Vec<Vec<u8>>>,
    #[musli(name = -5)] pub g15: BTreeMap<String, Addr>,
}
impl Gen for Odd { fn gen() -> Self { Odd { g14: Gen::gen(), g29: Gen::gen(), g10: Gen::gen(), g1: Gen::gen(), g21: Gen::gen(), g18: Gen::gen(), g15: Gen::gen() } } }
impl Model for Odd {
    fn model(&self) -> M { M::Rec([(14, self.g14.model()), (29, self.g29.model()), (10, self.g10.model()), (1, self.g1.model()), (21, self.g21.model()), (18, self.g18.model()), (15, self.g15.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(14, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (29, Must, <isize as Model>::schema()), (10, Dflt(<F64 as Default>::default().model()), <F64 as Model>::schema()), (1, Dflt(<char as Default>::default().model()), <char as Model>::schema()), (21, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (18, Omit(M::Opt(None)), <Option<Vec<Vec<u8>>> as Model>::schema()), (15, Must, <BTreeMap<String, Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Late {
    #[musli(name = "key-1")] #[musli(default)] pub g1: Option<Result<u32, String>>,
    #[musli(name = "k16")] #[musli(skip_encoding_if = Option::is_none, default)] pub g16: Option<Range<u32>>,
    #[musli(name = "naïve 10")] #[musli(default)] pub g10: Option<Vec<u8>>,
}
impl Gen for Late { fn gen() -> Self { Late { g1: Gen::gen(), g16: Gen::gen(), g10: Gen::gen() } } }
impl Model for Late {
    fn model(&self) -> M { M::Rec([(1, self.g1.model()), (16, self.g16.model()), (10, self.g10.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(1, Dflt(<Option<Result<u32, String>> as Default>::default().model()), <Option<Result<u32, String>> as Model>::schema()), (16, Omit(M::Opt(None)), <Option<Range<u32>> as Model>::schema()), (10, Dflt(<Option<Vec<u8>> as Default>::default().model()), <Option<Vec<u8>> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub struct Tup(#[musli(name = 0)] pub u32, #[musli(name = 1)] pub String, #[musli(name = 2)] #[musli(default)] pub Option<Addr>);
impl Gen for Tup { fn gen() -> Self { Tup(Gen::gen(), Gen::gen(), Gen::gen()) } }
impl Model for Tup {
    fn model(&self) -> M { M::Rec([(0, self.0.model()), (1, self.1.model()), (2, self.2.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(0, Must, <u32 as Model>::schema()), (1, Must, <String as Model>::schema()), (2, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub enum Color {
    #[musli(name = 0)] W0,
    #[musli(name = 17)] W17,
    #[musli(name = 13)] W13,
    #[musli(name = 25)] W25,
    #[musli(name = 9)] W9,
}
impl Gen for Color { fn gen() -> Self { match choose(5) {
    0 => Color::W0,
    1 => Color::W17,
    2 => Color::W13,
    3 => Color::W25,
    _ => Color::W9,
} } }
impl Model for Color {
    fn model(&self) -> M { match self { Color::W0 => M::Var(0, Box::new(M::Rec(Default::default()))), Color::W17 => M::Var(17, Box::new(M::Rec(Default::default()))), Color::W13 => M::Var(13, Box::new(M::Rec(Default::default()))), Color::W25 => M::Var(25, Box::new(M::Rec(Default::default()))), Color::W9 => M::Var(9, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(0, T::Rec(vec![])), (17, T::Rec(vec![])), (13, T::Rec(vec![])), (25, T::Rec(vec![])), (9, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Kind {
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] W8,
    #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(transparent)] W11(Item),
    #[musli(Binary, name = 27)] #[musli(Text, name = "quo\"te27")] #[musli(transparent)] W27(Late),
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] W10(Vec<u8>),
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] W6,
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] W4 {
        #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] #[musli(default)] g6: BTreeMap<String, Addr>,
    },
    #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] W9(Tup),
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] W7,
    #[musli(default)] #[musli(Binary, name = 9999)] Unknown,
}
impl Gen for Kind { fn gen() -> Self { match choose(8) {
    0 => Kind::W8,
    1 => Kind::W11(Gen::gen()),
    2 => Kind::W27(Gen::gen()),
    3 => Kind::W10(Gen::gen()),
    4 => Kind::W6,
    5 => Kind::W4 { g6: Gen::gen() },
    6 => Kind::W9(Gen::gen()),
    _ => Kind::W7,
} } }
impl Model for Kind {
    fn model(&self) -> M { match self { Kind::W8 => M::Var(8, Box::new(M::Rec(Default::default()))), Kind::W11(a) => M::Var(11, Box::new(a.model())), Kind::W27(a) => M::Var(27, Box::new(a.model())), Kind::W10(a) => M::Var(10, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::W6 => M::Var(6, Box::new(M::Rec(Default::default()))), Kind::W4 { g6 } => M::Var(4, Box::new(M::Rec([(6, g6.model())].into_iter().collect()))), Kind::W9(a) => M::Var(9, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::W7 => M::Var(7, Box::new(M::Rec(Default::default()))), Kind::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(8, T::Rec(vec![])), (11, <Item as Model>::schema()), (27, <Late as Model>::schema()), (10, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (6, T::Rec(vec![])), (4, T::Rec(vec![(6, Dflt(<BTreeMap<String, Addr> as Default>::default().model()), <BTreeMap<String, Addr> as Model>::schema())])), (9, T::Rec(vec![(0, Must, <Tup as Model>::schema())])), (7, T::Rec(vec![])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c")]
pub enum Adj {
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] W23(Option<u64>),
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] W7 {
        #[musli(Binary, name = 20)] #[musli(Text, name = "sl\\ash/20")] #[musli(default, skip_encoding_if = Option::is_none)] g20: Option<BTreeMap<String, Vec<u8>>>,
        #[musli(Binary, name = 34)] #[musli(Text, name = "naïve 34")] #[musli(default)] g34: Box<str>,
    },
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] W19 {
        #[musli(Binary, name = 39)] #[musli(Text, name = "39")] #[musli(default)] g39: String,
        #[musli(Binary, name = 25)] #[musli(Text, name = "key-25")] g25: i128,
    },
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] W4,
    #[musli(Binary, name = 20)] #[musli(Text, name = "sl\\ash/20")] W20 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] g9: Option<u64>,
    },
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] W10 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] g9: char,
    },
    #[musli(Binary, name = 15)] #[musli(Text, name = "15")] W15(Vec<u8>),
    #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] W17,
}
impl Gen for Adj { fn gen() -> Self { match choose(8) {
    0 => Adj::W23(Gen::gen()),
    1 => Adj::W7 { g20: Gen::gen(), g34: Gen::gen() },
    2 => Adj::W19 { g39: Gen::gen(), g25: Gen::gen() },
    3 => Adj::W4,
    4 => Adj::W20 { g9: Gen::gen() },
    5 => Adj::W10 { g9: Gen::gen() },
    6 => Adj::W15(Gen::gen()),
    _ => Adj::W17,
} } }
impl Model for Adj {
    fn model(&self) -> M { match self { Adj::W23(a) => M::Var(23, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::W7 { g20, g34 } => M::Var(7, Box::new(M::Rec([(20, g20.model()), (34, g34.model())].into_iter().collect()))), Adj::W19 { g39, g25 } => M::Var(19, Box::new(M::Rec([(39, g39.model()), (25, g25.model())].into_iter().collect()))), Adj::W4 => M::Var(4, Box::new(M::Rec(Default::default()))), Adj::W20 { g9 } => M::Var(20, Box::new(M::Rec([(9, g9.model())].into_iter().collect()))), Adj::W10 { g9 } => M::Var(10, Box::new(M::Rec([(9, g9.model())].into_iter().collect()))), Adj::W15(a) => M::Var(15, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::W17 => M::Var(17, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(23, T::Rec(vec![(0, Must, <Option<u64> as Model>::schema())])), (7, T::Rec(vec![(20, Omit(M::Opt(None)), <Option<BTreeMap<String, Vec<u8>>> as Model>::schema()), (34, Dflt(<Box<str> as Default>::default().model()), <Box<str> as Model>::schema())])), (19, T::Rec(vec![(39, Dflt(<String as Default>::default().model()), <String as Model>::schema()), (25, Must, <i128 as Model>::schema())])), (4, T::Rec(vec![])), (20, T::Rec(vec![(9, Must, <Option<u64> as Model>::schema())])), (10, T::Rec(vec![(9, Must, <char as Model>::schema())])), (15, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (17, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
pub enum Job {
    #[musli(name_all = "name")] V7 {
        #[musli(skip_encoding_if = Option::is_none, default)] f34: Option<Addr>,
        #[musli(default, skip_encoding_if = Option::is_none)] f23: Option<Vec<String>>,
    },
     V29,
     V13,
    #[musli(name_all = "name")] V23 {
    },
    #[musli(name_all = "name")] V17 {
         f1: Addr,
        #[musli(default)] f4: BTreeMap<String, Addr>,
    },
    #[musli(name_all = "name")] V24 {
        #[musli(default)] f32: F64,
         f3: Option<IpAddr>,
    },
}
impl Gen for Job { fn gen() -> Self { match choose(6) {
    0 => Job::V7 { f34: Gen::gen(), f23: Gen::gen() },
    1 => Job::V29,
    2 => Job::V13,
    3 => Job::V23 {  },
    4 => Job::V17 { f1: Gen::gen(), f4: Gen::gen() },
    _ => Job::V24 { f32: Gen::gen(), f3: Gen::gen() },
} } }
impl Model for Job {
    fn model(&self) -> M { match self { Job::V7 { f34, f23 } => M::Var(7, Box::new(M::Rec([(34, f34.model()), (23, f23.model())].into_iter().collect()))), Job::V29 => M::Var(29, Box::new(M::Rec(Default::default()))), Job::V13 => M::Var(13, Box::new(M::Rec(Default::default()))), Job::V23 {  } => M::Var(23, Box::new(M::Rec([].into_iter().collect()))), Job::V17 { f1, f4 } => M::Var(17, Box::new(M::Rec([(1, f1.model()), (4, f4.model())].into_iter().collect()))), Job::V24 { f32, f3 } => M::Var(24, Box::new(M::Rec([(32, f32.model()), (3, f3.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(7, T::Rec(vec![(34, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (23, Omit(M::Opt(None)), <Option<Vec<String>> as Model>::schema())])), (29, T::Rec(vec![])), (13, T::Rec(vec![])), (23, T::Rec(vec![])), (17, T::Rec(vec![(1, Must, <Addr as Model>::schema()), (4, Dflt(<BTreeMap<String, Addr> as Default>::default().model()), <BTreeMap<String, Addr> as Model>::schema())])), (24, T::Rec(vec![(32, Dflt(<F64 as Default>::default().model()), <F64 as Model>::schema()), (3, Must, <Option<IpAddr> as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub enum Word {
    #[musli(name = "sl\\ash/20")] W20(TrU32),
    #[musli(name = "quo\"te19")] #[musli(name(type = str))] W19 {
    },
    #[musli(name = "naïve 2")] W2,
    #[musli(name = "15")] W15,
}
impl Gen for Word { fn gen() -> Self { match choose(4) {
    0 => Word::W20(Gen::gen()),
    1 => Word::W19 {  },
    2 => Word::W2,
    _ => Word::W15,
} } }
impl Model for Word {
    fn model(&self) -> M { match self { Word::W20(a) => M::Var(20, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Word::W19 {  } => M::Var(19, Box::new(M::Rec([].into_iter().collect()))), Word::W2 => M::Var(2, Box::new(M::Rec(Default::default()))), Word::W15 => M::Var(15, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(20, T::Rec(vec![(0, Must, <TrU32 as Model>::schema())])), (19, T::Rec(vec![])), (2, T::Rec(vec![])), (15, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Root {
    #[musli(Binary, name = 406)] #[musli(Text, name = "\u{1F600}406")] #[musli(default)] pub g406: Vec<Late>,
    #[musli(Binary, name = 89)] #[musli(Text, name = "key-89")] #[musli(default)] pub g89: BTreeMap<String, u64>,
    #[musli(Binary, name = 83)] #[musli(Text, name = "quo\"te83")] #[musli(skip_encoding_if = Option::is_none, default)] pub g83: Option<Vec<(u32, i64, Vec<String>)>>,
    #[musli(Binary, name = 137)] #[musli(Text, name = "key-137")] #[musli(default, skip_encoding_if = Option::is_none)] pub g137: Option<Box<Odd>>,
    #[musli(Binary, name = 265)] #[musli(Text, name = "key-265")] #[musli(default)] pub g265: BTreeMap<String, i64>,
    #[musli(Binary, name = 403)] #[musli(Text, name = "quo\"te403")] #[musli(default)] pub g403: BTreeMap<String, Color>,
    #[musli(Binary, name = 163)] #[musli(Text, name = "quo\"te163")] pub g163: u128,
    #[musli(Binary, name = 401)] #[musli(Text, name = "key-401")] #[musli(default)] pub g401: Vec<Late>,
    #[musli(Binary, name = 96)] #[musli(Text, name = "k96")] #[musli(default)] pub g96: BTreeMap<String, Word>,
    #[musli(Binary, name = 254)] #[musli(Text, name = "\u{1F600}254")] #[musli(default)] pub g254: Wrapping<i8>,
    #[musli(Binary, name = 407)] #[musli(Text, name = "407")] #[musli(default)] pub g407: Option<Odd>,
    #[musli(Binary, name = 257)] #[musli(Text, name = "key-257")] #[musli(default)] pub g257: Option<Odd>,
    #[musli(Binary, name = 162)] #[musli(Text, name = "naïve 162")] #[musli(default)] pub g162: u32,
    #[musli(Binary, name = 203)] #[musli(Text, name = "quo\"te203")] #[musli(skip_encoding_if = Option::is_none, default)] pub g203: Option<Word>,
    #[musli(Binary, name = 24)] #[musli(Text, name = "k24")] #[musli(default)] pub g24: Option<NonZeroU16>,
    #[musli(Binary, name = 124)] #[musli(Text, name = "sl\\ash/124")] pub g124: Vec<Color>,
    #[musli(Binary, name = 405)] #[musli(Text, name = "K405")] #[musli(default)] pub g405: Vec<Tup>,
    #[musli(Binary, name = 52)] #[musli(Text, name = "sl\\ash/52")] #[musli(default, skip_encoding_if = Option::is_none)] pub g52: Option<Vec<Vec<u8>>>,
    #[musli(Binary, name = 400)] #[musli(Text, name = "k400")] pub g400: Kind,
    #[musli(Binary, name = 409)] #[musli(Text, name = "key-409")] #[musli(default)] pub g409: BTreeMap<String, Item>,
    #[musli(Binary, name = 209)] #[musli(Text, name = "key-209")] pub g209: Option<Adj>,
}
impl Gen for Root { fn gen() -> Self { Root { g406: Gen::gen(), g89: Gen::gen(), g83: Gen::gen(), g137: Gen::gen(), g265: Gen::gen(), g403: Gen::gen(), g163: Gen::gen(), g401: Gen::gen(), g96: Gen::gen(), g254: Gen::gen(), g407: Gen::gen(), g257: Gen::gen(), g162: Gen::gen(), g203: Gen::gen(), g24: Gen::gen(), g124: Gen::gen(), g405: Gen::gen(), g52: Gen::gen(), g400: Gen::gen(), g409: Gen::gen(), g209: Gen::gen() } } }
impl Model for Root {
    fn model(&self) -> M { M::Rec([(406, self.g406.model()), (89, self.g89.model()), (83, self.g83.model()), (137, self.g137.model()), (265, self.g265.model()), (403, self.g403.model()), (163, self.g163.model()), (401, self.g401.model()), (96, self.g96.model()), (254, self.g254.model()), (407, self.g407.model()), (257, self.g257.model()), (162, self.g162.model()), (203, self.g203.model()), (24, self.g24.model()), (124, self.g124.model()), (405, self.g405.model()), (52, self.g52.model()), (400, self.g400.model()), (409, self.g409.model()), (209, self.g209.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(406, Dflt(<Vec<Late> as Default>::default().model()), <Vec<Late> as Model>::schema()), (89, Dflt(<BTreeMap<String, u64> as Default>::default().model()), <BTreeMap<String, u64> as Model>::schema()), (83, Omit(M::Opt(None)), <Option<Vec<(u32, i64, Vec<String>)>> as Model>::schema()), (137, Omit(M::Opt(None)), <Option<Box<Odd>> as Model>::schema()), (265, Dflt(<BTreeMap<String, i64> as Default>::default().model()), <BTreeMap<String, i64> as Model>::schema()), (403, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema()), (163, Must, <u128 as Model>::schema()), (401, Dflt(<Vec<Late> as Default>::default().model()), <Vec<Late> as Model>::schema()), (96, Dflt(<BTreeMap<String, Word> as Default>::default().model()), <BTreeMap<String, Word> as Model>::schema()), (254, Dflt(<Wrapping<i8> as Default>::default().model()), <Wrapping<i8> as Model>::schema()), (407, Dflt(<Option<Odd> as Default>::default().model()), <Option<Odd> as Model>::schema()), (257, Dflt(<Option<Odd> as Default>::default().model()), <Option<Odd> as Model>::schema()), (162, Dflt(<u32 as Default>::default().model()), <u32 as Model>::schema()), (203, Omit(M::Opt(None)), <Option<Word> as Model>::schema()), (24, Dflt(<Option<NonZeroU16> as Default>::default().model()), <Option<NonZeroU16> as Model>::schema()), (124, Must, <Vec<Color> as Model>::schema()), (405, Dflt(<Vec<Tup> as Default>::default().model()), <Vec<Tup> as Model>::schema()), (52, Omit(M::Opt(None)), <Option<Vec<Vec<u8>>> as Model>::schema()), (400, Must, <Kind as Model>::schema()), (409, Dflt(<BTreeMap<String, Item> as Default>::default().model()), <BTreeMap<String, Item> as Model>::schema()), (209, Must, <Option<Adj> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Big {
    #[musli(name = "k8")] #[musli(default)] pub g8: BTreeMap<u32, String>,
    #[musli(name = "k32")] pub g32: Option<Named>,
    #[musli(name = "15")] #[musli(skip_encoding_if = Option::is_none, default)] pub g15: Option<Kind>,
    #[musli(name = "quo\"te3")] #[musli(default)] pub g3: Option<u64>,
    #[musli(name = "naïve 10")] #[musli(default)] pub g10: Vec<Vec<u8>>,
    #[musli(name = "k16")] #[musli(default)] pub g16: Vec<Kind>,
    #[musli(name = "23")] #[musli(default)] pub g23: BTreeMap<String, bool>,
    #[musli(name = "key-17")] #[musli(default)] pub g17: Box<usize>,
    #[musli(name = "39")] #[musli(default)] pub g39: Option<BTreeMap<u32, String>>,
}
impl Gen for Big { fn gen() -> Self { Big { g8: Gen::gen(), g32: Gen::gen(), g15: Gen::gen(), g3: Gen::gen(), g10: Gen::gen(), g16: Gen::gen(), g23: Gen::gen(), g17: Gen::gen(), g39: Gen::gen() } } }
impl Model for Big {
    fn model(&self) -> M { M::Rec([(8, self.g8.model()), (32, self.g32.model()), (15, self.g15.model()), (3, self.g3.model()), (10, self.g10.model()), (16, self.g16.model()), (23, self.g23.model()), (17, self.g17.model()), (39, self.g39.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(8, Dflt(<BTreeMap<u32, String> as Default>::default().model()), <BTreeMap<u32, String> as Model>::schema()), (32, Must, <Option<Named> as Model>::schema()), (15, Omit(M::Opt(None)), <Option<Kind> as Model>::schema()), (3, Dflt(<Option<u64> as Default>::default().model()), <Option<u64> as Model>::schema()), (10, Dflt(<Vec<Vec<u8>> as Default>::default().model()), <Vec<Vec<u8>> as Model>::schema()), (16, Dflt(<Vec<Kind> as Default>::default().model()), <Vec<Kind> as Model>::schema()), (23, Dflt(<BTreeMap<String, bool> as Default>::default().model()), <BTreeMap<String, bool> as Model>::schema()), (17, Dflt(<Box<usize> as Default>::default().model()), <Box<usize> as Model>::schema()), (39, Dflt(<Option<BTreeMap<u32, String>> as Default>::default().model()), <Option<BTreeMap<u32, String>> as Model>::schema())]) }
}
}
pub mod v2 {
use super::*;
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Addr {
    #[musli(Binary, name = 18)] #[musli(Text, name = "naïve 18")] #[musli(default, skip_encoding_if = Option::is_none)] pub h18: Option<Wrapping<i8>>,
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] pub h37: i32,
    #[musli(Binary, name = 24)] #[musli(Text, name = "k24")] #[musli(default)] pub h24: Vec<String>,
    #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] pub h28: Option<BTreeMap<String, u64>>,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] #[musli(default, skip_encoding_if = Option::is_none)] pub h8: Option<i8>,
    #[musli(Binary, name = 13)] #[musli(Text, name = "K13")] #[musli(default)] pub h13: Vec<Option<i32>>,
}
impl Gen for Addr { fn gen() -> Self { Addr { h18: Gen::gen(), h37: Gen::gen(), h24: Gen::gen(), h28: Gen::gen(), h8: Gen::gen(), h13: Gen::gen() } } }
impl Model for Addr {
    fn model(&self) -> M { M::Rec([(18, self.h18.model()), (37, self.h37.model()), (24, self.h24.model()), (28, self.h28.model()), (8, self.h8.model()), (13, self.h13.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(18, Omit(M::Opt(None)), <Option<Wrapping<i8>> as Model>::schema()), (37, Must, <i32 as Model>::schema()), (24, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (28, Must, <Option<BTreeMap<String, u64>> as Model>::schema()), (8, Omit(M::Opt(None)), <Option<i8> as Model>::schema()), (13, Dflt(<Vec<Option<i32>> as Default>::default().model()), <Vec<Option<i32>> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(Binary, name(type = u16))]
pub struct Item {
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] #[musli(default)] pub h16: Vec<Color>,
    #[musli(Binary, name = 38)] #[musli(Text, name = "\u{1F600}38")] #[musli(skip_encoding_if = Option::is_none, default)] pub h38: Option<BTreeMap<String, u64>>,
    #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] #[musli(default)] pub h17: Option<Addr>,
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] #[musli(default)] pub h23: Vec<Addr>,
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] #[musli(default)] pub h4: Option<Color>,
    #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(default)] pub h11: i16,
    #[musli(Binary, name = 31)] #[musli(Text, name = "31")] #[musli(default)] pub h31: i128,
    #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] pub h1: Option<Addr>,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] pub h8: Option<Color>,
    #[musli(Binary, name = 0)] #[musli(Text, name = "k0")] pub h0: Vec<Addr>,
}
impl Gen for Item { fn gen() -> Self { Item { h16: Gen::gen(), h38: Gen::gen(), h17: Gen::gen(), h23: Gen::gen(), h4: Gen::gen(), h11: Gen::gen(), h31: Gen::gen(), h1: Gen::gen(), h8: Gen::gen(), h0: Gen::gen() } } }
impl Model for Item {
    fn model(&self) -> M { M::Rec([(16, self.h16.model()), (38, self.h38.model()), (17, self.h17.model()), (23, self.h23.model()), (4, self.h4.model()), (11, self.h11.model()), (31, self.h31.model()), (1, self.h1.model()), (8, self.h8.model()), (0, self.h0.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(16, Dflt(<Vec<Color> as Default>::default().model()), <Vec<Color> as Model>::schema()), (38, Omit(M::Opt(None)), <Option<BTreeMap<String, u64>> as Model>::schema()), (17, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema()), (23, Dflt(<Vec<Addr> as Default>::default().model()), <Vec<Addr> as Model>::schema()), (4, Dflt(<Option<Color> as Default>::default().model()), <Option<Color> as Model>::schema()), (11, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (31, Dflt(<i128 as Default>::default().model()), <i128 as Model>::schema()), (1, Must, <Option<Addr> as Model>::schema()), (8, Must, <Option<Color> as Model>::schema()), (0, Must, <Vec<Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Named {
    #[musli(skip_encoding_if = Option::is_none, default)] pub f11: Option<Color>,
     pub f25: NonZeroU16,
    #[musli(default)] pub f34: Vec<String>,
     pub f37: BTreeMap<String, u64>,
    #[musli(default = seven)] pub f30: u32,
}
impl Gen for Named { fn gen() -> Self { Named { f11: Gen::gen(), f25: Gen::gen(), f34: Gen::gen(), f37: Gen::gen(), f30: Gen::gen() } } }
impl Model for Named {
    fn model(&self) -> M { M::Rec([(11, self.f11.model()), (25, self.f25.model()), (34, self.f34.model()), (37, self.f37.model()), (30, self.f30.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(11, Omit(M::Opt(None)), <Option<Color> as Model>::schema()), (25, Must, <NonZeroU16 as Model>::schema()), (34, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (37, Must, <BTreeMap<String, u64> as Model>::schema()), (30, Dflt(seven().model()), <u32 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = i32))]
pub struct Odd {
    #[musli(name = 1)] #[musli(default, skip_encoding_if = Option::is_none)] pub h21: Option<Addr>,
    #[musli(name = 9)] pub h29: isize,
    #[musli(name = -17)] #[musli(default)] pub h3: BTreeMap<String, [u16; 3]>,
    #[musli(name = -5)] pub h15: BTreeMap<String, Addr>,
    #[musli(name = -19)] #[musli(default)] pub h1: char,
}
impl Gen for Odd { fn gen() -> Self { Odd { h21: Gen::gen(), h29: Gen::gen(), h3: Gen::gen(), h15: Gen::gen(), h1: Gen::gen() } } }
impl Model for Odd {
    fn model(&self) -> M { M::Rec([(21, self.h21.model()), (29, self.h29.model()), (3, self.h3.model()), (15, self.h15.model()), (1, self.h1.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(21, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (29, Must, <isize as Model>::schema()), (3, Dflt(<BTreeMap<String, [u16; 3]> as Default>::default().model()), <BTreeMap<String, [u16; 3]> as Model>::schema()), (15, Must, <BTreeMap<String, Addr> as Model>::schema()), (1, Dflt(<char as Default>::default().model()), <char as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Late {
    #[musli(name = "k8")] #[musli(default, skip_encoding_if = Option::is_none)] pub h8: Option<i16>,
    #[musli(name = "k16")] #[musli(default)] pub h16: Option<Range<u32>>,
    #[musli(name = "K37")] #[musli(default)] pub h37: BTreeMap<String, Color>,
    #[musli(name = "naïve 10")] #[musli(default, skip_encoding_if = Option::is_none)] pub h10: Option<Vec<u8>>,
    #[musli(name = "key-1")] #[musli(skip_encoding_if = Option::is_none, default)] pub h1: Option<Result<u32, String>>,
}
impl Gen for Late { fn gen() -> Self { Late { h8: Gen::gen(), h16: Gen::gen(), h37: Gen::gen(), h10: Gen::gen(), h1: Gen::gen() } } }
impl Model for Late {
    fn model(&self) -> M { M::Rec([(8, self.h8.model()), (16, self.h16.model()), (37, self.h37.model()), (10, self.h10.model()), (1, self.h1.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(8, Omit(M::Opt(None)), <Option<i16> as Model>::schema()), (16, Dflt(<Option<Range<u32>> as Default>::default().model()), <Option<Range<u32>> as Model>::schema()), (37, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema()), (10, Omit(M::Opt(None)), <Option<Vec<u8>> as Model>::schema()), (1, Omit(M::Opt(None)), <Option<Result<u32, String>> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub struct Tup(#[musli(name = 0)] pub u32, #[musli(name = 1)] #[musli(default)] pub TrStr, #[musli(name = 2)] #[musli(skip_encoding_if = Option::is_none, default)] pub Option<Addr>, #[musli(name = 3)] #[musli(default)] pub Vec<u8>);
impl Gen for Tup { fn gen() -> Self { Tup(Gen::gen(), Gen::gen(), Gen::gen(), Gen::gen()) } }
impl Model for Tup {
    fn model(&self) -> M { M::Rec([(0, self.0.model()), (1, self.1.model()), (2, self.2.model()), (3, self.3.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(0, Must, <u32 as Model>::schema()), (1, Dflt(<TrStr as Default>::default().model()), <TrStr as Model>::schema()), (2, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (3, Dflt(<Vec<u8> as Default>::default().model()), <Vec<u8> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub enum Color {
    #[musli(name = 0)] X0,
    #[musli(name = 17)] X17,
    #[musli(name = 25)] X25,
    #[musli(name = 13)] X13,
    #[musli(name = 9)] X9,
    #[musli(default)] #[musli(name = 9999)] Unknown,
}
impl Gen for Color { fn gen() -> Self { match choose(5) {
    0 => Color::X0,
    1 => Color::X17,
    2 => Color::X25,
    3 => Color::X13,
    _ => Color::X9,
} } }
impl Model for Color {
    fn model(&self) -> M { match self { Color::X0 => M::Var(0, Box::new(M::Rec(Default::default()))), Color::X17 => M::Var(17, Box::new(M::Rec(Default::default()))), Color::X25 => M::Var(25, Box::new(M::Rec(Default::default()))), Color::X13 => M::Var(13, Box::new(M::Rec(Default::default()))), Color::X9 => M::Var(9, Box::new(M::Rec(Default::default()))), Color::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(0, T::Rec(vec![])), (17, T::Rec(vec![])), (25, T::Rec(vec![])), (13, T::Rec(vec![])), (9, T::Rec(vec![])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Kind {
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] X10(Vec<u8>),
    #[musli(Binary, name = 27)] #[musli(Text, name = "quo\"te27")] #[musli(transparent)] X27(Late),
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] X16 {
        #[musli(Binary, name = 13)] #[musli(Text, name = "K13")] #[musli(default, skip_encoding_if = Option::is_none)] h13: Option<Color>,
    },
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] X6,
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] X7,
    #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(transparent)] X11(Item),
    #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] X9(Tup),
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] X4 {
        #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] #[musli(default)] h6: BTreeMap<String, Addr>,
    },
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] X8,
    #[musli(default)] #[musli(Binary, name = 9999)] Unknown,
}
impl Gen for Kind { fn gen() -> Self { match choose(9) {
    0 => Kind::X10(Gen::gen()),
    1 => Kind::X27(Gen::gen()),
    2 => Kind::X16 { h13: Gen::gen() },
    3 => Kind::X6,
    4 => Kind::X7,
    5 => Kind::X11(Gen::gen()),
    6 => Kind::X9(Gen::gen()),
    7 => Kind::X4 { h6: Gen::gen() },
    _ => Kind::X8,
} } }
impl Model for Kind {
    fn model(&self) -> M { match self { Kind::X10(a) => M::Var(10, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::X27(a) => M::Var(27, Box::new(a.model())), Kind::X16 { h13 } => M::Var(16, Box::new(M::Rec([(13, h13.model())].into_iter().collect()))), Kind::X6 => M::Var(6, Box::new(M::Rec(Default::default()))), Kind::X7 => M::Var(7, Box::new(M::Rec(Default::default()))), Kind::X11(a) => M::Var(11, Box::new(a.model())), Kind::X9(a) => M::Var(9, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::X4 { h6 } => M::Var(4, Box::new(M::Rec([(6, h6.model())].into_iter().collect()))), Kind::X8 => M::Var(8, Box::new(M::Rec(Default::default()))), Kind::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(10, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (27, <Late as Model>::schema()), (16, T::Rec(vec![(13, Omit(M::Opt(None)), <Option<Color> as Model>::schema())])), (6, T::Rec(vec![])), (7, T::Rec(vec![])), (11, <Item as Model>::schema()), (9, T::Rec(vec![(0, Must, <Tup as Model>::schema())])), (4, T::Rec(vec![(6, Dflt(<BTreeMap<String, Addr> as Default>::default().model()), <BTreeMap<String, Addr> as Model>::schema())])), (8, T::Rec(vec![])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c")]
pub enum Adj {
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] X10 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] h9: char,
        #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] #[musli(default)] h1: Box<u32>,
    },
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] X23(Option<u64>),
    #[musli(Binary, name = 15)] #[musli(Text, name = "15")] X15(Vec<u8>),
    #[musli(Binary, name = 20)] #[musli(Text, name = "sl\\ash/20")] X20 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] h9: Option<u64>,
    },
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] X19 {
        #[musli(Binary, name = 25)] #[musli(Text, name = "key-25")] h25: i128,
        #[musli(Binary, name = 39)] #[musli(Text, name = "39")] #[musli(default)] h39: String,
        #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] #[musli(default)] h17: Vec<Named>,
    },
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] X7 {
        #[musli(Binary, name = 34)] #[musli(Text, name = "naïve 34")] #[musli(default)] h34: Box<str>,
    },
    #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] X17,
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] X4,
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] X6 {
        #[musli(Binary, name = 35)] #[musli(Text, name = "quo\"te35")] #[musli(default)] h35: Option<Addr>,
    },
}
impl Gen for Adj { fn gen() -> Self { match choose(9) {
    0 => Adj::X10 { h9: Gen::gen(), h1: Gen::gen() },
    1 => Adj::X23(Gen::gen()),
    2 => Adj::X15(Gen::gen()),
    3 => Adj::X20 { h9: Gen::gen() },
    4 => Adj::X19 { h25: Gen::gen(), h39: Gen::gen(), h17: Gen::gen() },
    5 => Adj::X7 { h34: Gen::gen() },
    6 => Adj::X17,
    7 => Adj::X4,
    _ => Adj::X6 { h35: Gen::gen() },
} } }
impl Model for Adj {
    fn model(&self) -> M { match self { Adj::X10 { h9, h1 } => M::Var(10, Box::new(M::Rec([(9, h9.model()), (1, h1.model())].into_iter().collect()))), Adj::X23(a) => M::Var(23, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::X15(a) => M::Var(15, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::X20 { h9 } => M::Var(20, Box::new(M::Rec([(9, h9.model())].into_iter().collect()))), Adj::X19 { h25, h39, h17 } => M::Var(19, Box::new(M::Rec([(25, h25.model()), (39, h39.model()), (17, h17.model())].into_iter().collect()))), Adj::X7 { h34 } => M::Var(7, Box::new(M::Rec([(34, h34.model())].into_iter().collect()))), Adj::X17 => M::Var(17, Box::new(M::Rec(Default::default()))), Adj::X4 => M::Var(4, Box::new(M::Rec(Default::default()))), Adj::X6 { h35 } => M::Var(6, Box::new(M::Rec([(35, h35.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(10, T::Rec(vec![(9, Must, <char as Model>::schema()), (1, Dflt(<Box<u32> as Default>::default().model()), <Box<u32> as Model>::schema())])), (23, T::Rec(vec![(0, Must, <Option<u64> as Model>::schema())])), (15, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (20, T::Rec(vec![(9, Must, <Option<u64> as Model>::schema())])), (19, T::Rec(vec![(25, Must, <i128 as Model>::schema()), (39, Dflt(<String as Default>::default().model()), <String as Model>::schema()), (17, Dflt(<Vec<Named> as Default>::default().model()), <Vec<Named> as Model>::schema())])), (7, T::Rec(vec![(34, Dflt(<Box<str> as Default>::default().model()), <Box<str> as Model>::schema())])), (17, T::Rec(vec![])), (4, T::Rec(vec![])), (6, T::Rec(vec![(35, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
pub enum Job {
    #[musli(name_all = "name")] V23 {
        #[musli(default)] f16: usize,
    },
    #[musli(name_all = "name")] V7 {
        #[musli(default)] f28: (),
        #[musli(skip_encoding_if = Option::is_none, default)] f23: Option<Vec<String>>,
        #[musli(default)] f34: Option<Addr>,
    },
     V29,
     V13,
}
impl Gen for Job { fn gen() -> Self { match choose(4) {
    0 => Job::V23 { f16: Gen::gen() },
    1 => Job::V7 { f28: Gen::gen(), f23: Gen::gen(), f34: Gen::gen() },
    2 => Job::V29,
    _ => Job::V13,
} } }
impl Model for Job {
    fn model(&self) -> M { match self { Job::V23 { f16 } => M::Var(23, Box::new(M::Rec([(16, f16.model())].into_iter().collect()))), Job::V7 { f28, f23, f34 } => M::Var(7, Box::new(M::Rec([(28, f28.model()), (23, f23.model()), (34, f34.model())].into_iter().collect()))), Job::V29 => M::Var(29, Box::new(M::Rec(Default::default()))), Job::V13 => M::Var(13, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(23, T::Rec(vec![(16, Dflt(<usize as Default>::default().model()), <usize as Model>::schema())])), (7, T::Rec(vec![(28, Dflt(<() as Default>::default().model()), <() as Model>::schema()), (23, Omit(M::Opt(None)), <Option<Vec<String>> as Model>::schema()), (34, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())])), (29, T::Rec(vec![])), (13, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub enum Word {
    #[musli(name = "quo\"te19")] #[musli(name(type = str))] X19 {
    },
    #[musli(name = "sl\\ash/20")] X20(u32),
    #[musli(name = "15")] X15,
    #[musli(name = "naïve 2")] X2,
}
impl Gen for Word { fn gen() -> Self { match choose(4) {
    0 => Word::X19 {  },
    1 => Word::X20(Gen::gen()),
    2 => Word::X15,
    _ => Word::X2,
} } }
impl Model for Word {
    fn model(&self) -> M { match self { Word::X19 {  } => M::Var(19, Box::new(M::Rec([].into_iter().collect()))), Word::X20(a) => M::Var(20, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Word::X15 => M::Var(15, Box::new(M::Rec(Default::default()))), Word::X2 => M::Var(2, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(19, T::Rec(vec![])), (20, T::Rec(vec![(0, Must, <u32 as Model>::schema())])), (15, T::Rec(vec![])), (2, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Root {
    #[musli(Binary, name = 52)] #[musli(Text, name = "sl\\ash/52")] #[musli(skip_encoding_if = Option::is_none, default)] pub h52: Option<Vec<Vec<u8>>>,
    #[musli(Binary, name = 203)] #[musli(Text, name = "quo\"te203")] #[musli(skip_encoding_if = Option::is_none, default)] pub h203: Option<Word>,
    #[musli(Binary, name = 209)] #[musli(Text, name = "key-209")] pub h209: Option<Adj>,
    #[musli(Binary, name = 400)] #[musli(Text, name = "k400")] pub h400: Kind,
    #[musli(Binary, name = 257)] #[musli(Text, name = "key-257")] #[musli(skip_encoding_if = Option::is_none, default)] pub h257: Option<Odd>,
    #[musli(Binary, name = 137)] #[musli(Text, name = "key-137")] #[musli(skip_encoding_if = Option::is_none, default)] pub h137: Option<Box<Odd>>,
    #[musli(Binary, name = 265)] #[musli(Text, name = "key-265")] #[musli(default)] pub h265: BTreeMap<String, i64>,
    #[musli(Binary, name = 401)] #[musli(Text, name = "key-401")] #[musli(default)] pub h401: Vec<Late>,
    #[musli(Binary, name = 64)] #[musli(Text, name = "k64")] #[musli(default)] pub h64: BTreeMap<String, Addr>,
    #[musli(Binary, name = 124)] #[musli(Text, name = "sl\\ash/124")] pub h124: Vec<Color>,
    #[musli(Binary, name = 290)] #[musli(Text, name = "naïve 290")] #[musli(skip_encoding_if = Option::is_none, default)] pub h290: Option<Color>,
    #[musli(Binary, name = 254)] #[musli(Text, name = "\u{1F600}254")] #[musli(default)] pub h254: Wrapping<i8>,
    #[musli(Binary, name = 404)] #[musli(Text, name = "sl\\ash/404")] #[musli(default)] pub h404: Vec<Named>,
    #[musli(Binary, name = 29)] #[musli(Text, name = "K29")] #[musli(skip_encoding_if = Option::is_none, default)] pub h29: Option<BTreeMap<String, Named>>,
    #[musli(Binary, name = 218)] #[musli(Text, name = "naïve 218")] #[musli(default)] pub h218: F64,
    #[musli(Binary, name = 83)] #[musli(Text, name = "quo\"te83")] #[musli(skip_encoding_if = Option::is_none, default)] pub h83: Option<Vec<(u32, i64, Vec<String>)>>,
    #[musli(Binary, name = 24)] #[musli(Text, name = "k24")] #[musli(default)] pub h24: Option<NonZeroU16>,
    #[musli(Binary, name = 406)] #[musli(Text, name = "\u{1F600}406")] pub h406: Vec<Late>,
    #[musli(Binary, name = 269)] #[musli(Text, name = "K269")] #[musli(default, skip_encoding_if = Option::is_none)] pub h269: Option<Box<Late>>,
    #[musli(Binary, name = 408)] #[musli(Text, name = "k408")] #[musli(default)] pub h408: Vec<Word>,
    #[musli(Binary, name = 162)] #[musli(Text, name = "naïve 162")] #[musli(default = seven)] pub h162: u32,
    #[musli(Binary, name = 282)] #[musli(Text, name = "naïve 282")] #[musli(default)] pub h282: String,
    #[musli(Binary, name = 96)] #[musli(Text, name = "k96")] #[musli(default)] pub h96: BTreeMap<String, Word>,
    #[musli(Binary, name = 163)] #[musli(Text, name = "quo\"te163")] pub h163: u128,
}
impl Gen for Root { fn gen() -> Self { Root { h52: Gen::gen(), h203: Gen::gen(), h209: Gen::gen(), h400: Gen::gen(), h257: Gen::gen(), h137: Gen::gen(), h265: Gen::gen(), h401: Gen::gen(), h64: Gen::gen(), h124: Gen::gen(), h290: Gen::gen(), h254: Gen::gen(), h404: Gen::gen(), h29: Gen::gen(), h218: Gen::gen(), h83: Gen::gen(), h24: Gen::gen(), h406: Gen::gen(), h269: Gen::gen(), h408: Gen::gen(), h162: Gen::gen(), h282: Gen::gen(), h96: Gen::gen(), h163: Gen::gen() } } }
impl Model for Root {
    fn model(&self) -> M { M::Rec([(52, self.h52.model()), (203, self.h203.model()), (209, self.h209.model()), (400, self.h400.model()), (257, self.h257.model()), (137, self.h137.model()), (265, self.h265.model()), (401, self.h401.model()), (64, self.h64.model()), (124, self.h124.model()), (290, self.h290.model()), (254, self.h254.model()), (404, self.h404.model()), (29, self.h29.model()), (218, self.h218.model()), (83, self.h83.model()), (24, self.h24.model()), (406, self.h406.model()), (269, self.h269.model()), (408, self.h408.model()), (162, self.h162.model()), (282, self.h282.model()), (96, self.h96.model()), (163, self.h163.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(52, Omit(M::Opt(None)), <Option<Vec<Vec<u8>>> as Model>::schema()), (203, Omit(M::Opt(None)), <Option<Word> as Model>::schema()), (209, Must, <Option<Adj> as Model>::schema()), (400, Must, <Kind as Model>::schema()), (257, Omit(M::Opt(None)), <Option<Odd> as Model>::schema()), (137, Omit(M::Opt(None)), <Option<Box<Odd>> as Model>::schema()), (265, Dflt(<BTreeMap<String, i64> as Default>::default().model()), <BTreeMap<String, i64> as Model>::schema()), (401, Dflt(<Vec<Late> as Default>::default().model()), <Vec<Late> as Model>::schema()), (64, Dflt(<BTreeMap<String, Addr> as Default>::default().model()), <BTreeMap<String, Addr> as Model>::schema()), (124, Must, <Vec<Color> as Model>::schema()), (290, Omit(M::Opt(None)), <Option<Color> as Model>::schema()), (254, Dflt(<Wrapping<i8> as Default>::default().model()), <Wrapping<i8> as Model>::schema()), (404, Dflt(<Vec<Named> as Default>::default().model()), <Vec<Named> as Model>::schema()), (29, Omit(M::Opt(None)), <Option<BTreeMap<String, Named>> as Model>::schema()), (218, Dflt(<F64 as Default>::default().model()), <F64 as Model>::schema()), (83, Omit(M::Opt(None)), <Option<Vec<(u32, i64, Vec<String>)>> as Model>::schema()), (24, Dflt(<Option<NonZeroU16> as Default>::default().model()), <Option<NonZeroU16> as Model>::schema()), (406, Must, <Vec<Late> as Model>::schema()), (269, Omit(M::Opt(None)), <Option<Box<Late>> as Model>::schema()), (408, Dflt(<Vec<Word> as Default>::default().model()), <Vec<Word> as Model>::schema()), (162, Dflt(seven().model()), <u32 as Model>::schema()), (282, Dflt(<String as Default>::default().model()), <String as Model>::schema()), (96, Dflt(<BTreeMap<String, Word> as Default>::default().model()), <BTreeMap<String, Word> as Model>::schema()), (163, Must, <u128 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Big {
    #[musli(name = "k16")] #[musli(default)] pub h16: Vec<Kind>,
    #[musli(name = "sl\\ash/4")] #[musli(default)] pub h4: Vec<String>,
    #[musli(name = "naïve 10")] #[musli(default)] pub h10: Vec<Vec<u8>>,
    #[musli(name = "K37")] #[musli(skip_encoding_if = Option::is_none, default)] pub h37: Option<Adj>,
    #[musli(name = "quo\"te3")] #[musli(skip_encoding_if = Option::is_none, default)] pub h3: Option<u64>,
    #[musli(name = "key-25")] #[musli(default)] pub h25: i16,
    #[musli(name = "23")] #[musli(default)] pub h23: BTreeMap<String, bool>,
    #[musli(name = "k32")] pub h32: Option<Named>,
    #[musli(name = "39")] #[musli(default, skip_encoding_if = Option::is_none)] pub h39: Option<BTreeMap<u32, String>>,
    #[musli(name = "15")] #[musli(default)] pub h15: Option<Kind>,
    #[musli(name = "key-17")] pub h17: Box<usize>,
}
impl Gen for Big { fn gen() -> Self { Big { h16: Gen::gen(), h4: Gen::gen(), h10: Gen::gen(), h37: Gen::gen(), h3: Gen::gen(), h25: Gen::gen(), h23: Gen::gen(), h32: Gen::gen(), h39: Gen::gen(), h15: Gen::gen(), h17: Gen::gen() } } }
impl Model for Big {
    fn model(&self) -> M { M::Rec([(16, self.h16.model()), (4, self.h4.model()), (10, self.h10.model()), (37, self.h37.model()), (3, self.h3.model()), (25, self.h25.model()), (23, self.h23.model()), (32, self.h32.model()), (39, self.h39.model()), (15, self.h15.model()), (17, self.h17.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(16, Dflt(<Vec<Kind> as Default>::default().model()), <Vec<Kind> as Model>::schema()), (4, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (10, Dflt(<Vec<Vec<u8>> as Default>::default().model()), <Vec<Vec<u8>> as Model>::schema()), (37, Omit(M::Opt(None)), <Option<Adj> as Model>::schema()), (3, Omit(M::Opt(None)), <Option<u64> as Model>::schema()), (25, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (23, Dflt(<BTreeMap<String, bool> as Default>::default().model()), <BTreeMap<String, bool> as Model>::schema()), (32, Must, <Option<Named> as Model>::schema()), (39, Omit(M::Opt(None)), <Option<BTreeMap<u32, String>> as Model>::schema()), (15, Dflt(<Option<Kind> as Default>::default().model()), <Option<Kind> as Model>::schema()), (17, Must, <Box<usize> as Model>::schema())]) }
}
}
pub mod v3 {
use super::*;
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Addr {
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] pub f37: i32,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] #[musli(skip_encoding_if = Option::is_none, default)] pub f8: Option<i8>,
    #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] pub f28: Option<BTreeMap<String, u64>>,
}
impl Gen for Addr { fn gen() -> Self { Addr { f37: Gen::gen(), f8: Gen::gen(), f28: Gen::gen() } } }
impl Model for Addr {
    fn model(&self) -> M { M::Rec([(37, self.f37.model()), (8, self.f8.model()), (28, self.f28.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(37, Must, <i32 as Model>::schema()), (8, Omit(M::Opt(None)), <Option<i8> as Model>::schema()), (28, Must, <Option<BTreeMap<String, u64>> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(Binary, name(type = u16))]
pub struct Item {
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] pub f8: Option<Color>,
    #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] pub f1: Option<Addr>,
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] #[musli(default)] pub f16: Vec<Color>,
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] pub f4: Option<Color>,
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] #[musli(default)] pub f23: Vec<Addr>,
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] #[musli(default)] pub f37: Option<Vec<()>>,
    #[musli(Binary, name = 0)] #[musli(Text, name = "k0")] pub f0: Vec<Addr>,
}
impl Gen for Item { fn gen() -> Self { Item { f8: Gen::gen(), f1: Gen::gen(), f16: Gen::gen(), f4: Gen::gen(), f23: Gen::gen(), f37: Gen::gen(), f0: Gen::gen() } } }
impl Model for Item {
    fn model(&self) -> M { M::Rec([(8, self.f8.model()), (1, self.f1.model()), (16, self.f16.model()), (4, self.f4.model()), (23, self.f23.model()), (37, self.f37.model()), (0, self.f0.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(8, Must, <Option<Color> as Model>::schema()), (1, Must, <Option<Addr> as Model>::schema()), (16, Dflt(<Vec<Color> as Default>::default().model()), <Vec<Color> as Model>::schema()), (4, Must, <Option<Color> as Model>::schema()), (23, Dflt(<Vec<Addr> as Default>::default().model()), <Vec<Addr> as Model>::schema()), (37, Dflt(<Option<Vec<()>> as Default>::default().model()), <Option<Vec<()>> as Model>::schema()), (0, Must, <Vec<Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Named {
    #[musli(default = seven)] pub f30: u32,
    #[musli(default)] pub f36: Option<Vec<Color>>,
    #[musli(default, skip_encoding_if = Option::is_none)] pub f11: Option<Color>,
     pub f25: NonZeroU16,
     pub f37: BTreeMap<String, u64>,
    #[musli(default)] pub f17: i64,
}
impl Gen for Named { fn gen() -> Self { Named { f30: Gen::gen(), f36: Gen::gen(), f11: Gen::gen(), f25: Gen::gen(), f37: Gen::gen(), f17: Gen::gen() } } }
impl Model for Named {
    fn model(&self) -> M { M::Rec([(30, self.f30.model()), (36, self.f36.model()), (11, self.f11.model()), (25, self.f25.model()), (37, self.f37.model()), (17, self.f17.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(30, Dflt(seven().model()), <u32 as Model>::schema()), (36, Dflt(<Option<Vec<Color>> as Default>::default().model()), <Option<Vec<Color>> as Model>::schema()), (11, Omit(M::Opt(None)), <Option<Color> as Model>::schema()), (25, Must, <NonZeroU16 as Model>::schema()), (37, Must, <BTreeMap<String, u64> as Model>::schema()), (17, Dflt(<i64 as Default>::default().model()), <i64 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = i32))]
pub struct Odd {
    #[musli(name = -5)] pub f15: BTreeMap<String, Addr>,
    #[musli(name = 1)] #[musli(skip_encoding_if = Option::is_none, default)] pub f21: Option<Addr>,
    #[musli(name = -6)] #[musli(default)] pub f14: Option<Addr>,
    #[musli(name = -10)] #[musli(default)] pub f10: F64,
    #[musli(name = 9)] pub f29: isize,
    #[musli(name = -17)] #[musli(default)] pub f3: BTreeMap<String, [u16; 3]>,
}
impl Gen for Odd { fn gen() -> Self { Odd { f15: Gen::gen(), f21: Gen::gen(), f14: Gen::gen(), f10: Gen::gen(), f29: Gen::gen(), f3: Gen::gen() } } }
impl Model for Odd {
    fn model(&self) -> M { M::Rec([(15, self.f15.model()), (21, self.f21.model()), (14, self.f14.model()), (10, self.f10.model()), (29, self.f29.model()), (3, self.f3.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(15, Must, <BTreeMap<String, Addr> as Model>::schema()), (21, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (14, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema()), (10, Dflt(<F64 as Default>::default().model()), <F64 as Model>::schema()), (29, Must, <isize as Model>::schema()), (3, Dflt(<BTreeMap<String, [u16; 3]> as Default>::default().model()), <BTreeMap<String, [u16; 3]> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Late {
    #[musli(name = "k16")] #[musli(skip_encoding_if = Option::is_none, default)] pub f16: Option<Range<u32>>,
    #[musli(name = "naïve 10")] #[musli(default)] pub f10: Option<Vec<u8>>,
    #[musli(name = "k8")] #[musli(default, skip_encoding_if = Option::is_none)] pub f8: Option<i16>,
    #[musli(name = "key-1")] #[musli(skip_encoding_if = Option::is_none, default)] pub f1: Option<Result<u32, String>>,
}
impl Gen for Late { fn gen() -> Self { Late { f16: Gen::gen(), f10: Gen::gen(), f8: Gen::gen(), f1: Gen::gen() } } }
impl Model for Late {
    fn model(&self) -> M { M::Rec([(16, self.f16.model()), (10, self.f10.model()), (8, self.f8.model()), (1, self.f1.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(16, Omit(M::Opt(None)), <Option<Range<u32>> as Model>::schema()), (10, Dflt(<Option<Vec<u8>> as Default>::default().model()), <Option<Vec<u8>> as Model>::schema()), (8, Omit(M::Opt(None)), <Option<i16> as Model>::schema()), (1, Omit(M::Opt(None)), <Option<Result<u32, String>> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub struct Tup(#[musli(name = 0)] pub TrU32, #[musli(name = 1)] #[musli(default)] pub String, #[musli(name = 2)] #[musli(default)] pub Option<Addr>, #[musli(name = 3)] #[musli(default)] pub Vec<u8>, #[musli(name = 4)] #[musli(default = seven)] pub u32);
impl Gen for Tup { fn gen() -> Self { Tup(Gen::gen(), Gen::gen(), Gen::gen(), Gen::gen(), Gen::gen()) } }
impl Model for Tup {
    fn model(&self) -> M { M::Rec([(0, self.0.model()), (1, self.1.model()), (2, self.2.model()), (3, self.3.model()), (4, self.4.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(0, Must, <TrU32 as Model>::schema()), (1, Dflt(<String as Default>::default().model()), <String as Model>::schema()), (2, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema()), (3, Dflt(<Vec<u8> as Default>::default().model()), <Vec<u8> as Model>::schema()), (4, Dflt(seven().model()), <u32 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub enum Color {
    #[musli(name = 25)] V25,
    #[musli(name = 9)] V9,
    #[musli(name = 17)] V17,
    #[musli(name = 0)] V0,
    #[musli(name = 13)] V13,
    #[musli(default)] #[musli(name = 9999)] Unknown,
}
impl Gen for Color { fn gen() -> Self { match choose(5) {
    0 => Color::V25,
    1 => Color::V9,
    2 => Color::V17,
    3 => Color::V0,
    _ => Color::V13,
} } }
impl Model for Color {
    fn model(&self) -> M { match self { Color::V25 => M::Var(25, Box::new(M::Rec(Default::default()))), Color::V9 => M::Var(9, Box::new(M::Rec(Default::default()))), Color::V17 => M::Var(17, Box::new(M::Rec(Default::default()))), Color::V0 => M::Var(0, Box::new(M::Rec(Default::default()))), Color::V13 => M::Var(13, Box::new(M::Rec(Default::default()))), Color::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(25, T::Rec(vec![])), (9, T::Rec(vec![])), (17, T::Rec(vec![])), (0, T::Rec(vec![])), (13, T::Rec(vec![])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Kind {
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] V6,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] V8,
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] V16 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] #[musli(default)] f9: BTreeMap<String, u64>,
        #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] #[musli(default)] f37: F32,
        #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] #[musli(default)] f28: Option<Tup>,
    },
    #[musli(Binary, name = 27)] #[musli(Text, name = "quo\"te27")] #[musli(transparent)] V27(Late),
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] V10(Vec<u8>),
    #[musli(Binary, name = 29)] #[musli(Text, name = "K29")] V29 {
        #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(default, skip_encoding_if = Option::is_none)] f11: Option<Late>,
    },
    #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(transparent)] V11(Item),
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] V7,
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] V19 {
        #[musli(Binary, name = 18)] #[musli(Text, name = "naïve 18")] #[musli(default)] f18: (),
        #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] #[musli(default)] f1: Option<Vec<Option<i32>>>,
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] f9: u16,
    },
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] V4 {
        #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] #[musli(default)] f6: BTreeMap<String, Addr>,
    },
}
impl Gen for Kind { fn gen() -> Self { match choose(10) {
    0 => Kind::V6,
    1 => Kind::V8,
    2 => Kind::V16 { f9: Gen::gen(), f37: Gen::gen(), f28: Gen::gen() },
    3 => Kind::V27(Gen::gen()),
    4 => Kind::V10(Gen::gen()),
    5 => Kind::V29 { f11: Gen::gen() },
    6 => Kind::V11(Gen::gen()),
    7 => Kind::V7,
    8 => Kind::V19 { f18: Gen::gen(), f1: Gen::gen(), f9: Gen::gen() },
    _ => Kind::V4 { f6: Gen::gen() },
} } }
impl Model for Kind {
    fn model(&self) -> M { match self { Kind::V6 => M::Var(6, Box::new(M::Rec(Default::default()))), Kind::V8 => M::Var(8, Box::new(M::Rec(Default::default()))), Kind::V16 { f9, f37, f28 } => M::Var(16, Box::new(M::Rec([(9, f9.model()), (37, f37.model()), (28, f28.model())].into_iter().collect()))), Kind::V27(a) => M::Var(27, Box::new(a.model())), Kind::V10(a) => M::Var(10, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::V29 { f11 } => M::Var(29, Box::new(M::Rec([(11, f11.model())].into_iter().collect()))), Kind::V11(a) => M::Var(11, Box::new(a.model())), Kind::V7 => M::Var(7, Box::new(M::Rec(Default::default()))), Kind::V19 { f18, f1, f9 } => M::Var(19, Box::new(M::Rec([(18, f18.model()), (1, f1.model()), (9, f9.model())].into_iter().collect()))), Kind::V4 { f6 } => M::Var(4, Box::new(M::Rec([(6, f6.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(6, T::Rec(vec![])), (8, T::Rec(vec![])), (16, T::Rec(vec![(9, Dflt(<BTreeMap<String, u64> as Default>::default().model()), <BTreeMap<String, u64> as Model>::schema()), (37, Dflt(<F32 as Default>::default().model()), <F32 as Model>::schema()), (28, Dflt(<Option<Tup> as Default>::default().model()), <Option<Tup> as Model>::schema())])), (27, <Late as Model>::schema()), (10, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (29, T::Rec(vec![(11, Omit(M::Opt(None)), <Option<Late> as Model>::schema())])), (11, <Item as Model>::schema()), (7, T::Rec(vec![])), (19, T::Rec(vec![(18, Dflt(<() as Default>::default().model()), <() as Model>::schema()), (1, Dflt(<Option<Vec<Option<i32>>> as Default>::default().model()), <Option<Vec<Option<i32>>> as Model>::schema()), (9, Must, <u16 as Model>::schema())])), (4, T::Rec(vec![(6, Dflt(<BTreeMap<String, Addr> as Default>::default().model()), <BTreeMap<String, Addr> as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c")]
pub enum Adj {
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] V4,
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] V10 {
        #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] #[musli(default)] f1: Box<u32>,
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] f9: char,
    },
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] V19 {
        #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] #[musli(default)] f17: Vec<Named>,
        #[musli(Binary, name = 25)] #[musli(Text, name = "key-25")] f25: i128,
        #[musli(Binary, name = 39)] #[musli(Text, name = "39")] #[musli(default)] f39: TrStr,
    },
    #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] V17,
    #[musli(Binary, name = 20)] #[musli(Text, name = "sl\\ash/20")] V20 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] f9: Option<u64>,
    },
    #[musli(Binary, name = 15)] #[musli(Text, name = "15")] V15(Vec<u8>),
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] V6 {
        #[musli(Binary, name = 35)] #[musli(Text, name = "quo\"te35")] #[musli(default)] f35: Option<Addr>,
    },
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] V7 {
        #[musli(Binary, name = 20)] #[musli(Text, name = "sl\\ash/20")] #[musli(skip_encoding_if = Option::is_none, default)] f20: Option<BTreeMap<String, Vec<u8>>>,
        #[musli(Binary, name = 34)] #[musli(Text, name = "naïve 34")] #[musli(default)] f34: Box<str>,
    },
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] V23(Option<u64>),
}
impl Gen for Adj { fn gen() -> Self { match choose(9) {
    0 => Adj::V4,
    1 => Adj::V10 { f1: Gen::gen(), f9: Gen::gen() },
    2 => Adj::V19 { f17: Gen::gen(), f25: Gen::gen(), f39: Gen::gen() },
    3 => Adj::V17,
    4 => Adj::V20 { f9: Gen::gen() },
    5 => Adj::V15(Gen::gen()),
    6 => Adj::V6 { f35: Gen::gen() },
    7 => Adj::V7 { f20: Gen::gen(), f34: Gen::gen() },
    _ => Adj::V23(Gen::gen()),
} } }
impl Model for Adj {
    fn model(&self) -> M { match self { Adj::V4 => M::Var(4, Box::new(M::Rec(Default::default()))), Adj::V10 { f1, f9 } => M::Var(10, Box::new(M::Rec([(1, f1.model()), (9, f9.model())].into_iter().collect()))), Adj::V19 { f17, f25, f39 } => M::Var(19, Box::new(M::Rec([(17, f17.model()), (25, f25.model()), (39, f39.model())].into_iter().collect()))), Adj::V17 => M::Var(17, Box::new(M::Rec(Default::default()))), Adj::V20 { f9 } => M::Var(20, Box::new(M::Rec([(9, f9.model())].into_iter().collect()))), Adj::V15(a) => M::Var(15, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::V6 { f35 } => M::Var(6, Box::new(M::Rec([(35, f35.model())].into_iter().collect()))), Adj::V7 { f20, f34 } => M::Var(7, Box::new(M::Rec([(20, f20.model()), (34, f34.model())].into_iter().collect()))), Adj::V23(a) => M::Var(23, Box::new(M::Rec([(0, a.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(4, T::Rec(vec![])), (10, T::Rec(vec![(1, Dflt(<Box<u32> as Default>::default().model()), <Box<u32> as Model>::schema()), (9, Must, <char as Model>::schema())])), (19, T::Rec(vec![(17, Dflt(<Vec<Named> as Default>::default().model()), <Vec<Named> as Model>::schema()), (25, Must, <i128 as Model>::schema()), (39, Dflt(<TrStr as Default>::default().model()), <TrStr as Model>::schema())])), (17, T::Rec(vec![])), (20, T::Rec(vec![(9, Must, <Option<u64> as Model>::schema())])), (15, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (6, T::Rec(vec![(35, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())])), (7, T::Rec(vec![(20, Omit(M::Opt(None)), <Option<BTreeMap<String, Vec<u8>>> as Model>::schema()), (34, Dflt(<Box<str> as Default>::default().model()), <Box<str> as Model>::schema())])), (23, T::Rec(vec![(0, Must, <Option<u64> as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
pub enum Job {
    #[musli(name_all = "name")] V8 {
    },
    #[musli(name_all = "name")] V7 {
        #[musli(skip_encoding_if = Option::is_none, default)] f23: Option<Vec<String>>,
        #[musli(default)] f34: Option<Addr>,
    },
    #[musli(name_all = "name")] V23 {
        #[musli(default)] f16: usize,
        #[musli(default)] f33: i16,
    },
     V13,
     V29,
}
impl Gen for Job { fn gen() -> Self { match choose(5) {
    0 => Job::V8 {  },
    1 => Job::V7 { f23: Gen::gen(), f34: Gen::gen() },
    2 => Job::V23 { f16: Gen::gen(), f33: Gen::gen() },
    3 => Job::V13,
    _ => Job::V29,
} } }
impl Model for Job {
    fn model(&self) -> M { match self { Job::V8 {  } => M::Var(8, Box::new(M::Rec([].into_iter().collect()))), Job::V7 { f23, f34 } => M::Var(7, Box::new(M::Rec([(23, f23.model()), (34, f34.model())].into_iter().collect()))), Job::V23 { f16, f33 } => M::Var(23, Box::new(M::Rec([(16, f16.model()), (33, f33.model())].into_iter().collect()))), Job::V13 => M::Var(13, Box::new(M::Rec(Default::default()))), Job::V29 => M::Var(29, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(8, T::Rec(vec![])), (7, T::Rec(vec![(23, Omit(M::Opt(None)), <Option<Vec<String>> as Model>::schema()), (34, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())])), (23, T::Rec(vec![(16, Dflt(<usize as Default>::default().model()), <usize as Model>::schema()), (33, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema())])), (13, T::Rec(vec![])), (29, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub enum Word {
    #[musli(name = "\u{1F600}6")] #[musli(name(type = str))] V6 {
        #[musli(name = "\u{1F600}6")] f6: Option<Addr>,
    },
    #[musli(name = "quo\"te19")] #[musli(name(type = str))] V19 {
    },
    #[musli(name = "15")] V15,
    #[musli(name = "naïve 2")] V2,
    #[musli(name = "sl\\ash/20")] V20(TrU32),
    #[musli(default)]  Unknown,
}
impl Gen for Word { fn gen() -> Self { match choose(5) {
    0 => Word::V6 { f6: Gen::gen() },
    1 => Word::V19 {  },
    2 => Word::V15,
    3 => Word::V2,
    _ => Word::V20(Gen::gen()),
} } }
impl Model for Word {
    fn model(&self) -> M { match self { Word::V6 { f6 } => M::Var(6, Box::new(M::Rec([(6, f6.model())].into_iter().collect()))), Word::V19 {  } => M::Var(19, Box::new(M::Rec([].into_iter().collect()))), Word::V15 => M::Var(15, Box::new(M::Rec(Default::default()))), Word::V2 => M::Var(2, Box::new(M::Rec(Default::default()))), Word::V20(a) => M::Var(20, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Word::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(6, T::Rec(vec![(6, Must, <Option<Addr> as Model>::schema())])), (19, T::Rec(vec![])), (15, T::Rec(vec![])), (2, T::Rec(vec![])), (20, T::Rec(vec![(0, Must, <TrU32 as Model>::schema())])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Root {
    #[musli(Binary, name = 406)] #[musli(Text, name = "\u{1F600}406")] pub f406: Vec<Late>,
    #[musli(Binary, name = 409)] #[musli(Text, name = "key-409")] #[musli(default)] pub f409: BTreeMap<String, Item>,
    #[musli(Binary, name = 124)] #[musli(Text, name = "sl\\ash/124")] pub f124: Vec<Color>,
    #[musli(Binary, name = 29)] #[musli(Text, name = "K29")] #[musli(default)] pub f29: Option<BTreeMap<String, Named>>,
    #[musli(Binary, name = 265)] #[musli(Text, name = "key-265")] #[musli(default)] pub f265: BTreeMap<String, i64>,
    #[musli(Binary, name = 401)] #[musli(Text, name = "key-401")] #[musli(default)] pub f401: Vec<Late>,
    #[musli(Binary, name = 400)] #[musli(Text, name = "k400")] pub f400: Kind,
    #[musli(Binary, name = 209)] #[musli(Text, name = "key-209")] pub f209: Option<Adj>,
    #[musli(Binary, name = 403)] #[musli(Text, name = "quo\"te403")] #[musli(default)] pub f403: BTreeMap<String, Color>,
    #[musli(Binary, name = 162)] #[musli(Text, name = "naïve 162")] #[musli(default = seven)] pub f162: u32,
    #[musli(Binary, name = 254)] #[musli(Text, name = "\u{1F600}254")] #[musli(default)] pub f254: Wrapping<i8>,
    #[musli(Binary, name = 257)] #[musli(Text, name = "key-257")] #[musli(skip_encoding_if = Option::is_none, default)] pub f257: Option<Odd>,
    #[musli(Binary, name = 137)] #[musli(Text, name = "key-137")] #[musli(default, skip_encoding_if = Option::is_none)] pub f137: Option<Box<Odd>>,
    #[musli(Binary, name = 52)] #[musli(Text, name = "sl\\ash/52")] #[musli(skip_encoding_if = Option::is_none, default)] pub f52: Option<Vec<Vec<u8>>>,
    #[musli(Binary, name = 24)] #[musli(Text, name = "k24")] pub f24: Option<NonZeroU16>,
    #[musli(Binary, name = 243)] #[musli(Text, name = "quo\"te243")] #[musli(default)] pub f243: Vec<String>,
    #[musli(Binary, name = 405)] #[musli(Text, name = "K405")] #[musli(default)] pub f405: Vec<Tup>,
    #[musli(Binary, name = 83)] #[musli(Text, name = "quo\"te83")] #[musli(default, skip_encoding_if = Option::is_none)] pub f83: Option<Vec<(u32, i64, Vec<String>)>>,
    #[musli(Binary, name = 253)] #[musli(Text, name = "K253")] #[musli(skip_encoding_if = Option::is_none, default)] pub f253: Option<BTreeMap<String, i32>>,
    #[musli(Binary, name = 64)] #[musli(Text, name = "k64")] #[musli(default)] pub f64: BTreeMap<String, Addr>,
    #[musli(Binary, name = 407)] #[musli(Text, name = "407")] #[musli(default, skip_encoding_if = Option::is_none)] pub f407: Option<Odd>,
    #[musli(Binary, name = 203)] #[musli(Text, name = "quo\"te203")] #[musli(skip_encoding_if = Option::is_none, default)] pub f203: Option<Word>,
    #[musli(Binary, name = 290)] #[musli(Text, name = "naïve 290")] #[musli(skip_encoding_if = Option::is_none, default)] pub f290: Option<Color>,
    #[musli(Binary, name = 404)] #[musli(Text, name = "sl\\ash/404")] #[musli(default)] pub f404: Vec<Named>,
    #[musli(Binary, name = 163)] #[musli(Text, name = "quo\"te163")] pub f163: u128,
    #[musli(Binary, name = 96)] #[musli(Text, name = "k96")] #[musli(default)] pub f96: BTreeMap<String, Word>,
    #[musli(Binary, name = 282)] #[musli(Text, name = "naïve 282")] #[musli(default)] pub f282: TrStr,
}
impl Gen for Root { fn gen() -> Self { Root { f406: Gen::gen(), f409: Gen::gen(), f124: Gen::gen(), f29: Gen::gen(), f265: Gen::gen(), f401: Gen::gen(), f400: Gen::gen(), f209: Gen::gen(), f403: Gen::gen(), f162: Gen::gen(), f254: Gen::gen(), f257: Gen::gen(), f137: Gen::gen(), f52: Gen::gen(), f24: Gen::gen(), f243: Gen::gen(), f405: Gen::gen(), f83: Gen::gen(), f253: Gen::gen(), f64: Gen::gen(), f407: Gen::gen(), f203: Gen::gen(), f290: Gen::gen(), f404: Gen::gen(), f163: Gen::gen(), f96: Gen::gen(), f282: Gen::gen() } } }
impl Model for Root {
    fn model(&self) -> M { M::Rec([(406, self.f406.model()), (409, self.f409.model()), (124, self.f124.model()), (29, self.f29.model()), (265, self.f265.model()), (401, self.f401.model()), (400, self.f400.model()), (209, self.f209.model()), (403, self.f403.model()), (162, self.f162.model()), (254, self.f254.model()), (257, self.f257.model()), (137, self.f137.model()), (52, self.f52.model()), (24, self.f24.model()), (243, self.f243.model()), (405, self.f405.model()), (83, self.f83.model()), (253, self.f253.model()), (64, self.f64.model()), (407, self.f407.model()), (203, self.f203.model()), (290, self.f290.model()), (404, self.f404.model()), (163, self.f163.model()), (96, self.f96.model()), (282, self.f282.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(406, Must, <Vec<Late> as Model>::schema()), (409, Dflt(<BTreeMap<String, Item> as Default>::default().model()), <BTreeMap<String, Item> as Model>::schema()), (124, Must, <Vec<Color> as Model>::schema()), (29, Dflt(<Option<BTreeMap<String, Named>> as Default>::default().model()), <Option<BTreeMap<String, Named>> as Model>::schema()), (265, Dflt(<BTreeMap<String, i64> as Default>::default().model()), <BTreeMap<String, i64> as Model>::schema()), (401, Dflt(<Vec<Late> as Default>::default().model()), <Vec<Late> as Model>::schema()), (400, Must, <Kind as Model>::schema()), (209, Must, <Option<Adj> as Model>::schema()), (403, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema()), (162, Dflt(seven().model()), <u32 as Model>::schema()), (254, Dflt(<Wrapping<i8> as Default>::default().model()), <Wrapping<i8> as Model>::schema()), (257, Omit(M::Opt(None)), <Option<Odd> as Model>::schema()), (137, Omit(M::Opt(None)), <Option<Box<Odd>> as Model>::schema()), (52, Omit(M::Opt(None)), <Option<Vec<Vec<u8>>> as Model>::schema()), (24, Must, <Option<NonZeroU16> as Model>::schema()), (243, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (405, Dflt(<Vec<Tup> as Default>::default().model()), <Vec<Tup> as Model>::schema()), (83, Omit(M::Opt(None)), <Option<Vec<(u32, i64, Vec<String>)>> as Model>::schema()), (253, Omit(M::Opt(None)), <Option<BTreeMap<String, i32>> as Model>::schema()), (64, Dflt(<BTreeMap<String, Addr> as Default>::default().model()), <BTreeMap<String, Addr> as Model>::schema()), (407, Omit(M::Opt(None)), <Option<Odd> as Model>::schema()), (203, Omit(M::Opt(None)), <Option<Word> as Model>::schema()), (290, Omit(M::Opt(None)), <Option<Color> as Model>::schema()), (404, Dflt(<Vec<Named> as Default>::default().model()), <Vec<Named> as Model>::schema()), (163, Must, <u128 as Model>::schema()), (96, Dflt(<BTreeMap<String, Word> as Default>::default().model()), <BTreeMap<String, Word> as Model>::schema()), (282, Dflt(<TrStr as Default>::default().model()), <TrStr as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Big {
    #[musli(name = "sl\\ash/4")] #[musli(default)] pub f4: Vec<String>,
    #[musli(name = "key-17")] pub f17: Box<usize>,
    #[musli(name = "naïve 10")] #[musli(default)] pub f10: Vec<Vec<u8>>,
    #[musli(name = "15")] #[musli(default, skip_encoding_if = Option::is_none)] pub f15: Option<Kind>,
    #[musli(name = "quo\"te3")] #[musli(default, skip_encoding_if = Option::is_none)] pub f3: Option<u64>,
    #[musli(name = "23")] #[musli(default)] pub f23: BTreeMap<String, bool>,
    #[musli(name = "k16")] pub f16: Vec<Kind>,
    #[musli(name = "k32")] pub f32: Option<Named>,
    #[musli(name = "39")] #[musli(default)] pub f39: Option<BTreeMap<u32, String>>,
}
impl Gen for Big { fn gen() -> Self { Big { f4: Gen::gen(), f17: Gen::gen(), f10: Gen::gen(), f15: Gen::gen(), f3: Gen::gen(), f23: Gen::gen(), f16: Gen::gen(), f32: Gen::gen(), f39: Gen::gen() } } }
impl Model for Big {
    fn model(&self) -> M { M::Rec([(4, self.f4.model()), (17, self.f17.model()), (10, self.f10.model()), (15, self.f15.model()), (3, self.f3.model()), (23, self.f23.model()), (16, self.f16.model()), (32, self.f32.model()), (39, self.f39.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(4, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (17, Must, <Box<usize> as Model>::schema()), (10, Dflt(<Vec<Vec<u8>> as Default>::default().model()), <Vec<Vec<u8>> as Model>::schema()), (15, Omit(M::Opt(None)), <Option<Kind> as Model>::schema()), (3, Omit(M::Opt(None)), <Option<u64> as Model>::schema()), (23, Dflt(<BTreeMap<String, bool> as Default>::default().model()), <BTreeMap<String, bool> as Model>::schema()), (16, Must, <Vec<Kind> as Model>::schema()), (32, Must, <Option<Named> as Model>::schema()), (39, Dflt(<Option<BTreeMap<u32, String>> as Default>::default().model()), <Option<BTreeMap<u32, String>> as Model>::schema())]) }
}
}
pub mod v4 {
use super::*;
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Addr {
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] #[musli(skip_encoding_if = Option::is_none, default)] pub g8: Option<i8>,
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] pub g37: i32,
    #[musli(Binary, name = 18)] #[musli(Text, name = "naïve 18")] #[musli(default, skip_encoding_if = Option::is_none)] pub g18: Option<Wrapping<i8>>,
    #[musli(Binary, name = 24)] #[musli(Text, name = "k24")] #[musli(default)] pub g24: Vec<String>,
    #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] pub g28: Option<BTreeMap<String, u64>>,
    #[musli(Binary, name = 13)] #[musli(Text, name = "K13")] #[musli(default)] pub g13: Vec<Option<i32>>,
}
impl Gen for Addr { fn gen() -> Self { Addr { g8: Gen::gen(), g37: Gen::gen(), g18: Gen::gen(), g24: Gen::gen(), g28: Gen::gen(), g13: Gen::gen() } } }
impl Model for Addr {
    fn model(&self) -> M { M::Rec([(8, self.g8.model()), (37, self.g37.model()), (18, self.g18.model()), (24, self.g24.model()), (28, self.g28.model()), (13, self.g13.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(8, Omit(M::Opt(None)), <Option<i8> as Model>::schema()), (37, Must, <i32 as Model>::schema()), (18, Omit(M::Opt(None)), <Option<Wrapping<i8>> as Model>::schema()), (24, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (28, Must, <Option<BTreeMap<String, u64>> as Model>::schema()), (13, Dflt(<Vec<Option<i32>> as Default>::default().model()), <Vec<Option<i32>> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(Binary, name(type = u16))]
pub struct Item {
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] #[musli(default)] pub g23: Vec<Addr>,
    #[musli(Binary, name = 0)] #[musli(Text, name = "k0")] pub g0: Vec<Addr>,
    #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(default)] pub g11: i16,
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] #[musli(default)] pub g37: Option<Vec<()>>,
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] #[musli(default)] pub g16: Vec<Color>,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] pub g8: Option<Color>,
    #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] pub g1: Option<Addr>,
    #[musli(Binary, name = 31)] #[musli(Text, name = "31")] #[musli(default)] pub g31: i128,
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] pub g4: Option<Color>,
    #[musli(Binary, name = 38)] #[musli(Text, name = "\u{1F600}38")] #[musli(skip_encoding_if = Option::is_none, default)] pub g38: Option<BTreeMap<String, u64>>,
    #[musli(Binary, name = 2)] #[musli(Text, name = "naïve 2")] #[musli(default)] pub g2: BTreeMap<String, Color>,
}
impl Gen for Item { fn gen() -> Self { Item { g23: Gen::gen(), g0: Gen::gen(), g11: Gen::gen(), g37: Gen::gen(), g16: Gen::gen(), g8: Gen::gen(), g1: Gen::gen(), g31: Gen::gen(), g4: Gen::gen(), g38: Gen::gen(), g2: Gen::gen() } } }
impl Model for Item {
    fn model(&self) -> M { M::Rec([(23, self.g23.model()), (0, self.g0.model()), (11, self.g11.model()), (37, self.g37.model()), (16, self.g16.model()), (8, self.g8.model()), (1, self.g1.model()), (31, self.g31.model()), (4, self.g4.model()), (38, self.g38.model()), (2, self.g2.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(23, Dflt(<Vec<Addr> as Default>::default().model()), <Vec<Addr> as Model>::schema()), (0, Must, <Vec<Addr> as Model>::schema()), (11, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (37, Dflt(<Option<Vec<()>> as Default>::default().model()), <Option<Vec<()>> as Model>::schema()), (16, Dflt(<Vec<Color> as Default>::default().model()), <Vec<Color> as Model>::schema()), (8, Must, <Option<Color> as Model>::schema()), (1, Must, <Option<Addr> as Model>::schema()), (31, Dflt(<i128 as Default>::default().model()), <i128 as Model>::schema()), (4, Must, <Option<Color> as Model>::schema()), (38, Omit(M::Opt(None)), <Option<BTreeMap<String, u64>> as Model>::schema()), (2, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Named {
    #[musli(default = seven)] pub f30: u32,
     pub f25: NonZeroU16,
     pub f37: BTreeMap<String, u64>,
    #[musli(default)] pub f5: F32,
    #[musli(default)] pub f22: Option<Addr>,
}
impl Gen for Named { fn gen() -> Self { Named { f30: Gen::gen(), f25: Gen::gen(), f37: Gen::gen(), f5: Gen::gen(), f22: Gen::gen() } } }
impl Model for Named {
    fn model(&self) -> M { M::Rec([(30, self.f30.model()), (25, self.f25.model()), (37, self.f37.model()), (5, self.f5.model()), (22, self.f22.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(30, Dflt(seven().model()), <u32 as Model>::schema()), (25, Must, <NonZeroU16 as Model>::schema()), (37, Must, <BTreeMap<String, u64> as Model>::schema()), (5, Dflt(<F32 as Default>::default().model()), <F32 as Model>::schema()), (22, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = i32))]
pub struct Odd {
    #[musli(name = -17)] #[musli(default)] pub g3: BTreeMap<String, [u16; 3]>,
    #[musli(name = 1)] #[musli(skip_encoding_if = Option::is_none, default)] pub g21: Option<Addr>,
    #[musli(name = -5)] pub g15: BTreeMap<String, Addr>,
    #[musli(name = 10)] #[musli(default, skip_encoding_if = Option::is_none)] pub g30: Option<Box<String>>,
    #[musli(name = 9)] pub g29: isize,
}
impl Gen for Odd { fn gen() -> Self { Odd { g3: Gen::gen(), g21: Gen::gen(), g15: Gen::gen(), g30: Gen::gen(), g29: Gen::gen() } } }
impl Model for Odd {
    fn model(&self) -> M { M::Rec([(3, self.g3.model()), (21, self.g21.model()), (15, self.g15.model()), (30, self.g30.model()), (29, self.g29.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(3, Dflt(<BTreeMap<String, [u16; 3]> as Default>::default().model()), <BTreeMap<String, [u16; 3]> as Model>::schema()), (21, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (15, Must, <BTreeMap<String, Addr> as Model>::schema()), (30, Omit(M::Opt(None)), <Option<Box<String>> as Model>::schema()), (29, Must, <isize as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Late {
    #[musli(name = "key-1")] #[musli(skip_encoding_if = Option::is_none, default)] pub g1: Option<Result<u32, String>>,
    #[musli(name = "K37")] #[musli(default)] pub g37: BTreeMap<String, Color>,
    #[musli(name = "k16")] #[musli(default, skip_encoding_if = Option::is_none)] pub g16: Option<Range<u32>>,
    #[musli(name = "k8")] #[musli(skip_encoding_if = Option::is_none, default)] pub g8: Option<i16>,
}
impl Gen for Late { fn gen() -> Self { Late { g1: Gen::gen(), g37: Gen::gen(), g16: Gen::gen(), g8: Gen::gen() } } }
impl Model for Late {
    fn model(&self) -> M { M::Rec([(1, self.g1.model()), (37, self.g37.model()), (16, self.g16.model()), (8, self.g8.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(1, Omit(M::Opt(None)), <Option<Result<u32, String>> as Model>::schema()), (37, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema()), (16, Omit(M::Opt(None)), <Option<Range<u32>> as Model>::schema()), (8, Omit(M::Opt(None)), <Option<i16> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub struct Tup(#[musli(name = 0)] pub u32, #[musli(name = 1)] pub String, #[musli(name = 2)] #[musli(default, skip_encoding_if = Option::is_none)] pub Option<Addr>);
impl Gen for Tup { fn gen() -> Self { Tup(Gen::gen(), Gen::gen(), Gen::gen()) } }
impl Model for Tup {
    fn model(&self) -> M { M::Rec([(0, self.0.model()), (1, self.1.model()), (2, self.2.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(0, Must, <u32 as Model>::schema()), (1, Must, <String as Model>::schema()), (2, Omit(M::Opt(None)), <Option<Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub enum Color {
    #[musli(name = 9)] W9,
    #[musli(name = 29)] W29,
    #[musli(name = 0)] W0,
    #[musli(name = 17)] W17,
    #[musli(name = 25)] W25,
    #[musli(name = 13)] W13,
    #[musli(name = 15)] W15,
}
impl Gen for Color { fn gen() -> Self { match choose(7) {
    0 => Color::W9,
    1 => Color::W29,
    2 => Color::W0,
    3 => Color::W17,
    4 => Color::W25,
    5 => Color::W13,
    _ => Color::W15,
} } }
impl Model for Color {
    fn model(&self) -> M { match self { Color::W9 => M::Var(9, Box::new(M::Rec(Default::default()))), Color::W29 => M::Var(29, Box::new(M::Rec(Default::default()))), Color::W0 => M::Var(0, Box::new(M::Rec(Default::default()))), Color::W17 => M::Var(17, Box::new(M::Rec(Default::default()))), Color::W25 => M::Var(25, Box::new(M::Rec(Default::default()))), Color::W13 => M::Var(13, Box::new(M::Rec(Default::default()))), Color::W15 => M::Var(15, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(9, T::Rec(vec![])), (29, T::Rec(vec![])), (0, T::Rec(vec![])), (17, T::Rec(vec![])), (25, T::Rec(vec![])), (13, T::Rec(vec![])), (15, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Kind {
    #[musli(Binary, name = 27)] #[musli(Text, name = "quo\"te27")] #[musli(transparent)] W27(Late),
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] W4 {
    },
    #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(transparent)] W11(Item),
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] W6,
    #[musli(Binary, name = 29)] #[musli(Text, name = "K29")] W29 {
        #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(default)] g11: Option<Late>,
    },
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] W7,
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] W10(Vec<u8>),
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] W16 {
        #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] #[musli(default)] g37: F32,
        #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] #[musli(skip_encoding_if = Option::is_none, default)] g28: Option<Tup>,
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] #[musli(default)] g9: BTreeMap<String, u64>,
    },
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] W8,
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] W19 {
        #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] #[musli(default)] g1: Option<Vec<Option<i32>>>,
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] g9: u16,
        #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] #[musli(default, skip_encoding_if = Option::is_none)] g4: Option<Vec<Addr>>,
        #[musli(Binary, name = 18)] #[musli(Text, name = "naïve 18")] #[musli(default)] g18: (),
    },
    #[musli(default)] #[musli(Binary, name = 9999)] Unknown,
}
impl Gen for Kind { fn gen() -> Self { match choose(10) {
    0 => Kind::W27(Gen::gen()),
    1 => Kind::W4 {  },
    2 => Kind::W11(Gen::gen()),
    3 => Kind::W6,
    4 => Kind::W29 { g11: Gen::gen() },
    5 => Kind::W7,
    6 => Kind::W10(Gen::gen()),
    7 => Kind::W16 { g37: Gen::gen(), g28: Gen::gen(), g9: Gen::gen() },
    8 => Kind::W8,
    _ => Kind::W19 { g1: Gen::gen(), g9: Gen::gen(), g4: Gen::gen(), g18: Gen::gen() },
} } }
impl Model for Kind {
    fn model(&self) -> M { match self { Kind::W27(a) => M::Var(27, Box::new(a.model())), Kind::W4 {  } => M::Var(4, Box::new(M::Rec([].into_iter().collect()))), Kind::W11(a) => M::Var(11, Box::new(a.model())), Kind::W6 => M::Var(6, Box::new(M::Rec(Default::default()))), Kind::W29 { g11 } => M::Var(29, Box::new(M::Rec([(11, g11.model())].into_iter().collect()))), Kind::W7 => M::Var(7, Box::new(M::Rec(Default::default()))), Kind::W10(a) => M::Var(10, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::W16 { g37, g28, g9 } => M::Var(16, Box::new(M::Rec([(37, g37.model()), (28, g28.model()), (9, g9.model())].into_iter().collect()))), Kind::W8 => M::Var(8, Box::new(M::Rec(Default::default()))), Kind::W19 { g1, g9, g4, g18 } => M::Var(19, Box::new(M::Rec([(1, g1.model()), (9, g9.model()), (4, g4.model()), (18, g18.model())].into_iter().collect()))), Kind::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(27, <Late as Model>::schema()), (4, T::Rec(vec![])), (11, <Item as Model>::schema()), (6, T::Rec(vec![])), (29, T::Rec(vec![(11, Dflt(<Option<Late> as Default>::default().model()), <Option<Late> as Model>::schema())])), (7, T::Rec(vec![])), (10, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (16, T::Rec(vec![(37, Dflt(<F32 as Default>::default().model()), <F32 as Model>::schema()), (28, Omit(M::Opt(None)), <Option<Tup> as Model>::schema()), (9, Dflt(<BTreeMap<String, u64> as Default>::default().model()), <BTreeMap<String, u64> as Model>::schema())])), (8, T::Rec(vec![])), (19, T::Rec(vec![(1, Dflt(<Option<Vec<Option<i32>>> as Default>::default().model()), <Option<Vec<Option<i32>>> as Model>::schema()), (9, Must, <u16 as Model>::schema()), (4, Omit(M::Opt(None)), <Option<Vec<Addr>> as Model>::schema()), (18, Dflt(<() as Default>::default().model()), <() as Model>::schema())])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c")]
pub enum Adj {
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] W23(Option<u64>),
    #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] W17,
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] W10 {
        #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] g1: Box<u32>,
        #[musli(Binary, name = 0)] #[musli(Text, name = "k0")] #[musli(default)] g0: Option<Addr>,
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] g9: char,
        #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] #[musli(default)] g10: bool,
    },
    #[musli(Binary, name = 15)] #[musli(Text, name = "15")] W15(Vec<u8>),
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] W6 {
        #[musli(Binary, name = 35)] #[musli(Text, name = "quo\"te35")] #[musli(default)] g35: Option<Addr>,
    },
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] W4,
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] W19 {
        #[musli(Binary, name = 39)] #[musli(Text, name = "39")] #[musli(default)] g39: String,
        #[musli(Binary, name = 25)] #[musli(Text, name = "key-25")] g25: i128,
        #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] #[musli(default)] g17: Vec<Named>,
    },
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] W7 {
        #[musli(Binary, name = 34)] #[musli(Text, name = "naïve 34")] #[musli(default)] g34: Box<str>,
    },
}
impl Gen for Adj { fn gen() -> Self { match choose(8) {
    0 => Adj::W23(Gen::gen()),
    1 => Adj::W17,
    2 => Adj::W10 { g1: Gen::gen(), g0: Gen::gen(), g9: Gen::gen(), g10: Gen::gen() },
    3 => Adj::W15(Gen::gen()),
    4 => Adj::W6 { g35: Gen::gen() },
    5 => Adj::W4,
    6 => Adj::W19 { g39: Gen::gen(), g25: Gen::gen(), g17: Gen::gen() },
    _ => Adj::W7 { g34: Gen::gen() },
} } }
impl Model for Adj {
    fn model(&self) -> M { match self { Adj::W23(a) => M::Var(23, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::W17 => M::Var(17, Box::new(M::Rec(Default::default()))), Adj::W10 { g1, g0, g9, g10 } => M::Var(10, Box::new(M::Rec([(1, g1.model()), (0, g0.model()), (9, g9.model()), (10, g10.model())].into_iter().collect()))), Adj::W15(a) => M::Var(15, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::W6 { g35 } => M::Var(6, Box::new(M::Rec([(35, g35.model())].into_iter().collect()))), Adj::W4 => M::Var(4, Box::new(M::Rec(Default::default()))), Adj::W19 { g39, g25, g17 } => M::Var(19, Box::new(M::Rec([(39, g39.model()), (25, g25.model()), (17, g17.model())].into_iter().collect()))), Adj::W7 { g34 } => M::Var(7, Box::new(M::Rec([(34, g34.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(23, T::Rec(vec![(0, Must, <Option<u64> as Model>::schema())])), (17, T::Rec(vec![])), (10, T::Rec(vec![(1, Must, <Box<u32> as Model>::schema()), (0, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema()), (9, Must, <char as Model>::schema()), (10, Dflt(<bool as Default>::default().model()), <bool as Model>::schema())])), (15, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (6, T::Rec(vec![(35, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())])), (4, T::Rec(vec![])), (19, T::Rec(vec![(39, Dflt(<String as Default>::default().model()), <String as Model>::schema()), (25, Must, <i128 as Model>::schema()), (17, Dflt(<Vec<Named> as Default>::default().model()), <Vec<Named> as Model>::schema())])), (7, T::Rec(vec![(34, Dflt(<Box<str> as Default>::default().model()), <Box<str> as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
pub enum Job {
     V13,
    #[musli(name_all = "name")] V23 {
        #[musli(default)] f33: i16,
        #[musli(default)] f16: usize,
    },
    #[musli(name_all = "name")] V8 {
    },
     V29,
    #[musli(name_all = "name")] V7 {
        #[musli(default)] f28: (),
        #[musli(default, skip_encoding_if = Option::is_none)] f23: Option<Vec<String>>,
        #[musli(default)] f34: Option<Addr>,
    },
}
impl Gen for Job { fn gen() -> Self { match choose(5) {
    0 => Job::V13,
    1 => Job::V23 { f33: Gen::gen(), f16: Gen::gen() },
    2 => Job::V8 {  },
    3 => Job::V29,
    _ => Job::V7 { f28: Gen::gen(), f23: Gen::gen(), f34: Gen::gen() },
} } }
impl Model for Job {
    fn model(&self) -> M { match self { Job::V13 => M::Var(13, Box::new(M::Rec(Default::default()))), Job::V23 { f33, f16 } => M::Var(23, Box::new(M::Rec([(33, f33.model()), (16, f16.model())].into_iter().collect()))), Job::V8 {  } => M::Var(8, Box::new(M::Rec([].into_iter().collect()))), Job::V29 => M::Var(29, Box::new(M::Rec(Default::default()))), Job::V7 { f28, f23, f34 } => M::Var(7, Box::new(M::Rec([(28, f28.model()), (23, f23.model()), (34, f34.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(13, T::Rec(vec![])), (23, T::Rec(vec![(33, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (16, Dflt(<usize as Default>::default().model()), <usize as Model>::schema())])), (8, T::Rec(vec![])), (29, T::Rec(vec![])), (7, T::Rec(vec![(28, Dflt(<() as Default>::default().model()), <() as Model>::schema()), (23, Omit(M::Opt(None)), <Option<Vec<String>> as Model>::schema()), (34, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub enum Word {
    #[musli(name = "quo\"te19")] #[musli(name(type = str))] W19 {
    },
    #[musli(name = "15")] W15,
    #[musli(name = "sl\\ash/20")] W20(u32),
    #[musli(name = "\u{1F600}6")] #[musli(name(type = str))] W6 {
        #[musli(name = "\u{1F600}6")] g6: Option<Addr>,
        #[musli(name = "key-9")] #[musli(default)] g9: BTreeMap<String, i32>,
        #[musli(name = "k16")] #[musli(default)] g16: String,
    },
    #[musli(name = "naïve 2")] W2,
}
impl Gen for Word { fn gen() -> Self { match choose(5) {
    0 => Word::W19 {  },
    1 => Word::W15,
    2 => Word::W20(Gen::gen()),
    3 => Word::W6 { g6: Gen::gen(), g9: Gen::gen(), g16: Gen::gen() },
    _ => Word::W2,
} } }
impl Model for Word {
    fn model(&self) -> M { match self { Word::W19 {  } => M::Var(19, Box::new(M::Rec([].into_iter().collect()))), Word::W15 => M::Var(15, Box::new(M::Rec(Default::default()))), Word::W20(a) => M::Var(20, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Word::W6 { g6, g9, g16 } => M::Var(6, Box::new(M::Rec([(6, g6.model()), (9, g9.model()), (16, g16.model())].into_iter().collect()))), Word::W2 => M::Var(2, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(19, T::Rec(vec![])), (15, T::Rec(vec![])), (20, T::Rec(vec![(0, Must, <u32 as Model>::schema())])), (6, T::Rec(vec![(6, Must, <Option<Addr> as Model>::schema()), (9, Dflt(<BTreeMap<String, i32> as Default>::default().model()), <BTreeMap<String, i32> as Model>::schema()), (16, Dflt(<String as Default>::default().model()), <String as Model>::schema())])), (2, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Root {
    #[musli(Binary, name = 64)] #[musli(Text, name = "k64")] pub g64: BTreeMap<String, Addr>,
    #[musli(Binary, name = 163)] #[musli(Text, name = "quo\"te163")] pub g163: u128,
    #[musli(Binary, name = 265)] #[musli(Text, name = "key-265")] #[musli(default)] pub g265: BTreeMap<String, i64>,
    #[musli(Binary, name = 209)] #[musli(Text, name = "key-209")] pub g209: Option<Adj>,
    #[musli(Binary, name = 254)] #[musli(Text, name = "\u{1F600}254")] #[musli(default)] pub g254: Wrapping<i8>,
    #[musli(Binary, name = 52)] #[musli(Text, name = "sl\\ash/52")] #[musli(default, skip_encoding_if = Option::is_none)] pub g52: Option<Vec<Vec<u8>>>,
    #[musli(Binary, name = 24)] #[musli(Text, name = "k24")] pub g24: Option<NonZeroU16>,
    #[musli(Binary, name = 253)] #[musli(Text, name = "K253")] #[musli(default, skip_encoding_if = Option::is_none)] pub g253: Option<BTreeMap<String, i32>>,
    #[musli(Binary, name = 401)] #[musli(Text, name = "key-401")] #[musli(default)] pub g401: Vec<Late>,
    #[musli(Binary, name = 269)] #[musli(Text, name = "K269")] #[musli(default, skip_encoding_if = Option::is_none)] pub g269: Option<Box<Late>>,
    #[musli(Binary, name = 408)] #[musli(Text, name = "k408")] #[musli(default)] pub g408: Vec<Word>,
    #[musli(Binary, name = 404)] #[musli(Text, name = "sl\\ash/404")] pub g404: Vec<Named>,
    #[musli(Binary, name = 282)] #[musli(Text, name = "naïve 282")] #[musli(default)] pub g282: String,
    #[musli(Binary, name = 137)] #[musli(Text, name = "key-137")] #[musli(skip_encoding_if = Option::is_none, default)] pub g137: Option<Box<Odd>>,
    #[musli(Binary, name = 203)] #[musli(Text, name = "quo\"te203")] #[musli(default, skip_encoding_if = Option::is_none)] pub g203: Option<Word>,
    #[musli(Binary, name = 406)] #[musli(Text, name = "\u{1F600}406")] pub g406: Vec<Late>,
    #[musli(Binary, name = 243)] #[musli(Text, name = "quo\"te243")] #[musli(default)] pub g243: Vec<String>,
    #[musli(Binary, name = 29)] #[musli(Text, name = "K29")] #[musli(default)] pub g29: Option<BTreeMap<String, Named>>,
    #[musli(Binary, name = 96)] #[musli(Text, name = "k96")] #[musli(default)] pub g96: BTreeMap<String, Word>,
    #[musli(Binary, name = 290)] #[musli(Text, name = "naïve 290")] pub g290: Option<Color>,
    #[musli(Binary, name = 218)] #[musli(Text, name = "naïve 218")] #[musli(default)] pub g218: F64,
    #[musli(Binary, name = 403)] #[musli(Text, name = "quo\"te403")] #[musli(default)] pub g403: BTreeMap<String, Color>,
    #[musli(Binary, name = 124)] #[musli(Text, name = "sl\\ash/124")] pub g124: Vec<Color>,
    #[musli(Binary, name = 400)] #[musli(Text, name = "k400")] pub g400: Kind,
    #[musli(Binary, name = 272)] #[musli(Text, name = "k272")] #[musli(default)] pub g272: Option<Late>,
    #[musli(Binary, name = 83)] #[musli(Text, name = "quo\"te83")] #[musli(skip_encoding_if = Option::is_none, default)] pub g83: Option<Vec<(u32, i64, Vec<String>)>>,
    #[musli(Binary, name = 185)] #[musli(Text, name = "key-185")] #[musli(skip_encoding_if = Option::is_none, default)] pub g185: Option<Addr>,
}
impl Gen for Root { fn gen() -> Self { Root { g64: Gen::gen(), g163: Gen::gen(), g265: Gen::gen(), g209: Gen::gen(), g254: Gen::gen(), g52: Gen::gen(), g24: Gen::gen(), g253: Gen::gen(), g401: Gen::gen(), g269: Gen::gen(), g408: Gen::gen(), g404: Gen::gen(), g282: Gen::gen(), g137: Gen::gen(), g203: Gen::gen(), g406: Gen::gen(), g243: Gen::gen(), g29: Gen::gen(), g96: Gen::gen(), g290: Gen::gen(), g218: Gen::gen(), g403: Gen::gen(), g124: Gen::gen(), g400: Gen::gen(), g272: Gen::gen(), g83: Gen::gen(), g185: Gen::gen() } } }
impl Model for Root {
    fn model(&self) -> M { M::Rec([(64, self.g64.model()), (163, self.g163.model()), (265, self.g265.model()), (209, self.g209.model()), (254, self.g254.model()), (52, self.g52.model()), (24, self.g24.model()), (253, self.g253.model()), (401, self.g401.model()), (269, self.g269.model()), (408, self.g408.model()), (404, self.g404.model()), (282, self.g282.model()), (137, self.g137.model()), (203, self.g203.model()), (406, self.g406.model()), (243, self.g243.model()), (29, self.g29.model()), (96, self.g96.model()), (290, self.g290.model()), (218, self.g218.model()), (403, self.g403.model()), (124, self.g124.model()), (400, self.g400.model()), (272, self.g272.model()), (83, self.g83.model()), (185, self.g185.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(64, Must, <BTreeMap<String, Addr> as Model>::schema()), (163, Must, <u128 as Model>::schema()), (265, Dflt(<BTreeMap<String, i64> as Default>::default().model()), <BTreeMap<String, i64> as Model>::schema()), (209, Must, <Option<Adj> as Model>::schema()), (254, Dflt(<Wrapping<i8> as Default>::default().model()), <Wrapping<i8> as Model>::schema()), (52, Omit(M::Opt(None)), <Option<Vec<Vec<u8>>> as Model>::schema()), (24, Must, <Option<NonZeroU16> as Model>::schema()), (253, Omit(M::Opt(None)), <Option<BTreeMap<String, i32>> as Model>::schema()), (401, Dflt(<Vec<Late> as Default>::default().model()), <Vec<Late> as Model>::schema()), (269, Omit(M::Opt(None)), <Option<Box<Late>> as Model>::schema()), (408, Dflt(<Vec<Word> as Default>::default().model()), <Vec<Word> as Model>::schema()), (404, Must, <Vec<Named> as Model>::schema()), (282, Dflt(<String as Default>::default().model()), <String as Model>::schema()), (137, Omit(M::Opt(None)), <Option<Box<Odd>> as Model>::schema()), (203, Omit(M::Opt(None)), <Option<Word> as Model>::schema()), (406, Must, <Vec<Late> as Model>::schema()), (243, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (29, Dflt(<Option<BTreeMap<String, Named>> as Default>::default().model()), <Option<BTreeMap<String, Named>> as Model>::schema()), (96, Dflt(<BTreeMap<String, Word> as Default>::default().model()), <BTreeMap<String, Word> as Model>::schema()), (290, Must, <Option<Color> as Model>::schema()), (218, Dflt(<F64 as Default>::default().model()), <F64 as Model>::schema()), (403, Dflt(<BTreeMap<String, Color> as Default>::default().model()), <BTreeMap<String, Color> as Model>::schema()), (124, Must, <Vec<Color> as Model>::schema()), (400, Must, <Kind as Model>::schema()), (272, Dflt(<Option<Late> as Default>::default().model()), <Option<Late> as Model>::schema()), (83, Omit(M::Opt(None)), <Option<Vec<(u32, i64, Vec<String>)>> as Model>::schema()), (185, Omit(M::Opt(None)), <Option<Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Big {
    #[musli(name = "sl\\ash/4")] #[musli(default)] pub g4: Vec<String>,
    #[musli(name = "k16")] pub g16: Vec<Kind>,
    #[musli(name = "K37")] #[musli(default)] pub g37: Option<Adj>,
    #[musli(name = "23")] #[musli(default)] pub g23: BTreeMap<String, bool>,
    #[musli(name = "key-25")] #[musli(default)] pub g25: i16,
    #[musli(name = "quo\"te3")] #[musli(default, skip_encoding_if = Option::is_none)] pub g3: Option<u64>,
    #[musli(name = "key-17")] pub g17: Box<usize>,
    #[musli(name = "naïve 10")] #[musli(default)] pub g10: Vec<Vec<u8>>,
    #[musli(name = "sl\\ash/36")] #[musli(default)] pub g36: i16,
    #[musli(name = "k32")] pub g32: Option<Named>,
    #[musli(name = "39")] #[musli(skip_encoding_if = Option::is_none, default)] pub g39: Option<BTreeMap<u32, String>>,
}
impl Gen for Big { fn gen() -> Self { Big { g4: Gen::gen(), g16: Gen::gen(), g37: Gen::gen(), g23: Gen::gen(), g25: Gen::gen(), g3: Gen::gen(), g17: Gen::gen(), g10: Gen::gen(), g36: Gen::gen(), g32: Gen::gen(), g39: Gen::gen() } } }
impl Model for Big {
    fn model(&self) -> M { M::Rec([(4, self.g4.model()), (16, self.g16.model()), (37, self.g37.model()), (23, self.g23.model()), (25, self.g25.model()), (3, self.g3.model()), (17, self.g17.model()), (10, self.g10.model()), (36, self.g36.model()), (32, self.g32.model()), (39, self.g39.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(4, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (16, Must, <Vec<Kind> as Model>::schema()), (37, Dflt(<Option<Adj> as Default>::default().model()), <Option<Adj> as Model>::schema()), (23, Dflt(<BTreeMap<String, bool> as Default>::default().model()), <BTreeMap<String, bool> as Model>::schema()), (25, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (3, Omit(M::Opt(None)), <Option<u64> as Model>::schema()), (17, Must, <Box<usize> as Model>::schema()), (10, Dflt(<Vec<Vec<u8>> as Default>::default().model()), <Vec<Vec<u8>> as Model>::schema()), (36, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (32, Must, <Option<Named> as Model>::schema()), (39, Omit(M::Opt(None)), <Option<BTreeMap<u32, String>> as Model>::schema())]) }
}
}
pub mod v5 {
use super::*;
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Addr {
    #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] pub h28: Option<BTreeMap<String, u64>>,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] #[musli(skip_encoding_if = Option::is_none, default)] pub h8: Option<i8>,
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] pub h37: i32,
}
impl Gen for Addr { fn gen() -> Self { Addr { h28: Gen::gen(), h8: Gen::gen(), h37: Gen::gen() } } }
impl Model for Addr {
    fn model(&self) -> M { M::Rec([(28, self.h28.model()), (8, self.h8.model()), (37, self.h37.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(28, Must, <Option<BTreeMap<String, u64>> as Model>::schema()), (8, Omit(M::Opt(None)), <Option<i8> as Model>::schema()), (37, Must, <i32 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(Binary, name(type = u16))]
pub struct Item {
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] #[musli(default)] pub h23: Vec<Addr>,
    #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] #[musli(skip_encoding_if = Option::is_none, default)] pub h37: Option<Vec<()>>,
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] pub h8: Option<Color>,
    #[musli(Binary, name = 31)] #[musli(Text, name = "31")] #[musli(default)] pub h31: i128,
    #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] pub h4: Option<Color>,
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] #[musli(default)] pub h16: Vec<Color>,
    #[musli(Binary, name = 0)] #[musli(Text, name = "k0")] pub h0: Vec<Addr>,
    #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] pub h1: Option<Addr>,
    #[musli(Binary, name = 38)] #[musli(Text, name = "\u{1F600}38")] #[musli(default, skip_encoding_if = Option::is_none)] pub h38: Option<BTreeMap<String, u64>>,
}
impl Gen for Item { fn gen() -> Self { Item { h23: Gen::gen(), h37: Gen::gen(), h8: Gen::gen(), h31: Gen::gen(), h4: Gen::gen(), h16: Gen::gen(), h0: Gen::gen(), h1: Gen::gen(), h38: Gen::gen() } } }
impl Model for Item {
    fn model(&self) -> M { M::Rec([(23, self.h23.model()), (37, self.h37.model()), (8, self.h8.model()), (31, self.h31.model()), (4, self.h4.model()), (16, self.h16.model()), (0, self.h0.model()), (1, self.h1.model()), (38, self.h38.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(23, Dflt(<Vec<Addr> as Default>::default().model()), <Vec<Addr> as Model>::schema()), (37, Omit(M::Opt(None)), <Option<Vec<()>> as Model>::schema()), (8, Must, <Option<Color> as Model>::schema()), (31, Dflt(<i128 as Default>::default().model()), <i128 as Model>::schema()), (4, Must, <Option<Color> as Model>::schema()), (16, Dflt(<Vec<Color> as Default>::default().model()), <Vec<Color> as Model>::schema()), (0, Must, <Vec<Addr> as Model>::schema()), (1, Must, <Option<Addr> as Model>::schema()), (38, Omit(M::Opt(None)), <Option<BTreeMap<String, u64>> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Named {
    #[musli(default, skip_encoding_if = Option::is_none)] pub f22: Option<Addr>,
    #[musli(default)] pub f37: BTreeMap<String, u64>,
    #[musli(skip_encoding_if = Option::is_none, default)] pub f36: Option<Vec<Color>>,
     pub f25: NonZeroU16,
}
impl Gen for Named { fn gen() -> Self { Named { f22: Gen::gen(), f37: Gen::gen(), f36: Gen::gen(), f25: Gen::gen() } } }
impl Model for Named {
    fn model(&self) -> M { M::Rec([(22, self.f22.model()), (37, self.f37.model()), (36, self.f36.model()), (25, self.f25.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(22, Omit(M::Opt(None)), <Option<Addr> as Model>::schema()), (37, Dflt(<BTreeMap<String, u64> as Default>::default().model()), <BTreeMap<String, u64> as Model>::schema()), (36, Omit(M::Opt(None)), <Option<Vec<Color>> as Model>::schema()), (25, Must, <NonZeroU16 as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = i32))]
pub struct Odd {
    #[musli(name = -6)] #[musli(default)] pub h14: Option<Addr>,
    #[musli(name = 10)] #[musli(skip_encoding_if = Option::is_none, default)] pub h30: Option<Box<String>>,
    #[musli(name = 1)] #[musli(default)] pub h21: Option<Addr>,
    #[musli(name = -10)] #[musli(default)] pub h10: F64,
    #[musli(name = 9)] pub h29: isize,
    #[musli(name = -5)] #[musli(default)] pub h15: BTreeMap<String, Addr>,
    #[musli(name = -17)] #[musli(default)] pub h3: BTreeMap<String, [u16; 3]>,
}
impl Gen for Odd { fn gen() -> Self { Odd { h14: Gen::gen(), h30: Gen::gen(), h21: Gen::gen(), h10: Gen::gen(), h29: Gen::gen(), h15: Gen::gen(), h3: Gen::gen() } } }
impl Model for Odd {
    fn model(&self) -> M { M::Rec([(14, self.h14.model()), (30, self.h30.model()), (21, self.h21.model()), (10, self.h10.model()), (29, self.h29.model()), (15, self.h15.model()), (3, self.h3.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(14, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema()), (30, Omit(M::Opt(None)), <Option<Box<String>> as Model>::schema()), (21, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema()), (10, Dflt(<F64 as Default>::default().model()), <F64 as Model>::schema()), (29, Must, <isize as Model>::schema()), (15, Dflt(<BTreeMap<String, Addr> as Default>::default().model()), <BTreeMap<String, Addr> as Model>::schema()), (3, Dflt(<BTreeMap<String, [u16; 3]> as Default>::default().model()), <BTreeMap<String, [u16; 3]> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Late {
    #[musli(name = "k8")] #[musli(skip_encoding_if = Option::is_none, default)] pub h8: Option<i16>,
    #[musli(name = "key-1")] #[musli(default, skip_encoding_if = Option::is_none)] pub h1: Option<Result<u32, String>>,
    #[musli(name = "sl\\ash/12")] #[musli(default, skip_encoding_if = Option::is_none)] pub h12: Option<bool>,
}
impl Gen for Late { fn gen() -> Self { Late { h8: Gen::gen(), h1: Gen::gen(), h12: Gen::gen() } } }
impl Model for Late {
    fn model(&self) -> M { M::Rec([(8, self.h8.model()), (1, self.h1.model()), (12, self.h12.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(8, Omit(M::Opt(None)), <Option<i16> as Model>::schema()), (1, Omit(M::Opt(None)), <Option<Result<u32, String>> as Model>::schema()), (12, Omit(M::Opt(None)), <Option<bool> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub struct Tup(#[musli(name = 0)] pub u32, #[musli(name = 1)] pub TrStr, #[musli(name = 2)] #[musli(default)] pub Option<Addr>);
impl Gen for Tup { fn gen() -> Self { Tup(Gen::gen(), Gen::gen(), Gen::gen()) } }
impl Model for Tup {
    fn model(&self) -> M { M::Rec([(0, self.0.model()), (1, self.1.model()), (2, self.2.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(0, Must, <u32 as Model>::schema()), (1, Must, <TrStr as Model>::schema()), (2, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub enum Color {
    #[musli(name = 0)] X0,
    #[musli(name = 15)] X15,
    #[musli(name = 13)] X13,
    #[musli(name = 25)] X25,
    #[musli(name = 29)] X29,
    #[musli(name = 17)] X17,
    #[musli(name = 9)] X9,
}
impl Gen for Color { fn gen() -> Self { match choose(7) {
    0 => Color::X0,
    1 => Color::X15,
    2 => Color::X13,
    3 => Color::X25,
    4 => Color::X29,
    5 => Color::X17,
    _ => Color::X9,
} } }
impl Model for Color {
    fn model(&self) -> M { match self { Color::X0 => M::Var(0, Box::new(M::Rec(Default::default()))), Color::X15 => M::Var(15, Box::new(M::Rec(Default::default()))), Color::X13 => M::Var(13, Box::new(M::Rec(Default::default()))), Color::X25 => M::Var(25, Box::new(M::Rec(Default::default()))), Color::X29 => M::Var(29, Box::new(M::Rec(Default::default()))), Color::X17 => M::Var(17, Box::new(M::Rec(Default::default()))), Color::X9 => M::Var(9, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(0, T::Rec(vec![])), (15, T::Rec(vec![])), (13, T::Rec(vec![])), (25, T::Rec(vec![])), (29, T::Rec(vec![])), (17, T::Rec(vec![])), (9, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Kind {
    #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] #[musli(transparent)] X11(Item),
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] X10(Vec<u8>),
    #[musli(Binary, name = 16)] #[musli(Text, name = "k16")] X16 {
        #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] #[musli(skip_encoding_if = Option::is_none, default)] h28: Option<Tup>,
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] h9: BTreeMap<String, u64>,
        #[musli(Binary, name = 13)] #[musli(Text, name = "K13")] #[musli(default, skip_encoding_if = Option::is_none)] h13: Option<Color>,
        #[musli(Binary, name = 37)] #[musli(Text, name = "K37")] #[musli(default)] h37: F32,
    },
    #[musli(Binary, name = 29)] #[musli(Text, name = "K29")] X29 {
        #[musli(Binary, name = 29)] #[musli(Text, name = "K29")] #[musli(default, skip_encoding_if = Option::is_none)] h29: Option<u128>,
        #[musli(Binary, name = 11)] #[musli(Text, name = "quo\"te11")] h11: Option<Late>,
    },
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] X6,
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] X7,
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] X19 {
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] h9: u16,
        #[musli(Binary, name = 4)] #[musli(Text, name = "sl\\ash/4")] #[musli(default, skip_encoding_if = Option::is_none)] h4: Option<Vec<Addr>>,
    },
    #[musli(Binary, name = 8)] #[musli(Text, name = "k8")] X8,
}
impl Gen for Kind { fn gen() -> Self { match choose(8) {
    0 => Kind::X11(Gen::gen()),
    1 => Kind::X10(Gen::gen()),
    2 => Kind::X16 { h28: Gen::gen(), h9: Gen::gen(), h13: Gen::gen(), h37: Gen::gen() },
    3 => Kind::X29 { h29: Gen::gen(), h11: Gen::gen() },
    4 => Kind::X6,
    5 => Kind::X7,
    6 => Kind::X19 { h9: Gen::gen(), h4: Gen::gen() },
    _ => Kind::X8,
} } }
impl Model for Kind {
    fn model(&self) -> M { match self { Kind::X11(a) => M::Var(11, Box::new(a.model())), Kind::X10(a) => M::Var(10, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Kind::X16 { h28, h9, h13, h37 } => M::Var(16, Box::new(M::Rec([(28, h28.model()), (9, h9.model()), (13, h13.model()), (37, h37.model())].into_iter().collect()))), Kind::X29 { h29, h11 } => M::Var(29, Box::new(M::Rec([(29, h29.model()), (11, h11.model())].into_iter().collect()))), Kind::X6 => M::Var(6, Box::new(M::Rec(Default::default()))), Kind::X7 => M::Var(7, Box::new(M::Rec(Default::default()))), Kind::X19 { h9, h4 } => M::Var(19, Box::new(M::Rec([(9, h9.model()), (4, h4.model())].into_iter().collect()))), Kind::X8 => M::Var(8, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(11, <Item as Model>::schema()), (10, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (16, T::Rec(vec![(28, Omit(M::Opt(None)), <Option<Tup> as Model>::schema()), (9, Must, <BTreeMap<String, u64> as Model>::schema()), (13, Omit(M::Opt(None)), <Option<Color> as Model>::schema()), (37, Dflt(<F32 as Default>::default().model()), <F32 as Model>::schema())])), (29, T::Rec(vec![(29, Omit(M::Opt(None)), <Option<u128> as Model>::schema()), (11, Must, <Option<Late> as Model>::schema())])), (6, T::Rec(vec![])), (7, T::Rec(vec![])), (19, T::Rec(vec![(9, Must, <u16 as Model>::schema()), (4, Omit(M::Opt(None)), <Option<Vec<Addr>> as Model>::schema())])), (8, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c")]
pub enum Adj {
    #[musli(Binary, name = 23)] #[musli(Text, name = "23")] X23(Option<u64>),
    #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] X10 {
        #[musli(Binary, name = 1)] #[musli(Text, name = "key-1")] h1: Box<u32>,
        #[musli(Binary, name = 0)] #[musli(Text, name = "k0")] #[musli(default)] h0: Option<Addr>,
        #[musli(Binary, name = 10)] #[musli(Text, name = "naïve 10")] #[musli(default)] h10: bool,
        #[musli(Binary, name = 9)] #[musli(Text, name = "key-9")] h9: char,
    },
    #[musli(Binary, name = 7)] #[musli(Text, name = "7")] X7 {
        #[musli(Binary, name = 34)] #[musli(Text, name = "naïve 34")] #[musli(default)] h34: Box<str>,
        #[musli(Binary, name = 20)] #[musli(Text, name = "sl\\ash/20")] #[musli(default, skip_encoding_if = Option::is_none)] h20: Option<BTreeMap<String, Vec<u8>>>,
    },
    #[musli(Binary, name = 15)] #[musli(Text, name = "15")] X15(Vec<u8>),
    #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] X17,
    #[musli(Binary, name = 19)] #[musli(Text, name = "quo\"te19")] X19 {
        #[musli(Binary, name = 39)] #[musli(Text, name = "39")] #[musli(default)] h39: String,
        #[musli(Binary, name = 25)] #[musli(Text, name = "key-25")] h25: i128,
        #[musli(Binary, name = 17)] #[musli(Text, name = "key-17")] #[musli(default)] h17: Vec<Named>,
        #[musli(Binary, name = 28)] #[musli(Text, name = "sl\\ash/28")] #[musli(skip_encoding_if = Option::is_none, default)] h28: Option<Vec<Wrapping<i8>>>,
    },
    #[musli(Binary, name = 6)] #[musli(Text, name = "\u{1F600}6")] X6 {
        #[musli(Binary, name = 35)] #[musli(Text, name = "quo\"te35")] #[musli(default)] h35: Option<Addr>,
    },
}
impl Gen for Adj { fn gen() -> Self { match choose(7) {
    0 => Adj::X23(Gen::gen()),
    1 => Adj::X10 { h1: Gen::gen(), h0: Gen::gen(), h10: Gen::gen(), h9: Gen::gen() },
    2 => Adj::X7 { h34: Gen::gen(), h20: Gen::gen() },
    3 => Adj::X15(Gen::gen()),
    4 => Adj::X17,
    5 => Adj::X19 { h39: Gen::gen(), h25: Gen::gen(), h17: Gen::gen(), h28: Gen::gen() },
    _ => Adj::X6 { h35: Gen::gen() },
} } }
impl Model for Adj {
    fn model(&self) -> M { match self { Adj::X23(a) => M::Var(23, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::X10 { h1, h0, h10, h9 } => M::Var(10, Box::new(M::Rec([(1, h1.model()), (0, h0.model()), (10, h10.model()), (9, h9.model())].into_iter().collect()))), Adj::X7 { h34, h20 } => M::Var(7, Box::new(M::Rec([(34, h34.model()), (20, h20.model())].into_iter().collect()))), Adj::X15(a) => M::Var(15, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Adj::X17 => M::Var(17, Box::new(M::Rec(Default::default()))), Adj::X19 { h39, h25, h17, h28 } => M::Var(19, Box::new(M::Rec([(39, h39.model()), (25, h25.model()), (17, h17.model()), (28, h28.model())].into_iter().collect()))), Adj::X6 { h35 } => M::Var(6, Box::new(M::Rec([(35, h35.model())].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(23, T::Rec(vec![(0, Must, <Option<u64> as Model>::schema())])), (10, T::Rec(vec![(1, Must, <Box<u32> as Model>::schema()), (0, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema()), (10, Dflt(<bool as Default>::default().model()), <bool as Model>::schema()), (9, Must, <char as Model>::schema())])), (7, T::Rec(vec![(34, Dflt(<Box<str> as Default>::default().model()), <Box<str> as Model>::schema()), (20, Omit(M::Opt(None)), <Option<BTreeMap<String, Vec<u8>>> as Model>::schema())])), (15, T::Rec(vec![(0, Must, <Vec<u8> as Model>::schema())])), (17, T::Rec(vec![])), (19, T::Rec(vec![(39, Dflt(<String as Default>::default().model()), <String as Model>::schema()), (25, Must, <i128 as Model>::schema()), (17, Dflt(<Vec<Named> as Default>::default().model()), <Vec<Named> as Model>::schema()), (28, Omit(M::Opt(None)), <Option<Vec<Wrapping<i8>>> as Model>::schema())])), (6, T::Rec(vec![(35, Dflt(<Option<Addr> as Default>::default().model()), <Option<Addr> as Model>::schema())]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
pub enum Job {
    #[musli(name_all = "name")] V7 {
        #[musli(default)] f23: Option<Vec<String>>,
        #[musli(default, skip_encoding_if = Option::is_none)] f34: Option<Addr>,
    },
     V13,
     V29,
    #[musli(name_all = "name")] V23 {
        #[musli(default)] f33: i16,
        #[musli(default)] f16: usize,
    },
    #[musli(name_all = "name")] V8 {
    },
}
impl Gen for Job { fn gen() -> Self { match choose(5) {
    0 => Job::V7 { f23: Gen::gen(), f34: Gen::gen() },
    1 => Job::V13,
    2 => Job::V29,
    3 => Job::V23 { f33: Gen::gen(), f16: Gen::gen() },
    _ => Job::V8 {  },
} } }
impl Model for Job {
    fn model(&self) -> M { match self { Job::V7 { f23, f34 } => M::Var(7, Box::new(M::Rec([(23, f23.model()), (34, f34.model())].into_iter().collect()))), Job::V13 => M::Var(13, Box::new(M::Rec(Default::default()))), Job::V29 => M::Var(29, Box::new(M::Rec(Default::default()))), Job::V23 { f33, f16 } => M::Var(23, Box::new(M::Rec([(33, f33.model()), (16, f16.model())].into_iter().collect()))), Job::V8 {  } => M::Var(8, Box::new(M::Rec([].into_iter().collect()))) } }
    fn schema() -> T { T::Var(vec![(7, T::Rec(vec![(23, Dflt(<Option<Vec<String>> as Default>::default().model()), <Option<Vec<String>> as Model>::schema()), (34, Omit(M::Opt(None)), <Option<Addr> as Model>::schema())])), (13, T::Rec(vec![])), (29, T::Rec(vec![])), (23, T::Rec(vec![(33, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema()), (16, Dflt(<usize as Default>::default().model()), <usize as Model>::schema())])), (8, T::Rec(vec![]))], None) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub enum Word {
    #[musli(name = "15")] X15,
    #[musli(name = "sl\\ash/20")] X20(TrU32),
    #[musli(name = "quo\"te19")] #[musli(name(type = str))] X19 {
    },
    #[musli(name = "quo\"te11")] X11(Option<u64>),
    #[musli(name = "naïve 2")] X2,
    #[musli(name = "\u{1F600}6")] #[musli(name(type = str))] X6 {
        #[musli(name = "k16")] #[musli(default)] h16: TrStr,
        #[musli(name = "\u{1F600}6")] h6: Option<Addr>,
        #[musli(name = "key-9")] #[musli(default)] h9: BTreeMap<String, i32>,
    },
    #[musli(default)]  Unknown,
}
impl Gen for Word { fn gen() -> Self { match choose(6) {
    0 => Word::X15,
    1 => Word::X20(Gen::gen()),
    2 => Word::X19 {  },
    3 => Word::X11(Gen::gen()),
    4 => Word::X2,
    _ => Word::X6 { h16: Gen::gen(), h6: Gen::gen(), h9: Gen::gen() },
} } }
impl Model for Word {
    fn model(&self) -> M { match self { Word::X15 => M::Var(15, Box::new(M::Rec(Default::default()))), Word::X20(a) => M::Var(20, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Word::X19 {  } => M::Var(19, Box::new(M::Rec([].into_iter().collect()))), Word::X11(a) => M::Var(11, Box::new(M::Rec([(0, a.model())].into_iter().collect()))), Word::X2 => M::Var(2, Box::new(M::Rec(Default::default()))), Word::X6 { h16, h6, h9 } => M::Var(6, Box::new(M::Rec([(16, h16.model()), (6, h6.model()), (9, h9.model())].into_iter().collect()))), Word::Unknown => M::Var(9999, Box::new(M::Rec(Default::default()))) } }
    fn schema() -> T { T::Var(vec![(15, T::Rec(vec![])), (20, T::Rec(vec![(0, Must, <TrU32 as Model>::schema())])), (19, T::Rec(vec![])), (11, T::Rec(vec![(0, Must, <Option<u64> as Model>::schema())])), (2, T::Rec(vec![])), (6, T::Rec(vec![(16, Dflt(<TrStr as Default>::default().model()), <TrStr as Model>::schema()), (6, Must, <Option<Addr> as Model>::schema()), (9, Dflt(<BTreeMap<String, i32> as Default>::default().model()), <BTreeMap<String, i32> as Model>::schema())])), (9999, T::Rec(vec![]))], Some(9999)) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Root {
    #[musli(Binary, name = 83)] #[musli(Text, name = "quo\"te83")] #[musli(default)] pub h83: Option<Vec<(u32, i64, Vec<String>)>>,
    #[musli(Binary, name = 254)] #[musli(Text, name = "\u{1F600}254")] #[musli(default)] pub h254: Wrapping<i8>,
    #[musli(Binary, name = 409)] #[musli(Text, name = "key-409")] #[musli(default)] pub h409: BTreeMap<String, Item>,
    #[musli(Binary, name = 405)] #[musli(Text, name = "K405")] #[musli(default)] pub h405: Vec<Tup>,
    #[musli(Binary, name = 209)] #[musli(Text, name = "key-209")] pub h209: Option<Adj>,
    #[musli(Binary, name = 52)] #[musli(Text, name = "sl\\ash/52")] #[musli(default)] pub h52: Option<Vec<Vec<u8>>>,
    #[musli(Binary, name = 24)] #[musli(Text, name = "k24")] pub h24: Option<NonZeroU16>,
    #[musli(Binary, name = 265)] #[musli(Text, name = "key-265")] #[musli(default)] pub h265: BTreeMap<String, i64>,
    #[musli(Binary, name = 402)] #[musli(Text, name = "naïve 402")] #[musli(default)] pub h402: Option<Adj>,
    #[musli(Binary, name = 203)] #[musli(Text, name = "quo\"te203")] #[musli(default, skip_encoding_if = Option::is_none)] pub h203: Option<Word>,
    #[musli(Binary, name = 287)] #[musli(Text, name = "287")] #[musli(skip_encoding_if = Option::is_none, default)] pub h287: Option<Word>,
    #[musli(Binary, name = 137)] #[musli(Text, name = "key-137")] #[musli(default, skip_encoding_if = Option::is_none)] pub h137: Option<Box<Odd>>,
    #[musli(Binary, name = 29)] #[musli(Text, name = "K29")] #[musli(skip_encoding_if = Option::is_none, default)] pub h29: Option<BTreeMap<String, Named>>,
    #[musli(Binary, name = 404)] #[musli(Text, name = "sl\\ash/404")] pub h404: Vec<Named>,
    #[musli(Binary, name = 272)] #[musli(Text, name = "k272")] #[musli(skip_encoding_if = Option::is_none, default)] pub h272: Option<Late>,
    #[musli(Binary, name = 243)] #[musli(Text, name = "quo\"te243")] pub h243: Vec<String>,
    #[musli(Binary, name = 407)] #[musli(Text, name = "407")] #[musli(default)] pub h407: Option<Odd>,
    #[musli(Binary, name = 401)] #[musli(Text, name = "key-401")] #[musli(default)] pub h401: Vec<Late>,
    #[musli(Binary, name = 253)] #[musli(Text, name = "K253")] #[musli(default, skip_encoding_if = Option::is_none)] pub h253: Option<BTreeMap<String, i32>>,
    #[musli(Binary, name = 406)] #[musli(Text, name = "\u{1F600}406")] pub h406: Vec<Late>,
    #[musli(Binary, name = 290)] #[musli(Text, name = "naïve 290")] pub h290: Option<Color>,
    #[musli(Binary, name = 64)] #[musli(Text, name = "k64")] pub h64: BTreeMap<String, Addr>,
    #[musli(Binary, name = 163)] #[musli(Text, name = "quo\"te163")] pub h163: u128,
    #[musli(Binary, name = 96)] #[musli(Text, name = "k96")] #[musli(default)] pub h96: BTreeMap<String, Word>,
    #[musli(Binary, name = 282)] #[musli(Text, name = "naïve 282")] #[musli(default)] pub h282: String,
    #[musli(Binary, name = 400)] #[musli(Text, name = "k400")] pub h400: Kind,
    #[musli(Binary, name = 124)] #[musli(Text, name = "sl\\ash/124")] pub h124: Vec<Color>,
}
impl Gen for Root { fn gen() -> Self { Root { h83: Gen::gen(), h254: Gen::gen(), h409: Gen::gen(), h405: Gen::gen(), h209: Gen::gen(), h52: Gen::gen(), h24: Gen::gen(), h265: Gen::gen(), h402: Gen::gen(), h203: Gen::gen(), h287: Gen::gen(), h137: Gen::gen(), h29: Gen::gen(), h404: Gen::gen(), h272: Gen::gen(), h243: Gen::gen(), h407: Gen::gen(), h401: Gen::gen(), h253: Gen::gen(), h406: Gen::gen(), h290: Gen::gen(), h64: Gen::gen(), h163: Gen::gen(), h96: Gen::gen(), h282: Gen::gen(), h400: Gen::gen(), h124: Gen::gen() } } }
impl Model for Root {
    fn model(&self) -> M { M::Rec([(83, self.h83.model()), (254, self.h254.model()), (409, self.h409.model()), (405, self.h405.model()), (209, self.h209.model()), (52, self.h52.model()), (24, self.h24.model()), (265, self.h265.model()), (402, self.h402.model()), (203, self.h203.model()), (287, self.h287.model()), (137, self.h137.model()), (29, self.h29.model()), (404, self.h404.model()), (272, self.h272.model()), (243, self.h243.model()), (407, self.h407.model()), (401, self.h401.model()), (253, self.h253.model()), (406, self.h406.model()), (290, self.h290.model()), (64, self.h64.model()), (163, self.h163.model()), (96, self.h96.model()), (282, self.h282.model()), (400, self.h400.model()), (124, self.h124.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(83, Dflt(<Option<Vec<(u32, i64, Vec<String>)>> as Default>::default().model()), <Option<Vec<(u32, i64, Vec<String>)>> as Model>::schema()), (254, Dflt(<Wrapping<i8> as Default>::default().model()), <Wrapping<i8> as Model>::schema()), (409, Dflt(<BTreeMap<String, Item> as Default>::default().model()), <BTreeMap<String, Item> as Model>::schema()), (405, Dflt(<Vec<Tup> as Default>::default().model()), <Vec<Tup> as Model>::schema()), (209, Must, <Option<Adj> as Model>::schema()), (52, Dflt(<Option<Vec<Vec<u8>>> as Default>::default().model()), <Option<Vec<Vec<u8>>> as Model>::schema()), (24, Must, <Option<NonZeroU16> as Model>::schema()), (265, Dflt(<BTreeMap<String, i64> as Default>::default().model()), <BTreeMap<String, i64> as Model>::schema()), (402, Dflt(<Option<Adj> as Default>::default().model()), <Option<Adj> as Model>::schema()), (203, Omit(M::Opt(None)), <Option<Word> as Model>::schema()), (287, Omit(M::Opt(None)), <Option<Word> as Model>::schema()), (137, Omit(M::Opt(None)), <Option<Box<Odd>> as Model>::schema()), (29, Omit(M::Opt(None)), <Option<BTreeMap<String, Named>> as Model>::schema()), (404, Must, <Vec<Named> as Model>::schema()), (272, Omit(M::Opt(None)), <Option<Late> as Model>::schema()), (243, Must, <Vec<String> as Model>::schema()), (407, Dflt(<Option<Odd> as Default>::default().model()), <Option<Odd> as Model>::schema()), (401, Dflt(<Vec<Late> as Default>::default().model()), <Vec<Late> as Model>::schema()), (253, Omit(M::Opt(None)), <Option<BTreeMap<String, i32>> as Model>::schema()), (406, Must, <Vec<Late> as Model>::schema()), (290, Must, <Option<Color> as Model>::schema()), (64, Must, <BTreeMap<String, Addr> as Model>::schema()), (163, Must, <u128 as Model>::schema()), (96, Dflt(<BTreeMap<String, Word> as Default>::default().model()), <BTreeMap<String, Word> as Model>::schema()), (282, Dflt(<String as Default>::default().model()), <String as Model>::schema()), (400, Must, <Kind as Model>::schema()), (124, Must, <Vec<Color> as Model>::schema())]) }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
pub struct Big {
    #[musli(name = "sl\\ash/4")] #[musli(default)] pub h4: Vec<String>,
    #[musli(name = "key-17")] pub h17: Box<usize>,
    #[musli(name = "k16")] pub h16: Vec<Kind>,
    #[musli(name = "quo\"te3")] #[musli(default, skip_encoding_if = Option::is_none)] pub h3: Option<u64>,
    #[musli(name = "23")] #[musli(default)] pub h23: BTreeMap<String, bool>,
    #[musli(name = "k32")] pub h32: Option<Named>,
    #[musli(name = "naïve 10")] #[musli(default)] pub h10: Vec<Vec<u8>>,
    #[musli(name = "quo\"te35")] #[musli(skip_encoding_if = Option::is_none, default)] pub h35: Option<Wrapping<i8>>,
    #[musli(name = "sl\\ash/36")] #[musli(default)] pub h36: i16,
}
impl Gen for Big { fn gen() -> Self { Big { h4: Gen::gen(), h17: Gen::gen(), h16: Gen::gen(), h3: Gen::gen(), h23: Gen::gen(), h32: Gen::gen(), h10: Gen::gen(), h35: Gen::gen(), h36: Gen::gen() } } }
impl Model for Big {
    fn model(&self) -> M { M::Rec([(4, self.h4.model()), (17, self.h17.model()), (16, self.h16.model()), (3, self.h3.model()), (23, self.h23.model()), (32, self.h32.model()), (10, self.h10.model()), (35, self.h35.model()), (36, self.h36.model())].into_iter().collect()) }
    fn schema() -> T { T::Rec(vec![(4, Dflt(<Vec<String> as Default>::default().model()), <Vec<String> as Model>::schema()), (17, Must, <Box<usize> as Model>::schema()), (16, Must, <Vec<Kind> as Model>::schema()), (3, Omit(M::Opt(None)), <Option<u64> as Model>::schema()), (23, Dflt(<BTreeMap<String, bool> as Default>::default().model()), <BTreeMap<String, bool> as Model>::schema()), (32, Must, <Option<Named> as Model>::schema()), (10, Dflt(<Vec<Vec<u8>> as Default>::default().model()), <Vec<Vec<u8>> as Model>::schema()), (35, Omit(M::Opt(None)), <Option<Wrapping<i8>> as Model>::schema()), (36, Dflt(<i16 as Default>::default().model()), <i16 as Model>::schema())]) }
}
}
pub const VERSIONS: usize = 6;
pub static FAMILIES: &[(&str, [&dyn Ver; VERSIONS])] = &[
    ("Root", [&S::<v0::Root>(PhantomData), &S::<v1::Root>(PhantomData), &S::<v2::Root>(PhantomData), &S::<v3::Root>(PhantomData), &S::<v4::Root>(PhantomData), &S::<v5::Root>(PhantomData)]),
    ("Big", [&S::<v0::Big>(PhantomData), &S::<v1::Big>(PhantomData), &S::<v2::Big>(PhantomData), &S::<v3::Big>(PhantomData), &S::<v4::Big>(PhantomData), &S::<v5::Big>(PhantomData)]),
    ("Item", [&S::<v0::Item>(PhantomData), &S::<v1::Item>(PhantomData), &S::<v2::Item>(PhantomData), &S::<v3::Item>(PhantomData), &S::<v4::Item>(PhantomData), &S::<v5::Item>(PhantomData)]),
    ("Named", [&S::<v0::Named>(PhantomData), &S::<v1::Named>(PhantomData), &S::<v2::Named>(PhantomData), &S::<v3::Named>(PhantomData), &S::<v4::Named>(PhantomData), &S::<v5::Named>(PhantomData)]),
    ("Kind", [&S::<v0::Kind>(PhantomData), &S::<v1::Kind>(PhantomData), &S::<v2::Kind>(PhantomData), &S::<v3::Kind>(PhantomData), &S::<v4::Kind>(PhantomData), &S::<v5::Kind>(PhantomData)]),
    ("Adj", [&S::<v0::Adj>(PhantomData), &S::<v1::Adj>(PhantomData), &S::<v2::Adj>(PhantomData), &S::<v3::Adj>(PhantomData), &S::<v4::Adj>(PhantomData), &S::<v5::Adj>(PhantomData)]),
    ("Job", [&S::<v0::Job>(PhantomData), &S::<v1::Job>(PhantomData), &S::<v2::Job>(PhantomData), &S::<v3::Job>(PhantomData), &S::<v4::Job>(PhantomData), &S::<v5::Job>(PhantomData)]),
    ("Color", [&S::<v0::Color>(PhantomData), &S::<v1::Color>(PhantomData), &S::<v2::Color>(PhantomData), &S::<v3::Color>(PhantomData), &S::<v4::Color>(PhantomData), &S::<v5::Color>(PhantomData)]),
    ("Word", [&S::<v0::Word>(PhantomData), &S::<v1::Word>(PhantomData), &S::<v2::Word>(PhantomData), &S::<v3::Word>(PhantomData), &S::<v4::Word>(PhantomData), &S::<v5::Word>(PhantomData)]),
    ("Odd", [&S::<v0::Odd>(PhantomData), &S::<v1::Odd>(PhantomData), &S::<v2::Odd>(PhantomData), &S::<v3::Odd>(PhantomData), &S::<v4::Odd>(PhantomData), &S::<v5::Odd>(PhantomData)]),
    ("Tup", [&S::<v0::Tup>(PhantomData), &S::<v1::Tup>(PhantomData), &S::<v2::Tup>(PhantomData), &S::<v3::Tup>(PhantomData), &S::<v4::Tup>(PhantomData), &S::<v5::Tup>(PhantomData)]),
];
