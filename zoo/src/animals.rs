//! Types which use the derive macros as the generated code does, and documents holding them.

use std::{fmt::Debug, str::FromStr};

use xsd_types::types as xs;

use crate::rng::Rng;

/// A type with a text representation whose meaning is known from a reference.
pub trait Animal: Sized + PartialEq + Debug + Clone + yaserde::YaSerialize + yaserde::YaDeserialize {
    const NAME: &'static str;
    /// What the text stands for, from the parsers of the content only: None if it is refused.
    fn reference(text: &str) -> Option<Self>;
    /// The text of the value, from the printers of the content only.
    fn text(&self) -> String;
    /// A comparable form
    fn proj(&self) -> String {
        self.text()
    }
    /// A text of any kind, mostly an accepted one
    fn any_text(r: &mut Rng) -> String;
    /// The name of the element if the type is written on its own
    const TEXTUAL: bool = false;
}

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

pub fn words(s: &str) -> Vec<&str> {
    s.split(is_ws).filter(|w| !w.is_empty()).collect()
}

pub trait Content: FromStr + ToString {
    const KIND: &'static str;
}

macro_rules! content {
    ($($t:ty => $k:expr),* $(,)?) => { $( impl Content for $t { const KIND: &'static str = $k; } )* };
}
content!(
    String => "string", bool => "bool", i8 => "i8", i16 => "i16", i32 => "i32", i64 => "i64", u8 => "u8", u16 => "u16",
    u32 => "u32", u64 => "u64", f64 => "f64",
    xs::Integer => "Integer", xs::NonNegativeInteger => "NonNegativeInteger", xs::PositiveInteger => "PositiveInteger",
    xs::NonPositiveInteger => "NonPositiveInteger", xs::NegativeInteger => "NegativeInteger", xs::Decimal => "Decimal",
    xs::Date => "Date", xs::Time => "Time", xs::DateTime => "DateTime", xs::DateTimeStamp => "DateTimeStamp",
    xs::Duration => "Duration", xs::GDay => "GDay", xs::GMonth => "GMonth", xs::GMonthDay => "GMonthDay",
    xs::GYear => "GYear", xs::GYearMonth => "GYearMonth",
);

const TEXTS: &[&str] = &[
    "", "a", "abc", "a b", "x  y", "<", ">", "&", "&amp;", "\"", "'", "]]>", "<a/>", "<!--", "é", "日本語", "𝒳", "true",
    "false", "1", "0", "-1", "1.5", "NaN", "INF", "2020-02-29", "--12", "P1D", "#", "%20", "a\tb", "a\nb", "{}", "\\", "\u{a0}",
    "x\u{2003}y", "\u{85}", "a\u{a0}b", "a\rb", "a\r\nb", "a\n\rb", "a\u{2028}b", "a\u{1}b",
];

pub fn text_of(kind: &str, r: &mut Rng) -> String {
    // Longer than the buffers on the way
    if r.below(400) == 0 {
        let n = *r.pick(&[1000, 4095, 4096, 5000, 8192, 9000, 20000]) + r.below(3);
        let mut digits = |n: usize| (0..n).map(|_| *r.pick(&['1', '2', '3', '9', '0'])).collect::<String>();
        match kind {
            "string" => return (0..n / 5 + 1).map(|i| format!("w{}", i % 1000)).collect::<Vec<_>>().join(" "),
            "Integer" | "NonNegativeInteger" | "PositiveInteger" => return format!("7{}", digits(n)),
            "NonPositiveInteger" | "NegativeInteger" => return format!("-7{}", digits(n)),
            "Decimal" => return format!("-7{}.{}7", digits(n / 2), digits(n / 2)),
            _ => (),
        }
    }
    let int = |r: &mut Rng, lo: i128, hi: i128| -> String {
        let n = match r.below(10) {
            0 => lo,
            1 => hi,
            2 => lo - 1,
            3 => hi + 1,
            4 => 0,
            5 => (r.next() as i128) - (1 << 63),
            6 => r.below(10) as i128,
            7 => -(r.below(10) as i128),
            _ => lo + (r.next() as i128).rem_euclid(hi - lo + 1),
        };
        match r.below(20) {
            0 => format!("+{n}"),
            1 => format!("0{n}"),
            2 => format!("{n} "),
            3 => format!("{n}.0"),
            4 => format!("{n}x"),
            _ => n.to_string(),
        }
    };
    match kind {
        "string" => match r.below(4) {
            0 => r.pick(TEXTS).to_string(),
            1 => format!("{}{}", r.pick(TEXTS), r.pick(TEXTS)),
            2 => format!("{} {}", r.pick(TEXTS), r.pick(TEXTS)),
            _ => (0..1 + r.below(8)).map(|_| *r.pick(&['a', 'b', 'Z', '0', '-', '.', 'é', '<', '&', '"'])).collect(),
        },
        "bool" => r.pick(&["true", "false", "true", "false", "True", "yes", "", "1", "0", "truefalse"]).to_string(),
        "i8" => int(r, i8::MIN as i128, i8::MAX as i128),
        "i16" => int(r, i16::MIN as i128, i16::MAX as i128),
        "i32" => int(r, i32::MIN as i128, i32::MAX as i128),
        "i64" => int(r, i64::MIN as i128, i64::MAX as i128),
        "u8" => int(r, 0, u8::MAX as i128),
        "u16" => int(r, 0, u16::MAX as i128),
        "u32" => int(r, 0, u32::MAX as i128),
        "u64" => int(r, 0, u64::MAX as i128),
        "f64" => r
            .pick(&["0", "-0", "1.5", "1e300", "1e-300", "-2.25", "inf", "-inf", "1e400", "x", "", "0.1", "123456789.125", "5e-324"])
            .to_string(),
        ty => match r.below(12) {
            0 => crate::values::gen_any(ty, r),
            _ => crate::values::gen_valid(ty, r),
        },
    }
}

// --- the types of the library ----------------------------------------------------------------

macro_rules! library {
    ($($t:ident),*) => { $(
        impl Animal for xs::$t {
            const NAME: &'static str = stringify!($t);
            fn reference(text: &str) -> Option<Self> {
                <xs::$t as FromStr>::from_str(text).ok()
            }
            fn text(&self) -> String {
                self.to_string()
            }
            fn proj(&self) -> String {
                crate::values::Val::proj(self)
            }
            fn any_text(r: &mut Rng) -> String {
                text_of(stringify!($t), r)
            }
        }
    )* };
}
library!(
    Integer, NonNegativeInteger, PositiveInteger, NonPositiveInteger, NegativeInteger, Decimal, Date, Time, DateTime,
    DateTimeStamp, Duration, GDay, GMonth, GMonthDay, GYear, GYearMonth
);

// --- newtypes and lists ----------------------------------------------------------------------

macro_rules! single {
    ($($n:ident($($c:tt)*)),* $(,)?) => { $(
        impl Content for $n { const KIND: &'static str = <$($c)* as Content>::KIND; }
        impl Animal for $n {
            const NAME: &'static str = stringify!($n);
            fn reference(text: &str) -> Option<Self> {
                text.parse::<$($c)*>().ok().map($n)
            }
            fn text(&self) -> String {
                self.0.to_string()
            }
            fn any_text(r: &mut Rng) -> String {
                text_of(<$($c)* as Content>::KIND, r)
            }
            const TEXTUAL: bool = matches!(<$($c)* as Content>::KIND.as_bytes(), b"string");
        }
        impl Texts for $n {
            fn parse_text(s: &str) -> Result<Self, String> { <$n as FromStr>::from_str(s).map_err(|e| e.to_string()) }
            fn print(&self) -> String { self.to_string() }
            fn items(&self) -> Option<usize> { None }
        }
    )* };
}

macro_rules! list {
    ($($n:ident($($c:tt)*)),* $(,)?) => { $(
        impl Animal for $n {
            const NAME: &'static str = stringify!($n);
            fn reference(text: &str) -> Option<Self> {
                let mut v = vec![];
                for w in words(text) {
                    v.push(w.parse::<$($c)*>().ok()?);
                }
                Some($n(v))
            }
            fn text(&self) -> String {
                self.0.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ")
            }
            fn any_text(r: &mut Rng) -> String {
                let n = if r.below(300) == 0 { 100 + r.below(3000) } else { *r.pick(&[0, 1, 1, 2, 3, 4, 5, 17]) };
                let mut s = String::new();
                let sep = |r: &mut Rng| *r.pick(&[" ", " ", " ", "  ", "\t", "\n", " \n\t "]);
                if r.chance(15) {
                    s.push_str(sep(r));
                }
                let bad = if r.chance(25) { r.below(n + 1) } else { usize::MAX };
                for i in 0..n {
                    if i > 0 {
                        s.push_str(sep(r));
                    }
                    // Mostly accepted items
                    let mut t = text_of(<$($c)* as Content>::KIND, r);
                    for _ in 0..30 {
                        if i == bad || t.parse::<$($c)*>().is_ok() {
                            break;
                        }
                        t = text_of(<$($c)* as Content>::KIND, r);
                    }
                    s.push_str(&t);
                }
                if r.chance(15) {
                    s.push_str(sep(r));
                }
                s
            }
        }
        impl Texts for $n {
            fn parse_text(s: &str) -> Result<Self, String> { <$n as FromStr>::from_str(s).map_err(|e| e.to_string()) }
            fn print(&self) -> String { self.to_string() }
            fn items(&self) -> Option<usize> { Some(self.0.len()) }
        }
    )* };
}

pub trait Texts: Sized {
    fn parse_text(s: &str) -> Result<Self, String>;
    fn print(&self) -> String;
    fn items(&self) -> Option<usize>;
}

pub use newtypes::*;

mod newtypes {
    use std::str::FromStr;
    use xsd_macro_utils::{UtilsDefaultSerde, UtilsTupleIo};
    use xsd_types::types as xs;

    macro_rules! declare {
        ($($n:ident($($c:tt)*)),* $(,)?) => { $(
            #[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
            pub struct $n(pub $($c)*);
        )* };
    }
    declare!(
        NString(String), NBool(bool), NI8(i8), NI16(i16), NI32(i32), NI64(i64), NU8(u8), NU16(u16), NU32(u32), NU64(u64),
        NF64(f64), NInteger(xs::Integer), NNonNegative(xs::NonNegativeInteger), NPositive(xs::PositiveInteger),
        NNonPositive(xs::NonPositiveInteger), NNegative(xs::NegativeInteger), NDecimal(xs::Decimal), NDate(xs::Date),
        NTime(xs::Time), NDateTime(xs::DateTime), NStamp(xs::DateTimeStamp), NDuration(xs::Duration), NDay(xs::GDay),
        NMonth(xs::GMonth), NMonthDay(xs::GMonthDay), NYear(xs::GYear), NYearMonth(xs::GYearMonth),
        NnString(NString), NnI32(NI32), NnDate(NDate), NnnU8(NnU8), NnU8(NU8),
        LString(Vec<String>), LBool(Vec<bool>), LI8(Vec<i8>), LI16(Vec<i16>), LI32(Vec<i32>), LI64(Vec<i64>),
        LU8(Vec<u8>), LU16(Vec<u16>), LU32(Vec<u32>), LU64(Vec<u64>), LF64(Vec<f64>), LInteger(Vec<xs::Integer>),
        LNegative(Vec<xs::NegativeInteger>), LDecimal(Vec<xs::Decimal>), LDate(Vec<xs::Date>), LTime(Vec<xs::Time>),
        LDateTime(Vec<xs::DateTime>), LStamp(Vec<xs::DateTimeStamp>), LDuration(Vec<xs::Duration>), LDay(Vec<xs::GDay>),
        LMonth(Vec<xs::GMonth>), LMonthDay(Vec<xs::GMonthDay>), LYear(Vec<xs::GYear>), LYearMonth(Vec<xs::GYearMonth>),
        LNString(Vec<NString>), LNI32(Vec<NI32>), LNDate(Vec<NDate>), LNnU8(Vec<NnU8>),
        // The same types under longer paths
        PString(std::string::String), PTime(xsd_types::types::Time), PNested(self::NDate), PList(std::vec::Vec<i16>),
        PListString(Vec<::std::string::String>), PListDay(::std::vec::Vec<xsd_types::types::GDay>),
        PListNested(std::vec::Vec<super::newtypes::NBool>),
    );
}

single!(
    NString(String), NBool(bool), NI8(i8), NI16(i16), NI32(i32), NI64(i64), NU8(u8), NU16(u16), NU32(u32), NU64(u64),
    NF64(f64), NInteger(xs::Integer), NNonNegative(xs::NonNegativeInteger), NPositive(xs::PositiveInteger),
    NNonPositive(xs::NonPositiveInteger), NNegative(xs::NegativeInteger), NDecimal(xs::Decimal), NDate(xs::Date),
    NTime(xs::Time), NDateTime(xs::DateTime), NStamp(xs::DateTimeStamp), NDuration(xs::Duration), NDay(xs::GDay),
    NMonth(xs::GMonth), NMonthDay(xs::GMonthDay), NYear(xs::GYear), NYearMonth(xs::GYearMonth),
    NnString(NString), NnI32(NI32), NnDate(NDate), NnnU8(NnU8), NnU8(NU8),
    PString(String), PTime(xs::Time), PNested(NDate),
);
list!(
    LString(String), LBool(bool), LI8(i8), LI16(i16), LI32(i32), LI64(i64), LU8(u8), LU16(u16), LU32(u32), LU64(u64),
    LF64(f64), LInteger(xs::Integer), LNegative(xs::NegativeInteger), LDecimal(xs::Decimal), LDate(xs::Date),
    LTime(xs::Time), LDateTime(xs::DateTime), LStamp(xs::DateTimeStamp), LDuration(xs::Duration), LDay(xs::GDay),
    LMonth(xs::GMonth), LMonthDay(xs::GMonthDay), LYear(xs::GYear), LYearMonth(xs::GYearMonth),
    LNString(NString), LNI32(NI32), LNDate(NDate), LNnU8(NnU8),
    PList(i16), PListString(String), PListDay(xs::GDay), PListNested(NBool),
);

// --- unions ----------------------------------------------------------------------------------

// The types are given as tokens and not as `ty`, so that the macros see them as they are written
// in generated code.
macro_rules! unions {
    ($($n:ident { $($v:ident($($c:tt)*)),* }),* $(,)?) => { $(
        #[derive(PartialEq, Debug, Clone, UtilsUnionSerDe)]
        pub enum $n {
            $($v($($c)*),)*
            __Unknown__(String),
        }
        impl Default for $n {
            fn default() -> $n {
                Self::__Unknown__("No valid variants".into())
            }
        }
        impl Animal for $n {
            const NAME: &'static str = stringify!($n);
            fn reference(text: &str) -> Option<Self> {
                $(
                    if let Ok(v) = <$($c)* as FromStr>::from_str(text) {
                        return Some($n::$v(v));
                    }
                )*
                None
            }
            fn text(&self) -> String {
                match self {
                    $($n::$v(v) => v.to_string(),)*
                    $n::__Unknown__(s) => s.clone(),
                }
            }
            fn proj(&self) -> String {
                match self {
                    $($n::$v(v) => format!(concat!(stringify!($v), " {}"), v.to_string()),)*
                    $n::__Unknown__(s) => format!("unknown {s}"),
                }
            }
            fn any_text(r: &mut Rng) -> String {
                let kinds = [$(<$($c)* as Member>::text as fn(&mut Rng) -> String),*];
                match r.below(8) {
                    0 => text_of("string", r),
                    1 => {
                        let s = (*r.pick(&kinds))(r);
                        crate::values::mutate(&s, r)
                    }
                    _ => (*r.pick(&kinds))(r),
                }
            }
        }
        impl Union for $n {
            fn unknown(&self) -> Option<&str> {
                match self { $n::__Unknown__(s) => Some(s), _ => None }
            }
            const MEMBERS: usize = [$(stringify!($v)),*].len();
            fn member(&self) -> usize {
                let names = [$(stringify!($v)),*];
                let p = self.proj();
                names.iter().position(|n| p.split(' ').next() == Some(n)).unwrap_or(names.len())
            }
        }
    )* };
}

pub trait Union {
    const MEMBERS: usize;
    fn unknown(&self) -> Option<&str>;
    fn member(&self) -> usize;
}

pub trait Member {
    fn text(r: &mut Rng) -> String;
}
macro_rules! plain_members {
    ($($t:ty),*) => { $( impl Member for $t { fn text(r: &mut Rng) -> String { text_of(<$t as Content>::KIND, r) } } )* };
}
plain_members!(
    String, bool, i8, i16, i32, i64, u8, u16, u32, u64, f64, xs::Integer, xs::NonNegativeInteger, xs::PositiveInteger,
    xs::NonPositiveInteger, xs::NegativeInteger, xs::Decimal, xs::Date, xs::Time, xs::DateTime, xs::DateTimeStamp,
    xs::Duration, xs::GDay, xs::GMonth, xs::GMonthDay, xs::GYear, xs::GYearMonth, NU8, NI32, NDate, NBool, NString, NnU8
);
macro_rules! list_members {
    ($($t:ty),*) => { $( impl Member for $t { fn text(r: &mut Rng) -> String { <$t as Animal>::any_text(r) } } )* };
}
list_members!(LI32, LDate, LU8, LBool, LString);

use xsd_macro_utils::UtilsUnionSerDe;
unions!(
    UByteInt { U8(u8), I32(i32) },
    UIntByte { I32(i32), U8(u8) },
    UWidths { A(u8), B(i8), C(u16), D(i16), E(u32), F(i32), G(u64), H(i64), I(xs::Integer), J(xs::Decimal) },
    UIntString { I(xs::Integer), S(String) },
    UStringInt { S(String), I(xs::Integer) },
    UCalendar { Year(xs::GYear), Month(xs::GMonth), Day(xs::GDay), MonthDay(xs::GMonthDay), YearMonth(xs::GYearMonth), Date(xs::Date), Time(xs::Time), Stamp(xs::DateTimeStamp), Duration(xs::Duration) },
    UStamps { Stamp(xs::DateTimeStamp), DateTime(xs::DateTime), Date(xs::Date) },
    USigns { P(xs::PositiveInteger), N(xs::NegativeInteger), Np(xs::NonPositiveInteger), Nn(xs::NonNegativeInteger) },
    UNewtypes { A(NU8), B(NI32), C(NDate), D(NBool), E(NString) },
    UNested { A(NnU8), B(bool) },
    ULists { Bytes(LU8), Ints(LI32), Dates(LDate), Bools(LBool) },
    UListSingle { One(u8), Many(LU8) },
    UListString { Many(LI32), Words(LString) },
    UBoolFloat { B(bool), F(f64) },
    UOne { Only(xs::Duration) },
    UDecimals { I(i64), D(xs::Decimal), F(f64), S(NString) },
);

// --- documents -------------------------------------------------------------------------------

/// A document with the type in every position.
pub trait Holder: Sized + yaserde::YaSerialize + yaserde::YaDeserialize {
    type Item: Animal;
    fn make(v: Parts<Self::Item>) -> Self;
    fn parts(self) -> Parts<Self::Item>;
}

#[derive(Debug, Clone, PartialEq)]
pub struct Parts<T> {
    pub one: T,
    pub opt: Option<T>,
    pub many: Vec<T>,
    pub req: T,
    pub may: Option<T>,
    pub deep: Vec<(T, Option<T>)>,
    /// The case of the choice (0 or 1) with its value
    pub pick: (usize, T),
}

macro_rules! holder {
    ($($m:ident = $($p:ident)::+),* $(,)?) => { $(
        pub mod $m {
            use super::{Holder, Parts};
            use yaserde_derive::{YaDeserialize, YaSerialize};
            type Item = $($p)::+;

            #[derive(Default, Clone, PartialEq, Debug, YaSerialize, YaDeserialize)]
            #[yaserde(prefix = "t", namespace = "t: urn:t")]
            pub struct Held {
                #[yaserde(attribute, rename = "req")]
                pub req: Item,
                #[yaserde(prefix = "t", rename = "one")]
                pub one: Item,
                #[yaserde(prefix = "t", rename = "opt")]
                pub opt: Option<Item>,
                #[yaserde(prefix = "t", rename = "many")]
                pub many: Vec<Item>,
                #[yaserde(prefix = "t", rename = "deep")]
                pub deep: Vec<Deep>,
                #[yaserde(prefix = "t", rename = "pick")]
                pub pick: Pick,
                #[yaserde(attribute, rename = "may")]
                pub may: Option<Item>,
            }

            // A flattened choice after elements of other types than primitive ones is not read by
            // the derive macros of yaserde, so that the choice is all there is.
            #[derive(Default, Clone, PartialEq, Debug, YaSerialize, YaDeserialize)]
            #[yaserde(prefix = "t", namespace = "t: urn:t")]
            pub struct Pick {
                #[yaserde(flatten)]
                pub held_choice: HeldChoice,
            }

            #[derive(Default, Clone, PartialEq, Debug, YaSerialize, YaDeserialize)]
            #[yaserde(prefix = "t", namespace = "t: urn:t")]
            pub struct Deep {
                #[yaserde(prefix = "t", rename = "val-ue")]
                pub value: Item,
                #[yaserde(attribute, rename = "a")]
                pub a: Option<Item>,
            }

            #[derive(PartialEq, Debug, Clone, YaSerialize, YaDeserialize)]
            #[yaserde(prefix = "t", namespace = "t: urn:t")]
            pub enum HeldChoice {
                #[yaserde(prefix = "t", rename = "left")]
                Left(Item),
                #[yaserde(prefix = "t", rename = "right")]
                Right(Item),
                __Unknown__(String),
            }
            impl Default for HeldChoice {
                fn default() -> HeldChoice {
                    Self::__Unknown__("No valid variants".into())
                }
            }

            impl Holder for Held {
                type Item = Item;
                fn make(v: Parts<Item>) -> Self {
                    Held {
                        req: v.req,
                        one: v.one,
                        opt: v.opt,
                        many: v.many,
                        deep: v.deep.into_iter().map(|(value, a)| Deep { value, a }).collect(),
                        pick: Pick {
                            held_choice: match v.pick {
                                (0, v) => HeldChoice::Left(v),
                                (_, v) => HeldChoice::Right(v),
                            },
                        },
                        may: v.may,
                    }
                }
                fn parts(self) -> Parts<Item> {
                    Parts {
                        one: self.one,
                        opt: self.opt,
                        many: self.many,
                        req: self.req,
                        may: self.may,
                        deep: self.deep.into_iter().map(|d| (d.value, d.a)).collect(),
                        pick: match self.pick.held_choice {
                            HeldChoice::Left(v) => (0, v),
                            HeldChoice::Right(v) => (1, v),
                            HeldChoice::__Unknown__(_) => (2, Item::default()),
                        },
                    }
                }
            }
        }
    )* };
}

holder!(
    h_integer = xsd_types::types::Integer, h_nonneg = xsd_types::types::NonNegativeInteger,
    h_positive = xsd_types::types::PositiveInteger, h_nonpos = xsd_types::types::NonPositiveInteger,
    h_negative = xsd_types::types::NegativeInteger, h_decimal = xsd_types::types::Decimal, h_date = xsd_types::types::Date,
    h_time = xsd_types::types::Time, h_datetime = xsd_types::types::DateTime, h_stamp = xsd_types::types::DateTimeStamp,
    h_duration = xsd_types::types::Duration, h_day = xsd_types::types::GDay, h_month = xsd_types::types::GMonth,
    h_monthday = xsd_types::types::GMonthDay, h_year = xsd_types::types::GYear,
    h_yearmonth = xsd_types::types::GYearMonth,
    h_nstring = super::NString, h_nbool = super::NBool, h_ni8 = super::NI8, h_nu64 = super::NU64, h_nf64 = super::NF64,
    h_ninteger = super::NInteger, h_ndate = super::NDate, h_nduration = super::NDuration, h_nnstring = super::NnString,
    h_nni32 = super::NnI32, h_nnnu8 = super::NnnU8,
    h_lstring = super::LString, h_lbool = super::LBool, h_li32 = super::LI32, h_lu8 = super::LU8, h_lf64 = super::LF64,
    h_ldecimal = super::LDecimal, h_ldate = super::LDate, h_lduration = super::LDuration, h_lnstring = super::LNString,
    h_lndate = super::LNDate, h_lnnu8 = super::LNnU8,
    h_ubyteint = super::UByteInt, h_uwidths = super::UWidths, h_uintstring = super::UIntString,
    h_ucalendar = super::UCalendar, h_unewtypes = super::UNewtypes, h_ulists = super::ULists,
    h_ulistsingle = super::UListSingle, h_usigns = super::USigns,
);
