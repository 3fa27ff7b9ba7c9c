//! Projections of the real value types to the canonical form of the oracle, and generators of
//! texts and values.

use std::{fmt::Debug, fmt::Display, str::FromStr};

use chrono::{Datelike, NaiveDate, Timelike};
use xsd_types::types as xs;

use crate::{oracle, rng::Rng};

pub trait Val:
    FromStr + Display + PartialEq + Debug + Clone + yaserde::YaSerialize + yaserde::YaDeserialize
{
    const NAME: &'static str;
    fn proj(&self) -> String;
}

macro_rules! int_val {
    ($t:ident) => {
        impl Val for xs::$t {
            const NAME: &'static str = stringify!($t);
            fn proj(&self) -> String {
                self.0.to_string()
            }
        }
    };
}
int_val!(Integer);
int_val!(PositiveInteger);
int_val!(NonNegativeInteger);
int_val!(NegativeInteger);
int_val!(NonPositiveInteger);

pub fn big_decimal_canon(d: &bigdecimal::BigDecimal) -> String {
    let (digits, scale) = d.as_bigint_and_exponent();
    let s = digits.to_string();
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r.to_string()),
        None => (false, s),
    };
    if scale <= 0 {
        return oracle::decimal_canon(neg, &format!("{s}{}", "0".repeat((-scale) as usize)), "");
    }
    let scale = scale as usize;
    let s = if s.len() <= scale {
        format!("{}{s}", "0".repeat(scale - s.len() + 1))
    } else {
        s
    };
    oracle::decimal_canon(neg, &s[..s.len() - scale], &s[s.len() - scale..])
}

impl Val for xs::Decimal {
    const NAME: &'static str = "Decimal";
    fn proj(&self) -> String {
        big_decimal_canon(&self.0)
    }
}

fn off(z: &chrono::FixedOffset) -> i32 {
    z.local_minus_utc()
}

fn date(d: &NaiveDate) -> String {
    format!("{}-{}-{}", d.year(), d.month(), d.day())
}

fn time(t: &chrono::NaiveTime) -> String {
    format!(
        "{}:{}:{}.{:09}",
        t.hour(),
        t.minute(),
        t.second(),
        t.nanosecond()
    )
}

impl Val for xs::Date {
    const NAME: &'static str = "Date";
    fn proj(&self) -> String {
        format!(
            "{}@{}",
            date(&self.value),
            oracle::tz_canon(self.timezone.as_ref().map(off))
        )
    }
}

impl Val for xs::Time {
    const NAME: &'static str = "Time";
    fn proj(&self) -> String {
        format!(
            "{}@{}",
            time(&self.value),
            oracle::tz_canon(self.timezone.as_ref().map(off))
        )
    }
}

fn datetime(v: &chrono::DateTime<chrono::FixedOffset>) -> String {
    let n = v.naive_local();
    format!(
        "{}T{}@{}",
        date(&n.date()),
        time(&n.time()),
        oracle::tz_canon(Some(off(v.offset())))
    )
}

impl Val for xs::DateTime {
    const NAME: &'static str = "DateTime";
    fn proj(&self) -> String {
        datetime(&self.value)
    }
}

impl Val for xs::DateTimeStamp {
    const NAME: &'static str = "DateTimeStamp";
    fn proj(&self) -> String {
        datetime(&self.value.value)
    }
}

fn tzc(z: &Option<chrono::FixedOffset>) -> String {
    oracle::tz_canon(z.as_ref().map(off))
}

impl Val for xs::GYear {
    const NAME: &'static str = "GYear";
    fn proj(&self) -> String {
        format!("{}@{}", self.value, tzc(&self.timezone))
    }
}

impl Val for xs::GYearMonth {
    const NAME: &'static str = "GYearMonth";
    fn proj(&self) -> String {
        format!("{}-{}@{}", self.year, self.month, tzc(&self.timezone))
    }
}

impl Val for xs::GMonth {
    const NAME: &'static str = "GMonth";
    fn proj(&self) -> String {
        format!("{}@{}", self.value, tzc(&self.timezone))
    }
}

impl Val for xs::GMonthDay {
    const NAME: &'static str = "GMonthDay";
    fn proj(&self) -> String {
        format!("{}-{}@{}", self.month, self.day, tzc(&self.timezone))
    }
}

impl Val for xs::GDay {
    const NAME: &'static str = "GDay";
    fn proj(&self) -> String {
        format!("{}@{}", self.value, tzc(&self.timezone))
    }
}

impl Val for xs::Duration {
    const NAME: &'static str = "Duration";
    fn proj(&self) -> String {
        oracle::duration_canon(
            self.is_negative,
            &[self.years, self.months, self.days, self.hours, self.minutes],
            self.seconds,
        )
    }
}

/// Calls the generic function for every value type.
#[macro_export]
macro_rules! for_all_types {
    ($f:ident, $($arg:expr),*) => {
        $f::<xsd_types::types::Integer>($($arg),*);
        $f::<xsd_types::types::PositiveInteger>($($arg),*);
        $f::<xsd_types::types::NonNegativeInteger>($($arg),*);
        $f::<xsd_types::types::NegativeInteger>($($arg),*);
        $f::<xsd_types::types::NonPositiveInteger>($($arg),*);
        $f::<xsd_types::types::Decimal>($($arg),*);
        $f::<xsd_types::types::Date>($($arg),*);
        $f::<xsd_types::types::Time>($($arg),*);
        $f::<xsd_types::types::DateTime>($($arg),*);
        $f::<xsd_types::types::DateTimeStamp>($($arg),*);
        $f::<xsd_types::types::GYear>($($arg),*);
        $f::<xsd_types::types::GYearMonth>($($arg),*);
        $f::<xsd_types::types::GMonth>($($arg),*);
        $f::<xsd_types::types::GMonthDay>($($arg),*);
        $f::<xsd_types::types::GDay>($($arg),*);
        $f::<xsd_types::types::Duration>($($arg),*);
    };
}

pub fn gen_tz(r: &mut Rng) -> String {
    match r.below(10) {
        0..=2 => String::new(),
        3 => "Z".into(),
        4 => (*r.pick(&["+00:00", "-00:00", "+14:00", "-14:00", "+13:59", "-13:59"])).into(),
        5 => (*r.pick(&[
            "+14:01", "-14:01", "+15:00", "+24:00", "+99:99", "+12:60", "-00:60",
        ]))
        .into(),
        6 => (*r.pick(&[
            "z",
            "+1:00",
            "+0100",
            "+01",
            "+01:0",
            "01:00",
            "+01:00:00",
            "+ 1:00",
            "ZZ",
            "Z+01:00",
            "+01:00Z",
            "+-1:00",
            "--01:00",
            "+01-00",
            "UTC",
            "+0１:00",
        ]))
        .into(),
        _ => {
            let m = r.range(-14 * 60, 14 * 60);
            format!(
                "{}{:02}:{:02}",
                if m < 0 { '-' } else { '+' },
                m.abs() / 60,
                m.abs() % 60
            )
        }
    }
}

fn gen_year(r: &mut Rng) -> String {
    match r.below(14) {
        0 => format!("-{:04}", r.range(1, 9999)),
        1 => format!("{}", r.range(10000, 262000)),
        2 => format!("-{}", r.range(10000, 262000)),
        3 => (*r.pick(&[
            "0000",
            "-0000",
            "0001",
            "-0001",
            "9999",
            "10000",
            "99999",
            "00001",
            "020",
            "1",
            "+2020",
            "2147483647",
            "2147483648",
            "-2147483648",
            "-2147483647",
            "99999999999999999999",
            "262142",
            "262143",
            "-262143",
            "02020",
            "--2020",
        ]))
        .into(),
        4 => r.some_digits(7),
        5 => format!(
            "{:04}",
            [4, 100, 400, 1600, 1700, 1800, 1900, 2000, 2100, 2400][r.below(10)]
        ),
        6 => format!("{}", r.range(-2147483648, 2147483647)),
        _ => format!("{:04}", r.range(1, 9999)),
    }
}

fn gen_two(r: &mut Rng, lo: i64, hi: i64) -> String {
    match r.below(20) {
        0 => format!("{:02}", [0, lo - 1, lo, hi, hi + 1, 99][r.below(6)].max(0)),
        1 => format!("{}", r.range(lo, hi)),
        2 => {
            let m = r.below(4);
            r.digits(m)
        }
        3 => format!("{:03}", r.range(lo, hi)),
        _ => format!("{:02}", r.range(lo, hi)),
    }
}

fn gen_date(r: &mut Rng) -> String {
    if r.chance(15) {
        // Around the end of February
        return format!("{}-02-{}", gen_year(r), r.range(28, 30));
    }
    format!(
        "{}-{}-{}",
        gen_year(r),
        gen_two(r, 1, 12),
        gen_two(r, 1, 31)
    )
}

fn gen_time(r: &mut Rng) -> String {
    if r.chance(6) {
        return format!("24:00:00{}", *r.pick(&["", ".0", ".000", ".1", "."]));
    }
    let mut s = format!(
        "{}:{}:{}",
        gen_two(r, 0, 23),
        gen_two(r, 0, 59),
        gen_two(r, 0, 59)
    );
    if r.chance(40) {
        s.push('.');
        let n = if r.chance(5) {
            0
        } else {
            {
                let m = r.either(10, 24, 9);
                r.below(m) + 1
            }
        };
        s.push_str(&r.digits(n));
        if r.chance(20) {
            s.push_str("000");
        }
    }
    s
}

fn gen_num(r: &mut Rng) -> String {
    match r.below(12) {
        0 => (*r.pick(&[
            "0",
            "00",
            "007",
            "18446744073709551615",
            "18446744073709551616",
            "99999999999999999999999",
            "9223372036854775807",
            "9223372036854775808",
            "4294967296",
            "307445734561825860",
            "213503982334601",
        ]))
        .into(),
        1 => r.some_digits(25),
        _ => format!("{}", {
            let m = [10, 100, 1000, 10_000, 100_000, 1_000_000][r.below(6)];
            r.range(0, m)
        }),
    }
}

fn gen_duration(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(20) {
        s.push('-');
    }
    s.push('P');
    for c in ["Y", "M", "D"] {
        if r.chance(45) {
            s.push_str(&gen_num(r));
            if r.chance(2) {
                s.push_str(".5");
            }
            s.push_str(c);
        }
    }
    if r.chance(65) {
        s.push('T');
        for c in ["H", "M", "S"] {
            if r.chance(50) {
                s.push_str(&gen_num(r));
                if c == "S" && r.chance(50) {
                    s.push('.');
                    if r.chance(25) {
                        // A tiny fraction, often the only seconds
                        if r.chance(60) {
                            s.truncate(s.trim_end_matches(|c: char| c != 'T' && c != 'H' && c != 'M').len());
                            s.push_str("0.");
                        }
                        s.push_str(&"0".repeat(r.below(18)));
                        let m = r.below(3) + 1;
                        s.push_str(&r.digits(m));
                    } else {
                        let m = r.either(10, 30, 9);
                        let m = r.below(m);
                        s.push_str(&r.digits(m));
                    }
                }
                s.push_str(c);
            }
        }
    }
    s
}

fn gen_int(r: &mut Rng) -> String {
    let sign = *r.pick(&["", "", "", "-", "-", "+", "--", "+-"]);
    let zeros = "0".repeat(if r.chance(25) { r.below(5) } else { 0 });
    let n = match r.below(8) {
        0 => r.below(100) + 1,
        1 => 0,
        2 => r.below(20) + 19,
        3 => {
            // At the limits of the machine words
            let p = num_bigint::BigInt::from(1) << *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 65, 96, 127, 128, 192, 256]);
            return format!("{sign}{zeros}{}", p + r.range(-2, 2));
        }
        _ => r.below(22) + 1,
    };
    if r.chance(10) {
        return format!("{sign}{zeros}");
    }
    format!("{sign}{zeros}{}", r.digits(n))
}

fn gen_decimal(r: &mut Rng) -> String {
    let sign = *r.pick(&["", "", "", "-", "-", "+"]);
    let int = if r.chance(15) {
        String::new()
    } else {
        {
            let m = r.either(10, 60, 12);
            r.some_digits(m)
        }
    };
    let frac = match r.below(5) {
        0 => String::new(),
        1 => ".".into(),
        2 => format!(".{}{}", "0".repeat(r.below(40)), r.digits(3)),
        _ => format!(".{}", r.some_digits(12)),
    };
    let exp = if r.chance(6) {
        *r.pick(&["e5", "E-3", "e", "e+1", "E400"])
    } else {
        ""
    };
    format!("{sign}{int}{frac}{exp}")
}

/// A text which is well-formed for the most part.
pub fn gen_structured(ty: &str, r: &mut Rng) -> String {
    match ty {
        "Decimal" => gen_decimal(r),
        "Date" => format!("{}{}", gen_date(r), gen_tz(r)),
        "Time" => format!("{}{}", gen_time(r), gen_tz(r)),
        "DateTime" | "DateTimeStamp" => {
            let t = if r.chance(3) {
                *r.pick(&["t", " ", "", "TT"])
            } else {
                "T"
            };
            format!("{}{t}{}{}", gen_date(r), gen_time(r), gen_tz(r))
        }
        "GYear" => format!("{}{}", gen_year(r), gen_tz(r)),
        "GYearMonth" => format!("{}-{}{}", gen_year(r), gen_two(r, 1, 12), gen_tz(r)),
        "GMonth" => format!(
            "--{}{}{}",
            gen_two(r, 1, 12),
            if r.chance(3) { "--" } else { "" },
            gen_tz(r)
        ),
        "GMonthDay" => format!("--{}-{}{}", gen_two(r, 1, 12), gen_two(r, 1, 31), gen_tz(r)),
        "GDay" => format!("---{}{}", gen_two(r, 1, 31), gen_tz(r)),
        "Duration" => gen_duration(r),
        _ => gen_int(r),
    }
}

/// A text which the oracle accepts.
pub fn gen_valid(ty: &str, r: &mut Rng) -> String {
    for _ in 0..1000 {
        let s = gen_structured(ty, r);
        if matches!(oracle::verdict(ty, &s), oracle::Verdict::Accept(_)) {
            return s;
        }
    }
    unreachable!("no valid text for {ty}")
}

const NOISE: &[&str] = &[
    "0", "1", "9", "-", "+", ".", ":", "T", "Z", "P", "Y", "M", "D", "H", "S", "e", "E", "_", " ",
    "\t", "\n", "\u{a0}", "\u{661}", "\u{ff11}", "é", "日", "𝟙", "\u{0}", "\u{301}", ",", "'",
    "inf", "NaN", "W", "x", "/", "\u{2212}", "\u{feff}", "--", "00",
];

/// Characters which are numeric or letters outside of ASCII, by the number of their bytes.
const WIDE: [&[&str]; 3] = [
    &["\u{b2}", "\u{bd}", "\u{661}", "\u{6f5}", "\u{7c3}", "é", "\u{3b1}"],
    &["\u{ff11}", "\u{967}", "\u{2460}", "\u{2167}", "日", "\u{2212}", "\u{2028}"],
    &["\u{1d7d9}", "\u{10107}", "\u{1f101}", "\u{104a1}"],
];

/// Replaces some bytes by one character of the same length, so that the positions of all others
/// stay the same.
pub fn widen(s: &str, r: &mut Rng) -> String {
    let n = r.below(3) + 2;
    if s.len() < n || !s.is_ascii() {
        return s.into();
    }
    let digits: Vec<usize> = (0..=s.len() - n)
        .filter(|&i| s.as_bytes()[i..i + n].iter().all(u8::is_ascii_digit))
        .collect();
    let i = if digits.is_empty() || r.chance(20) {
        r.below(s.len() - n + 1)
    } else {
        *r.pick(&digits)
    };
    format!("{}{}{}", &s[..i], r.pick(WIDE[n - 2]), &s[i + n..])
}

pub fn mutate(s: &str, r: &mut Rng) -> String {
    if r.chance(12) {
        return widen(s, r);
    }
    let mut c: Vec<String> = s.chars().map(|c| c.to_string()).collect();
    for _ in 0..r.below(3) + 1 {
        let i = r.below(c.len() + 1);
        match r.below(6) {
            0 | 1 => c.insert(i, r.pick(NOISE).to_string()),
            2 if i < c.len() => {
                c.remove(i);
            }
            3 if i < c.len() => c[i] = r.pick(NOISE).to_string(),
            4 if c.len() > 1 => {
                let j = r.below(c.len());
                let i = i.min(c.len() - 1);
                c.swap(i, j);
            }
            _ if i < c.len() => {
                // Duplicates or cuts the tail
                if r.chance(50) {
                    c.truncate(i);
                } else {
                    let t = c[i..].to_vec();
                    c.extend(t);
                }
            }
            _ => (),
        }
    }
    c.concat()
}

pub fn gen_noise(r: &mut Rng) -> String {
    let m = r.either(5, 200, 12);
    let n = r.below(m);
    (0..n).map(|_| *r.pick(NOISE)).collect()
}

/// Short strings over the alphabet of the type.
pub fn alphabet(ty: &str) -> &'static [&'static str] {
    match ty {
        "Duration" => &[
            "-", "P", "T", "1", "0", "5", ".", "Y", "M", "D", "H", "S", "+",
        ],
        "Decimal" => &["-", "+", "0", "1", "9", ".", "e", "_"],
        "Date" | "DateTime" | "DateTimeStamp" | "Time" => {
            &["2", "0", "-", ":", "T", "Z", ".", "1", "+"]
        }
        "GYear" | "GYearMonth" | "GMonth" | "GMonthDay" | "GDay" => {
            &["-", "0", "1", "2", "3", "9", "Z", "+", ":", "é"]
        }
        _ => &["-", "+", "0", "1", "7", "_", " ", "\u{661}"],
    }
}

pub fn gen_any(ty: &str, r: &mut Rng) -> String {
    match r.below(20) {
        0..=9 => gen_structured(ty, r),
        10..=14 => {
            let s = gen_valid(ty, r);
            mutate(&s, r)
        }
        15 | 16 => {
            let a = alphabet(ty);
            (0..r.below(9) + 1).map(|_| *r.pick(a)).collect()
        }
        17 => {
            // A valid text of another type
            let t = *r.pick(oracle::TYPES);
            gen_valid(t, r)
        }
        18 => {
            let s = gen_valid(ty, r);
            format!(
                "{}{}{}",
                r.pick(&["", " ", "\n", "\t ", "x"]),
                s,
                r.pick(&["", " ", "\n", "0", "\u{a0}"])
            )
        }
        _ => gen_noise(r),
    }
}
