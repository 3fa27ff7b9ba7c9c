//! Independent oracles of the lexical and value spaces of the XSD built-in types, written from
//! the XSD 1.1 part 2 recommendation. Three-valued: text which the recommendation leaves open
//! (or which exceeds implementation-defined limits) is `Free`.
//!
//! Values are compared as canonical projections, e.g. `2020-1-31@+3600`.

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept(String),
    Reject,
    Free,
}
use Verdict::*;

pub const TYPES: &[&str] = &[
    "Integer",
    "PositiveInteger",
    "NonNegativeInteger",
    "NegativeInteger",
    "NonPositiveInteger",
    "Decimal",
    "Date",
    "Time",
    "DateTime",
    "DateTimeStamp",
    "GYear",
    "GYearMonth",
    "GMonth",
    "GMonthDay",
    "GDay",
    "Duration",
];

fn all_digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

fn space_free(s: &str) -> bool {
    s.trim() == s
}

pub fn verdict(ty: &str, s: &str) -> Verdict {
    // The lexical mapping applies after whitespace normalization, which is not the job of FromStr.
    if !space_free(s) {
        let inner = verdict(ty, s.trim());
        return if inner == Reject { Reject } else { Free };
    }
    match ty {
        "Integer" | "PositiveInteger" | "NonNegativeInteger" | "NegativeInteger"
        | "NonPositiveInteger" => integer(ty, s),
        "Decimal" => decimal(s),
        "Date" => date(s),
        "Time" => time(s),
        "DateTime" => datetime(s, false),
        "DateTimeStamp" => datetime(s, true),
        "GYear" => g_year(s),
        "GYearMonth" => g_year_month(s),
        "GMonth" => g_month(s),
        "GMonthDay" => g_month_day(s),
        "GDay" => g_day(s),
        "Duration" => duration(s),
        _ => unreachable!("{ty}"),
    }
}

/// (is negative, digits without leading zeros; "0" for zero)
fn sign_digits(s: &str) -> Option<(bool, String)> {
    let (neg, digits) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if !all_digits(digits) {
        return None;
    }
    let d = digits.trim_start_matches('0');
    let d = if d.is_empty() { "0" } else { d };
    Some((neg && d != "0", d.to_string()))
}

fn integer(ty: &str, s: &str) -> Verdict {
    let Some((neg, d)) = sign_digits(s) else {
        return Reject;
    };
    let zero = d == "0";
    let ok = match ty {
        "Integer" => true,
        "PositiveInteger" => !neg && !zero,
        "NonNegativeInteger" => !neg,
        "NegativeInteger" => neg,
        _ => neg || zero,
    };
    if !ok {
        return Reject;
    }
    Accept(format!("{}{}", if neg { "-" } else { "" }, d))
}

/// Canonical decimal: sign, integer digits, dot, fraction digits without redundant zeros.
pub fn decimal_canon(neg: bool, int: &str, frac: &str) -> String {
    let i = int.trim_start_matches('0');
    let f = frac.trim_end_matches('0');
    let i = if i.is_empty() { "0" } else { i };
    if i == "0" && f.is_empty() {
        return "0".into();
    }
    let sign = if neg { "-" } else { "" };
    if f.is_empty() {
        format!("{sign}{i}")
    } else {
        format!("{sign}{i}.{f}")
    }
}

fn decimal(s: &str) -> Verdict {
    let (neg, body) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let (int, frac) = match body.find('.') {
        Some(i) => (&body[..i], &body[i + 1..]),
        None => (body, ""),
    };
    let digits = |x: &str| x.bytes().all(|b| b.is_ascii_digit());
    if !digits(int) || !digits(frac) || (int.is_empty() && frac.is_empty()) {
        return Reject;
    }
    Accept(decimal_canon(neg, int, frac))
}

/// Timezone suffix: None = malformed. Some(None) = absent. Seconds east of UTC otherwise.
fn tz(s: &str) -> Option<Option<i32>> {
    if s.is_empty() {
        return Some(None);
    }
    if s == "Z" {
        return Some(Some(0));
    }
    let b = s.as_bytes();
    if b.len() != 6 || b[3] != b':' || !(b[0] == b'+' || b[0] == b'-') {
        return None;
    }
    if ![1, 2, 4, 5].iter().all(|&i| b[i].is_ascii_digit()) {
        return None;
    }
    let h = (b[1] - b'0') as i32 * 10 + (b[2] - b'0') as i32;
    let m = (b[4] - b'0') as i32 * 10 + (b[5] - b'0') as i32;
    if m > 59 || h * 60 + m > 14 * 60 {
        return None;
    }
    let v = (h * 60 + m) * 60;
    Some(Some(if b[0] == b'-' { -v } else { v }))
}

pub fn tz_canon(tz: Option<i32>) -> String {
    match tz {
        None => "none".into(),
        Some(v) => format!("{v:+}"),
    }
}

fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

enum Year {
    Bad,
    /// Year zero (XSD 1.0 and 1.1 disagree) or a value outside of the limits.
    Open,
    Ok(i64),
}

fn year(s: &str, limits: std::ops::RangeInclusive<i64>) -> Year {
    let (neg, d) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    if !all_digits(d) || d.len() < 4 || (d.len() > 4 && d.starts_with('0')) {
        return Year::Bad;
    }
    if d.len() > 10 {
        return Year::Open;
    }
    let v: i64 = d.parse().unwrap();
    let v = if neg { -v } else { v };
    if v == 0 || !limits.contains(&v) {
        return Year::Open;
    }
    Year::Ok(v)
}

fn two(s: &str) -> Option<i64> {
    if s.len() == 2 && all_digits(s) {
        s.parse().ok()
    } else {
        None
    }
}

/// The end of the year token in "YYYY-..." with an optional sign.
fn split_year(s: &str) -> Option<(&str, &str)> {
    let from = usize::from(s.starts_with('-'));
    let i = s[from..].find('-')? + from;
    Some((&s[..i], &s[i + 1..]))
}

const DATE_YEAR_LIMIT: i64 = 262_000;

enum DateV {
    Bad,
    Open,
    Ok(i64, i64, i64),
}

/// Parses a date prefix; returns the rest.
fn date_part(s: &str) -> Option<(DateV, &str)> {
    if !s.is_ascii() {
        return None;
    }
    let (y, rest) = split_year(s)?;
    if rest.len() < 5 || rest.as_bytes()[2] != b'-' {
        return None;
    }
    let (m, d) = (two(&rest[..2])?, two(&rest[3..5])?);
    let rest = &rest[5..];
    if !(1..=12).contains(&m) || !(1..=31).contains(&d) {
        return None;
    }
    Some((
        match year(y, -DATE_YEAR_LIMIT..=DATE_YEAR_LIMIT) {
            Year::Bad => DateV::Bad,
            Year::Open => DateV::Open,
            Year::Ok(y) => {
                if d > month_len(y, m) {
                    DateV::Bad
                } else {
                    DateV::Ok(y, m, d)
                }
            }
        },
        rest,
    ))
}

fn date(s: &str) -> Verdict {
    let Some((v, rest)) = date_part(s) else {
        return Reject;
    };
    let Some(z) = tz(rest) else { return Reject };
    match v {
        DateV::Bad => Reject,
        DateV::Open => Free,
        DateV::Ok(y, m, d) => Accept(format!("{y}-{m}-{d}@{}", tz_canon(z))),
    }
}

pub struct TimeV {
    pub h: i64,
    pub m: i64,
    pub s: i64,
    /// Nine digits are kept
    pub nanos: i64,
    pub open: bool,
    pub end_of_day: bool,
}

fn time_part(s: &str) -> Option<(TimeV, &str)> {
    if !s.is_ascii() || s.len() < 8 {
        return None;
    }
    let b = s.as_bytes();
    if b[2] != b':' || b[5] != b':' {
        return None;
    }
    let (h, m, sec) = (two(&s[..2])?, two(&s[3..5])?, two(&s[6..8])?);
    let mut rest = &s[8..];
    let mut frac = "";
    if let Some(r) = rest.strip_prefix('.') {
        let n = r.bytes().take_while(|b| b.is_ascii_digit()).count();
        if n == 0 {
            return None;
        }
        frac = &r[..n];
        rest = &r[n..];
    }
    let zero_frac = frac.bytes().all(|b| b == b'0');
    let end_of_day = h == 24 && m == 0 && sec == 0 && zero_frac;
    if (h > 23 && !end_of_day) || m > 59 || sec > 60 {
        return None;
    }
    let nine: String = format!("{frac:0<9}").chars().take(9).collect();
    // Leap seconds are not a part of the recommendation, but are known in practice. Digits beyond
    // the nanoseconds may be rounded or cut.
    let open = sec == 60 || (frac.len() > 9 && frac[9..].bytes().any(|b| b != b'0'));
    Some((
        TimeV {
            h: if end_of_day { 0 } else { h },
            m,
            s: sec,
            nanos: nine.parse().unwrap(),
            open,
            end_of_day,
        },
        rest,
    ))
}

fn time(s: &str) -> Verdict {
    let Some((t, rest)) = time_part(s) else {
        return Reject;
    };
    let Some(z) = tz(rest) else { return Reject };
    if t.open {
        return Free;
    }
    Accept(format!(
        "{}:{}:{}.{:09}@{}",
        t.h,
        t.m,
        t.s,
        t.nanos,
        tz_canon(z)
    ))
}

fn datetime(s: &str, tz_required: bool) -> Verdict {
    let Some((d, rest)) = date_part(s) else {
        return Reject;
    };
    let Some(rest) = rest.strip_prefix('T') else {
        return Reject;
    };
    let Some((t, rest)) = time_part(rest) else {
        return Reject;
    };
    let Some(z) = tz(rest) else { return Reject };
    if z.is_none() && tz_required {
        return Reject;
    }
    let (mut y, mut m, mut day) = match d {
        DateV::Bad => return Reject,
        DateV::Open => return Free,
        DateV::Ok(y, m, d) => (y, m, d),
    };
    if t.open {
        return Free;
    }
    if t.end_of_day {
        day += 1;
        if day > month_len(y, m) {
            day = 1;
            m += 1;
        }
        if m > 12 {
            m = 1;
            y += 1;
        }
    }
    Accept(format!(
        "{y}-{m}-{day}T{}:{}:{}.{:09}@{}",
        t.h,
        t.m,
        t.s,
        t.nanos,
        tz_canon(Some(z.unwrap_or(0)))
    ))
}

fn g_year(s: &str) -> Verdict {
    if !s.is_ascii() {
        return Reject;
    }
    let from = usize::from(s.starts_with('-'));
    let n = s[from..].bytes().take_while(|b| b.is_ascii_digit()).count() + from;
    let Some(z) = tz(&s[n..]) else { return Reject };
    match year(&s[..n], i32::MIN as i64..=i32::MAX as i64) {
        Year::Bad => Reject,
        Year::Open => Free,
        Year::Ok(y) => Accept(format!("{y}@{}", tz_canon(z))),
    }
}

fn g_year_month(s: &str) -> Verdict {
    if !s.is_ascii() {
        return Reject;
    }
    let Some((y, rest)) = split_year(s) else {
        return Reject;
    };
    if rest.len() < 2 {
        return Reject;
    }
    let Some(m) = two(&rest[..2]) else {
        return Reject;
    };
    let Some(z) = tz(&rest[2..]) else {
        return Reject;
    };
    if !(1..=12).contains(&m) {
        return Reject;
    }
    match year(y, i32::MIN as i64..=i32::MAX as i64) {
        Year::Bad => Reject,
        Year::Open => Free,
        Year::Ok(y) => Accept(format!("{y}-{m}@{}", tz_canon(z))),
    }
}

fn g_month(s: &str) -> Verdict {
    if !s.is_ascii() || !s.starts_with("--") || s.len() < 4 {
        return Reject;
    }
    let Some(m) = two(&s[2..4]) else {
        return Reject;
    };
    // The format of the first edition of XSD 1.0 ("--MM--") is obsolete, but widespread.
    if let Some(rest) = s[4..].strip_prefix("--") {
        if tz(rest).is_some() && (1..=12).contains(&m) {
            return Free;
        }
    }
    let Some(z) = tz(&s[4..]) else { return Reject };
    if !(1..=12).contains(&m) {
        return Reject;
    }
    Accept(format!("{m}@{}", tz_canon(z)))
}

fn g_month_day(s: &str) -> Verdict {
    if !s.is_ascii() || !s.starts_with("--") || s.len() < 7 || s.as_bytes()[4] != b'-' {
        return Reject;
    }
    let (Some(m), Some(d)) = (two(&s[2..4]), two(&s[5..7])) else {
        return Reject;
    };
    let Some(z) = tz(&s[7..]) else { return Reject };
    if !(1..=12).contains(&m) || d < 1 || d > month_len(4, m) {
        return Reject;
    }
    Accept(format!("{m}-{d}@{}", tz_canon(z)))
}

fn g_day(s: &str) -> Verdict {
    if !s.is_ascii() || !s.starts_with("---") || s.len() < 5 {
        return Reject;
    }
    let Some(d) = two(&s[3..5]) else {
        return Reject;
    };
    let Some(z) = tz(&s[5..]) else { return Reject };
    if !(1..=31).contains(&d) {
        return Reject;
    }
    Accept(format!("{d}@{}", tz_canon(z)))
}

fn duration(s: &str) -> Verdict {
    // The empty text is not in the lexical space, but is deliberately read as zero.
    if s.is_empty() {
        return Free;
    }
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let Some(mut r) = r.strip_prefix('P') else {
        return Reject;
    };
    let mut values: [String; 6] = Default::default();
    let mut any = false;
    let mut pos = 0;
    let mut in_time = false;
    let mut time_any = false;
    while !r.is_empty() {
        if let Some(x) = r.strip_prefix('T') {
            if in_time {
                return Reject;
            }
            in_time = true;
            pos = 3;
            r = x;
            continue;
        }
        let n = r.bytes().take_while(|b| b.is_ascii_digit()).count();
        if n == 0 {
            return Reject;
        }
        let mut num = r[..n].to_string();
        r = &r[n..];
        let mut frac = false;
        if let Some(x) = r.strip_prefix('.') {
            let k = x.bytes().take_while(|b| b.is_ascii_digit()).count();
            if k == 0 {
                return Reject;
            }
            num = format!("{num}.{}", &x[..k]);
            r = &x[k..];
            frac = true;
        }
        let Some(c) = r.chars().next() else {
            return Reject;
        };
        let idx = match (c, in_time) {
            ('Y', false) => 0,
            ('M', false) => 1,
            ('D', false) => 2,
            ('H', true) => 3,
            ('M', true) => 4,
            ('S', true) => 5,
            _ => return Reject,
        };
        if idx < pos || (frac && idx != 5) {
            return Reject;
        }
        pos = idx + 1;
        values[idx] = num;
        any = true;
        time_any |= in_time;
        r = &r[1..];
    }
    if !any || (in_time && !time_any) {
        return Reject;
    }
    let mut nums = [0u64; 5];
    for i in 0..5 {
        if !values[i].is_empty() {
            match values[i].parse() {
                Ok(v) => nums[i] = v,
                Err(_) => return Free, // Exceeds the limits
            }
        }
    }
    let secs = if values[5].is_empty() {
        "0".to_string()
    } else {
        values[5].clone()
    };
    // The whole seconds must be within the limits too.
    if secs.split('.').next().unwrap().parse::<u64>().is_err() {
        return Free;
    }
    let secs: f64 = secs.parse().unwrap();
    Accept(duration_canon(neg, &nums, secs))
}

pub fn duration_canon(neg: bool, n: &[u64; 5], secs: f64) -> String {
    format!(
        "{}{}Y{}M{}D{}h{}m s{:e}",
        if neg { "-" } else { "+" },
        n[0],
        n[1],
        n[2],
        n[3],
        n[4],
        secs
    )
}

/// Seconds are binary floating point numbers, so they are compared with a relative tolerance.
/// The sign of a zero duration is irrelevant.
pub fn same_value(ty: &str, a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    if ty != "Duration" {
        return false;
    }
    let (Some((ha, sa)), Some((hb, sb))) = (a.rsplit_once('s'), b.rsplit_once('s')) else {
        return false;
    };
    let (Ok(x), Ok(y)) = (sa.parse::<f64>(), sb.parse::<f64>()) else {
        return false;
    };
    if (x - y).abs() > 1e-14 * x.abs().max(y.abs()) + 2e-18 {
        return false;
    }
    let zero = |h: &str| !h[1..].bytes().any(|c| (b'1'..=b'9').contains(&c));
    ha == hb || (ha[1..] == hb[1..] && zero(ha) && x == 0.0)
}
