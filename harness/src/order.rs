//! C29: values of the library's types compare as the values they stand for.

use std::cmp::Ordering;

use num_bigint::{BigInt, ToBigInt};
use xsd_types::types as xs;

use crate::{
    core::Ctx,
    facets::{duration_order, instant},
    oracle::{verdict, Verdict},
    rng::Rng,
    values::{gen_valid, Val},
};

/// What a text stands for
#[derive(Clone, Debug, PartialEq)]
enum Key {
    /// m / 10^k
    Num(BigInt, usize),
    /// Nanoseconds and whether there is a time zone
    Instant(BigInt, bool),
    /// Months and nanoseconds
    Duration(i128, i128),
    /// The canonical fields and time zone
    Fields(String, String),
}

/// Whether the two are equal and how they are ordered, as far as this is specified
fn relation(a: &Key, b: &Key) -> (Option<bool>, Option<Option<Ordering>>) {
    let order = match (a, b) {
        (Key::Num(a, k), Key::Num(b, l)) => {
            let ten = BigInt::from(10);
            Some((a * ten.pow(*l as u32)).cmp(&(b * ten.pow(*k as u32))))
        }
        // The order of values with and without time zones is a partial one.
        (Key::Instant(_, z), Key::Instant(_, y)) if z != y => return (None, None),
        (Key::Instant(a, _), Key::Instant(b, _)) => Some(a.cmp(b)),
        (Key::Duration(a, b), Key::Duration(c, d)) => duration_order((*a, *b), (*c, *d)),
        (Key::Fields(a, z), Key::Fields(b, y)) => {
            // Values in different zones may be the same moment.
            let eq = if a != b && z != y { None } else { Some(a == b && z == y) };
            return (eq, None);
        }
        _ => unreachable!(),
    };
    (Some(order == Some(Ordering::Equal)), Some(order))
}

struct Item<T> {
    /// How the value was made
    how: String,
    value: T,
    key: Key,
}

fn equality<T: Val>(ctx: &mut Ctx, items: &[Item<T>]) {
    let name = T::NAME;
    for a in items {
        for b in items {
            if ctx.full() {
                return;
            }
            let (eq, _) = relation(&a.key, &b.key);
            let input = format!("{name}: {} and {}", a.how, b.how);
            ctx.nontrivial(&input);
            ctx.sample(30_011, || format!("{input}: {:?}", relation(&a.key, &b.key)));
            let got = ctx.observe(&input, || {
                #[allow(clippy::partialeq_ne_impl)]
                let all = [a.value == b.value, b.value == a.value, !(a.value != b.value), a.value.clone() == b.value];
                all
            });
            let got = match got {
                Ok(g) => g,
                Err(e) => {
                    ctx.violation(&format!("{name}:panic"), &format!("comparing {input} panicked: {e}"));
                    continue;
                }
            };
            match eq {
                Some(true) => ctx.count(&format!("{name}.equal")),
                Some(false) => ctx.count(&format!("{name}.different")),
                None => ctx.count(&format!("{name}.equality unspecified")),
            }
            if eq.map(|e| got.iter().any(|&g| g != e)).unwrap_or(got.iter().any(|&g| g != got[0])) {
                ctx.violation(
                    &format!("{name}:equality"),
                    &format!("{input} must be equal: {eq:?}, but (a == b, b == a, !(a != b), a.clone() == b) is {got:?}"),
                );
            }
        }
    }
    // Transitivity matters where the oracle has no opinion.
    for a in items {
        for b in items {
            for c in items {
                if a.value == b.value && b.value == c.value && a.value != c.value {
                    ctx.violation(
                        &format!("{name}:transitivity"),
                        &format!("{name}: {} = {} = {}, but the first and the last differ", a.how, b.how, c.how),
                    );
                }
            }
        }
    }
}

fn order<T: Val + PartialOrd>(ctx: &mut Ctx, items: &[Item<T>]) {
    let name = T::NAME;
    for a in items {
        for b in items {
            if ctx.full() {
                return;
            }
            let (_, want) = relation(&a.key, &b.key);
            let input = format!("the order of {name}: {} and {}", a.how, b.how);
            let got = ctx.observe(&input, || {
                let (v, w) = (&a.value, &b.value);
                (v.partial_cmp(w), w.partial_cmp(v).map(Ordering::reverse), [v < w, v <= w, v > w, v >= w], v == w)
            });
            let (got, back, ops, eq) = match got {
                Ok(g) => g,
                Err(e) => {
                    ctx.violation(&format!("{name}:panic"), &format!("{input} panicked: {e}"));
                    continue;
                }
            };
            if let Some(w) = want {
                ctx.count(&format!("{name}.{}", match w {
                    Some(Ordering::Less) => "less",
                    Some(Ordering::Equal) => "same",
                    Some(Ordering::Greater) => "greater",
                    None => "incomparable",
                }));
                if got != w {
                    ctx.violation(&format!("{name}:order"), &format!("{input} must be {w:?}, but is {got:?}"));
                    continue;
                }
            }
            let least = [
                got == Some(Ordering::Less),
                matches!(got, Some(Ordering::Less | Ordering::Equal)),
                got == Some(Ordering::Greater),
                matches!(got, Some(Ordering::Greater | Ordering::Equal)),
            ];
            if back != got || ops != least || eq != (got == Some(Ordering::Equal)) {
                ctx.violation(
                    &format!("{name}:laws"),
                    &format!("{input} is {got:?}, but the other way round {back:?}, (<, <=, >, >=) are {ops:?}, == is {eq}"),
                );
            }
        }
    }
    // Sorting by the order of the library sorts the values.
    if items.iter().all(|a| items.iter().all(|b| matches!(relation(&a.key, &b.key).1, Some(Some(_))))) {
        let mut sorted: Vec<&Item<T>> = items.iter().collect();
        sorted.sort_by(|a, b| a.value.partial_cmp(&b.value).unwrap_or(Ordering::Equal));
        ctx.count(&format!("{name}.sorted"));
        for w in sorted.windows(2) {
            if relation(&w[0].key, &w[1].key).1 == Some(Some(Ordering::Greater)) {
                ctx.violation(&format!("{name}:sorting"), &format!("{name}: {} is sorted before {}", w[0].how, w[1].how));
            }
        }
    }
}

/// The value as it is, printed and parsed, as XML and back, cloned
fn parsed<T: Val>(ctx: &mut Ctx, text: &str, key: Key, r: &mut Rng) -> Option<Item<T>> {
    let name = T::NAME;
    let value = match ctx.observe(&format!("{name} from {text:?}"), || T::from_str(text).ok()) {
        Ok(Some(v)) => v,
        Ok(None) => {
            ctx.violation(&format!("{name}:parse"), &format!("{name} refuses {text:?}"));
            return None;
        }
        Err(e) => {
            ctx.violation(&format!("{name}:panic"), &format!("parsing {text:?} as {name} panicked: {e}"));
            return None;
        }
    };
    let (how, value) = match r.below(12) {
        0 => (format!("{text:?} cloned"), value.clone()),
        1 => match ctx.observe(&format!("{name} {text:?} printed"), || T::from_str(&value.to_string()).ok()) {
            Ok(Some(v)) => (format!("{text:?} printed and parsed"), v),
            // This is C05.
            _ => (format!("{text:?}"), value),
        },
        2 => {
            let xml = format!("<a>{text}</a>");
            match ctx.observe(&format!("{name} <- {xml}"), || yaserde::de::from_str::<T>(&xml)) {
                Ok(Ok(v)) => (xml, v),
                _ => (format!("{text:?}"), value),
            }
        }
        _ => (format!("{text:?}"), value),
    };
    Some(Item { how, value, key })
}

/// The first number has the given sign (0: any).
fn numbers(r: &mut Rng, sign: i32) -> Vec<BigInt> {
    let corner = |r: &mut Rng| {
        let bits = *r.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128, 255]);
        BigInt::from(2).pow(bits) + r.range(-2, 2)
    };
    let base: BigInt = match r.below(4) {
        0 => BigInt::from(r.range(-3, 3)),
        1 => corner(r),
        2 => BigInt::from(r.range(-100_000, 100_000)),
        _ => r.some_digits(45).parse().unwrap(),
    };
    let base = if r.chance(40) { -base } else { base };
    let mut v = vec![base.clone(), base.clone()];
    while v.len() < 6 {
        let n = match r.below(7) {
            0 | 1 => &base + r.range(-2, 2),
            2 => -&base,
            3 => &base * 10,
            4 => &base / 10,
            5 => corner(r),
            _ => base.clone(),
        };
        v.push(n);
    }
    let zero = BigInt::from(0);
    v.into_iter()
        .map(|n| match sign {
            1 if n < zero => -n,
            -1 if n > zero => -n,
            _ => n,
        })
        .collect()
}

fn spelled(n: &BigInt, r: &mut Rng) -> String {
    let s = n.to_string();
    let (sign, digits) = match s.strip_prefix('-') {
        Some(d) => ("-", d.to_string()),
        None if s == "0" && r.chance(30) => ("-", s),
        None => (r.either(20, "+", ""), s),
    };
    let zeros = if r.chance(25) { r.below(4) } else { 0 };
    format!("{sign}{}{digits}", "0".repeat(zeros))
}

macro_rules! integers {
    ($ctx:ident, $r:ident, $($t:ident $sign:literal $least:expr, $greatest:expr, $make:expr;)*) => { $(
        for _ in 0..$ctx.scale(400, 20_000) {
            let mut items = vec![];
            for n in numbers(&mut $r, $sign) {
                let (least, greatest): (Option<i32>, Option<i32>) = ($least, $greatest);
                if least.map(|l| n < BigInt::from(l)) == Some(true) || greatest.map(|g| n > BigInt::from(g)) == Some(true) {
                    continue;
                }
                let key = Key::Num(n.clone(), 0);
                if $r.chance(25) {
                    let make: fn(&BigInt) -> xs::$t = $make;
                    items.push(Item { how: format!("{n} as a number"), value: make(&n), key });
                } else {
                    let text = spelled(&n, &mut $r);
                    // "-0" is no text of all of the types
                    let text = if matches!(verdict(stringify!($t), &text), Verdict::Accept(_)) { text } else { n.to_string() };
                    items.extend(parsed::<xs::$t>($ctx, &text, key, &mut $r));
                }
            }
            equality($ctx, &items);
            order($ctx, &items);
        }
    )* };
}

fn decimal_text(m: &BigInt, k: usize, r: &mut Rng) -> String {
    let s = m.to_string();
    let (sign, digits) = match s.strip_prefix('-') {
        Some(d) => ("-", d.to_string()),
        None => (r.either(20, "+", ""), s),
    };
    let digits = if digits.len() <= k { format!("{}{digits}", "0".repeat(k + 1 - digits.len())) } else { digits };
    let (int, frac) = digits.split_at(digits.len() - k);
    let int = if int == "0" && !frac.is_empty() && r.chance(30) { "" } else { int };
    let zeros = if r.chance(30) { "0".repeat(r.below(4)) } else { String::new() };
    let lead = if r.chance(15) { "00" } else { "" };
    let dot = if frac.is_empty() && zeros.is_empty() && r.chance(80) { "" } else { "." };
    let zeros = if dot.is_empty() { String::new() } else { zeros };
    format!("{sign}{lead}{int}{dot}{frac}{zeros}")
}

fn decimals(ctx: &mut Ctx, r: &mut Rng) {
    for _ in 0..ctx.scale(800, 40_000) {
        let k = *r.pick(&[0usize, 0, 1, 2, 3, 9, 17, 30]);
        let base: BigInt = match r.below(3) {
            0 => BigInt::from(r.range(-30, 30)),
            1 => BigInt::from(r.next()),
            _ => r.some_digits(50).parse().unwrap(),
        };
        let base = if r.chance(40) { -base } else { base };
        let mut items = vec![];
        for i in 0..6 {
            let (m, k) = match if i < 2 { 5 } else { r.below(9) } {
                0 => (&base + r.range(-1, 1), k),
                1 => (&base * 10 + r.range(-1, 1), k + 1),
                2 => (-&base, k),
                3 => (base.clone(), k + 1 + r.below(3)),
                4 => (base.clone(), k - r.below(k + 1)),
                5 => (base.clone(), k),
                6 => (&base * 100, k + 2),
                7 => (BigInt::from(r.range(-2, 2)), r.below(3)),
                _ => (&base * BigInt::from(10).pow(12) + 1, k + 12),
            };
            let key = Key::Num(m.clone(), k);
            if r.chance(25) {
                // Also with negative exponents
                let ten = BigInt::from(10);
                let (m, e) = if k == 0 && &m % &ten == BigInt::from(0) { (&m / &ten, -1) } else { (m, k as i64) };
                let value = xs::Decimal::from_bigdecimal(bigdecimal::BigDecimal::new(m.clone(), e));
                items.push(Item { how: format!("{m}e-({e}) as a number"), value, key });
            } else {
                let text = decimal_text(&m, k, r);
                items.extend(parsed::<xs::Decimal>(ctx, &text, key, r));
            }
        }
        for i in &items {
            let back = xs::Decimal::from_bigdecimal(i.value.to_bigdecimal());
            if back != i.value {
                ctx.violation("Decimal:conversion", &format!("{} becomes {back:?} by its conversions", i.how));
            }
        }
        equality(ctx, &items);
        order(ctx, &items);
    }
}

const SECOND: i128 = 1_000_000_000;

macro_rules! instants {
    ($ctx:ident, $r:ident, $($t:ident $zoned:literal;)*) => { $(
        for _ in 0..$ctx.scale(1000, 50_000) {
            // From the year 1 to 262000
            let least = -62_135_596_800i64 + 2 * 86_400;
            let base = match $r.below(5) {
                0 => $r.range(-2, 2) as i128 * 86_400 * SECOND,
                1 => 253_402_300_800i128 * SECOND,
                2 => $r.range(least, 253_402_300_800) as i128 * SECOND + $r.range(0, 999_999_999) as i128,
                // Around leap days
                3 => (($r.range(-1900, 3000) as i128 * 1461 + 1096) * 86_400 + $r.range(-90_000, 90_000) as i128) * SECOND / 4 * 4,
                _ => $r.range(0, 4_000_000_000) as i128 * SECOND,
            };
            let base = base.max(least as i128 * SECOND);
            let zone = $zoned || $r.chance(70);
            let mut items = vec![];
            for i in 0..6 {
                let n = base + match if i < 2 { 0 } else { $r.below(8) } {
                    0 | 1 => 0,
                    2 => $r.range(-1, 1) as i128,
                    3 => $r.range(-1, 1) as i128 * SECOND,
                    4 => $r.range(-14, 14) as i128 * 3600 * SECOND,
                    5 => $r.range(-1, 1) as i128 * 86_400 * SECOND,
                    6 => $r.range(-1, 1) as i128 * 366 * 86_400 * SECOND,
                    _ => $r.range(-999_999_999, 999_999_999) as i128,
                };
                let n = n.max(least as i128 * SECOND);
                let zone = zone != (!$zoned && $r.chance(5));
                let text = instant(&BigInt::from(n), zone, &mut $r);
                let key = Key::Instant(BigInt::from(n), zone);
                let Some(i) = parsed::<xs::$t>($ctx, &text, key, &mut $r) else { continue };
                let same = xs::$t::from_chrono_datetime(i.value.to_chrono_datetime());
                if same != i.value || same.proj() != i.value.proj() {
                    $ctx.violation(
                        concat!(stringify!($t), ":conversion"),
                        &format!("{} becomes {same:?} by its conversions", i.how),
                    );
                }
                items.push(if $r.chance(20) { Item { how: format!("{} converted", i.how), value: same, key: i.key } } else { i });
            }
            equality($ctx, &items);
            order($ctx, &items);
        }
    )* };
}

/// One of the texts of a duration whose seconds are exact as floating point numbers
fn duration_text(months: i128, nanos: i128, r: &mut Rng) -> String {
    if nanos.abs() < (1i128 << 49) * SECOND {
        return crate::facets::duration(months, nanos, r);
    }
    let sign = if nanos < 0 || months < 0 { "-" } else { "" };
    let (m, n) = (months.abs(), nanos.abs());
    let seconds = n / SECOND;
    let mut s = format!("{sign}P{}Y{}M{}DT{}H{}M{}", m / 12, m % 12, seconds / 86_400, seconds / 3600 % 24, seconds / 60 % 60, seconds % 60);
    if n % SECOND > 0 {
        s.push_str(format!(".{:09}", n % SECOND).trim_end_matches('0'));
    }
    s.push('S');
    s
}

fn durations(ctx: &mut Ctx, r: &mut Rng) {
    const DAY: i128 = 86_400 * SECOND;
    for _ in 0..ctx.scale(4000, 200_000) {
        let months = match r.below(6) {
            0 => 0,
            1 => r.range(0, 14),
            2 => r.range(0, 6000),
            3 => r.range(0, 400) * 12,
            4 => r.range(0, 1_000_000_000_000),
            _ => r.range(0, 60),
        } as i128;
        let nanos = match r.below(6) {
            0 => 0,
            1 => r.range(0, 62) as i128 * DAY,
            // About as long as the months
            2 => months * 30_436_875 * DAY / 1_000_000 / DAY * DAY + r.range(-3, 3) as i128 * DAY,
            3 => r.range(0, 10_000_000) as i128 * 125_000_000,
            4 => r.range(0, 1 << 62) as i128 * DAY,
            _ => r.range(0, 100_000) as i128 * SECOND,
        }
        .max(0);
        let sign = r.either(30, -1, 1);
        let mut items = vec![];
        for i in 0..6 {
            let (m, n) = match if i < 2 { 0 } else { r.below(9) } {
                0 | 1 => (months, nanos),
                2 => (months, nanos + r.range(-1, 1) as i128 * SECOND),
                3 => (months, nanos + 125_000_000),
                4 => (months + 1, nanos - r.range(27, 32) as i128 * DAY),
                5 => {
                    let k = r.range(1, 14) as i128;
                    (months - k, nanos + k * 30 * DAY + r.range(-1, 6) as i128 * DAY)
                }
                6 => (months + 12, nanos - r.range(364, 367) as i128 * DAY),
                7 => (0, months * 30 * DAY + nanos + months / 2 * DAY),
                _ => (months + r.range(-1, 1) as i128, nanos),
            };
            if m < 0 || n < 0 || (m > 0 && n < 0) {
                continue;
            }
            let sign = if r.chance(8) { -sign } else { sign };
            let text = duration_text(m * sign, n * sign, r);
            // A zero has two texts.
            let text = if m == 0 && n == 0 && r.chance(30) { format!("-{}", text.trim_start_matches('-')) } else { text };
            items.extend(parsed::<xs::Duration>(ctx, &text, Key::Duration(m * sign, n * sign), r));
        }
        equality(ctx, &items);
        order(ctx, &items);
    }
    // The seconds are a binary floating point number, which does not keep all fractions of a
    // second beyond a minute.
    let pair = ["PT60.1S", "PT1M0.1S"].map(|t| t.parse::<xs::Duration>());
    if let [Ok(a), Ok(b)] = &pair {
        if a != b {
            ctx.violation("duration-fraction", "PT60.1S and PT1M0.1S are not equal");
        }
    }
}

/// Another text of the same value, or a text of a value nearby
fn nearby(name: &str, text: &str, r: &mut Rng) -> String {
    let digits: Vec<usize> = text.bytes().enumerate().filter(|(_, b)| b.is_ascii_digit()).map(|(i, _)| i).collect();
    for _ in 0..50 {
        let zone = text.rfind(['Z', '+', '-']).filter(|&i| text[i..] == *"Z" || text[i..].contains(':'));
        // The first colon of a time is not one of a zone.
        let zone = zone.filter(|&i| text[i..].len() == 6 || text[i..].len() == 1);
        let (body, tz) = text.split_at(zone.unwrap_or(text.len()));
        let other = match r.below(6) {
            0 => format!("{body}{}", r.pick(&["", "Z", "+00:00", "-00:00", "+14:00", "-14:00", "+05:30", "-00:30", "+00:30"])),
            1 if matches!(tz, "Z" | "+00:00" | "-00:00") => format!("{body}{}", r.pick(&["Z", "+00:00", "-00:00"])),
            2 if name == "Time" => match body.split_once('.') {
                Some((_, f)) if f.len() < 9 => format!("{body}0{tz}"),
                None => format!("{body}.0{tz}"),
                _ => continue,
            },
            3 if name == "Time" => format!("{}{tz}", r.pick(&["24:00:00", "00:00:00", "00:00:00.000"])),
            4 | 5 => {
                let at = *r.pick(&digits);
                format!("{}{}{}", &text[..at], r.below(10), &text[at + 1..])
            }
            _ => continue,
        };
        if matches!(verdict(name, &other), Verdict::Accept(_)) {
            return other;
        }
    }
    text.to_string()
}

fn fields<T: Val>(ctx: &mut Ctx, r: &mut Rng) -> Vec<Item<T>> {
    let name = T::NAME;
    let mut text = gen_valid(name, r);
    let mut items = vec![];
    for i in 0..6 {
        if i > 0 && r.chance(85) {
            text = nearby(name, &text, r);
        }
        let Verdict::Accept(canon) = verdict(name, &text) else { continue };
        let (f, z) = canon.split_once('@').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((canon.clone(), String::new()));
        items.extend(parsed::<T>(ctx, &text, Key::Fields(f, z), r));
    }
    items
}

fn calendar<T: Val>(ctx: &mut Ctx, r: &mut Rng) {
    for _ in 0..ctx.scale(500, 25_000) {
        let items = fields::<T>(ctx, r);
        equality(ctx, &items);
    }
}

pub fn c29(ctx: &mut Ctx) {
    ctx.rule = "a pair of values which differs from all others; clusters of six values which are the same, next to each other, of \
                opposite sign or of other scale or zone, from texts with several spellings, numbers, XML and conversions"
        .into();
    let mut r = ctx.rng.clone();
    ctx.phase("integers", 300);
    integers!(ctx, r,
        Integer 0 None, None, |n| xs::Integer::from_bigint(n.clone());
        NonNegativeInteger 1 Some(0), None, |n| xs::NonNegativeInteger::from_biguint(n.to_biguint().unwrap());
        PositiveInteger 1 Some(1), None, |n| xs::PositiveInteger::from_biguint(n.to_biguint().unwrap());
        NonPositiveInteger -1 None, Some(0), |n| xs::NonPositiveInteger::from_bigint(n.clone());
        NegativeInteger -1 None, Some(-1), |n| xs::NegativeInteger::from_bigint(n.clone());
    );
    // The conversions give the number.
    for n in numbers(&mut r, 0) {
        if xs::Integer::from_bigint(n.clone()).to_bigint() != Some(n.clone()) {
            ctx.violation("Integer:conversion", &format!("{n} is not kept by the conversions of Integer"));
        }
    }
    ctx.phase("decimals", 300);
    decimals(ctx, &mut r);
    ctx.phase("moments", 300);
    instants!(ctx, r, DateTime false; DateTimeStamp true;);
    ctx.phase("durations", 300);
    durations(ctx, &mut r);
    ctx.phase("calendar", 300);
    calendar::<xs::Date>(ctx, &mut r);
    calendar::<xs::Time>(ctx, &mut r);
    calendar::<xs::GYear>(ctx, &mut r);
    calendar::<xs::GYearMonth>(ctx, &mut r);
    calendar::<xs::GMonth>(ctx, &mut r);
    calendar::<xs::GMonthDay>(ctx, &mut r);
    calendar::<xs::GDay>(ctx, &mut r);
}
