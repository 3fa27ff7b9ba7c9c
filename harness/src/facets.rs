//! C15: the compiled validation of simple types with facets, against exact comparisons.

use num_bigint::BigInt;

use crate::{
    compiled::{Answer, Batch, Unit},
    core::Ctx,
    gencheck::generate_code,
    model::{self, ItKind},
    rng::Rng,
    schema::norm,
};

const INTS: &[(&str, &str, &str)] = &[
    ("byte", "-128", "127"),
    ("short", "-32768", "32767"),
    ("int", "-2147483648", "2147483647"),
    ("long", "-9223372036854775808", "9223372036854775807"),
    ("unsignedByte", "0", "255"),
    ("unsignedShort", "0", "65535"),
    ("unsignedInt", "0", "4294967295"),
    ("unsignedLong", "0", "18446744073709551615"),
    ("integer", "", ""),
    ("nonNegativeInteger", "0", ""),
    ("positiveInteger", "1", ""),
    ("nonPositiveInteger", "", "0"),
    ("negativeInteger", "", "-1"),
];

const TEXTS: &[&str] =
    &["string", "normalizedString", "token", "NMTOKEN", "Name", "NCName", "anyURI", "language", "ID", "IDREF", "ENTITY"];

const LISTS: &[&str] = &["NMTOKENS", "IDREFS", "ENTITIES"];

/// A value of an ordered type
#[derive(Clone, Debug)]
enum V {
    /// m / 10^k
    Num(BigInt, usize),
    Float(f64),
    /// Nanoseconds since the epoch
    Instant(BigInt),
    /// Months and nanoseconds
    Duration(i128, i128),
}

/// The nanoseconds from 0000-03-01 to the end of a duration which starts at one of the four dates
/// the order of durations is defined by (XML Schema Part 2, 3.2.6.2)
pub fn ends(months: i128, nanos: i128) -> [i128; 4] {
    [(1696, 9), (1697, 2), (1903, 3), (1903, 7)].map(|(y, m)| {
        let n = y * 12 + (m - 3) + months;
        let (mut days, y) = (0, n.div_euclid(12));
        days += y * 365 + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400);
        for len in [31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31].iter().take(n.rem_euclid(12) as usize) {
            days += len;
        }
        days * 86_400_000_000_000 + nanos
    })
}

/// The order of two durations, none if the dates disagree
pub fn duration_order(a: (i128, i128), b: (i128, i128)) -> Option<std::cmp::Ordering> {
    let same = a == b;
    let (a, b) = (ends(a.0, a.1), ends(b.0, b.1));
    let first = a[0].cmp(&b[0]);
    // Only the same durations are equal (the note at the end of 3.3.6.2 of XSD 1.1): that all four
    // dates lead to the same ones by accident (P157Y5M1543D and P1937M82D) does not count.
    if first.is_eq() && !same {
        return None;
    }
    (0..4).all(|i| a[i].cmp(&b[i]) == first).then_some(first)
}

impl V {
    /// None if one is neither less nor greater than the other
    fn order(&self, o: &V) -> Option<std::cmp::Ordering> {
        Some(match (self, o) {
            (V::Num(a, k), V::Num(b, l)) => {
                let ten = BigInt::from(10);
                (a * ten.pow(*l as u32)).cmp(&(b * ten.pow(*k as u32)))
            }
            (V::Float(a), V::Float(b)) => a.partial_cmp(b).expect("no NaN"),
            (V::Instant(a), V::Instant(b)) => a.cmp(b),
            (V::Duration(a, b), V::Duration(c, d)) => return duration_order((*a, *b), (*c, *d)),
            _ => unreachable!(),
        })
    }

    fn cmp(&self, o: &V) -> std::cmp::Ordering {
        self.order(o).unwrap_or(std::cmp::Ordering::Equal)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Base {
    Int(&'static str, Option<BigInt>, Option<BigInt>),
    Decimal,
    Float(&'static str),
    DateTime(&'static str),
    Duration,
    Text(&'static str),
    List(&'static str),
}

impl Base {
    fn name(&self) -> &'static str {
        match self {
            Base::Int(n, ..) | Base::Float(n) | Base::DateTime(n) | Base::Text(n) | Base::List(n) => n,
            Base::Decimal => "decimal",
            Base::Duration => "duration",
        }
    }

    fn pick(r: &mut Rng) -> Base {
        match r.below(22) {
            0..=8 => {
                let (n, lo, hi) = r.pick(INTS);
                Base::Int(n, lo.parse().ok(), hi.parse().ok())
            }
            9..=11 => Base::Decimal,
            12 | 13 => Base::Float(r.pick(&["double", "float"])),
            14 | 15 => Base::DateTime(r.pick(&["dateTime", "dateTimeStamp"])),
            20 | 21 => Base::Duration,
            16..=18 => Base::Text(r.pick(TEXTS)),
            _ => Base::List(r.pick(LISTS)),
        }
    }

    fn holds(&self, v: &V) -> bool {
        match (self, v) {
            (Base::Int(_, lo, hi), V::Num(m, 0)) => {
                lo.as_ref().map(|l| m >= l).unwrap_or(true) && hi.as_ref().map(|h| m <= h).unwrap_or(true)
            }
            (Base::Int(..), _) => false,
            // Years of four digits
            (Base::DateTime(_), V::Instant(n)) => {
                let day = BigInt::from(86400i64) * BigInt::from(1_000_000_000i64);
                let days = n / day;
                days > BigInt::from(-600_000) && days < BigInt::from(2_900_000)
            }
            _ => true,
        }
    }

    fn random(&self, r: &mut Rng) -> V {
        loop {
            let v = match self {
                Base::Int(_, lo, hi) => {
                    let n: BigInt = match r.below(6) {
                        0 => lo.clone().unwrap_or_default(),
                        1 => hi.clone().unwrap_or_default(),
                        2 => r.range(-10, 10).into(),
                        3 => r.range(-300, 300).into(),
                        4 => (r.next() as i64).into(),
                        _ => {
                            let n = 1 + r.below(40);
                            let n: BigInt = r.digits(n).parse().unwrap();
                            r.either(50, n.clone(), -n)
                        }
                    };
                    V::Num(n, 0)
                }
                Base::Decimal => {
                    let n = 1 + r.below(30);
                    let m: BigInt = r.digits(n).parse().unwrap();
                    let m = r.either(40, -m.clone(), m);
                    V::Num(m, r.below(12))
                }
                Base::Float(_) => V::Float(match r.below(6) {
                    0 => r.range(-1000, 1000) as f64 / 8.0,
                    1 => r.range(-10, 10) as f64,
                    2 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN_POSITIVE]),
                    3 => r.range(-1_000_000_000, 1_000_000_000) as f64 * 1e12,
                    4 => r.range(-1000, 1000) as f64 * 1e-9,
                    _ => f64::from_bits(r.next()),
                }),
                Base::DateTime(_) => {
                    let secs = r.range(-40_000_000_000, 100_000_000_000);
                    let nanos = if r.chance(50) { 0 } else { r.below(1_000_000_000) as i64 };
                    V::Instant(BigInt::from(secs) * BigInt::from(1_000_000_000i64) + BigInt::from(nanos))
                }
                Base::Duration => {
                    let (m, n) = match r.below(4) {
                        0 => (0, duration_nanos(r)),
                        1 => (r.range(0, 40), 0),
                        2 => (r.range(0, 30), duration_nanos(r)),
                        _ => (r.range(0, 5000), duration_nanos(r)),
                    };
                    let sign = r.either(40, -1, 1);
                    V::Duration(m as i128 * sign, n * sign)
                }
                _ => unreachable!(),
            };
            if matches!(v, V::Float(f) if f.is_nan()) || !self.holds(&v) {
                continue;
            }
            return v;
        }
    }

    /// The values next to another
    fn near(&self, v: &V, r: &mut Rng) -> Vec<V> {
        let mut out = vec![v.clone()];
        match v {
            V::Num(m, k) => {
                for d in [-1, 1] {
                    out.push(V::Num(m + d, *k));
                    out.push(V::Num(m + d * 2, *k));
                    let n = r.range(3, 1000);
                    out.push(V::Num(m + d * n, *k));
                    // The sign and the length change.
                    out.push(V::Num(m * 10 + d, *k));
                    if *self == Base::Decimal {
                        let e = 1 + r.below(20);
                        out.push(V::Num(m * BigInt::from(10).pow(e as u32) + d, k + e));
                    }
                }
                out.push(V::Num(-m, *k));
            }
            V::Float(f) => {
                out.push(V::Float(-f));
                out.push(V::Float(f + 1.0));
                out.push(V::Float(f - 1.0));
                out.push(V::Float(f64::INFINITY));
                out.push(V::Float(f64::NEG_INFINITY));
                if f.is_finite() && *f != 0.0 {
                    out.push(V::Float(f64::from_bits(f.to_bits() + 1)));
                    out.push(V::Float(f64::from_bits(f.to_bits() - 1)));
                }
            }
            V::Duration(m, n) => {
                const DAY: i128 = 86_400_000_000_000;
                let sign = if m + n < 0 { -1 } else { 1 };
                for d in [125_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, DAY, 40 * DAY] {
                    out.push(V::Duration(*m, n + d * sign));
                    out.push(V::Duration(*m, n - d * sign));
                }
                for k in [1, 2, 12, 48] {
                    out.push(V::Duration(m + k * sign, *n));
                    out.push(V::Duration(m - k * sign, *n));
                    for days in [27, 28, 31, 32, 59, 62, 365, 366, 1461] {
                        if r.chance(20) {
                            out.push(V::Duration(m - k * sign, n + days * DAY * sign));
                        }
                    }
                }
                out.push(V::Duration(-m, -n));
                out.push(V::Duration(0, 0));
                // Every part has the same sign.
                out.retain(|v| matches!(v, V::Duration(m, n) if (*m >= 0 && *n >= 0) || (*m <= 0 && *n <= 0)));
            }
            V::Instant(n) => {
                for d in [1i64, 1_000_000, 1_000_000_000, 3_600_000_000_000, 86_400_000_000_000] {
                    out.push(V::Instant(n + d));
                    out.push(V::Instant(n - d));
                    out.push(V::Instant(n.clone()));
                }
            }
        }
        out.retain(|v| self.holds(v) && !matches!(v, V::Float(f) if f.is_nan()));
        out
    }

    /// Texts of the same value differ; `zone` is false when no dateTime has a timezone.
    fn text(&self, v: &V, zone: bool, r: &mut Rng) -> String {
        match v {
            V::Num(m, k) => {
                let neg = m.sign() == num_bigint::Sign::Minus;
                let mut s = m.magnitude().to_string();
                if *k > 0 {
                    while s.len() <= *k {
                        s.insert(0, '0');
                    }
                    s.insert(s.len() - k, '.');
                    if r.chance(20) {
                        s.push_str(r.pick(&["0", "00"]));
                    }
                }
                if r.chance(10) {
                    s.insert_str(0, r.pick(&["0", "00"]));
                }
                if neg {
                    s.insert(0, '-');
                } else if r.chance(10) {
                    s.insert(0, '+');
                }
                s
            }
            V::Float(f) if f.is_infinite() => if *f > 0.0 { "INF" } else { "-INF" }.to_string(),
            V::Float(f) => match r.below(3) {
                0 => format!("{f:e}"),
                1 => format!("{f:E}"),
                _ => format!("{f}"),
            },
            V::Instant(n) => instant(n, zone, r),
            V::Duration(m, n) => duration(*m, *n, r),
        }
    }
}

/// The fractions of a second are exact in the binary system.
fn duration_nanos(r: &mut Rng) -> i128 {
    let unit = *r.pick(&[1_000_000_000i64, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000]);
    let mut n = r.range(0, 100) * unit;
    if r.chance(40) {
        n += r.range(0, 100_000) * 125_000_000;
    }
    n as i128
}

/// One of the texts of a duration: its parts may exceed those of the next greater unit.
pub fn duration(months: i128, nanos: i128, r: &mut Rng) -> String {
    let mut out = String::from(if months < 0 || nanos < 0 { "-P" } else { "P" });
    let (months, nanos) = (months.abs(), nanos.abs());
    let carried = |r: &mut Rng, n: i128, unit: i128| -> (i128, i128) {
        let high = match r.below(4) {
            0 => 0,
            1 => (r.next() as i128) % (n / unit + 1),
            _ => n / unit,
        };
        (high, n - high * unit)
    };
    let (years, months) = carried(r, months, 12);
    let (days, rest) = carried(r, nanos, 86_400_000_000_000);
    let (hours, rest) = carried(r, rest, 3_600_000_000_000);
    let (minutes, rest) = carried(r, rest, 60_000_000_000);
    let put = |r: &mut Rng, n: i128, unit: char, out: &mut String| {
        if n > 0 || r.chance(10) {
            out.push_str(r.pick(&["", "", "", "0"]));
            out.push_str(&format!("{n}{unit}"));
        }
    };
    put(r, years, 'Y', &mut out);
    put(r, months, 'M', &mut out);
    put(r, days, 'D', &mut out);
    let mut time = String::new();
    put(r, hours, 'H', &mut time);
    put(r, minutes, 'M', &mut time);
    let nothing = time.is_empty() && out.ends_with('P');
    if rest > 0 || nothing {
        time.push_str(&(rest / 1_000_000_000).to_string());
        if rest % 1_000_000_000 > 0 {
            time.push_str(format!(".{:09}", rest % 1_000_000_000).trim_end_matches('0'));
        }
        time.push('S');
    }
    if !time.is_empty() {
        out.push('T');
        out.push_str(&time);
    }
    out
}

pub fn instant(n: &BigInt, zone: bool, r: &mut Rng) -> String {
    let offset = if zone { *r.pick(&[0i64, 0, 60, -60, 330, 840, -840, 59, -1]) } else { 0 };
    let n: i128 = n.to_string().parse().unwrap();
    let local = n + offset as i128 * 60 * 1_000_000_000;
    let day = 86_400_000_000_000i128;
    let (days, rest) = (local.div_euclid(day) as i64, local.rem_euclid(day) as i64);
    // From the days since the epoch to the date
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    let y = yoe + era * 400 + i64::from(m <= 2);
    let (secs, nanos) = (rest / 1_000_000_000, rest % 1_000_000_000);
    let mut s = format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", secs / 3600, secs / 60 % 60, secs % 60);
    if nanos > 0 {
        s.push_str(format!(".{nanos:09}").trim_end_matches('0'));
    }
    if zone {
        match offset {
            0 if r.chance(50) => s.push('Z'),
            _ => {
                let sign = if offset < 0 { '-' } else { '+' };
                s.push_str(&format!("{sign}{:02}:{:02}", offset.abs() / 60, offset.abs() % 60));
            }
        }
    }
    s
}

struct Def {
    base: Base,
    name: String,
    /// 0: named type, 1: global element, 2: element of a complex type, 3: global attribute,
    /// 4 and 5: the items of a list at the places 0 and 1
    place: usize,
    facets: Vec<(&'static str, String)>,
    /// A text and whether it satisfies all facets
    values: Vec<(String, bool)>,
}

fn def(r: &mut Rng, name: String) -> Def {
    let base = Base::pick(r);
    let mut facets = vec![];
    let mut values: Vec<(String, bool)> = vec![];
    match &base {
        Base::Text(_) | Base::List(_) => {
            let list = matches!(base, Base::List(_));
            let big = if r.chance(5) { 4_294_967_296 + r.below(100) as u64 } else { 0 };
            let n = r.below(if list { 6 } else { 70 });
            let m = n + r.below(10);
            match r.below(6) {
                0 | 1 => facets.push(("length", n as u64)),
                2 => facets.push(("minLength", n as u64)),
                3 => facets.push(("maxLength", m as u64 + big)),
                _ => facets.extend([("minLength", n as u64), ("maxLength", m as u64)]),
            }
            r.shuffle(&mut facets);
            let mut lens = vec![0, 1, n, n + 1, n.saturating_sub(1), m, m + 1, m.saturating_sub(1)];
            lens.extend((0..4).map(|_| r.below(2 * m + 3)));
            for l in lens {
                // A list has at least one item.
                if list && l == 0 {
                    continue;
                }
                let ok = facets.iter().all(|(k, v)| {
                    let l = l as u64;
                    match *k {
                        "length" => l == *v,
                        "minLength" => l >= *v,
                        _ => l <= *v,
                    }
                });
                let word = |r: &mut Rng, n: usize| -> String {
                    (0..n).map(|i| if i == 0 { 'a' } else { *r.pick(&['a', 'b', 'z', 'x', '0', '-', '_', '.']) }).collect()
                };
                let text = if list {
                    (0..l).map(|_| { let n = 1 + r.below(4); word(r, n) }).collect::<Vec<_>>().join(" ")
                } else {
                    word(r, l)
                };
                values.push((text, ok));
            }
            let facets = facets.into_iter().map(|(k, v)| (k, spaced(v.to_string(), r))).collect();
            return Def { base, name, place: 0, facets, values };
        }
        _ => (),
    }
    let (mut lo, mut hi) = (base.random(r), base.random(r));
    if r.chance(30) {
        let near = base.near(&lo, r);
        hi = r.pick(&near).clone();
    }
    if lo.cmp(&hi) == std::cmp::Ordering::Greater {
        std::mem::swap(&mut lo, &mut hi);
    }
    let zone = base.name() == "dateTimeStamp" || r.chance(60);
    let mut tests: Vec<(&'static str, V)> = vec![];
    let which = r.below(4);
    if which != 1 {
        tests.push((r.pick(&["minInclusive", "minExclusive"]), lo.clone()));
    }
    if which != 0 {
        tests.push((r.pick(&["maxInclusive", "maxExclusive"]), hi.clone()));
    }
    r.shuffle(&mut tests);
    let mut all = base.near(&lo, r);
    all.extend(base.near(&hi, r));
    all.extend((0..5).map(|_| base.random(r)));
    if let Base::Int(_, lo, hi) = &base {
        all.extend(lo.iter().chain(hi).map(|v| V::Num(v.clone(), 0)));
    }
    for v in &all {
        // The code refuses what is beyond a bound; a duration which is neither is a finding.
        if tests.iter().any(|(_, b)| v.order(b).is_none()) {
            continue;
        }
        let ok = tests.iter().all(|(k, b)| {
            use std::cmp::Ordering::*;
            match (*k, v.cmp(b)) {
                (_, Equal) => k.ends_with("Inclusive"),
                ("minInclusive" | "minExclusive", o) => o == Greater,
                (_, o) => o == Less,
            }
        });
        values.push((base.text(v, zone, r), ok));
    }
    let facets = tests.iter().map(|(k, b)| (*k, spaced(base.text(b, zone, r), r))).collect();
    Def { base, name, place: 0, facets, values }
}

/// The white space around the value of a facet is not significant.
fn spaced(s: String, r: &mut Rng) -> String {
    match r.below(12) {
        0 => format!(" {s} "),
        1 => format!("\n  {s}"),
        _ => s,
    }
}

/// Facets which all values satisfy or which the code does not check: they do not keep the others from it.
fn others(d: &Def, r: &mut Rng) -> Vec<(&'static str, String)> {
    let mut out = vec![];
    if r.chance(15) {
        out.push(("pattern", r.pick(&[".*", "[^&lt;]*", "(.|\\n)*"]).to_string()));
    }
    if r.chance(5) {
        out.push(("pattern", "[\\c\\C]*".to_string()));
    }
    if r.chance(10) {
        // What the type has already
        let space = match d.base {
            Base::Text("string") => "preserve",
            Base::Text("normalizedString") => "replace",
            _ => "collapse",
        };
        out.push(("whiteSpace", space.to_string()));
    }
    if matches!(d.base, Base::Int(..) | Base::Decimal) && r.chance(10) {
        out.push(("totalDigits", "2000".to_string()));
    }
    if matches!(d.base, Base::Decimal) && r.chance(20) {
        out.push(("fractionDigits", "1000".to_string()));
    }
    out
}

fn render(defs: &[Def], r: &mut Rng) -> String {
    let p = *r.pick(&["xs", "xsd", "x"]);
    let tns = if r.chance(50) { " xmlns:t=\"urn:t\" targetNamespace=\"urn:t\"" } else { "" };
    let mut out = format!("<{p}:schema xmlns:{p}=\"http://www.w3.org/2001/XMLSchema\"{tns}>\n");
    let mut holder = String::new();
    for d in defs {
        let mut ty = format!("<{p}:restriction base=\"{p}:{}\">", d.base.name());
        let mut facets = d.facets.clone();
        for f in others(d, r) {
            let at = r.below(facets.len() + 1);
            facets.insert(at, f);
        }
        for (k, v) in &facets {
            match r.below(4) {
                0 => ty.push_str(&format!(
                    "<{p}:{k} value=\"{v}\"><{p}:annotation><{p}:documentation>d</{p}:documentation></{p}:annotation></{p}:{k}>"
                )),
                1 => ty.push_str(&format!("<{p}:{k} fixed=\"true\" value='{v}'/>\n")),
                _ => ty.push_str(&format!("<{p}:{k} value=\"{v}\"/>")),
            }
        }
        ty.push_str(&format!("</{p}:restriction></{p}:simpleType>"));
        if d.place > 3 {
            ty = format!("<{p}:list><{p}:simpleType>{ty}</{p}:list></{p}:simpleType>");
        }
        match d.place {
            0 | 4 => out.push_str(&format!("<{p}:simpleType name=\"{}\">{ty}\n", d.name)),
            3 => out.push_str(&format!("<{p}:attribute name=\"{}\"><{p}:simpleType>{ty}</{p}:attribute>\n", d.name)),
            1 | 5 => out.push_str(&format!("<{p}:element name=\"{}\"><{p}:simpleType>{ty}</{p}:element>\n", d.name)),
            _ => {
                let occurs = r.pick(&["", " minOccurs=\"0\"", " maxOccurs=\"unbounded\""]);
                holder.push_str(&format!("<{p}:element name=\"{}\"{occurs}><{p}:simpleType>{ty}</{p}:element>\n", d.name));
            }
        }
    }
    if !holder.is_empty() {
        out.push_str(&format!("<{p}:complexType name=\"Holder\"><{p}:sequence>\n{holder}</{p}:sequence></{p}:complexType>\n"));
    }
    out.push_str(&format!("</{p}:schema>"));
    out
}

/// The path of the type of a definition in the generated code
fn path(m: &model::Module, d: &Def) -> Option<String> {
    let find = |name: &str| m.items.iter().find(|i| norm(&i.name) == norm(name));
    if matches!(d.place, 0 | 1 | 3) {
        return find(&d.name).map(|i| i.name.clone());
    }
    if d.place > 3 {
        let ItKind::Tuple(t) = &find(&d.name)?.kind else { return None };
        let (_, item) = model::peel(t.first()?)?;
        return Some(model::tokens(&item));
    }
    let ItKind::Struct(f) = &find("Holder")?.kind else { return None };
    let f = f.iter().find(|f| f.yaserde.rename.as_deref().unwrap_or(&f.name) == d.name)?;
    let mut ty = f.ty.clone();
    while let Some((_, t)) = model::peel(&ty) {
        ty = t;
    }
    Some(model::tokens(&ty))
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "a text of a simple type with facets, validated by the compiled code of the type; distinct in facets and text".into();
    for _ in 0..ctx.scale(1, 20) {
        batch(ctx, 56, 14);
        if ctx.full() {
            break;
        }
    }
    nan(ctx);
}

fn unit(ctx: &mut Ctx, xml: String, defs: &[Def]) -> Option<Unit> {
    let code = match generate_code(ctx, &xml) {
        Ok(c) => c,
        Err(e) => {
            ctx.violation("generate", &format!("the generator failed: {e}\n{xml}"));
            return None;
        }
    };
    let Ok(module) = model::parse(&code) else {
        ctx.violation("parse", &format!("the code is not valid Rust\n{xml}\n{code}"));
        return None;
    };
    let mut arms = String::new();
    let mut asks = vec![];
    for (case, d) in defs.iter().enumerate() {
        let Some(p) = path(&module, d) else {
            ctx.violation("type", &format!("no type was generated for {}\n{xml}\n{code}", d.name));
            continue;
        };
        arms.push_str(&format!(
            "        {case} => {{\n            let v: {p} = data.parse().map_err(|e| format!(\"unreadable: {{e:?}}\"))?;\n            Ok(match v.validate() {{ Ok(()) => \"accepted\".into(), Err(e) => format!(\"refused {{e}}\") }})\n        }}\n"
        ));
        asks.extend(d.values.iter().map(|(v, _)| (case, v.clone())));
    }
    let driver = format!(
        "pub fn drive(case: usize, data: &str) -> Result<String, String> {{\n    match case {{\n{arms}        _ => Err(\"no such case\".into()),\n    }}\n}}\n"
    );
    Some(Unit { code, driver, origin: xml, asks })
}

fn batch(ctx: &mut Ctx, units: usize, types: usize) {
    let batch = Batch::new(ctx);
    let mut all = vec![];
    let mut defs = vec![];
    for _ in 0..units {
        let mut r = Rng::new(ctx.rng.next(), "facets");
        let d: Vec<Def> = (0..types)
            .map(|i| {
                let mut d = def(&mut r, format!("type{i}"));
                d.place = if r.chance(20) && !matches!(d.base, Base::List(_)) { 4 + r.below(2) } else { r.below(4) };
                d
            })
            .collect();
        let xml = render(&d, &mut r);
        if let Some(u) = unit(ctx, xml, &d) {
            all.push(u);
            defs.push(d);
        }
    }
    let broken = batch.compile(ctx, &all);
    for (u, e) in &broken {
        let types = defs[*u].iter().map(|d| d.base.name()).collect::<Vec<_>>().join(" ");
        ctx.violation("compile", &format!("the code does not compile ({types}):\n{e}\n{}\n{}", all[*u].origin, all[*u].code));
    }
    let answers = batch.run(ctx, &all, &broken);
    for (u, unit) in all.iter().enumerate() {
        let wants = defs[u].iter().enumerate().flat_map(|(c, d)| d.values.iter().map(move |v| (c, v)));
        // The answers are those of the definitions which have a type.
        let mut wants = wants.peekable();
        for (i, a) in answers[u].iter().enumerate() {
            let (case, text) = &unit.asks[i];
            while wants.peek().map(|(c, _)| c != case).unwrap_or(false) {
                wants.next();
            }
            let Some((_, (_, ok))) = wants.next() else { break };
            let d = &defs[u][*case];
            let got = match a {
                Answer::Broken => continue,
                Answer::Ok(t) if t == "accepted" => true,
                Answer::Ok(_) => false,
                other => {
                    ctx.violation(
                        &format!("end:{}", d.base.name()),
                        &format!("{text:?} of {} with {:?} ends with {other:?}\n{}\n{}", d.base.name(), d.facets, unit.origin, unit.code),
                    );
                    continue;
                }
            };
            ctx.nontrivial(&format!("{} {:?} {text}", d.base.name(), d.facets));
            ctx.count(if *ok { "values to accept" } else { "values to refuse" });
            ctx.count(&format!("values of {}", d.base.name()));
            ctx.sample(997, || format!("{} {:?}: {text:?} -> {ok}", d.base.name(), d.facets));
            if got != *ok {
                ctx.violation(
                    &format!("facets:{}", d.base.name()),
                    &format!(
                        "{text:?} of {} with {:?} is {} but the validation says {a:?}\n{}\n{}",
                        d.base.name(),
                        d.facets,
                        if *ok { "valid" } else { "invalid" },
                        unit.origin,
                        unit.code
                    ),
                );
            }
        }
    }
    if ctx.violations.is_empty() {
        batch.clean();
    }
}

/// What is known to be judged wrongly: these exact cases are findings.
fn nan(ctx: &mut Ctx) {
    let batch = Batch::new(ctx);
    let one = |base: Base, facet: &'static str, bound: &str, value: &str, ok: bool| Def {
        base,
        name: format!("type-{facet}"),
        place: 0,
        facets: vec![(facet, bound.to_string())],
        values: vec![(value.to_string(), ok)],
    };
    let probes = [
        ("nan", one(Base::Float("double"), "minInclusive", "0", "NaN", false)),
        ("duration-incomparable", one(Base::Duration, "minInclusive", "P1M", "P30D", false)),
        ("length-in-bytes", one(Base::Text("string"), "length", "1", "é", true)),
    ];
    let mut units = vec![];
    let mut r = Rng::new(1, "nan");
    for (_, d) in &probes {
        let xml = render(std::slice::from_ref(d), &mut r);
        units.extend(unit(ctx, xml, std::slice::from_ref(d)));
    }
    if units.len() < probes.len() {
        return;
    }
    let broken = batch.compile(ctx, &units);
    let answers = batch.run(ctx, &units, &broken);
    for (u, (name, d)) in probes.iter().enumerate() {
        let got = matches!(&answers[u][..], [Answer::Ok(t)] if t == "accepted");
        if got != d.values[0].1 || !broken.is_empty() {
            ctx.violation(name, &format!("{:?} with {:?}: {:?}", d.values, d.facets, answers[u]));
        }
    }
    if ctx.violations.is_empty() {
        batch.clean();
    }
}
