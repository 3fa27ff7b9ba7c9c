//! C01 - C05, C07: monitors over the real parsing and printing of the value types.

use crate::{
    core::Ctx,
    for_all_types,
    oracle::{self, same_value, verdict, Verdict},
    values::{self, Val},
};

fn shape(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '0'..='9' => '9',
            c if c.is_ascii() => c,
            _ => 'U',
        })
        .take(40)
        .collect()
}

pub fn check_text<T: Val>(ctx: &mut Ctx, s: &str) {
    let input = format!("{} <- {:?}", T::NAME, s);
    let want = verdict(T::NAME, s);
    let got = ctx.observe(&input, || T::from_str(s).ok().map(|v| v.proj()));
    let got = match got {
        Ok(v) => v,
        Err(p) => {
            ctx.violation(
                &format!("panic:{}", T::NAME),
                &format!("{input}\npanicked: {p}"),
            );
            return;
        }
    };
    let class = match (&want, &got) {
        (Verdict::Accept(_), Some(_)) => "accepted",
        (Verdict::Reject, None) => "rejected",
        (Verdict::Free, _) => "unspecified",
        _ => "DISAGREED",
    };
    ctx.count(&format!("{}.{}", T::NAME, class));
    if class != "unspecified" {
        ctx.nontrivial(&input);
        ctx.nontrivial_shape(&format!("{}{}{}", T::NAME, class, shape(s)));
    }
    ctx.sample(7919, || format!("{input} => {got:?}"));
    match (&want, &got) {
        (Verdict::Accept(w), Some(g)) if !same_value(T::NAME, w, g) => ctx.violation(
            &format!("value:{}:{}", T::NAME, s),
            &format!("{input}\nmust be read as  {w}\nbut was read as {g}"),
        ),
        (Verdict::Accept(w), None) => ctx.violation(
            &format!("rejected:{}:{}", T::NAME, s),
            &format!("{input}\nis valid (value {w}) but was rejected"),
        ),
        (Verdict::Reject, Some(g)) => ctx.violation(
            &format!("accepted:{}:{}", T::NAME, s),
            &format!("{input}\nis not in the lexical space but was accepted as {g}"),
        ),
        (Verdict::Accept(w), Some(_)) if is_number(T::NAME) => check_print::<T>(ctx, s, w),
        _ => (),
    }
}

fn is_number(ty: &str) -> bool {
    ty == "Decimal" || ty.ends_with("Integer")
}

/// The printed text of a number denotes the number which was written.
fn check_print<T: Val>(ctx: &mut Ctx, s: &str, want: &str) {
    let input = format!("text of {} <- {:?}", T::NAME, s);
    let text = match ctx.observe(&input, || T::from_str(s).ok().map(|v| v.to_string())) {
        Ok(Some(t)) => t,
        other => {
            ctx.violation(
                &format!("print:{}:{s}", T::NAME),
                &format!("{input}: printing failed: {other:?}"),
            );
            return;
        }
    };
    ctx.count("printed");
    match verdict(T::NAME, &text) {
        Verdict::Accept(w) if same_value(T::NAME, &w, want) => (),
        v => ctx.violation(
            &format!("print:{}:{s}", T::NAME),
            &format!("{input}\nthe number {want} was printed as {text:?} ({})", match v {
                Verdict::Accept(w) => format!("which is {w}"),
                _ => "which is not in the lexical space".into(),
            }),
        ),
    }
}

/// The conversions from and to big numbers keep the number.
fn conversions(ctx: &mut Ctx, n: usize) {
    use bigdecimal::{BigDecimal, FromPrimitive};
    use num_bigint::{BigInt, BigUint, ToBigInt, ToBigUint};
    use xsd_types::types::*;
    let mut r = ctx.rng.clone();
    for _ in 0..n {
        if ctx.full() {
            break;
        }
        let text = loop {
            let s = values::gen_valid("Integer", &mut r);
            if s.parse::<BigInt>().is_ok() {
                break s;
            }
        };
        let int: BigInt = text.parse().unwrap();
        let mag: BigUint = int.magnitude().clone();
        let neg = -BigInt::from(mag.clone());
        let scale = r.range(-9, 25);
        let dec = BigDecimal::new(int.clone(), scale);
        let input = format!("conversions of {int}, scale {scale}");
        ctx.nontrivial(&input);
        let zero = BigInt::from_i32(0).unwrap();
        let res = ctx.observe(&input, || {
            let mut wrong = vec![];
            let mut signed = |name: &str, got: Option<BigInt>, text: String, want: &BigInt| {
                if got.as_ref() != Some(want) || text != want.to_string() {
                    wrong.push(format!("{name}: {want} became {got:?}, printed as {text:?}"));
                }
            };
            let v = Integer::from_bigint(int.clone());
            signed("Integer", v.to_bigint(), v.to_string(), &int);
            let v = NonPositiveInteger::from_bigint(neg.clone());
            signed("NonPositiveInteger", v.to_bigint(), v.to_string(), &neg);
            let v = NonNegativeInteger::from_biguint(mag.clone());
            let pos = -neg.clone();
            signed("NonNegativeInteger", v.to_biguint().map(BigInt::from), v.to_string(), &pos);
            if int != zero {
                let v = NegativeInteger::from_bigint(neg.clone());
                signed("NegativeInteger", v.to_bigint(), v.to_string(), &neg);
                let v = PositiveInteger::from_biguint(mag.clone());
                signed("PositiveInteger", v.to_biguint().map(BigInt::from), v.to_string(), &pos);
            }
            let v = Decimal::from_bigdecimal(dec.clone());
            let text = v.to_string();
            let same = matches!(verdict("Decimal", &text), Verdict::Accept(w) if w == v.proj());
            if v.to_bigdecimal() != dec || !same {
                wrong.push(format!("Decimal: {dec} became {}, printed as {text:?}", v.proj()));
            }
            wrong
        });
        ctx.count("conversions");
        match res {
            Ok(w) if w.is_empty() => (),
            Ok(w) => ctx.violation(&format!("conversion:{int}"), &format!("{input}\n{}", w.join("\n"))),
            Err(p) => ctx.violation(&format!("conversion:{int}"), &format!("{input}\npanicked: {p}")),
        }
    }
    ctx.rng = r;
}

fn exhaustive_short<T: Val>(ctx: &mut Ctx, len: usize) {
    let a = values::alphabet(T::NAME);
    let mut idx = vec![0usize; 0];
    loop {
        // Odometer over all strings of up to `len` symbols
        let s: String = idx.iter().map(|&i| a[i]).collect();
        check_text::<T>(ctx, &s);
        let mut p = 0;
        loop {
            if p == idx.len() {
                idx.push(0);
                break;
            }
            idx[p] += 1;
            if idx[p] < a.len() {
                break;
            }
            idx[p] = 0;
            p += 1;
        }
        if idx.len() > len || ctx.full() {
            break;
        }
    }
}

fn lexical<T: Val>(ctx: &mut Ctx, n: usize, corpus: &[&str], short: usize) {
    for s in corpus {
        check_text::<T>(ctx, s);
    }
    exhaustive_short::<T>(ctx, short);
    let mut r = ctx.rng.clone();
    for _ in 0..n {
        if ctx.full() {
            break;
        }
        let s = values::gen_any(T::NAME, &mut r);
        check_text::<T>(ctx, &s);
    }
    ctx.rng = r;
}

const RULE: &str = "texts are made from the grammar of the type (boundaries of every component \
weighted up), by mutation of valid texts, exhaustively over short strings of the type's alphabet, \
and from noise; an independent implementation of the XSD lexical-to-value mapping judges each: \
must be accepted with this value / must be rejected / unspecified. A case is non-trivial when the \
oracle is definite; distinct by (type, text)";

pub fn c01(ctx: &mut Ctx) {
    use xsd_types::types::*;
    ctx.rule = RULE.into();
    let n = ctx.scale(30_000, 600_000);
    let l = ctx.scale(4, 6);
    let corpus = [
        "",
        "0",
        "-0",
        "+0",
        "00",
        "-00",
        "1",
        "+1",
        "-1",
        "1_000",
        "_1",
        "1_",
        "0x10",
        "1e3",
        "1.0",
        "+",
        "-",
        "--1",
        "+-1",
        "-+1",
        "٣",
        "１",
        "9223372036854775808",
        "-9223372036854775809",
        "18446744073709551616",
        "1 2",
        "∞",
        "340282366920938463463374607431768211456",
        "-340282366920938463463374607431768211457",
        "000000000000000000001",
        "-000000000000000000001",
        "+000000000000000000001",
        "null",
        "1,000",
        "1'000",
        "0b1",
        "1L",
    ];
    lexical::<Integer>(ctx, n, &corpus, l);
    lexical::<PositiveInteger>(ctx, n, &corpus, l);
    lexical::<NonNegativeInteger>(ctx, n, &corpus, l);
    lexical::<NegativeInteger>(ctx, n, &corpus, l);
    lexical::<NonPositiveInteger>(ctx, n, &corpus, l);
    let corpus = [
        "",
        ".",
        "+.",
        "-.",
        "0",
        "-0",
        "0.0",
        "-0.0",
        ".5",
        "5.",
        "-.5",
        "+5.",
        "1.2.3",
        "1e5",
        "1E5",
        "1e-5",
        "e5",
        "INF",
        "-INF",
        "NaN",
        "inf",
        "nan",
        "1_000.5",
        "1._5",
        "12345678901234567890.12345678901234567890",
        "0.000000000000000000000000000000000001",
        "100000000000000000000000000000000000000",
        "1.10",
        "-1.10",
        "0001.1000",
        "1,5",
        "+1.5",
        "++1.5",
        "1.5-",
        "1 .5",
        "1.5f",
        "٣.٣",
    ];
    lexical::<Decimal>(ctx, n * 2, &corpus, l);
    conversions(ctx, n);
}

pub fn c02(ctx: &mut Ctx) {
    use xsd_types::types::*;
    ctx.rule = RULE.into();
    let n = ctx.scale(50_000, 1_000_000);
    let l = ctx.scale(4, 5);
    let dates = [
        "2020-02-29",
        "2021-02-29",
        "1900-02-29",
        "2000-02-29",
        "-0004-02-29",
        "2020-04-31",
        "2020-00-01",
        "2020-01-00",
        "2020-13-01",
        "2020-12-32",
        "10000-01-01",
        "-10000-01-01",
        "+2020-01-01",
        "020-01-01",
        "02020-01-01",
        "2020-1-1",
        "2020-01-1",
        "20-01-01",
        "2020/01/01",
        "20200101",
        "2020-01-01Z",
        "2020-01-01+14:00",
        "2020-01-01-14:00",
        "2020-01-01+14:01",
        "2020-01-01+13:59",
        "2020-01-01-00:00",
        "2020-01-01T",
        "2020-01-01z",
        "2020-01-01 Z",
        "2020-01-01+1:00",
        "2020-01-01+0100",
        "2020-001",
        "2020-W01-1",
        "2020-01-01+01:00:00",
        "2020-01-01+00:60",
        "",
        "-",
        "--01-01",
        "262000-12-31",
        "-262000-12-31",
        "2020-01-0１",
        "2020-01-01é",
    ];
    lexical::<Date>(ctx, n, &dates, l);
    let times = [
        "00:00:00",
        "23:59:59",
        "24:00:00",
        "24:00:00.000",
        "24:00:01",
        "24:00:00.1",
        "24:01:00",
        "25:00:00",
        "12:60:00",
        "12:00:61",
        "12:00:00.",
        "12:00:00.1",
        "12:00:00.123456789",
        "12:00:00.100000000",
        "12:00:00.000000001",
        "12:00",
        "12",
        "1:00:00",
        "12:0:00",
        "12:00:0",
        "120000",
        "12:00:00Z",
        "12:00:00+14:00",
        "12:00:00-14:00",
        "12:00:00+14:01",
        "12:00:00.5Z",
        "12:00:00.5-05:30",
        "12:00:00,5",
        "12:00:00 Z",
        "+12:00:00",
        "-12:00:00",
        "12:00:00.é",
        "12:00:00 PM",
        "23:59:59.999999999",
        "00:00:00-00:01",
    ];
    lexical::<Time>(ctx, n, &times, l);
    let mut dt: Vec<String> = vec![];
    for d in dates.iter().step_by(2) {
        for t in times.iter().step_by(3) {
            dt.push(format!("{d}T{t}"));
        }
    }
    for t in times {
        dt.push(format!("2019-12-31T{t}"));
        dt.push(format!("2020-02-28T{t}Z"));
        dt.push(format!("2021-02-28T{t}+09:00"));
    }
    dt.push("2020-01-01t00:00:00Z".into());
    dt.push("2020-01-01 00:00:00Z".into());
    dt.push("2020-01-01T00:00:00z".into());
    dt.push("2020-01-01T00:00:00+0000".into());
    dt.push("0001-01-01T00:00:00+14:00".into());
    dt.push("-0001-12-31T24:00:00".into());
    let dt: Vec<&str> = dt.iter().map(|s| s.as_str()).collect();
    lexical::<DateTime>(ctx, n, &dt, l);
    lexical::<DateTimeStamp>(ctx, n, &dt, l);
}

pub fn c03(ctx: &mut Ctx) {
    use xsd_types::types::*;
    ctx.rule =
        format!("{RULE}; plus the constructors over all components from -40 to 60 and extremes");
    let n = ctx.scale(30_000, 600_000);
    let l = ctx.scale(4, 6);
    let tzs = [
        "", "Z", "+00:00", "+14:00", "-14:00", "+14:01", "-15:00", "+05:30", "+5:30", "+0530", "z",
        "+05", "é", "+0é:00",
    ];
    let days: Vec<String> = (0..=99)
        .flat_map(|d| tzs.map(|t| format!("---{d:02}{t}")))
        .collect();
    let months: Vec<String> = (0..=99)
        .flat_map(|d| tzs.map(|t| format!("--{d:02}{t}")))
        .collect();
    let mut mds: Vec<String> = vec![];
    for m in 0..=13 {
        for d in 0..=32 {
            mds.push(format!("--{m:02}-{d:02}"));
            mds.push(format!("--{m:02}-{d:02}{}", tzs[(m * 33 + d) % tzs.len()]));
        }
    }
    let years: Vec<String> = [
        "0001",
        "-0001",
        "9999",
        "-9999",
        "10000",
        "-10000",
        "2147483647",
        "-2147483647",
        "-2147483648",
        "2147483648",
        "-2147483649",
        "00010",
        "-00010",
        "1",
        "-1",
        "12",
        "123",
        "+2020",
        "--2020",
        "",
        "-",
        "2020-",
        "02020",
        "20２0",
    ]
    .iter()
    .flat_map(|y| tzs.map(|t| format!("{y}{t}")))
    .collect();
    let mut yms: Vec<String> = vec![];
    for m in ["00", "01", "09", "12", "13", "1", "001", ""] {
        for y in &years {
            if y.len() < 12 && y.is_ascii() && !y.contains(':') && !y.contains('Z') {
                for t in tzs {
                    yms.push(format!("{y}-{m}{t}"));
                }
            }
        }
    }
    fn refs(v: &[String]) -> Vec<&str> {
        v.iter().map(|s| s.as_str()).collect()
    }
    lexical::<GDay>(ctx, n, &refs(&days), l);
    lexical::<GMonth>(ctx, n, &refs(&months), l);
    lexical::<GMonthDay>(ctx, n, &refs(&mds), l);
    lexical::<GYear>(ctx, n, &refs(&years), l);
    lexical::<GYearMonth>(ctx, n, &refs(&yms), l);

    // Constructors and conversions
    let ext = [i32::MIN, i32::MIN + 1, -1000, 1000, i32::MAX];
    let range: Vec<i32> = (-40..=60).chain(ext).collect();
    let zones = [
        None,
        chrono::FixedOffset::east_opt(3600),
        chrono::FixedOffset::east_opt(-14 * 3600),
        chrono::FixedOffset::east_opt(14 * 3600),
        chrono::FixedOffset::east_opt(0),
        chrono::FixedOffset::east_opt(60),
        chrono::FixedOffset::east_opt(-60),
        chrono::FixedOffset::east_opt(-19800),
        // These have no text.
        chrono::FixedOffset::east_opt(14 * 3600 + 60),
        chrono::FixedOffset::east_opt(-20 * 3600),
        chrono::FixedOffset::east_opt(3601),
        chrono::FixedOffset::east_opt(-59),
    ];
    let check = |what: String,
                     want: bool,
                     got: Result<Option<String>, String>,
                     val: String,
                     ctx: &mut Ctx| {
        ctx.nontrivial(&what);
        ctx.count("constructor");
        match got {
            Err(p) => ctx.violation("panic:new", &format!("{what} panicked: {p}")),
            Ok(g) => {
                if g.is_some() != want {
                    ctx.violation(
                        &format!("new:{what}"),
                        &format!("{what}: valid={want}, constructed={}", g.is_some()),
                    );
                } else if let Some(g) = g {
                    if g != val {
                        ctx.violation(
                            &format!("new:{what}"),
                            &format!("{what}: expected {val}, got {g}"),
                        );
                    }
                }
            }
        }
    };
    for z in zones {
        let zc = oracle::tz_canon(z.map(|z| z.local_minus_utc()));
        let zone_ok = z.map_or(true, |z| {
            let secs = z.local_minus_utc();
            secs % 60 == 0 && secs.abs() <= 14 * 3600
        });
        for &d in &range {
            let what = format!("GDay::new({d}, {z:?})");
            let got = ctx.observe(&what, || GDay::new(d, z).ok().map(|v| v.proj()));
            check(what, zone_ok && (1..=31).contains(&d), got, format!("{d}@{zc}"), ctx);
            let what = format!("GMonth::new({d}, {z:?})");
            let got = ctx.observe(&what, || GMonth::new(d, z).ok().map(|v| v.proj()));
            check(what, zone_ok && (1..=12).contains(&d), got, format!("{d}@{zc}"), ctx);
            if d != 0 {
                let what = format!("GYear::new({d}, {z:?})");
                let got = ctx.observe(&what, || GYear::new(d, z).ok().map(|v| v.proj()));
                check(what, zone_ok, got, format!("{d}@{zc}"), ctx);
            }
            for &m in &range {
                let what = format!("GMonthDay::new({m}, {d}, {z:?})");
                let got = ctx.observe(&what, || {
                    GMonthDay::new(m, d, z).ok().map(|v| {
                        format!(
                            "{}|{}|{}",
                            v.proj(),
                            v.clone().gmonth().proj(),
                            v.gday().proj()
                        )
                    })
                });
                let ok = zone_ok
                    && (1..=12).contains(&m) && d >= 1 && d as i64 <= oracle::month_len(4, m as i64);
                check(
                    what,
                    ok,
                    got,
                    format!("{m}-{d}@{zc}|{m}@{zc}|{d}@{zc}"),
                    ctx,
                );
                if d != 0 {
                    let what = format!("GYearMonth::new({d}, {m}, {z:?})");
                    let got = ctx.observe(&what, || {
                        GYearMonth::new(d, m, z).ok().map(|v| {
                            format!(
                                "{}|{}|{}",
                                v.proj(),
                                v.clone().gyear().proj(),
                                v.gmonth().proj()
                            )
                        })
                    });
                    check(
                        what,
                        zone_ok && (1..=12).contains(&m),
                        got,
                        format!("{d}-{m}@{zc}|{d}@{zc}|{m}@{zc}"),
                        ctx,
                    );
                }
            }
        }
    }
}

pub fn c04(ctx: &mut Ctx) {
    use xsd_types::types::Duration;
    ctx.rule = format!("{RULE}; each accepted duration is also converted to a machine duration");
    let n = ctx.scale(120_000, 2_000_000);
    let corpus = [
        "P",
        "PT",
        "-P",
        "P1",
        "P1Y",
        "P1M",
        "P1D",
        "PT1H",
        "PT1M",
        "PT1S",
        "P1YT",
        "P1S",
        "P1H",
        "PT1Y",
        "PT1D",
        "P1Y2M3DT4H5M6S",
        "P1Y2M3DT4H5M6.7S",
        "P2M1Y",
        "PT1S1M",
        "P1Y1Y",
        "PT1.S",
        "PT.5S",
        "PT1.5M",
        "P1.5Y",
        "P-1Y",
        "+P1Y",
        "-P1Y",
        "--P1Y",
        "P1YP1Y",
        "1Y",
        "PT1H1H",
        "P0Y",
        "PT0S",
        "-PT0S",
        "PT0.0S",
        "P1W",
        "P1Y T1H",
        "PTT1H",
        "P1YT1HT1M",
        "p1y",
        "P1y",
        "PT1s",
        "PT0.000000001S",
        "PT59.999999999S",
        "PT1.0000000000000000000000000001S",
        "PT18446744073709551615S",
        "P18446744073709551615Y",
        "P18446744073709551616Y",
        "PT1.5",
        "P1YT1.5S2",
        "PT5",
        "P٣Y",
        "P1Y\u{0}",
        "PT1M1.5S",
        "PT1.5S1M",
        "P1DT",
        "P1DT1",
        "PT1.1.1S",
        "PT1.1H",
        "P1,5Y",
        "PT1,5S",
        "P00001Y",
        "P1M1D",
        "P1D1M",
        "PT0H0M0S",
        "P0D",
        "P1YM",
        "PYMD",
        "213503982334601DT7H0M15S",
        "P213503982334601DT7H0M15S",
        "P213503982334602D",
        "PT307445734561825860M16S",
    ];
    lexical::<Duration>(ctx, n, &corpus, ctx.scale(4, 5));

    let m = ctx.scale(60_000, 1_000_000);
    let mut r = ctx.rng.clone();
    for i in 0..m + corpus.len() {
        let s = if i < corpus.len() {
            corpus[i].to_string()
        } else {
            values::gen_valid("Duration", &mut r)
        };
        if !matches!(verdict("Duration", &s), Verdict::Accept(_)) {
            continue;
        }
        let input = format!("to_std_duration <- {s:?}");
        let got = ctx.observe(&input, || {
            s.parse::<Duration>()
                .map(|d| (d.clone(), d.to_std_duration()))
        });
        let (d, got) = match got {
            Err(p) => {
                ctx.violation("panic:to_std_duration", &format!("{input} panicked: {p}"));
                continue;
            }
            Ok(Err(_)) => continue,
            Ok(Ok(v)) => v,
        };
        ctx.nontrivial(&input);
        let whole = (d.days as u128 * 24 + d.hours as u128) * 60 + d.minutes as u128;
        let whole = whole * 60 + d.seconds as u128;
        let frac = d.seconds - d.seconds.trunc();
        let zero = whole == 0 && d.seconds == 0.0;
        // Exact in 128 bits; the fraction is compared with the accuracy of a nanosecond.
        let near_limit = whole + 1 >= u64::MAX as u128;
        let tiny = whole == 0 && d.seconds < 1e-6;
        let want = if d.years > 0 || d.months > 0 || (d.is_negative && !zero) {
            Verdict::Reject
        } else if whole > u64::MAX as u128 + 1 {
            Verdict::Reject
        } else {
            Verdict::Accept(String::new())
        };
        ctx.count(if got.is_ok() {
            "to_std_duration.converted"
        } else {
            "to_std_duration.refused"
        });
        match (&want, &got) {
            (Verdict::Reject, Ok(v))
                if !near_limit && !(d.is_negative && tiny && d.years + d.months == 0) =>
            {
                ctx.violation(
                    &format!("std:{s}"),
                    &format!("{input} has no exact machine duration but was converted to {v:?}"),
                )
            }
            (Verdict::Accept(_), Err(e)) if !near_limit => {
                ctx.violation(&format!("std:{s}"), &format!("{input} was refused: {e}"))
            }
            (Verdict::Accept(_), Ok(v)) if !near_limit => {
                let tol = 2e-9 + d.seconds * 1e-15;
                // Both parts are compared separately not to lose precision.
                let diff = (v.as_secs() as i128 - whole as i128) as f64
                    + (v.subsec_nanos() as f64 * 1e-9 - frac);
                if diff.abs() > tol {
                    ctx.violation(
                        &format!("std:{s}"),
                        &format!("{input}: expected {whole} s + {frac}, got {v:?}"),
                    );
                }
            }
            _ => (),
        }
    }
    ctx.rng = r;
}

fn default_value<T: Val + Default>(ctx: &mut Ctx) {
    roundtrip_value(ctx, &T::default(), "default");
}

fn roundtrip_value<T: Val>(ctx: &mut Ctx, v: &T, origin: &str) {
    let input = format!("{} -> text of {origin}", T::NAME);
    let got = ctx.observe(&input, || {
        let t = v.to_string();
        let back = T::from_str(&t).ok();
        (
            t.clone(),
            back.as_ref().map(|b| (b == v, b.proj())),
            v.proj(),
        )
    });
    let (text, back, proj) = match got {
        Ok(x) => x,
        Err(p) => {
            ctx.violation(
                &format!("panic:{}", T::NAME),
                &format!("{input} panicked: {p}"),
            );
            return;
        }
    };
    ctx.count(T::NAME);
    ctx.nontrivial(&format!("{}{text}", T::NAME));
    ctx.sample(7919, || format!("{} {proj} => {text:?}", T::NAME));
    match verdict(T::NAME, &text) {
        Verdict::Reject => ctx.violation(
            &format!("text:{}:{proj}", T::NAME),
            &format!("{input}\nthe value {proj} was printed as {text:?}, which is not in the lexical space"),
        ),
        Verdict::Accept(w) if !same_value(T::NAME, &w, &proj) => ctx.violation(
            &format!("text:{}:{proj}", T::NAME),
            &format!("{input}\nthe value {proj} was printed as {text:?}, which denotes {w}"),
        ),
        // The printed number is beyond the limits of the implementation (64 bits), e.g. the
        // floating point number of seconds which is nearest to the greatest accepted one.
        Verdict::Free if T::NAME == "Duration" => {
            ctx.count("Duration.limit");
            return;
        }
        _ => (),
    }
    match back {
        None => ctx.violation(
            &format!("back:{}:{proj}", T::NAME),
            &format!(
                "{input}\nthe value {proj} was printed as {text:?}, which is not accepted back"
            ),
        ),
        Some((eq, p)) => {
            let same = same_value(T::NAME, &p, &proj) && (eq || T::NAME == "Duration");
            if !same {
                ctx.violation(
                    &format!("back:{}:{proj}", T::NAME),
                    &format!("{input}\nthe value {proj} was printed as {text:?}, which was read back as {p}"),
                );
            }
        }
    }
}

fn roundtrip_parsed<T: Val>(ctx: &mut Ctx, n: usize) {
    let mut r = ctx.rng.clone();
    for _ in 0..n {
        if ctx.full() {
            break;
        }
        let s = values::gen_valid(T::NAME, &mut r);
        // Parsing itself is judged by other properties.
        if let Ok(Ok(v)) = ctx.observe(&format!("{} <- {s:?}", T::NAME), || {
            T::from_str(&s).map_err(|_| ())
        }) {
            roundtrip_value(ctx, &v, &format!("the value of {s:?}"));
        }
    }
    ctx.rng = r;
}

pub fn c05(ctx: &mut Ctx) {
    use bigdecimal::BigDecimal;
    use chrono::{FixedOffset, NaiveDate, NaiveTime, TimeZone};
    use num_bigint::{BigInt, BigUint};
    use xsd_types::types::*;
    ctx.rule = "values are obtained by parsing valid texts and by construction from the public fields and \
constructors (boundaries weighted up); the printed text must be in the lexical space per the oracle, denote the same \
value, and be read back as an equal value; distinct by (type, printed text)"
        .into();
    let n = ctx.scale(8_000, 200_000);
    for_all_types!(roundtrip_parsed, ctx, n);
    for_all_types!(default_value, ctx);

    let mut r = ctx.rng.clone();
    for _ in 0..ctx.scale(15_000, 300_000) {
        if ctx.full() {
            break;
        }
        let z = match r.below(4) {
            0 => None,
            1 => FixedOffset::east_opt(0),
            2 => FixedOffset::east_opt(*r.pick(&[-14 * 3600, 14 * 3600, 60, -60, 3540, -3540])),
            _ => FixedOffset::east_opt(r.range(-840, 840) as i32 * 60),
        };
        let y = match r.below(6) {
            0 => r.range(-262000, 262000) as i32,
            1 => *r.pick(&[1, -1, 999, -999, 9999, 10000, -9999, -10000, 99999]),
            2 => r.range(1, 999) as i32,
            _ => r.range(1, 9999) as i32,
        };
        let y = if y == 0 { 1 } else { y };
        let (mo, d) = (r.range(1, 12) as u32, r.range(1, 28) as u32);
        let nanos = match r.below(5) {
            0 => 0,
            1 => r.range(0, 999) as u32 * 1_000_000,
            2 => r.range(0, 999_999) as u32 * 1000,
            3 => *r.pick(&[1, 10, 100, 999_999_999, 100_000_000, 1_000_000, 999]),
            _ => r.range(0, 999_999_999) as u32,
        };
        let (h, mi, s) = (
            r.range(0, 23) as u32,
            r.range(0, 59) as u32,
            r.range(0, 59) as u32,
        );
        let date = NaiveDate::from_ymd_opt(y, mo, d).unwrap();
        let time = NaiveTime::from_hms_nano_opt(h, mi, s, nanos).unwrap();
        roundtrip_value(
            ctx,
            &Date {
                value: date,
                timezone: z,
            },
            "Date{..}",
        );
        roundtrip_value(
            ctx,
            &Date::from_chrono_naive_date(date),
            "Date::from_chrono_naive_date",
        );
        roundtrip_value(
            ctx,
            &Time {
                value: time,
                timezone: z,
            },
            "Time{..}",
        );
        roundtrip_value(
            ctx,
            &Time::from_chrono_naive_time(time),
            "Time::from_chrono_naive_time",
        );
        if let Some(z) = z {
            if let Some(dt) = z.from_local_datetime(&date.and_time(time)).single() {
                roundtrip_value(
                    ctx,
                    &DateTime::from_chrono_datetime(dt),
                    "DateTime::from_chrono_datetime",
                );
                roundtrip_value(
                    ctx,
                    &DateTimeStamp::from_chrono_datetime(dt),
                    "DateTimeStamp::from_chrono_datetime",
                );
            }
        }
        let gy = if r.chance(10) {
            *r.pick(&[i32::MAX, i32::MIN, i32::MIN + 1, 100000, -100000])
        } else {
            y
        };
        // The constructors refuse a time zone which has no text.
        let z = if r.chance(5) {
            FixedOffset::east_opt(*r.pick(&[1, -1, 3601, 14 * 3600 + 60, -15 * 3600, 86399]))
        } else {
            z
        };
        if let Ok(v) = GYear::new(gy, z) {
            roundtrip_value(ctx, &v, "GYear::new");
        }
        if let Ok(v) = GYearMonth::new(gy, mo as i32, z) {
            roundtrip_value(ctx, &v, "GYearMonth::new");
        }
        if let Ok(v) = GMonth::new(mo as i32, z) {
            roundtrip_value(ctx, &v, "GMonth::new");
        }
        let gd = if r.chance(30) {
            oracle::month_len(4, mo as i64) as i32
        } else {
            d as i32
        };
        if let Ok(v) = GMonthDay::new(mo as i32, gd, z) {
            roundtrip_value(ctx, &v, "GMonthDay::new");
        }
        if let Ok(v) = GDay::new(r.range(1, 31) as i32, z) {
            roundtrip_value(ctx, &v, "GDay::new");
        }
        let num = |r: &mut crate::rng::Rng| match r.below(4) {
            0 => 0,
            1 => *r.pick(&[1, 10, u64::MAX, u64::MAX / 2, 60, 100]),
            _ => r.below(1000) as u64,
        };
        let seconds = match r.below(6) {
            0 => 0.0,
            1 => r.below(100) as f64,
            2 => r.below(100_000) as f64 / 1000.0,
            3 => r.range(0, 59_999_999_999) as f64 / 1e9,
            4 => (r.below(1000) + 1) as f64 / 10f64.powi(r.below(20) as i32),
            _ => *r.pick(&[0.1, 1e-3, 1e-6, 1e-9, 59.999999999, 0.5, 1e9, 123456789.125]),
        };
        let dur = Duration {
            is_negative: r.chance(30),
            years: num(&mut r),
            months: num(&mut r),
            days: num(&mut r),
            hours: num(&mut r),
            minutes: num(&mut r),
            seconds,
        };
        roundtrip_value(ctx, &dur, "Duration{..}");
        let digits = r.some_digits(40);
        let int: BigInt = digits.parse().unwrap();
        let int = if r.chance(50) { -int } else { int };
        let scale = r.range(-30, 60);
        roundtrip_value(
            ctx,
            &Decimal::from_bigdecimal(BigDecimal::new(int.clone(), scale)),
            "Decimal::from_bigdecimal",
        );
        roundtrip_value(
            ctx,
            &Integer::from_bigint(int.clone()),
            "Integer::from_bigint",
        );
        let uint: BigUint = int.magnitude().clone();
        roundtrip_value(
            ctx,
            &NonNegativeInteger::from_biguint(uint.clone()),
            "NonNegativeInteger::from_biguint",
        );
        let neg = -BigInt::from(uint.clone());
        roundtrip_value(
            ctx,
            &NonPositiveInteger::from_bigint(neg.clone()),
            "NonPositiveInteger::from_bigint",
        );
        if uint != BigUint::from(0u32) {
            roundtrip_value(
                ctx,
                &PositiveInteger::from_biguint(uint),
                "PositiveInteger::from_biguint",
            );
            roundtrip_value(
                ctx,
                &NegativeInteger::from_bigint(neg),
                "NegativeInteger::from_bigint",
            );
        }
    }
    ctx.rng = r;
}

fn total<T: Val>(ctx: &mut Ctx, n: usize) {
    let mut r = ctx.rng.clone();
    for i in 0..n {
        if ctx.full() {
            break;
        }
        let s = match r.below(10) {
            0..=2 => values::gen_any(T::NAME, &mut r),
            3..=6 => {
                let s = values::gen_valid(T::NAME, &mut r);
                values::mutate(&s, &mut r)
            }
            7 if r.chance(50) => {
                let s = values::gen_valid(T::NAME, &mut r);
                values::widen(&s, &mut r)
            }
            7 => {
                // Truncation and multi-byte replacement at every position
                let s = values::gen_valid(T::NAME, &mut r);
                let k = r.below(s.len() + 1);
                format!(
                    "{}{}{}",
                    &s[..k],
                    r.pick(&["é", "日", "𝟙", "\u{301}", ""]),
                    &s[(k + r.below(3)).min(s.len())..]
                )
            }
            8 => values::gen_noise(&mut r),
            _ => {
                let s = values::gen_valid(T::NAME, &mut r);
                s.repeat(r.below(40) + 1)
            }
        };
        let input = format!("{} <- {:?}", T::NAME, s);
        let res = ctx.observe(&input, || {
            let v = T::from_str(&s);
            match v {
                Ok(v) => {
                    let t = v.to_string();
                    let c = v.clone();
                    Some((t, c == v, format!("{v:?}").len()))
                }
                Err(_) => None,
            }
        });
        ctx.count(&format!(
            "{}.{}",
            T::NAME,
            if matches!(res, Ok(Some(_))) {
                "value"
            } else {
                "error"
            }
        ));
        ctx.nontrivial(&input);
        ctx.sample(9973, || input.clone());
        if let Err(p) = res {
            ctx.violation(
                &format!("panic:{}:{s}", T::NAME),
                &format!("{input}\npanicked: {p}"),
            );
        }
        // The same through XML, every now and then
        if i % 4 == 0 {
            let body: String = s
                .chars()
                .filter(|&c| c >= ' ' || c == '\n' || c == '\t')
                .collect();
            let esc = body.replace('&', "&amp;").replace('<', "&lt;");
            let doc = match r.below(8) {
                0 => format!("<a>{esc}</a"),
                1 => format!("<a><b>{esc}</b></a>"),
                2 => format!("<a><![CDATA[{}]]></a>", body.replace("]]>", "")),
                3 => format!("<a x=\"1\"><!-- c -->{esc}<?pi x?></a>"),
                4 => format!("{esc}<a/>"),
                5 => "<a/>".to_string(),
                6 => format!("<p:a xmlns:p=\"u\">{esc}</p:a>"),
                _ => format!("<a> {esc}\n</a>"),
            };
            let input = format!("{} <- XML {doc:?}", T::NAME);
            let res = ctx.observe(&input, || yaserde::de::from_str::<T>(&doc).is_ok());
            ctx.count(if matches!(res, Ok(true)) {
                "xml.value"
            } else {
                "xml.error"
            });
            ctx.nontrivial(&input);
            if let Err(p) = res {
                ctx.violation(
                    &format!("panic:{}:xml", T::NAME),
                    &format!("{input}\npanicked: {p}"),
                );
            }
        }
    }
    ctx.rng = r;
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "hostile texts (mutations of valid texts at every position, multi-byte characters, truncations, \
repetitions, noise, extreme numbers) are parsed as every value type with overflow checks and debug assertions on, and \
accepted values are printed, cloned and compared; also embedded in well-formed and ill-formed XML; any panic, abort, \
stack overflow or a case longer than 60 s is a violation; distinct by (type, text)"
        .into();
    let n = ctx.scale(20_000, 400_000);
    for_all_types!(total, ctx, n);
    use chrono::{FixedOffset, NaiveDate, NaiveTime, TimeZone};
    use xsd_types::types::*;
    // Printing and conversions of extreme values
    let dates = [
        NaiveDate::MIN,
        NaiveDate::MAX,
        NaiveDate::from_ymd_opt(0, 1, 1).unwrap(),
    ];
    for d in dates {
        for secs in [-86399, -50400, -1, 0, 1, 50400, 86399] {
            let z = FixedOffset::east_opt(secs);
            let t = NaiveTime::from_hms_nano_opt(23, 59, 59, 1_999_999_999).unwrap();
            let input = format!("{d:?} {secs}");
            ctx.nontrivial(&input);
            let res = ctx.observe(&input, || {
                let mut n = Date {
                    value: d,
                    timezone: z,
                }
                .to_string()
                .len();
                n += Time {
                    value: t,
                    timezone: z,
                }
                .to_string()
                .len();
                if d.to_string().len() < 12 {
                    if let Some(dt) = z.unwrap().from_local_datetime(&d.and_time(t)).single() {
                        n += DateTime::from_chrono_datetime(dt).to_string().len();
                    }
                }
                n
            });
            if let Err(p) = res {
                ctx.violation(
                    &format!("panic:print:{input}"),
                    &format!("printing {input} panicked: {p}"),
                );
            }
        }
    }
    for y in [i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX] {
        for m in [i32::MIN, -1, 0, 1, 12, 13, i32::MAX] {
            let input = format!("g* of {y} {m}");
            ctx.nontrivial(&input);
            let res = ctx.observe(&input, || {
                let mut n = 0;
                n += GYear::new(y, None)
                    .map(|v| v.to_string().len())
                    .unwrap_or(0);
                n += GYearMonth::new(y, m, None)
                    .map(|v| v.to_string().len())
                    .unwrap_or(0);
                n += GMonthDay::new(m, y, None)
                    .map(|v| v.to_string().len())
                    .unwrap_or(0);
                n += GMonth::new(m, None)
                    .map(|v| v.to_string().len())
                    .unwrap_or(0);
                n += GDay::new(m, None).map(|v| v.to_string().len()).unwrap_or(0);
                n
            });
            if let Err(p) = res {
                ctx.violation(
                    &format!("panic:g:{input}"),
                    &format!("{input} panicked: {p}"),
                );
            }
        }
    }
    let ns = [
        0,
        1,
        u64::MAX / 86400,
        u64::MAX / 3600,
        u64::MAX / 60,
        u64::MAX,
    ];
    let fs = [0.0, 0.5, 59.999999999, 1e18, 1.8446744073709552e19];
    for d in ns {
        for h in ns {
            for s in fs {
                for neg in [false, true] {
                    let v = Duration {
                        is_negative: neg,
                        days: d,
                        hours: h,
                        minutes: h,
                        seconds: s,
                        ..Default::default()
                    };
                    let input = format!("{v:?}");
                    ctx.nontrivial(&input);
                    let res = ctx.observe(&input, || {
                        (v.to_std_duration().is_ok(), v.to_string().len())
                    });
                    if let Err(p) = res {
                        ctx.violation(
                            &format!("panic:duration:{input}"),
                            &format!("{input} panicked: {p}"),
                        );
                    }
                }
            }
        }
    }
}
