//! C27: the work of the generators grows in step with the size of their input.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};

use crate::{core::Ctx, gencheck::plain_code, wsdl::code_of};

/// Counts what is allocated: a measure of the work which does not depend on the machine or its load.
pub struct Counting;

static BYTES: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as u64, Relaxed);
        COUNT.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as u64, Relaxed);
        COUNT.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}

fn work<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let (b, c) = (BYTES.load(Relaxed), COUNT.load(Relaxed));
    let t = f();
    (t, BYTES.load(Relaxed) - b, COUNT.load(Relaxed) - c)
}

fn schema(body: &str) -> String {
    format!(
        "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\">\n{body}</xs:schema>\n"
    )
}

fn each(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}

struct Family {
    name: &'static str,
    wsdl: bool,
    /// The size at which the work is measured first
    base: usize,
    make: fn(usize) -> String,
}

fn families() -> Vec<Family> {
    fn f(name: &'static str, base: usize, make: fn(usize) -> String) -> Family {
        Family { name, wsdl: false, base, make }
    }
    vec![
        f("complex types", 100, |n| {
            schema(&each(n, |i| format!("<xs:complexType name=\"T{i}\"><xs:sequence><xs:element name=\"a\" type=\"xs:string\"/></xs:sequence></xs:complexType>\n")))
        }),
        f("simple types", 100, |n| {
            schema(&each(n, |i| format!("<xs:simpleType name=\"T{i}\"><xs:restriction base=\"xs:string\"><xs:maxLength value=\"{i}\"/></xs:restriction></xs:simpleType>\n")))
        }),
        f("elements of a sequence", 100, |n| {
            schema(&format!("<xs:complexType name=\"T\"><xs:sequence>{}</xs:sequence></xs:complexType>", each(n, |i| format!("<xs:element name=\"a{i}\" type=\"xs:int\"/>"))))
        }),
        f("cases of a choice", 100, |n| {
            schema(&format!("<xs:complexType name=\"T\"><xs:choice>{}</xs:choice></xs:complexType>", each(n, |i| format!("<xs:element name=\"a{i}\" type=\"xs:int\"/>"))))
        }),
        f("attributes", 100, |n| {
            schema(&format!("<xs:complexType name=\"T\">{}</xs:complexType>", each(n, |i| format!("<xs:attribute name=\"a{i}\" type=\"xs:int\"/>"))))
        }),
        f("values of an enumeration", 100, |n| {
            schema(&format!("<xs:simpleType name=\"T\"><xs:restriction base=\"xs:string\">{}</xs:restriction></xs:simpleType>", each(n, |i| format!("<xs:enumeration value=\"a{i}\"/>"))))
        }),
        f("members of a union", 50, |n| {
            schema(&format!(
                "{}<xs:simpleType name=\"T\"><xs:union memberTypes=\"{}\"/></xs:simpleType>",
                each(n, |i| format!("<xs:simpleType name=\"M{i}\"><xs:restriction base=\"xs:int\"/></xs:simpleType>\n")),
                each(n, |i| format!("t:M{i} "))
            ))
        }),
        f("depth of anonymous types", 12, |n| {
            schema(&format!(
                "<xs:complexType name=\"T\"><xs:sequence>{}<xs:element name=\"x\" type=\"xs:int\"/>{}</xs:sequence></xs:complexType>",
                each(n, |i| format!("<xs:element name=\"a{i}\"><xs:complexType><xs:sequence>")),
                "</xs:sequence></xs:complexType></xs:element>".repeat(n)
            ))
        }),
        f("depth of anonymous types of a global element", 12, |n| {
            schema(&format!(
                "<xs:element name=\"T\"><xs:complexType><xs:sequence>{}<xs:element name=\"x\" type=\"xs:int\"/>{}</xs:sequence></xs:complexType></xs:element>",
                each(n, |i| format!("<xs:element name=\"a{i}\"><xs:complexType><xs:sequence>")),
                "</xs:sequence></xs:complexType></xs:element>".repeat(n)
            ))
        }),
        f("depth of anonymous types in choices", 12, |n| {
            schema(&format!(
                "<xs:complexType name=\"T\"><xs:sequence>{}<xs:element name=\"x\" type=\"xs:int\"/>{}</xs:sequence></xs:complexType>",
                each(n, |i| format!("<xs:choice><xs:element name=\"b{i}\" type=\"xs:int\"/></xs:choice><xs:element name=\"a{i}\"><xs:complexType><xs:sequence>")),
                "</xs:sequence></xs:complexType></xs:element>".repeat(n)
            ))
        }),
        f("chain of extensions", 20, |n| {
            schema(&each(n, |i| {
                let own = format!("<xs:sequence><xs:element name=\"a{i}\" type=\"xs:int\"/></xs:sequence><xs:attribute name=\"b{i}\" type=\"xs:int\"/>");
                if i + 1 == n {
                    format!("<xs:complexType name=\"T{i}\">{own}</xs:complexType>\n")
                } else {
                    format!("<xs:complexType name=\"T{i}\"><xs:complexContent><xs:extension base=\"t:T{}\">{own}</xs:extension></xs:complexContent></xs:complexType>\n", i + 1)
                }
            }))
        }),
        f("chain of extensions, bases first", 20, |n| {
            schema(&each(n, |i| {
                let own = format!("<xs:sequence><xs:element name=\"a{i}\" type=\"xs:int\"/></xs:sequence><xs:attribute name=\"b{i}\" type=\"xs:int\"/>");
                if i == 0 {
                    format!("<xs:complexType name=\"T{i}\">{own}</xs:complexType>\n")
                } else {
                    format!("<xs:complexType name=\"T{i}\"><xs:complexContent><xs:extension base=\"t:T{}\">{own}</xs:extension></xs:complexContent></xs:complexType>\n", i - 1)
                }
            }))
        }),
        f("extensions of one type", 50, |n| {
            schema(&format!(
                "<xs:complexType name=\"B\"><xs:sequence><xs:element name=\"a\" type=\"xs:int\"/></xs:sequence></xs:complexType>\n{}",
                each(n, |i| format!("<xs:complexType name=\"T{i}\"><xs:complexContent><xs:extension base=\"t:B\"><xs:attribute name=\"c\" type=\"xs:int\"/></xs:extension></xs:complexContent></xs:complexType>\n"))
            ))
        }),
        f("chain of attribute groups", 20, |n| {
            schema(&format!(
                "{}<xs:complexType name=\"T\"><xs:attributeGroup ref=\"t:G0\"/></xs:complexType>",
                each(n, |i| {
                    let next = if i + 1 < n { format!("<xs:attributeGroup ref=\"t:G{}\"/>", i + 1) } else { String::new() };
                    format!("<xs:attributeGroup name=\"G{i}\"><xs:attribute name=\"a{i}\" type=\"xs:int\"/>{next}</xs:attributeGroup>\n")
                })
            ))
        }),
        f("attribute groups of a type", 40, |n| {
            schema(&format!(
                "{}<xs:complexType name=\"T\">{}</xs:complexType>",
                each(n, |i| format!("<xs:attributeGroup name=\"G{i}\"><xs:attribute name=\"a{i}\" type=\"xs:int\"/></xs:attributeGroup>\n")),
                each(n, |i| format!("<xs:attributeGroup ref=\"t:G{i}\"/>"))
            ))
        }),
        f("attribute groups which share the next", 5, |n| {
            schema(&format!(
                "{}<xs:attributeGroup name=\"G{n}\"><xs:attribute name=\"z\" type=\"xs:int\"/></xs:attributeGroup><xs:complexType name=\"T\"><xs:attributeGroup ref=\"t:G0\"/></xs:complexType>",
                each(n, |i| format!("<xs:attributeGroup name=\"G{i}\"><xs:attributeGroup ref=\"t:L{i}\"/><xs:attributeGroup ref=\"t:R{i}\"/></xs:attributeGroup><xs:attributeGroup name=\"L{i}\"><xs:attributeGroup ref=\"t:G{0}\"/></xs:attributeGroup><xs:attributeGroup name=\"R{i}\"><xs:attributeGroup ref=\"t:G{0}\"/></xs:attributeGroup>\n", i + 1))
            ))
        }),
        f("words of documentation", 400, |n| {
            schema(&format!("<xs:complexType name=\"T\"><xs:annotation><xs:documentation>{}</xs:documentation></xs:annotation></xs:complexType>", each(n, |i| format!("word{i} "))))
        }),
        f("lines of documentation", 200, |n| {
            schema(&format!("<xs:complexType name=\"T\"><xs:annotation><xs:documentation>{}</xs:documentation></xs:annotation></xs:complexType>", each(n, |i| format!("line {i}\n"))))
        }),
        f("letters of a word of documentation", 2000, |n| {
            schema(&format!("<xs:complexType name=\"T\"><xs:annotation><xs:documentation>a {}</xs:documentation></xs:annotation></xs:complexType>", "x".repeat(n)))
        }),
        f("letters of a name", 1000, |n| {
            schema(&format!("<xs:complexType name=\"T{0}\"><xs:sequence><xs:element name=\"a{0}\" type=\"xs:int\"/></xs:sequence></xs:complexType>", "x".repeat(n)))
        }),
        f("words of a name", 300, |n| {
            schema(&format!("<xs:complexType name=\"T{0}\"><xs:sequence><xs:element name=\"a{0}\" type=\"xs:int\"/></xs:sequence></xs:complexType>", "-Ab_c".repeat(n)))
        }),
        f("namespaces", 40, |n| {
            schema("<xs:element name=\"e\" type=\"xs:int\"/>").replacen(" targetNamespace", &format!("{} targetNamespace", each(n, |i| format!(" xmlns:p{i}=\"urn:p{i}\""))), 1)
        }),
        f("imports", 40, |n| {
            schema(&each(n, |i| format!("<xs:import namespace=\"urn:p{i}\" schemaLocation=\"a\"/>"))).replacen(" targetNamespace", &format!("{} targetNamespace", each(n, |i| format!(" xmlns:p{i}=\"urn:p{i}\""))), 1)
        }),
        f("comments", 200, |n| schema(&each(n, |i| format!("<!-- {i} -->\n")))),
        f("facets", 100, |n| {
            schema(&format!("<xs:simpleType name=\"T\"><xs:restriction base=\"xs:string\">{}</xs:restriction></xs:simpleType>", each(n, |i| format!("<xs:pattern value=\"{i}\"/>"))))
        }),
        f("chain of newtypes", 50, |n| {
            schema(&each(n, |i| {
                let base = if i == 0 { "xs:string".to_string() } else { format!("t:T{}", i - 1) };
                format!("<xs:simpleType name=\"T{i}\"><xs:restriction base=\"{base}\"/></xs:simpleType>\n")
            }))
        }),
        f("global elements of a type", 60, |n| {
            schema(&format!("<xs:complexType name=\"T\"/>{}", each(n, |i| format!("<xs:element name=\"e{i}\" type=\"t:T\"/>"))))
        }),
        Family {
            name: "operations",
            wsdl: true,
            base: 40,
            make: |n| {
                let w = "xmlns=\"http://schemas.xmlsoap.org/wsdl/\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\"";
                format!(
                    "<definitions {w}>{}<portType name=\"P\">{}</portType></definitions>",
                    each(n, |i| format!("<message name=\"I{i}\"><part name=\"p\" element=\"t:I{i}\"/></message><message name=\"O{i}\"><part name=\"p\" element=\"t:O{i}\"/></message>\n")),
                    each(n, |i| format!("<operation name=\"Op{i}\"><input message=\"t:I{i}\"/><output message=\"t:O{i}\"/></operation>\n"))
                )
            },
        },
        Family {
            name: "port types",
            wsdl: true,
            base: 40,
            make: |n| {
                let w = "xmlns=\"http://schemas.xmlsoap.org/wsdl/\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\"";
                format!(
                    "<definitions {w}><message name=\"I\"><part name=\"p\" element=\"t:I\"/></message>{}</definitions>",
                    each(n, |i| format!("<portType name=\"P{i}\"><operation name=\"Op{i}\"><input message=\"t:I\"/></operation></portType>\n"))
                )
            },
        },
        Family {
            name: "embedded schemas",
            wsdl: true,
            base: 20,
            make: |n| {
                let w = "xmlns=\"http://schemas.xmlsoap.org/wsdl/\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\"";
                format!(
                    "<definitions {w}><types>{}</types></definitions>",
                    each(n, |i| schema(&format!("<xs:complexType name=\"T{i}\"><xs:sequence><xs:element name=\"a\" type=\"xs:string\"/></xs:sequence></xs:complexType>\n")))
                )
            },
        },
    ]
}


/// The CPU time of this thread, in seconds
fn cpu() -> f64 {
    let text = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    text.split(' ').next().and_then(|n| n.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}

/// What doubling a size may multiply the work by: with a reserve, the number of allocations is
/// quadratic (a chain of extensions has a quadratic code), and their size is cubic (the indented
/// code of a deep type is joined once for each level).
const CALLS: f64 = 6.0;
const SIZES: f64 = 12.0;
const SECONDS: f64 = 30.0;

/// Measures the work at growing sizes.
fn grow(ctx: &mut Ctx, name: &str, run: fn(&str) -> Result<String, String>, sizes: &[usize], make: &dyn Fn(usize) -> String) {
    let mut last: Option<(u64, u64)> = None;
    let mut worst = (0.0f64, 0.0f64);
    for &n in sizes {
        let xml = make(n);
        let start = cpu();
        let res = ctx.observe(&format!("{name}, size {n}\n{xml}"), || {
            work(|| run(&xml))
        });
        let seconds = cpu() - start;
        let code = match res {
            Ok((Ok(code), bytes, calls)) => {
                ctx.add("allocations observed", calls);
                if let Some((b, c)) = last {
                    let grown = (calls as f64 / c as f64, bytes as f64 / b as f64);
                    worst = (worst.0.max(grown.0), worst.1.max(grown.1));
                    ctx.count("doublings measured");
                    if grown.0 > CALLS || grown.1 > SIZES {
                        ctx.violation(
                            name,
                            &format!(
                                "{name}: from {} to {n}, the work grows from {c} to {calls} allocations (x{:.1}) and from \
                                 {b} to {bytes} bytes (x{:.1})\n{}",
                                n / 2, grown.0, grown.1,
                                make(sizes[0])
                            ),
                        );
                        return;
                    }
                }
                last = Some((bytes.max(20_000), calls.max(100)));
                code
            }
            Ok((Err(e), ..)) | Err(e) => {
                ctx.violation(name, &format!("{name}: no code for the size {n}: {e}\n{xml}"));
                return;
            }
        };
        ctx.nontrivial(&xml);
        ctx.add("bytes of input and output", (xml.len() + code.len()) as u64);
        if seconds > SECONDS {
            ctx.violation(name, &format!("{name}: {seconds:.0} s for the size {n}\n{}", make(sizes[0])));
            return;
        }
    }
    ctx.sample(29, || format!("{name}: sizes {sizes:?}, a doubling has at most x{:.1} allocations and x{:.1} bytes", worst.0, worst.1));
}

/// What a level of nested types may consist of; `@` is the next level, `#` its number.
const LEVELS: &[&str] = &[
    "<xs:element name=\"a#\"><xs:complexType><xs:sequence>@</xs:sequence></xs:complexType></xs:element>",
    "<xs:element name=\"a#\"><xs:complexType><xs:all>@</xs:all></xs:complexType></xs:element>",
    "<xs:element name=\"a#\" minOccurs=\"0\"><xs:complexType><xs:sequence>@</xs:sequence><xs:attribute name=\"b\" type=\"xs:int\"/></xs:complexType></xs:element>",
    "<xs:element name=\"a#\" maxOccurs=\"unbounded\"><xs:complexType><xs:sequence>@<xs:element name=\"c\" type=\"xs:int\"/></xs:sequence></xs:complexType></xs:element>",
    "<xs:element name=\"d\" type=\"t:B\"/><xs:element name=\"a#\"><xs:annotation><xs:documentation>the level #</xs:documentation></xs:annotation><xs:complexType><xs:sequence>@</xs:sequence></xs:complexType></xs:element>",
    "<xs:element name=\"a#\"><xs:complexType><xs:complexContent><xs:extension base=\"t:B\"><xs:sequence>@</xs:sequence></xs:extension></xs:complexContent></xs:complexType></xs:element>",
    "<xs:element name=\"a#\"><xs:complexType><xs:sequence>@<xs:element name=\"e\"><xs:simpleType><xs:restriction base=\"xs:string\"><xs:enumeration value=\"x\"/></xs:restriction></xs:simpleType></xs:element></xs:sequence></xs:complexType></xs:element>",
    "<xs:element name=\"a#\"><xs:complexType><xs:sequence>@</xs:sequence><xs:attributeGroup ref=\"t:G\"/></xs:complexType></xs:element>",
    "<xs:choice><xs:element name=\"f\" type=\"xs:int\"/><xs:element name=\"g\" type=\"t:B\"/></xs:choice><xs:element name=\"a#\"><xs:complexType><xs:sequence>@</xs:sequence></xs:complexType></xs:element>",
];

fn nested(pattern: &[usize], top: usize, n: usize) -> String {
    let mut body = "<xs:element name=\"x\" type=\"xs:int\"/>".to_string();
    for i in (0..n).rev() {
        body = LEVELS[pattern[i % pattern.len()]].replace('#', &i.to_string()).replace('@', &body);
    }
    let tops = "<xs:complexType name=\"B\"><xs:sequence><xs:element name=\"h\" type=\"xs:int\"/></xs:sequence></xs:complexType>\
                <xs:attributeGroup name=\"G\"><xs:attribute name=\"i\" type=\"xs:int\"/></xs:attributeGroup>";
    let c = format!("<xs:sequence>{body}</xs:sequence>");
    schema(&match top {
        0 => format!("{tops}<xs:complexType name=\"T\">{c}</xs:complexType>"),
        1 => format!("{tops}<xs:element name=\"T\"><xs:complexType>{c}</xs:complexType></xs:element>"),
        _ => format!(
            "{tops}<xs:complexType name=\"T\"><xs:complexContent><xs:extension base=\"t:B\">{c}</xs:extension></xs:complexContent></xs:complexType>\
             <xs:complexType name=\"U\"><xs:complexContent><xs:extension base=\"t:T\"/></xs:complexContent></xs:complexType>"
        ),
    })
}

/// Types in layers; each one refers to all types of the next layer in some ways.
fn layers(ways: &[usize], width: usize, n: usize) -> String {
    let mut body = String::new();
    for i in 0..n {
        for j in 0..width {
            let mut seq = String::new();
            let mut attrs = String::new();
            let mut ext = None;
            if i + 1 < n {
                for k in 0..width {
                    match ways[(j + k) % ways.len()] {
                        0 => seq.push_str(&format!("<xs:element name=\"e{k}\" type=\"t:T{}-{k}\" minOccurs=\"0\"/>", i + 1)),
                        1 => attrs.push_str(&format!("<xs:attributeGroup ref=\"t:G{}-{k}\"/>", i + 1)),
                        2 => seq.push_str(&format!("<xs:element ref=\"t:E{}-{k}\" minOccurs=\"0\"/>", i + 1)),
                        _ => ext = Some(format!("T{}-{k}", i + 1)),
                    }
                }
            }
            let own = format!("<xs:sequence>{seq}<xs:element name=\"own{i}\" type=\"xs:int\"/></xs:sequence>{attrs}");
            body.push_str(&match ext {
                Some(b) => format!("<xs:complexType name=\"T{i}-{j}\"><xs:complexContent><xs:extension base=\"t:{b}\">{own}</xs:extension></xs:complexContent></xs:complexType>\n"),
                None => format!("<xs:complexType name=\"T{i}-{j}\">{own}</xs:complexType>\n"),
            });
            body.push_str(&format!("<xs:element name=\"E{i}-{j}\" type=\"t:T{i}-{j}\"/>\n"));
            let next = if i + 1 < n { each(width, |k| format!("<xs:attributeGroup ref=\"t:G{}-{k}\"/>", i + 1)) } else { String::new() };
            body.push_str(&format!("<xs:attributeGroup name=\"G{i}-{j}\"><xs:attribute name=\"g{i}\" type=\"xs:int\"/>{next}</xs:attributeGroup>\n"));
        }
    }
    schema(&body)
}

pub fn c27(ctx: &mut Ctx) {
    ctx.rule = "a schema or WSDL document which differs from all others, generated with all allocations counted; each is one size of a series".into();
    let mut r = ctx.rng.clone();
    let doublings = ctx.scale(4, 6);
    for f in families() {
        // The code of types which are nested more than 500 levels exceeds the stack (a known limit).
        let most = if f.name.starts_with("depth") { 4 } else { doublings };
        let sizes: Vec<usize> = (0..=most).map(|k| f.base << k).collect();
        grow(ctx, f.name, if f.wsdl { wsdl } else { plain_code }, &sizes, &f.make);
    }
    for i in 0..ctx.scale(60, 1500) {
        if ctx.full() {
            break;
        }
        let pattern: Vec<usize> = (0..1 + r.below(4)).map(|_| r.below(LEVELS.len())).collect();
        let top = r.below(3);
        grow(ctx, &format!("levels {pattern:?} in {top}"), plain_code, &[8, 16, 32, 64], &|n| nested(&pattern, top, n));
        if i % 3 == 0 {
            let ways: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(4)).collect();
            let width = 1 + r.below(3);
            grow(ctx, &format!("layers {ways:?} of {width}"), plain_code, &[6, 12, 24], &|n| layers(&ways, width, n));
        }
    }
    ctx.rng = r;
    values(ctx, doublings);
}

fn wsdl(xml: &str) -> Result<String, String> {
    code_of(xml, true)
}

/// Reads and prints a value; a text which is refused is read all the same.
fn echo<T: std::str::FromStr + std::fmt::Display>(text: &str) -> Result<String, String> {
    Ok(text.parse::<T>().map(|v| v.to_string()).unwrap_or_default())
}

/// Long texts of the types of the library
fn values(ctx: &mut Ctx, doublings: usize) {
    use xsd_types::types as xs;
    let types: &[(&str, fn(&str) -> Result<String, String>)] = &[
        ("integer", echo::<xs::Integer>),
        ("positiveInteger", echo::<xs::PositiveInteger>),
        ("nonPositiveInteger", echo::<xs::NonPositiveInteger>),
        ("decimal", echo::<xs::Decimal>),
        ("duration", echo::<xs::Duration>),
        ("date", echo::<xs::Date>),
        ("time", echo::<xs::Time>),
        ("dateTime", echo::<xs::DateTime>),
        ("dateTimeStamp", echo::<xs::DateTimeStamp>),
        ("gYear", echo::<xs::GYear>),
        ("gYearMonth", echo::<xs::GYearMonth>),
        ("gMonth", echo::<xs::GMonth>),
        ("gMonthDay", echo::<xs::GMonthDay>),
        ("gDay", echo::<xs::GDay>),
    ];
    let texts: &[(&str, fn(usize) -> String)] = &[
        ("digits", |n| "7".repeat(n)),
        ("a negative number", |n| format!("-{}", "7".repeat(n))),
        ("digits of a fraction", |n| format!("0.{}", "7".repeat(n))),
        ("zeros", |n| format!("{}1", "0".repeat(n))),
        ("digits of seconds", |n| format!("PT1.{}S", "3".repeat(n))),
        ("fields of a duration", |n| format!("P{}", "1Y".repeat(n))),
        ("digits of a second", |n| format!("2020-01-01T00:00:00.{}Z", "3".repeat(n))),
        ("digits of a year", |n| format!("{}-01-01", "3".repeat(n))),
        ("digits of a time", |n| format!("00:00:00.{}Z", "3".repeat(n))),
        ("hyphens", |n| "-".repeat(n)),
        ("colons", |n| ":".repeat(n)),
        ("white space", |n| format!("{}1{}", " ".repeat(n), "\n".repeat(n))),
        ("letters", |n| "é".repeat(n)),
        ("zones", |n| format!("2020-01-01{}", "+01:00".repeat(n))),
    ];
    let sizes: Vec<usize> = (0..=doublings.min(5)).map(|k| 100 << k).collect();
    for (t, run) in types {
        for (what, make) in texts {
            grow(ctx, &format!("{t} of {what}"), *run, &sizes, make);
        }
    }
}
