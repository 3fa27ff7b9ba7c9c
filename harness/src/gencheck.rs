//! The checks of the generated code by its semantic projection.

use quote::ToTokens;
use xsd_parser::{generator::builder::GeneratorBuilder, parser};

use crate::{
    core::Ctx,
    matcher::{Class, Diff, Matcher},
    model,
    rng::Rng,
    schema::{self, *},
};

/// The generated code, or how the generation ended otherwise.
pub fn generate_code(ctx: &mut Ctx, xml: &str) -> Result<String, String> {
    let res = ctx.observe(xml, || {
        let rs = parser::parse(xml).map_err(|_| "parse returned an error".to_string())?;
        Ok::<_, String>(GeneratorBuilder::default().build().generate_rs_file(&rs))
    });
    match res {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

pub fn plain_code(xml: &str) -> Result<String, String> {
    let rs = parser::parse(xml).map_err(|_| "parse returned an error".to_string())?;
    Ok(GeneratorBuilder::default().build().generate_rs_file(&rs))
}

pub fn compare(ctx: &mut Ctx, s: &Schema, code: &str) -> Vec<Diff> {
    match model::parse(code) {
        Err(e) => vec![Diff { class: Class::Syntax, text: format!("the generated code is not valid Rust: {e}") }],
        Ok(root) => {
            let mut m = Matcher::new(s, &root);
            m.run();
            let (f, i, r) = (m.fields_seen, m.items_seen, m.resolved);
            let d = std::mem::take(&mut m.diffs);
            ctx.add("fields compared", f);
            ctx.add("declarations compared", i);
            ctx.add("references resolved", r);
            d
        }
    }
}

/// Generates schemas and reports the differences of the given classes.
pub fn run(ctx: &mut Ctx, n: usize, knobs: impl Fn(&mut Rng) -> Knobs, classes: &[Class]) {
    let mut r = ctx.rng.clone();
    for i in 0..n {
        if ctx.full() {
            break;
        }
        let k = knobs(&mut r);
        let s = schema::generate(&mut r, &k);
        let noise = if i % 3 == 0 { None } else { Some(r.next()) };
        let xml = s.render(noise);
        judge(ctx, &s, &xml, classes, &format!("case-{i}"));
    }
    ctx.rng = r;
}

pub fn judge(ctx: &mut Ctx, s: &Schema, xml: &str, classes: &[Class], case: &str) {
    ctx.nontrivial(xml);
    match generate_code(ctx, xml) {
        Err(e) => ctx.violation(case, &format!("no code was generated for a valid schema: {e}\n\n{xml}")),
        Ok(code) => {
            let diffs = compare(ctx, s, &code);
            let mine: Vec<&Diff> = diffs.iter().filter(|d| classes.contains(&d.class) || d.class == Class::Syntax).collect();
            ctx.sample(97, || format!("{} declarations: {}", s.tops.len(), xml.split_whitespace().collect::<Vec<_>>().join(" ")));
            if !mine.is_empty() {
                let text: Vec<String> = mine.iter().map(|d| format!("{:?}: {}", d.class, d.text)).collect();
                ctx.violation(case, &format!("{}\n\nThe schema:\n{xml}\n\nThe generated code:\n{code}", text.join("\n")));
            }
        }
    }
}


const ALL: &[Class] = &[
    Class::Items, Class::Xml, Class::Card, Class::Builtin, Class::Reference, Class::Anonymous, Class::Inherited,
    Class::Enumeration,
];

const RULE: &str = "a schema whose text differs from all others (every third one is rendered plainly, the others with \
                    comments, processing instructions, permuted XML attributes and other irrelevant noise)";

/// The generated code with the order of declarations and fields removed.
fn canon(code: &str) -> Result<String, String> {
    fn module(m: &model::Module, out: &mut Vec<String>, path: &str) {
        for i in &m.items {
            let kind = match &i.kind {
                model::ItKind::Struct(f) => {
                    let mut v: Vec<String> =
                        f.iter().map(|f| format!("{}: {} {:?}", f.name, model::tokens(&f.ty), f.yaserde)).collect();
                    v.sort();
                    format!("{v:?}")
                }
                model::ItKind::Tuple(t) => format!("{:?}", t.iter().map(model::tokens).collect::<Vec<_>>()),
                model::ItKind::Enum(v) => {
                    let v: Vec<String> = v
                        .iter()
                        .map(|v| {
                            let p: Vec<String> = v.payload.iter().map(model::tokens).collect();
                            format!("{}{p:?} {:?}", v.name, v.yaserde)
                        })
                        .collect();
                    format!("{v:?}")
                }
            };
            out.push(format!("{path}{} {:?} {:?} {kind}", i.name, i.derives, i.yaserde));
        }
        for (n, sub) in &m.mods {
            module(sub, out, &format!("{path}{n}::"));
        }
    }
    let m = model::parse(code)?;
    let mut v = vec![];
    module(&m, &mut v, "");
    v.sort();
    Ok(v.join("\n"))
}

pub fn first_difference(a: &str, b: &str) -> String {
    let (mut x, mut y) = (a.lines(), b.lines());
    let mut n = 0;
    loop {
        n += 1;
        match (x.next(), y.next()) {
            (None, None) => return "none".into(),
            (l, r) if l == r => (),
            (l, r) => return format!("line {n}:\n  {}\n  {}", l.unwrap_or("<end>"), r.unwrap_or("<end>")),
        }
    }
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = RULE.into();
    let n = ctx.scale(2000, 20000);
    run(
        ctx,
        n,
        |r| Knobs {
            names: Names::Hostile,
            docs: 40,
            hostile_docs: true,
            foreign: 10,
            tops: 4 + r.below(6),
            ..Default::default()
        },
        ALL,
    );
    characters(ctx);
}

/// The characters XML allows in names, and whether a name may start with them
fn name_characters() -> Vec<(char, bool)> {
    const START: &[(u32, u32)] = &[
        (0x41, 0x5a),
        (0x5f, 0x5f),
        (0x61, 0x7a),
        (0xc0, 0xd6),
        (0xd8, 0xf6),
        (0xf8, 0x2ff),
        (0x370, 0x37d),
        (0x37f, 0x1fff),
        (0x200c, 0x200d),
        (0x2070, 0x218f),
        (0x2c00, 0x2fef),
        (0x3001, 0xd7ff),
        (0xf900, 0xfdcf),
        (0xfdf0, 0xfffd),
        (0x10000, 0xeffff),
    ];
    const FURTHER: &[(u32, u32)] = &[(0x2d, 0x2e), (0x30, 0x39), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)];
    let of = |list: &'static [(u32, u32)], start| {
        list.iter().flat_map(move |(a, b)| (*a..=*b).filter_map(char::from_u32).map(move |c| (c, start)))
    };
    of(START, true).chain(of(FURTHER, false)).collect()
}

/// Every character in the names of elements, attributes and types. What is asked for is syntax and the
/// original names only, because names which differ in dropped symbols are no longer distinct.
fn characters(ctx: &mut Ctx) {
    ctx.phase("characters", 600);
    let mut all = name_characters();
    // All of the letters, digits and marks up to the Han, or of all scripts, and a part of the rest
    let mut k = 0;
    let (limit, rest) = if ctx.thorough { (0x110000, 7) } else { (0x3300, 61) };
    let step = ctx.rng.below(rest);
    all.retain(|(c, _)| {
        k += 1;
        ((*c as u32) < limit && c.is_alphanumeric()) || (*c as u32) < 0x3300 || k % rest == step
    });
    for batch in all.chunks(250) {
        if let Err(e) = character_schema(ctx, batch) {
            let mut found = false;
            for one in batch.chunks(1) {
                if let Err(e) = character_schema(ctx, one) {
                    found = true;
                    let (c, _) = one[0];
                    let identifier = |text: String| syn::parse_str::<syn::Ident>(&text).is_ok();
                    if c.is_alphanumeric() && !identifier(format!("a{c}")) {
                        ctx.violation("no-identifier", &format!("U+{:04X}: {e}", c as u32));
                    } else if c.is_alphabetic() && !identifier(format!("{c}b")) {
                        ctx.violation("mark-first", &format!("U+{:04X}: {e}", c as u32));
                    } else {
                        ctx.violation(&format!("U+{:04X}", c as u32), &e);
                    }
                }
            }
            if !found {
                ctx.violation("characters", &e);
            }
        }
    }
}

fn character_schema(ctx: &mut Ctx, chars: &[(char, bool)]) -> Result<(), String> {
    let mut fields = String::new();
    let mut attrs = String::new();
    let mut types = String::new();
    let mut names = vec![];
    for (c, start) in chars {
        let name = if *start && *c as u32 % 2 == 0 { format!("{c}b") } else { format!("a{c}b") };
        fields += &format!("<xs:element name=\"{name}\" type=\"xs:int\"/>");
        attrs += &format!("<xs:attribute name=\"{name}\" type=\"xs:int\"/>");
        types += &format!(
            "<xs:complexType name=\"T{name}\"><xs:sequence><xs:element name=\"{name}\"><xs:complexType>\
             <xs:attribute name=\"v\" type=\"xs:int\"/></xs:complexType></xs:element></xs:sequence></xs:complexType>"
        );
        names.push(name);
        ctx.count("character");
    }
    let xml = format!(
        "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:complexType name=\"Fields\"><xs:sequence>{fields}\
         </xs:sequence></xs:complexType><xs:complexType name=\"Attrs\">{attrs}</xs:complexType>{types}</xs:schema>"
    );
    let code = generate_code(ctx, &xml)?;
    let file = syn::parse_file(&code).map_err(|e| format!("not valid Rust: {e}"))?;
    for which in ["Fields", "Attrs"] {
        let fields = file.items.iter().find_map(|i| match i {
            syn::Item::Struct(s) if s.ident == which => Some(&s.fields),
            _ => None,
        });
        let fields = fields.ok_or_else(|| format!("there is no {which}"))?;
        if fields.len() != names.len() {
            return Err(format!("{which} has {} fields instead of {}", fields.len(), names.len()));
        }
        let text: String =
            fields.iter().flat_map(|f| &f.attrs).map(|a| a.to_token_stream().to_string()).collect();
        for name in &names {
            if !text.contains(&format!("\"{name}\"")) && !text.contains(&format!("{name:?}")) {
                return Err(format!("{which} has no field of the name {name:?}"));
            }
        }
    }
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = format!("{RULE}; and every pair of a built-in type and a position it is used in");
    // Every type in every position, under every kind of prefix
    for xsd in ["xs", "xsd", "", "s", "XMLSchema", "x.y-z", "T", "é"] {
        for b in schema::BUILTINS {
            let ty = || Ty::Builtin(b);
            let elem = |name: &str, min, max: Option<Max>| Elem {
                name: name.into(),
                ty: ElemTy::Of(ty()),
                min,
                max,
                doc: None,
            };
            let attr = |name: &str, usage| Attr { name: name.into(), ty: AttrTy::Of(ty()), usage, doc: None };
            let simple = |kind| Simple { doc: None, kind };
            let list = builtin_rust(b).starts_with("Vec");
            let complex = |content, attrs| {
                TopKind::Complex(Complex {
                    doc: None,
                    derive: None,
                    text: None,
                    content,
                    attrs: AttrSet { attrs, groups: vec![], any: false },
                })
            };
            let mut tops = vec![
                (
                    "seq",
                    complex(
                        Content::Sequence(vec![
                            Part::Elem(elem("one", None, None)),
                            Part::Elem(elem("opt", Some(0), None)),
                            Part::Elem(elem("many", Some(0), Some(Max::Unbounded))),
                            Part::Choice(vec![elem("left", None, None), elem("right", None, Some(Max::N(3)))]),
                        ]),
                        if list { vec![] } else { vec![attr("req", Some("required")), attr("may", None)] },
                    ),
                ),
                ("every", complex(Content::All(vec![elem("only", Some(0), None)]), vec![])),
                ("picked", complex(Content::Choice(vec![elem("case", None, None)]), vec![])),
                ("el", TopKind::ElementOf(ty())),
                (
                    "group",
                    TopKind::Group(AttrSet { attrs: vec![attr("shared", Some("required"))], groups: vec![], any: false }),
                ),
                (
                    "grouped",
                    TopKind::Complex(Complex {
                        doc: None,
                        derive: None,
                        text: None,
                        content: Content::Empty,
                        attrs: AttrSet { attrs: vec![], groups: vec!["group".into()], any: false },
                    }),
                ),
                ("newtype", TopKind::Simple(simple(SimpleKind::Restriction { base: ty(), facets: vec![] }))),
                ("anon", {
                    let s = simple(SimpleKind::Restriction { base: ty(), facets: vec![] });
                    let e = Elem { ty: ElemTy::Simple(Box::new(s)), ..elem("inner", None, None) };
                    complex(Content::Sequence(vec![Part::Elem(e)]), vec![])
                }),
                ("at", TopKind::AttributeOf(ty())),
            ];
            if !list {
                tops.push(("items", TopKind::Simple(simple(SimpleKind::List(ty())))));
                let other = if *b == "string" { "int" } else { "string" };
                let members = vec![ty(), Ty::Builtin(other)];
                tops.push(("either", TopKind::Simple(simple(SimpleKind::Union { members, anonymous: vec![] }))));
            }
            let s = Schema {
                xsd: xsd.into(),
                tns: Tns::Prefixed("t".into(), "urn:t".into()),
                foreign: vec![],
                tops: tops.into_iter().map(|(n, kind)| Top { name: n.into(), doc: None, kind }).collect(),
                ns_order: 1,
            };
            let xml = s.render(None);
            judge(ctx, &s, &xml, ALL, &format!("builtin-{b}-{xsd}"));
            if ctx.full() {
                return;
            }
        }
    }
    let n = ctx.scale(1500, 20000);
    let knobs = |_: &mut Rng| Knobs { docs: 5, anon: 15, max_parts: 8, unions: true, union_anon: true, ..Default::default() };
    run(ctx, n, knobs, ALL);
    // The prefix of the namespace of XSD is irrelevant.
    let mut r = ctx.rng.clone();
    for i in 0..ctx.scale(150, 5000) {
        let mut k = knobs(&mut r);
        k.simple_tns = true;
        let mut s = schema::generate(&mut r, &k);
        if matches!(&s.tns, Tns::Prefixed(p, _) if p == "xs") {
            continue;
        }
        let mut codes = vec![];
        for xsd in ["xs", "", "b-2"] {
            s.xsd = xsd.into();
            let xml = s.render(None);
            ctx.nontrivial(&xml);
            match generate_code(ctx, &xml) {
                Ok(c) => codes.push((xsd, c, xml)),
                Err(e) => ctx.violation(&format!("prefix-{i}"), &format!("no code for a valid schema: {e}\n{xml}")),
            }
        }
        for c in codes.iter().skip(1) {
            if c.1 != codes[0].1 {
                ctx.violation(
                    &format!("prefix-{i}"),
                    &format!(
                        "the code depends on the prefix of the XSD namespace ({:?} or {:?}), {}\n{}",
                        codes[0].0, c.0, first_difference(&codes[0].1, &c.1), c.2
                    ),
                );
            }
            ctx.count("prefixes compared");
        }
        if ctx.full() {
            break;
        }
    }
    ctx.rng = r;
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = format!("{RULE}; and every pair of occurrence limits in every kind of content");
    let mins = [None, Some(0), Some(1), Some(2), Some(7), Some(4_000_000_000)];
    let maxs = [
        None,
        Some(Max::N(1)),
        Some(Max::N(2)),
        Some(Max::N(3)),
        Some(Max::N(10)),
        Some(Max::N(4_294_967_295)),
        Some(Max::Unbounded),
    ];
    for min in mins {
        for max in &maxs {
            let hi = match max {
                None => 1,
                Some(Max::N(n)) => *n,
                Some(Max::Unbounded) => u32::MAX,
            };
            if min.unwrap_or(1) > hi {
                continue;
            }
            for (ty, name) in [
                (Ty::Builtin("int"), "plain"),
                (Ty::Builtin("string"), "text"),
                (Ty::Builtin("NMTOKENS"), "tokens"),
                (Ty::Named("leaf".into()), "leaf"),
                (Ty::Named("code".into()), "code"),
                (Ty::Named("codes".into()), "codes"),
            ] {
                let e = |n: &str, t: ElemTy| Elem { name: n.into(), ty: t, min, max: max.clone(), doc: None };
                let any = |n: &str| e(n, ElemTy::Of(ty.clone()));
                let attrs = AttrSet {
                    attrs: [None, Some("optional"), Some("required"), Some("prohibited")]
                        .into_iter()
                        .enumerate()
                        .filter(|_| name != "leaf")
                        .map(|(i, usage)| Attr {
                            name: format!("a{i}"),
                            ty: AttrTy::Of(ty.clone()),
                            usage,
                            doc: None,
                        })
                        .collect(),
                    ..Default::default()
                };
                let empty = Complex { doc: None, derive: None, text: None, content: Content::Empty, attrs: AttrSet::default() };
                let inner = Complex { content: Content::Sequence(vec![Part::Elem(any("deep"))]), ..empty.clone() };
                let simple = |kind| Simple { doc: None, kind };
                let code = simple(SimpleKind::Restriction { base: Ty::Builtin("int"), facets: vec![] });
                let mut tops = vec![
                    (
                        "in-sequence",
                        TopKind::Complex(Complex {
                            content: Content::Sequence(vec![
                                Part::Elem(any("value")),
                                Part::Elem(e("nested", ElemTy::Complex(Box::new(inner)))),
                                Part::Elem(e("number", ElemTy::Simple(Box::new(code.clone())))),
                                Part::Elem(e("root", ElemTy::Ref("root".into()))),
                            ]),
                            attrs: attrs.clone(),
                            ..empty.clone()
                        }),
                    ),
                    (
                        "in-choice",
                        TopKind::Complex(Complex {
                            content: Content::Choice(vec![any("case"), e("root", ElemTy::Ref("root".into()))]),
                            attrs: attrs.clone(),
                            ..empty.clone()
                        }),
                    ),
                    (
                        "in-both",
                        TopKind::Complex(Complex {
                            content: Content::Sequence(vec![Part::Elem(any("first")), Part::Choice(vec![any("second")])]),
                            derive: Some(Derive { base: "leaf".into(), restriction: false }),
                            text: None,
                            attrs: AttrSet { groups: vec!["grouped".into()], ..attrs.clone() },
                            ..empty.clone()
                        }),
                    ),
                    ("grouped", TopKind::Group(AttrSet {
                        attrs: attrs.attrs.iter().map(|a| Attr { name: format!("g{}", a.name), ..a.clone() }).collect(),
                        ..Default::default()
                    })),
                    ("leaf", TopKind::Complex(Complex {
                        content: Content::Sequence(vec![Part::Elem(Elem { name: "data".into(), ty: ElemTy::Of(Ty::Builtin("int")), min: None, max: None, doc: None })]),
                        ..empty.clone()
                    })),
                    ("root", TopKind::ElementComplex(empty.clone())),
                    ("code", TopKind::Simple(code.clone())),
                    ("codes", TopKind::Simple(simple(SimpleKind::List(Ty::Builtin("int"))))),
                ];
                if hi <= 1 && min != Some(2) {
                    tops.push((
                        "in-all",
                        TopKind::Complex(Complex { content: Content::All(vec![any("any")]), ..empty.clone() }),
                    ));
                }
                let s = Schema {
                    xsd: "xs".into(),
                    tns: Tns::Prefixed("t".into(), "urn:t".into()),
                    foreign: vec![],
                    tops: tops.into_iter().map(|(n, kind)| Top { name: n.into(), doc: None, kind }).collect(),
                    ns_order: 1,
                };
                let xml = s.render(None);
                judge(ctx, &s, &xml, ALL, &format!("occurs-{min:?}-{max:?}-{name}"));
                if ctx.full() {
                    return;
                }
            }
        }
    }
    let n = ctx.scale(2000, 40000);
    run(ctx, n, |_| Knobs { docs: 0, choice: 25, max_parts: 10, max_attrs: 8, recursion: 10, ..Default::default() }, ALL);
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = RULE.into();
    let n = ctx.scale(3500, 60000);
    run(
        ctx,
        n,
        |r| Knobs { foreign: 8, tops: 3 + r.below(10), refs: 20, union_anon: true, choice: 20, ..Default::default() },
        ALL,
    );
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = format!("{RULE}; the same declarations in several orders");
    let knobs = |r: &mut Rng| Knobs {
        derive: 70,
        groups: 70,
        docs: 3,
        tops: 6 + r.below(12),
        foreign: 8,
        choice: 12,
        max_parts: 4,
        anon: 10,
        ..Default::default()
    };
    let n = ctx.scale(1500, 30000);
    run(ctx, n, knobs, ALL);
    let mut r = ctx.rng.clone();
    for i in 0..ctx.scale(150, 6000) {
        if ctx.full() {
            break;
        }
        let k = knobs(&mut r);
        let mut s = schema::generate(&mut r, &k);
        let mut base: Option<String> = None;
        for _ in 0..4 {
            let xml = s.render(None);
            ctx.nontrivial(&xml);
            match generate_code(ctx, &xml).and_then(|c| canon(&c)) {
                Ok(c) => {
                    if let Some(b) = &base {
                        if *b != c {
                            ctx.violation(
                                &format!("order-{i}"),
                                &format!(
                                    "the declarations depend on their order, {}\n{xml}",
                                    first_difference(b, &c)
                                ),
                            );
                        }
                        ctx.count("orders compared");
                    } else {
                        base = Some(c);
                    }
                }
                Err(e) => ctx.violation(&format!("order-{i}"), &format!("no code for a valid schema: {e}\n{xml}")),
            }
            r.shuffle(&mut s.tops);
        }
    }
    ctx.rng = r;
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = RULE.into();
    let n = ctx.scale(4000, 40000);
    run(
        ctx,
        n,
        |r| Knobs {
            anon: 55,
            anon_simple: 40,
            depth: 2 + r.below(4),
            max_parts: 3 + r.below(2),
            tops: 2 + r.below(4),
            docs: 5,
            union_anon: true,
            names: if r.chance(50) { Names::Tame } else { Names::Styled },
            ..Default::default()
        },
        ALL,
    );
}

/// `gen` mode of this program: the code of the schema on the standard input.
pub fn gen_stdin() {
    let mut xml = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut xml).expect("stdin");
    for doc in xml.split('\0') {
        let rs = parser::parse(doc).expect("parse");
        print!("{}\0", GeneratorBuilder::default().build().generate_rs_file(&rs));
    }
}

/// Other processes have other environments and working directories.
fn in_other_process(xmls: &[String], r: &mut Rng) -> Result<Vec<String>, String> {
    use std::io::Write;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = std::process::Command::new(exe);
    for name in [
        "COLUMNS", "LINES", "TERM", "LANG", "LC_ALL", "LANGUAGE", "HOME", "USER", "TZ", "PWD", "NO_COLOR", "TMPDIR", "HOSTNAME",
        "SOURCE_DATE_EPOCH", "RUST_LOG", "RUST_BACKTRACE", "RUSTFLAGS", "OUT_DIR", "CARGO_MANIFEST_DIR", "CI", "DEBUG",
    ] {
        match r.below(3) {
            0 => {
                c.env_remove(name);
            }
            1 => {
                c.env(name, r.pick(&["1", "0", "40", "120", "de_DE.UTF-8", "tr_TR", "C", "/", "dumb", "true", "debug", ""]));
            }
            _ => (),
        }
    }
    let mut child = c
        .current_dir(r.pick(&["/", "/tmp", "."]))
        .args(["gen", "-"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut stdin = child.stdin.take().unwrap();
    let text = xmls.join("\0");
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    let _ = writer.join();
    let out = String::from_utf8_lossy(&out.stdout).to_string();
    Ok(out.split('\0').map(|s| s.to_string()).collect())
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "a schema whose text differs from all others; every one is generated at least five times".into();
    let mut r = ctx.rng.clone();
    let reused = GeneratorBuilder::default().build();
    let mut batch: Vec<(String, String)> = vec![];
    let n = ctx.scale(800, 6000);
    for i in 0..n {
        if ctx.full() {
            break;
        }
        let k = Knobs {
            foreign: 8,
            tops: 4 + r.below(14),
            derive: 40,
            groups: 50,
            union_anon: true,
            names: *r.pick(&[Names::Tame, Names::Styled, Names::Hostile]),
            ..Default::default()
        };
        let s = schema::generate(&mut r, &k);
        let seed = r.next();
        let xml = s.render(None);
        // The reused generator keeps references to all of the schemas.
        let xml: &'static str = Box::leak(xml.into_boxed_str());
        let noisy = s.render(Some(seed));
        ctx.nontrivial(xml);
        let first = match generate_code(ctx, xml) {
            Ok(c) => c,
            Err(e) => {
                ctx.violation(&format!("case-{i}"), &format!("no code for a valid schema: {e}\n{xml}"));
                continue;
            }
        };
        let res = ctx.observe(xml, || {
            let mut v: Vec<(&str, String)> = vec![];
            let rs = parser::parse(xml).map_err(|_| "parse returned an error")?;
            let fresh = GeneratorBuilder::default().build();
            v.push(("once more", fresh.generate_rs_file(&rs)));
            v.push(("the same parsed schema and generator again", fresh.generate_rs_file(&rs)));
            v.push(("a generator which is reused for all schemas", reused.generate_rs_file(&rs)));
            let doc = roxmltree::Document::parse(xml).map_err(|_| "not well-formed")?;
            let rs = parser::schema::parse_schema(&doc.root_element());
            v.push(("the schema element", GeneratorBuilder::default().build().generate_rs_file(&rs)));
            let rs = parser::parse(&noisy).map_err(|_| "parse returned an error")?;
            v.push((
                "the same schema with comments, permuted attributes etc.",
                GeneratorBuilder::default().build().generate_rs_file(&rs),
            ));
            let text = xml;
            let other = std::thread::spawn(move || {
                let rs = parser::parse(text).unwrap();
                GeneratorBuilder::default().build().generate_rs_file(&rs)
            });
            v.push(("another thread", other.join().map_err(|_| "panicked in another thread")?));
            Ok::<_, &str>(v)
        });
        match res {
            Ok(Ok(v)) => {
                for (what, code) in v {
                    ctx.count(&format!("compared: {what}"));
                    if code != first {
                        ctx.violation(
                            &format!("case-{i}"),
                            &format!(
                                "the code differs ({what}), {}\n{xml}\n\n{noisy}",
                                first_difference(&first, &code)
                            ),
                        );
                    }
                }
            }
            Ok(Err(e)) => ctx.violation(&format!("case-{i}"), &format!("{e}\n{xml}\n\n{noisy}")),
            Err(e) => ctx.violation(&format!("case-{i}"), &format!("panicked: {e}\n{xml}\n\n{noisy}")),
        }
        ctx.sample(211, || format!("{} bytes of schema, {} bytes of code", xml.len(), first.len()));
        batch.push((xml.to_string(), first));
    }
    for round in 0..ctx.scale(2, 12) {
        ctx.phase("other processes", 300);
        let xmls: Vec<String> = batch.iter().map(|b| b.0.clone()).collect();
        for chunk in 0..xmls.len().div_ceil(500) {
            let range = chunk * 500..((chunk + 1) * 500).min(xmls.len());
            match in_other_process(&xmls[range.clone()], &mut r) {
                Ok(codes) => {
                    for (j, code) in codes.iter().take(range.len()).enumerate() {
                        ctx.count("compared: another process");
                        let (xml, first) = &batch[range.start + j];
                        if code != first && !ctx.full() {
                            ctx.violation(
                                &format!("process-{round}-{j}"),
                                &format!("another process generates other code, {}\n{xml}", first_difference(first, code)),
                            );
                        }
                    }
                }
                Err(e) => {
                    eprintln!("cannot run the other process: {e}");
                    std::process::exit(4);
                }
            }
        }
    }
    ctx.rng = r;
}

// --- documentation ---------------------------------------------------------------------------

fn token_text(code: &str) -> Result<String, String> {
    code.parse::<proc_macro2::TokenStream>().map(|t| t.to_string()).map_err(|e| e.to_string())
}

/// The words which are expected in the comment.
pub fn doc_words(doc: &str) -> Vec<String> {
    doc.split_whitespace().map(|w| w.to_string()).collect()
}

fn documented(s: &Schema) -> Vec<(String, String)> {
    fn both(outer: &Option<String>, inner: &Option<String>) -> Option<String> {
        let docs: Vec<String> = outer.iter().chain(inner).cloned().collect();
        if docs.is_empty() { None } else { Some(docs.join("\n")) }
    }
    fn set(a: &AttrSet, v: &mut Vec<(String, String)>) {
        for a in &a.attrs {
            if let (Some(d), true) = (&a.doc, a.usage != Some("prohibited")) {
                v.push((a.name.clone(), d.clone()));
            }
        }
    }
    fn simple(name: &str, s: &Simple, v: &mut Vec<(String, String)>) {
        if let Some(d) = &s.doc {
            v.push((name.to_string(), d.clone()));
        }
        if let SimpleKind::Enumeration { values, .. } = &s.kind {
            for (n, d) in values {
                if let Some(d) = d {
                    v.push((n.clone(), d.clone()));
                }
            }
        }
    }
    fn elem(e: &Elem, v: &mut Vec<(String, String)>) {
        if let Some(d) = &e.doc {
            v.push((e.name.clone(), d.clone()));
        }
        match &e.ty {
            ElemTy::Complex(c) => complex(&format!("{}Type", e.name), c, v),
            ElemTy::Simple(s) => simple(&format!("{}Type", e.name), s, v),
            _ => (),
        }
    }
    fn complex(name: &str, c: &Complex, v: &mut Vec<(String, String)>) {
        if let Some(d) = &c.doc {
            v.push((name.to_string(), d.clone()));
        }
        match &c.content {
            Content::Empty => (),
            Content::All(e) | Content::Choice(e) => e.iter().for_each(|e| elem(e, v)),
            Content::Sequence(p) => p.iter().for_each(|p| match p {
                Part::Elem(e) => elem(e, v),
                Part::Choice(e) => e.iter().for_each(|e| elem(e, v)),
                _ => (),
            }),
        }
        set(&c.attrs, v);
    }
    let mut v = vec![];
    for t in &s.tops {
        let own = |v: &mut Vec<(String, String)>| {
            if let Some(d) = &t.doc {
                v.push((t.name.clone(), d.clone()));
            }
        };
        match &t.kind {
            TopKind::Complex(c) => {
                own(&mut v);
                complex(&t.name, &Complex { doc: None, ..c.clone() }, &mut v);
            }
            TopKind::Simple(s) => {
                own(&mut v);
                simple(&t.name, &Simple { doc: None, ..s.clone() }, &mut v);
            }
            TopKind::ElementOf(_) | TopKind::ElementEmpty | TopKind::AttributeOf(_) => own(&mut v),
            // The element or attribute and its type are one declaration.
            TopKind::ElementComplex(c) => complex(&t.name, &Complex { doc: both(&t.doc, &c.doc), ..c.clone() }, &mut v),
            TopKind::ElementSimple(s) | TopKind::AttributeSimple(s) => {
                simple(&t.name, &Simple { doc: both(&t.doc, &s.doc), ..s.clone() }, &mut v)
            }
            TopKind::Group(_) | TopKind::Import { .. } => (),
        }
    }
    v
}

fn without_docs(s: &Schema) -> Schema {
    fn set(a: &mut AttrSet) {
        a.attrs.iter_mut().for_each(|a| a.doc = None);
    }
    fn simple(s: &mut Simple) {
        s.doc = None;
        match &mut s.kind {
            SimpleKind::Enumeration { values, .. } => values.iter_mut().for_each(|v| v.1 = None),
            SimpleKind::Union { anonymous, .. } => anonymous.iter_mut().for_each(simple),
            _ => (),
        }
    }
    fn elem(e: &mut Elem) {
        e.doc = None;
        match &mut e.ty {
            ElemTy::Complex(c) => complex(c),
            ElemTy::Simple(s) => simple(s),
            _ => (),
        }
    }
    fn complex(c: &mut Complex) {
        c.doc = None;
        match &mut c.content {
            Content::Empty => (),
            Content::All(e) | Content::Choice(e) => e.iter_mut().for_each(elem),
            Content::Sequence(p) => p.iter_mut().for_each(|p| match p {
                Part::Elem(e) => elem(e),
                Part::Choice(e) => e.iter_mut().for_each(elem),
                _ => (),
            }),
        }
        set(&mut c.attrs);
    }
    let mut s = s.clone();
    for t in &mut s.tops {
        t.doc = None;
        match &mut t.kind {
            TopKind::Complex(c) | TopKind::ElementComplex(c) => complex(c),
            TopKind::Simple(s) | TopKind::ElementSimple(s) | TopKind::AttributeSimple(s) => simple(s),
            TopKind::Group(g) => set(g),
            _ => (),
        }
    }
    s
}

/// The comments above the declarations, by the declared name.
pub fn comments(code: &str) -> Vec<(String, Vec<String>)> {
    let mut v = vec![];
    let mut block: Vec<String> = vec![];
    for line in code.lines() {
        let l = line.trim();
        if let Some(alias) = l.strip_prefix("// pub type ") {
            v.push((norm(alias.split(' ').next().unwrap_or("")), std::mem::take(&mut block)));
        } else if let Some(c) = l.strip_prefix("//") {
            block.extend(c.split_whitespace().map(|w| w.to_string()));
        } else if l.starts_with("#[") || l.is_empty() {
            // Between the comment and the declaration
        } else {
            let mut words = l.split(|c: char| c.is_whitespace() || "(){}:,;<".contains(c)).filter(|w| !w.is_empty());
            let mut name = words.next().unwrap_or("");
            while ["pub", "struct", "enum", "mod", "async", "fn"].contains(&name) {
                name = words.next().unwrap_or("");
            }
            v.push((norm(name.trim_start_matches("r#")), std::mem::take(&mut block)));
        }
    }
    v
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "a schema with documentation whose text differs from all others".into();
    let mut r = ctx.rng.clone();
    for i in 0..ctx.scale(900, 30000) {
        if ctx.full() {
            break;
        }
        let k = Knobs {
            docs: 60,
            hostile_docs: true,
            foreign: 5,
            tops: 3 + r.below(6),
            names: *r.pick(&[Names::Tame, Names::Styled]),
            ..Default::default()
        };
        let s = schema::generate(&mut r, &k);
        let xml = s.render(if i % 3 == 0 { None } else { Some(r.next()) });
        let bare = without_docs(&s).render(None);
        ctx.nontrivial(&xml);
        let case = format!("case-{i}");
        let (with, without) = match (generate_code(ctx, &xml), generate_code(ctx, &bare)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => {
                ctx.violation(&case, &format!("no code for a valid schema: {e}\n{xml}"));
                continue;
            }
        };
        match (token_text(&with), token_text(&without)) {
            (Ok(a), Ok(b)) => {
                ctx.add("tokens compared", b.split(' ').count() as u64);
                if a != b {
                    ctx.violation(
                        &case,
                        &format!("the documentation changes the code, not only its comments:\n{xml}\n\n{with}\n\n{without}"),
                    );
                }
            }
            (Err(e), _) => ctx.violation(&case, &format!("the documented code is not valid: {e}\n{xml}\n\n{with}")),
            _ => ctx.violation(&case, &format!("the code without documentation is not valid\n{bare}\n\n{without}")),
        }
        let have = comments(&with);
        // No declaration has the words of another one.
        let mut owners: std::collections::BTreeMap<String, Vec<String>> = Default::default();
        let groups = s.tops.iter().filter_map(|t| match &t.kind {
            TopKind::Group(g) => Some(g.attrs.iter().filter_map(|a| a.doc.clone().map(|d| (a.name.clone(), d)))),
            _ => None,
        });
        for (name, doc) in documented(&s).into_iter().chain(groups.flatten()) {
            for w in doc.split_whitespace().filter(|w| w.starts_with("mark") && w.ends_with("kram")) {
                owners.entry(w.to_string()).or_default().push(norm(&name));
            }
        }
        for (name, block) in &have {
            for w in block.iter().filter(|w| w.starts_with("mark") && w.ends_with("kram")) {
                ctx.count("marks in comments");
                if !owners.get(w).is_some_and(|o| o.contains(name)) {
                    ctx.violation(
                        &case,
                        &format!("{w} of {:?} is in the comment of {name}:\n{block:?}\n{xml}\n\n{with}", owners.get(w)),
                    );
                    break;
                }
            }
        }
        for (name, doc) in documented(&s) {
            let doc: String = doc.chars().filter(|&c| c == '\n' || c == '\t' || c == '\r' || c >= ' ').collect();
            let words = doc_words(&doc);
            if words.is_empty() {
                continue;
            }
            ctx.count("documented declarations");
            ctx.add("words of documentation", words.len() as u64);
            let n = norm(&name);
            let blocks: Vec<&Vec<String>> = have.iter().filter(|c| c.0 == n).map(|c| &c.1).collect();
            // A carriage return and a CDATA section may drop a line of a single character
            if !blocks.iter().any(|b| b.ends_with(&words)) {
                let words2: Vec<String> = doc_words(&doc.replace('\r', ""));
                if !blocks.iter().any(|b| b.ends_with(&words2)) {
                    ctx.violation(
                        &case,
                        &format!("the documentation of {name:?} is not above its declaration: {words:?}\nthe comments: {blocks:?}\n{xml}\n\n{with}"),
                    );
                    break;
                }
            }
        }
        ctx.sample(151, || format!("{} lines of comments", with.lines().filter(|l| l.trim().starts_with("//")).count()));
    }
    ctx.rng = r;
}
