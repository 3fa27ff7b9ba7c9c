//! C26: compiled enumerations read and write their values.

use std::collections::{BTreeMap, BTreeSet};

use crate::{
    compiled::{Answer, Batch, Unit},
    core::Ctx,
    gencheck::generate_code,
    model::{self, ItKind},
    rng::Rng,
    schema::norm,
};

const WORDS: &[&str] = &[
    "a", "b", "mm", "km", "Auto", "Manual", "AUTO", "ON", "OFF", "On", "Off", "H264", "JPEG", "MPEG4", "true", "false",
    "none", "None", "Some", "Ok", "Err", "self", "Self", "type", "match", "crate", "super", "async", "try", "dyn", "box",
    "String", "Option", "Vec", "Default", "Unknown", "unknown", "1", "0", "2", "10", "1a", "1080p", "4x3", "x", "X", "é",
    "É", "größe", "日本", "имя", "ИМЯ", "Ω", "ñandú", "one-two", "oneTwo", "OneTwo", "one-Two", "onetwo", "-", "--", "-a",
    "a-", "a--b", "1-2", "12", "-1", "-1-", "xs", "validate", "IPv4", "Ipv4", "ipv4", "a1", "a-1", "A1", "ns0", "E", "fn",
    "yaserde", "Result", "Box", "value", "visitor", "reader", "writer", "item", "Visitor0", "enumvalue",
];

fn value(r: &mut Rng, have: &[String]) -> String {
    match r.below(10) {
        0..=5 => r.pick(WORDS).to_string(),
        6 if !have.is_empty() => {
            // Another case of a value, or the same with a hyphen
            let v = r.pick(have).clone();
            match r.below(5) {
                0 => v.to_uppercase(),
                1 => v.to_lowercase(),
                2 => format!("{v}-2"),
                3 => format!("{v}2"),
                _ => v
                    .chars()
                    .enumerate()
                    .flat_map(|(i, c)| if i == 1 { vec!['-', c] } else { vec![c] })
                    .collect(),
            }
        }
        7 => (0..1 + r.below(5)).map(|_| *r.pick(&['0', '1', '9', '-', 'a', 'Z'])).collect(),
        _ => {
            let n = 1 + r.below(3);
            (0..n).map(|_| r.pick(WORDS).to_string()).collect::<Vec<_>>().join(r.pick(&["", "-"]))
        }
    }
}

struct Def {
    name: String,
    base: &'static str,
    /// 0: named type, 1: global element, 2: anonymous in an element of a complex type
    place: usize,
    values: Vec<String>,
    others: Vec<String>,
}

fn def(r: &mut Rng, name: String) -> Def {
    let mut values: Vec<String> = vec![];
    let most = r.either(20, 40, 9);
    let n = 1 + r.below(most);
    for _ in 0..n {
        let v = value(r, &values);
        // ß becomes SS and the like: these are alphanumeric after all.
        if !values.contains(&v) && v != "root-element" {
            values.push(v);
        }
    }
    if r.chance(2) {
        // More than fit into a byte
        let most = 250 + r.below(150);
        for i in 0..most {
            let v = format!("{}{}{i}", r.pick(WORDS), r.pick(&["", "-"]));
            if !values.contains(&v) {
                values.push(v);
            }
        }
    }
    let mut others = vec![];
    while others.len() < 6 {
        let v = match r.below(4) {
            0 => value(r, &values),
            1 => {
                let v = r.pick(&values).clone();
                let mut c: Vec<char> = v.chars().collect();
                let i = r.below(c.len());
                match r.below(4) {
                    0 => {
                        c.remove(i);
                    }
                    1 => c.insert(i, 'q'),
                    2 => c.push('-'),
                    _ => c[i] = *r.pick(&['x', 'X', '0', '_', '.']),
                }
                c.into_iter().collect()
            }
            2 => format!("{} {}", r.pick(&values), r.pick(&values)),
            _ => {
                let v = r.pick(&values);
                r.pick(&[norm(v), v.to_uppercase(), v.to_lowercase(), v.replace('-', "_"), format!("{v}{v}")]).clone()
            }
        };
        let v = v.trim().to_string();
        if !v.is_empty() && !values.contains(&v) && v != "root-element" {
            others.push(v);
        }
    }
    Def { name, base: r.pick(&["string", "token", "NMTOKEN", "Name", "normalizedString"]), place: r.below(3), values, others }
}

fn render(defs: &[Def], r: &mut Rng) -> String {
    let p = *r.pick(&["xs", "xsd", "x"]);
    let tns = *r.pick(&["", " xmlns:t=\"urn:t\" targetNamespace=\"urn:t\"", " xmlns=\"urn:t\" targetNamespace=\"urn:t\""]);
    let mut out = format!("<{p}:schema xmlns:{p}=\"http://www.w3.org/2001/XMLSchema\"{tns}>\n");
    let mut holder = String::new();
    for d in defs {
        let mut ty = format!("<{p}:restriction base=\"{p}:{}\">", d.base);
        // Facets which all of the values satisfy, before, between or after the values
        let facet = *r.pick(&[
            "maxLength value=\"5000\"", "minLength value=\"0\"", "pattern value=\"[\\s\\S]*\"", "pattern value=\".*\"",
        ]);
        let at = if r.chance(20) { r.below(d.values.len() + 1) } else { usize::MAX };
        for (i, v) in d.values.iter().enumerate() {
            if i == at {
                ty.push_str(&format!("<{p}:{facet}/>"));
            }
            match r.below(4) {
                0 => ty.push_str(&format!(
                    "<{p}:enumeration value=\"{v}\"><{p}:annotation><{p}:documentation>{v} is a value\nof two lines</{p}:documentation></{p}:annotation></{p}:enumeration>"
                )),
                _ => ty.push_str(&format!("<{p}:enumeration value=\"{v}\"/>\n")),
            }
        }
        if at == d.values.len() {
            ty.push_str(&format!("<{p}:{facet}/>"));
        }
        ty.push_str(&format!("</{p}:restriction></{p}:simpleType>"));
        match d.place {
            0 => out.push_str(&format!("<{p}:simpleType name=\"{}\">{ty}\n", d.name)),
            1 => out.push_str(&format!("<{p}:element name=\"{}\"><{p}:simpleType>{ty}</{p}:element>\n", d.name)),
            _ => {
                let occurs = r.pick(&["", " minOccurs=\"0\"", " maxOccurs=\"unbounded\""]);
                holder.push_str(&format!("<{p}:element name=\"{}\"{occurs}><{p}:simpleType>{ty}</{p}:element>\n", d.name));
            }
        }
    }
    if !holder.is_empty() {
        out.push_str(&format!("<{p}:complexType name=\"Holder\"><{p}:sequence>\n{holder}</{p}:sequence></{p}:complexType>\n"));
    }
    out.push_str(&format!("</{p}:schema>"));
    out
}

fn path(m: &model::Module, d: &Def) -> Option<String> {
    let find = |name: &str| m.items.iter().find(|i| norm(&i.name) == norm(name));
    if d.place < 2 {
        return find(&d.name).map(|i| i.name.clone());
    }
    let ItKind::Struct(f) = &find("Holder")?.kind else { return None };
    let f = f.iter().find(|f| f.yaserde.rename.as_deref().unwrap_or(&f.name) == d.name)?;
    let mut ty = f.ty.clone();
    while let Some((_, t)) = model::peel(&ty) {
        ty = t;
    }
    Some(model::tokens(&ty))
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "a text read into the compiled enumeration of a list of values, distinct in the values and the text".into();
    for _ in 0..ctx.scale(1, 20) {
        batch(ctx, 48, 10);
        if ctx.full() {
            break;
        }
    }
}

fn batch(ctx: &mut Ctx, n: usize, types: usize) {
    let batch = Batch::new(ctx);
    let mut units = vec![];
    let mut all: Vec<Vec<Def>> = vec![];
    for _ in 0..n {
        let mut r = Rng::new(ctx.rng.next(), "enums");
        let defs: Vec<Def> = (0..types).map(|i| def(&mut r, format!("kind{i}"))).collect();
        let xml = render(&defs, &mut r);
        let code = match generate_code(ctx, &xml) {
            Ok(c) => c,
            Err(e) => {
                ctx.violation("generate", &format!("the generator failed: {e}\n{xml}"));
                continue;
            }
        };
        let Ok(module) = model::parse(&code) else {
            ctx.violation("parse", &format!("the code is not valid Rust\n{xml}\n{code}"));
            continue;
        };
        let mut arms = String::new();
        let mut asks = vec![];
        for (case, d) in defs.iter().enumerate() {
            let Some(p) = path(&module, d) else {
                ctx.violation("type", &format!("no type was generated for {}\n{xml}\n{code}", d.name));
                continue;
            };
            arms.push_str(&format!(
                "        {case} => {{\n            let v: {p} = yaserde::de::from_str(data)?;\n            let xml = yaserde::ser::to_string(&v)?;\n            let v2: {p} = yaserde::de::from_str(&xml)?;\n            Ok(format!(\"{{:?}}\\x1f{{}}\\x1f{{}}\", v, v == v2, xml))\n        }}\n"
            ));
            let name = *r.pick(&["root-element", "root-element", "v"]);
            for v in d.values.iter().chain(&d.others) {
                if d.values.iter().any(|v| v == name) {
                    continue;
                }
                asks.push((case, format!("<{name}>{}</{name}>", v.replace('&', "&amp;").replace('<', "&lt;"))));
            }
        }
        let driver = format!(
            "pub fn drive(case: usize, data: &str) -> Result<String, String> {{\n    match case {{\n{arms}        _ => Err(\"no such case\".into()),\n    }}\n}}\n"
        );
        units.push(Unit { code, driver, origin: xml, asks });
        all.push(defs);
    }
    let broken = batch.compile(ctx, &units);
    for (u, e) in &broken {
        ctx.violation("compile", &format!("the code does not compile:\n{e}\n{}\n{}", units[*u].origin, units[*u].code));
    }
    let answers = batch.run(ctx, &units, &broken);
    for (u, unit) in units.iter().enumerate() {
        let mut variants: BTreeMap<usize, BTreeMap<String, String>> = BTreeMap::new();
        for (i, a) in answers[u].iter().enumerate() {
            let (case, doc) = &unit.asks[i];
            let d = &all[u][*case];
            let text = doc.split(['>', '<']).nth(2).unwrap_or("").to_string();
            let declared = d.values.contains(&text);
            let report = |what: &str| {
                format!("{text:?} {what}: {a:?}\nof the enumeration {} of {:?}\n{}\n{}", d.name, d.values, unit.origin, unit.code)
            };
            let (variant, same, xml) = match a {
                Answer::Broken => continue,
                Answer::Ok(t) => {
                    let mut w = t.splitn(3, '\x1f');
                    let mut next = || w.next().unwrap_or("").to_string();
                    (next(), next(), next())
                }
                Answer::Err(_) if !declared => continue,
                _ => {
                    ctx.violation(&format!("read:{declared}"), &report("ends badly"));
                    continue;
                }
            };
            ctx.nontrivial(&format!("{:?} {text}", d.values));
            ctx.sample(499, || format!("{text:?} of {:?} -> {variant}", d.values));
            let unknown = variant.starts_with("__Unknown__");
            if !declared {
                ctx.count("other texts");
                if !unknown {
                    ctx.violation("other", &report("is not a value, but read as one"));
                }
                continue;
            }
            ctx.count("values");
            if unknown {
                ctx.violation("unknown", &report("is a value, but not read as one"));
                continue;
            }
            if same != "true" {
                ctx.violation("differs", &report("is not read back as what was written"));
            }
            let seen = variants.entry(*case).or_default();
            if let Some(other) = seen.insert(variant.clone(), text.clone()) {
                if other != text {
                    ctx.violation("shared", &report(&format!("has the variant {variant} of {other:?}")));
                }
            }
            let back = roxmltree::Document::parse(&xml)
                .map(|d| d.root_element().children().filter_map(|c| c.text()).collect::<String>())
                .unwrap_or_else(|e| format!("not well-formed: {e}"));
            if back != text {
                ctx.violation("written", &report(&format!("is written as {back:?}")));
            }
        }
        let names: BTreeSet<usize> = variants.keys().copied().collect();
        ctx.add("enumerations", names.len() as u64);
        ctx.add("variants seen", variants.values().map(|v| v.len() as u64).sum());
    }
    if ctx.violations.is_empty() {
        batch.clean();
    }
}
