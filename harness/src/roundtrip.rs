//! C16: generated code is compiled and reads and writes documents.

use crate::{
    compiled::{Answer, Batch, Unit},
    core::Ctx,
    gencheck::generate_code,
    instance::{canon, document, read, spoiled, varied, Instances, Node},
    model,
    rng::Rng,
    schema::{generate, norm, Knobs, Names, Schema, Tns, TopKind, SCALAR_BUILTINS},
};

fn knobs(r: &mut Rng) -> Knobs {
    Knobs {
        tops: 4 + r.below(7),
        depth: 1 + r.below(3),
        docs: if r.chance(30) { 30 } else { 0 },
        builtins: SCALAR_BUILTINS,
        names: if r.chance(50) { Names::Styled } else { Names::Tame },
        compilable: true,
        imports: false,
        any: if r.chance(20) { 30 } else { 0 },
        ..Knobs::default()
    }
}

/// What is done with the documents
#[derive(Clone, Copy, PartialEq)]
enum Way {
    /// They are written in the plain way.
    Plain,
    /// Each is written in several ways, and with wrong texts.
    Varied,
}

pub fn c28(ctx: &mut Ctx) {
    ctx.rule = "a document which differs from all others: a valid document of a type of a random schema, written in an unusual way, \
                or with one text which its type does not accept; read by the compiled code"
        .into();
    for _ in 0..ctx.scale(1, 16) {
        batch(ctx, 140, Way::Varied);
        if ctx.full() {
            break;
        }
    }
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "a document of a type of a random schema which differs from all others, read and written by the compiled \
                code of the schema and compared by an independent XML parser"
        .into();
    let rounds = ctx.scale(1, 24);
    for _ in 0..rounds {
        batch(ctx, 160, Way::Plain);
        if ctx.full() {
            break;
        }
    }
    limits(ctx);
}

/// What is known not to be supported: a schema with a type `Top` and a valid document of it, each.
const LIMITS: &[(&str, &str, &str)] = &[
    (
        "union-field",
        r#"<xs:simpleType name="U"><xs:union memberTypes="xs:int xs:string"/></xs:simpleType>
        <xs:complexType name="Top"><xs:sequence><xs:element name="a" type="t:U"/></xs:sequence></xs:complexType>"#,
        "<t:a>5</t:a>",
    ),
    (
        "list-of-enumeration",
        r#"<xs:simpleType name="L"><xs:list><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="a"/><xs:enumeration value="b"/></xs:restriction></xs:simpleType></xs:list></xs:simpleType>
        <xs:complexType name="Top"><xs:sequence><xs:element name="a" type="t:L"/></xs:sequence></xs:complexType>"#,
        "<t:a>a b</t:a>",
    ),
    (
        "union-of-enumeration",
        r#"<xs:simpleType name="E"><xs:restriction base="xs:string"><xs:enumeration value="a"/><xs:enumeration value="b"/></xs:restriction></xs:simpleType>
        <xs:simpleType name="U"><xs:union memberTypes="t:E xs:int"/></xs:simpleType>
        <xs:complexType name="Top"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType>"#,
        "<t:a>5</t:a>",
    ),
    (
        "enumeration-of-numbers",
        r#"<xs:simpleType name="E"><xs:restriction base="xs:int"><xs:enumeration value="1"/><xs:enumeration value="2"/></xs:restriction></xs:simpleType>
        <xs:complexType name="Top"><xs:sequence><xs:element name="a" type="t:E"/></xs:sequence></xs:complexType>"#,
        "<t:a>1</t:a>",
    ),
    (
        "facet-of-date",
        r#"<xs:simpleType name="D"><xs:restriction base="xs:date"><xs:minInclusive value="2000-01-01"/></xs:restriction></xs:simpleType>
        <xs:complexType name="Top"><xs:sequence><xs:element name="a" type="t:D"/></xs:sequence></xs:complexType>"#,
        "<t:a>2020-02-29</t:a>",
    ),
    (
        "facet-of-own-type",
        r#"<xs:simpleType name="N"><xs:restriction base="xs:int"><xs:minInclusive value="1"/></xs:restriction></xs:simpleType>
        <xs:simpleType name="M"><xs:restriction base="t:N"><xs:maxInclusive value="9"/></xs:restriction></xs:simpleType>
        <xs:complexType name="Top"><xs:sequence><xs:element name="a" type="t:M"/></xs:sequence></xs:complexType>"#,
        "<t:a>5</t:a>",
    ),
    (
        "element-reference",
        r#"<xs:element name="name" type="xs:string"/>
        <xs:complexType name="Top"><xs:sequence><xs:element ref="t:name"/></xs:sequence></xs:complexType>"#,
        "<t:name>x</t:name>",
    ),
    (
        "mutual-recursion",
        r#"<xs:complexType name="Top"><xs:sequence><xs:element name="a" type="t:Other" minOccurs="0"/></xs:sequence></xs:complexType>
        <xs:complexType name="Other"><xs:sequence><xs:element name="b" type="t:Top" minOccurs="0"/></xs:sequence></xs:complexType>"#,
        "<t:a><t:b/></t:a>",
    ),
    (
        "two-choices",
        r#"<xs:complexType name="Top"><xs:sequence>
        <xs:choice><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/></xs:choice>
        <xs:choice><xs:element name="c" type="xs:int"/><xs:element name="d" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>"#,
        "<t:a>1</t:a><t:d>2</t:d>",
    ),
    (
        "same-name",
        r#"<xs:complexType name="Top"><xs:sequence><xs:element name="a" type="xs:int"/><xs:element name="A" type="xs:int"/></xs:sequence></xs:complexType>"#,
        "<t:a>1</t:a><t:A>2</t:A>",
    ),
    (
        "simple-content",
        r#"<xs:complexType name="Amount"><xs:simpleContent><xs:extension base="xs:decimal"><xs:attribute name="unit" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType>
        <xs:complexType name="Top"><xs:sequence><xs:element name="a" type="t:Amount"/></xs:sequence></xs:complexType>"#,
        r#"<t:a unit="m">5.5</t:a>"#,
    ),
    (
        "order-of-extension",
        r#"<xs:complexType name="Base"><xs:sequence><xs:element name="first" type="xs:int"/></xs:sequence></xs:complexType>
        <xs:complexType name="Top"><xs:complexContent><xs:extension base="t:Base"><xs:sequence><xs:element name="second" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#,
        "<t:first>1</t:first><t:second>2</t:second>",
    ),
    (
        "repeated-choice",
        r#"<xs:complexType name="Top"><xs:choice maxOccurs="unbounded"><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/></xs:choice></xs:complexType>"#,
        "<t:a>1</t:a><t:b>2</t:b>",
    ),
    // Not a limit: the probes themselves work.
    (
        "plain",
        r#"<xs:complexType name="Top"><xs:sequence><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/></xs:sequence></xs:complexType>"#,
        "<t:a>1</t:a><t:b>2</t:b>",
    ),
];

/// The names and texts in their order
fn trace(n: &roxmltree::Node, out: &mut String) {
    for c in n.children() {
        if c.is_element() {
            out.push_str(&format!("<{}", c.tag_name().name()));
            c.attributes().for_each(|a| out.push_str(&format!(" {}={:?}", a.name(), a.value())));
            out.push('>');
            trace(&c, out);
            out.push_str("</>");
        } else if c.is_text() {
            out.push_str(c.text().unwrap_or("").trim());
        }
    }
}

fn limits(ctx: &mut Ctx) {
    let batch = Batch::new(ctx);
    let mut units = vec![];
    for (name, types, doc) in LIMITS {
        let xml = format!(
            "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\">{types}</xs:schema>"
        );
        let code = match generate_code(ctx, &xml) {
            Ok(c) => c,
            Err(e) => {
                ctx.violation(&format!("limit-{name}"), &format!("the generator failed: {e}\n{xml}"));
                continue;
            }
        };
        units.push((
            *name,
            Unit {
                code,
                driver: "pub fn drive(_: usize, data: &str) -> Result<String, String> {\n    crate::round::<Top>(data)\n}\n".into(),
                origin: xml,
                asks: vec![(0, format!("<t:Top xmlns:t=\"urn:t\">{doc}</t:Top>"))],
            },
        ));
    }
    let (names, units): (Vec<_>, Vec<_>) = units.into_iter().unzip();
    let broken = batch.compile(ctx, &units);
    let answers = batch.run(ctx, &units, &broken);
    let flat = |xml: &str| {
        roxmltree::Document::parse(xml).map(|d| {
            let mut out = String::new();
            trace(&d.root_element(), &mut out);
            out
        })
    };
    for (u, name) in names.iter().enumerate() {
        let unit = &units[u];
        let why = match (broken.get(&u), &answers[u][0]) {
            (Some(e), _) => format!("the code does not compile:\n{e}"),
            (None, Answer::Ok(back)) if flat(back).is_ok() && flat(back) == flat(&unit.asks[0].1) => continue,
            (None, other) => format!("{} is read and written as {other:?}", unit.asks[0].1),
        };
        ctx.violation(&format!("limit-{name}"), &format!("{why}\n{}\n{}", unit.origin, unit.code));
    }
    ctx.add("probes", names.len() as u64);
    if ctx.violations.is_empty() {
        batch.clean();
    }
}

fn batch(ctx: &mut Ctx, n: usize, way: Way) {
    let batch = Batch::new(ctx);
    let mut units = vec![];
    let mut wants: Vec<Vec<Result<String, String>>> = vec![];
    let mut schemas: Vec<Schema> = vec![];
    while units.len() < n {
        let mut r = Rng::new(ctx.rng.next(), "unit");
        let k = knobs(&mut r);
        let mut s = generate(&mut r, &k);
        s.ns_order = s.ns_order / 3 * 3;
        let xml = s.render(Some(r.next()));
        let code = match generate_code(ctx, &xml) {
            Ok(c) => c,
            Err(e) => {
                ctx.violation("generate", &format!("the generator failed: {e}\n{xml}"));
                continue;
            }
        };
        let Ok(module) = model::parse(&code) else {
            ctx.violation("parse", &format!("the code is not valid Rust\n{xml}\n{code}"));
            continue;
        };
        let mut arms = String::new();
        let mut asks = vec![];
        let mut want = vec![];
        for (case, t) in s.tops.iter().enumerate() {
            let named: Vec<&str> =
                module.items.iter().filter(|i| norm(&i.name) == norm(&t.name)).map(|i| i.name.as_str()).collect();
            let [name] = named[..] else {
                continue;
            };
            match &t.kind {
                TopKind::Complex(_) | TopKind::ElementComplex(_) | TopKind::Simple(_) | TopKind::ElementSimple(_) => (),
                _ => continue,
            }
            arms.push_str(&format!("        {case} => crate::round::<{name}>(data),\n"));
            for _ in 0..4 {
                let mut i = Instances::new(&s, &mut r);
                let node = match &t.kind {
                    TopKind::Complex(c) => {
                        // The name of the root element is not given by the type.
                        i.complex("root-element", c, 0)
                    }
                    TopKind::ElementComplex(c) => i.complex(&t.name, c, 0),
                    TopKind::Simple(x) | TopKind::ElementSimple(x) => i.simple(x, false).map(|text| Node::leaf("root-element", text, i.typed)),
                    _ => None,
                };
                let (why, chosen) = (i.why, i.chosen);
                let Some(node) = node else {
                    ctx.count(&format!("no instance: {why}"));
                    continue;
                };
                if way == Way::Varied {
                    for _ in 0..3 {
                        asks.push((case, varied(&s, &node, &mut r)));
                        want.push(Ok(canon(&node, true)));
                    }
                    // Code of yaserde takes the errors within a choice for another case.
                    if let (Some((bad, what)), false) = (spoiled(&node, &mut r), chosen) {
                        asks.push((case, if r.chance(50) { varied(&s, &bad, &mut r) } else { document(&s, &bad, "", false) }));
                        want.push(Err(what));
                    }
                    continue;
                }
                let own = match &s.tns {
                    Tns::Prefixed(p, _) => p.clone(),
                    _ => String::new(),
                };
                let prefix = r.pick(&[own.as_str(), "", "zz"]).to_string();
                let doc = document(&s, &node, &prefix, r.chance(40));
                ctx.add("elements in documents", doc.matches("</").count() as u64);
                asks.push((case, doc));
                want.push(Ok(canon(&node, true)));
            }
        }
        let driver = format!(
            "pub fn drive(case: usize, data: &str) -> Result<String, String> {{\n    match case {{\n{arms}        _ => Err(\"no such case\".into()),\n    }}\n}}\n"
        );
        units.push(Unit { code, driver, origin: xml, asks });
        wants.push(want);
        schemas.push(s);
    }
    let broken = batch.compile(ctx, &units);
    for (u, e) in &broken {
        let class = e.lines().next().and_then(|l| l.split("error").nth(1)).unwrap_or("").chars().take(60).collect::<String>();
        ctx.violation(&format!("compile{class}"), &format!("the code does not compile:\n{e}\n{}\n{}", units[*u].origin, units[*u].code));
    }
    ctx.add("schemas compiled", (units.len() - broken.len()) as u64);
    let answers = batch.run(ctx, &units, &broken);
    for (u, unit) in units.iter().enumerate() {
        let uri = match &schemas[u].tns {
            Tns::None => None,
            Tns::Prefixed(_, u) | Tns::Default(u) => Some(u.as_str()),
        };
        for (i, a) in answers[u].iter().enumerate() {
            let (case, doc) = &unit.asks[i];
            let top = &schemas[u].tops[*case];
            let report = |what: String| format!("{what}\n\ntype {}\ndocument\n{doc}\n\nschema\n{}\n\ncode\n{}", top.name, unit.origin, unit.code);
            let wanted = match &wants[u][i] {
                Ok(w) => w,
                Err(what) => {
                    match a {
                        Answer::Broken => (),
                        Answer::Err(_) => {
                            ctx.nontrivial(doc);
                            ctx.count("wrong texts refused");
                        }
                        other => ctx.violation(
                            &format!("wrong:{}", top.name),
                            &report(format!("is not valid ({what}), but reading it ends with {other:?}")),
                        ),
                    }
                    continue;
                }
            };
            match a {
                Answer::Broken => (),
                Answer::Ok(back) => {
                    ctx.nontrivial(doc);
                    ctx.count("documents read and written");
                    ctx.sample(97, || doc.clone());
                    // The simple types carry no namespace of their own.
                    let simple = matches!(top.kind, TopKind::Simple(_) | TopKind::ElementSimple(_));
                    let got = if simple { text_only(back) } else { read(back, uri).map(|n| canon(&n, true)) };
                    match got {
                        Ok(c) if c == *wanted => (),
                        Ok(c) => ctx.violation(&format!("round:{}", top.name), &report(format!("written back as\n{back}\nwith {c}\nfor  {wanted}"))),
                        Err(e) => ctx.violation(&format!("round:{}", top.name), &report(format!("written back as\n{back}\n{e}"))),
                    }
                }
                other => ctx.violation(&format!("read:{}", top.name), &report(format!("is valid, but reading it ends with {other:?}"))),
            }
        }
    }
    if ctx.violations.is_empty() {
        batch.clean();
    }
}

fn text_only(xml: &str) -> Result<String, String> {
    let doc = roxmltree::Document::parse(xml).map_err(|e| format!("not well-formed: {e}"))?;
    let root = doc.root_element();
    let text: String = root.children().filter(|c| c.is_text()).map(|c| c.text().unwrap_or("")).collect();
    Ok(canon(
        &Node::leaf("", text, false),
        true,
    ))
}
