//! C30: the model of a WSDL document has what the document declares.

use std::collections::BTreeSet;

use roxmltree::Document;
use wsdl_parser::parser::{
    binding::{self, Binding},
    definitions::Definitions,
    port_type::{Fault, OperationType, Param},
};

use crate::{
    core::Ctx,
    rng::Rng,
    schema::{gen_doc, marked_up, pad_attributes, NameGen, Names},
};

#[derive(Debug, Clone, PartialEq)]
struct Part {
    name: String,
    element: Option<String>,
    ty: Option<String>,
}

#[derive(Debug, Clone, PartialEq)]
struct Message {
    name: String,
    parts: Vec<Part>,
}

/// The name and the message, as it is written
type Io = (Option<String>, String);

#[derive(Debug, Clone, PartialEq)]
enum Kind {
    RequestResponse(Io, Io, Vec<Io>),
    OneWay(Io),
    SolicitResponse(Io, Io, Vec<Io>),
    Notification(Io),
}

#[derive(Debug, Clone, PartialEq)]
struct Op {
    name: String,
    order: Option<String>,
    /// The words
    doc: Option<Vec<String>>,
    kind: Kind,
}

#[derive(Debug, Clone, PartialEq)]
struct Port {
    name: String,
    ops: Vec<Op>,
}

/// A binding: its name, its port type as it is written, the names of its operations and of the parameters of each
type Bound = (String, String, Vec<(String, Vec<Option<String>>)>);

#[derive(Debug, Clone, PartialEq, Default)]
struct Model {
    name: Option<String>,
    tns: Option<String>,
    /// Namespace and location
    imports: Vec<(String, String)>,
    messages: Vec<Message>,
    ports: Vec<Port>,
    bindings: Vec<Bound>,
    /// The ids of the schemas of each of the `types`
    types: Vec<Vec<String>>,
}

/// The messages a document refers to, by what it writes: the prefix does not matter.
type Found = Vec<(String, Option<String>)>;

fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut scope = NameGen::new();
    for _ in 0..n {
        let name = match r.below(8) {
            // Names which differ in their case, in punctuation or at one end
            0 if !out.is_empty() => {
                let old = r.pick(&out).clone();
                match r.below(4) {
                    0 => old.to_uppercase(),
                    1 => old.to_lowercase(),
                    2 => old.replace(['-', '.'], "_"),
                    _ => format!("{old}{}", r.pick(&["Request", "_", "1", "-", "."])),
                }
            }
            1..=4 => scope.fresh(r, Names::Hostile),
            _ => scope.fresh(r, Names::Styled),
        };
        if !out.contains(&name) {
            out.push(name);
        }
    }
    out
}

struct Writer<'r> {
    r: &'r mut Rng,
    wsdl: String,
    own: Option<String>,
    others: Vec<String>,
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\r', "&#13;")
}

impl Writer<'_> {
    fn tag(&self, n: &str) -> String {
        if self.wsdl.is_empty() { n.to_string() } else { format!("{}:{n}", self.wsdl) }
    }

    fn junk(&mut self) -> String {
        match self.r.below(14) {
            0 => "<!-- <part name=\"commented\"/> -->".into(),
            1 => "<?pi <message name=\"instruction\"/>?>".into(),
            2 => "\n\t ".into(),
            3 => "<!---->\r\n".into(),
            4..=7 => "\n".into(),
            _ => String::new(),
        }
    }

    /// Elements of other namespaces, where the type of an element lets them be
    fn extension(&mut self) -> String {
        match self.r.below(10) {
            0 => "<e:policy name=\"no\" message=\"no\" xmlns:e=\"urn:e\"/>".into(),
            1 => "<plnk:partnerLinkType name=\"x\" xmlns:plnk=\"urn:p\"><plnk:role name=\"r\"/></plnk:partnerLinkType>".into(),
            _ => String::new(),
        }
    }

    /// An element with the attributes in any order and one of another namespace
    fn open(&mut self, name: &str, attrs: &[(&str, &str)]) -> String {
        let mut a: Vec<String> = attrs
            .iter()
            .map(|(k, v)| if self.r.chance(20) && !v.contains('\'') { format!("{k}='{v}'") } else { format!("{k}=\"{v}\"") })
            .collect();
        if self.r.chance(8) {
            a.push("xmlns:e=\"urn:e\" e:foreign=\"no\"".into());
        }
        self.r.shuffle(&mut a);
        let space = *self.r.pick(&[" ", " ", "  ", "\n  "]);
        let mut s = format!("<{}", self.tag(name));
        for a in a {
            s.push_str(space);
            s.push_str(&a);
        }
        s
    }

    fn leaf(&mut self, name: &str, attrs: &[(&str, &str)]) -> String {
        let s = self.open(name, attrs);
        let inner = match self.r.below(8) {
            0 => self.documentation("of a part"),
            1 => self.junk(),
            2 => String::new(),
            _ => return format!("{s}/>"),
        };
        format!("{s}>{inner}</{}>", self.tag(name))
    }

    fn documentation(&mut self, text: &str) -> String {
        let text = match self.r.below(3) {
            0 => marked_up(self.r, text, esc),
            _ => esc(text),
        };
        format!("<{0}>{text}</{0}>", self.tag("documentation"))
    }

    fn maybe_doc(&mut self) -> String {
        if self.r.chance(15) { self.documentation("not of an operation") } else { String::new() }
    }

    /// A reference to a message of this document, with or without its prefix
    fn qname(&mut self, name: &str) -> String {
        match &self.own {
            Some(p) if self.r.chance(85) => format!("{p}:{name}"),
            _ => name.to_string(),
        }
    }
}

fn document(r: &mut Rng) -> (String, Model, Found) {
    let mut m = Model::default();
    let own = if r.chance(75) { Some(r.pick(&["tns", "w", "t-1", "TT", "input"]).to_string()) } else { None };
    let wsdl = if own.is_none() { "wsdl" } else { *r.pick(&["wsdl", "", "w0", "xs"]) };
    let uri = own.as_ref().map(|_| r.pick(&["urn:w", "http://a.example/W/", "urn:ж", "a b"]).to_string());
    let others: Vec<String> = (0..r.below(3)).map(|i| format!("o{i}")).collect();
    let mut decls = vec![];
    let schema_prefix = if wsdl == "xs" { "xsd" } else { "xs" };
    decls.push(if wsdl.is_empty() {
        "xmlns=\"http://schemas.xmlsoap.org/wsdl/\"".into()
    } else {
        format!("xmlns:{wsdl}=\"http://schemas.xmlsoap.org/wsdl/\"")
    });
    decls.push(format!("xmlns:{schema_prefix}=\"http://www.w3.org/2001/XMLSchema\""));
    for (i, o) in others.iter().enumerate() {
        decls.push(format!("xmlns:{o}=\"urn:other:{i}\""));
    }
    if let (Some(p), Some(u)) = (&own, &uri) {
        decls.push(format!("xmlns:{p}=\"{u}\""));
        decls.push(format!("targetNamespace=\"{u}\""));
        m.tns = Some(u.clone());
    }
    // The target namespace may be the default one.
    if own.is_none() && !wsdl.is_empty() && r.chance(60) {
        let u = *r.pick(&["urn:w", "http://a.example/W/", "urn:ж", "a b"]);
        decls.push(format!("xmlns=\"{u}\""));
        decls.push(format!("targetNamespace=\"{u}\""));
        m.tns = Some(u.to_string());
    }
    if r.chance(60) {
        let n = names(r, 1).remove(0);
        decls.push(format!("name=\"{n}\""));
        m.name = Some(n);
    }
    r.shuffle(&mut decls);
    let mut w = Writer { r, wsdl: wsdl.to_string(), own, others };
    let mut chunks: Vec<(usize, String)> = vec![];

    for i in 0..w.r.below(4) {
        let ns = format!("urn:import:{i}{}", w.r.pick(&["", "/", "#x", "&amp;y"]));
        let location = w.r.pick(&["a.wsdl", "../b/c.wsdl", "http://h.example/d?wsdl&amp;x=1", "", "é.wsdl"]).to_string();
        let t = w.leaf("import", &[("namespace", &ns), ("location", &location)]);
        m.imports.push((ns.replace("&amp;", "&"), location.replace("&amp;", "&")));
        chunks.push((0, t));
    }
    let mut id = 0;
    for _ in 0..*w.r.pick(&[0, 1, 1, 1, 2, 3]) {
        let mut ids = vec![];
        let mut t = w.open("types", &[]) + ">";
        t.push_str(&w.maybe_doc());
        for _ in 0..w.r.below(4) {
            t.push_str(&w.junk());
            let name = format!("schema{id}");
            id += 1;
            t.push_str(&match w.r.below(3) {
                0 => format!("<{schema_prefix}:schema id=\"{name}\"/>"),
                1 => format!("<schema xmlns=\"http://www.w3.org/2001/XMLSchema\" id=\"{name}\"><element name=\"message\"/></schema>"),
                _ => format!(
                    "<{schema_prefix}:schema id=\"{name}\"><{schema_prefix}:element name=\"a\"/><!-- <schema id=\"no\"/> --></{schema_prefix}:schema>"
                ),
            });
            ids.push(name);
        }
        t.push_str(&w.extension());
        t.push_str(&format!("</{}>", w.tag("types")));
        m.types.push(ids);
        chunks.push((1, t));
    }
    let n = w.r.below(8);
    for name in names(w.r, n) {
        let n = *w.r.pick(&[0, 1, 1, 1, 2, 3, 6]);
        let mut t = w.open("message", &[("name", &name)]) + ">";
        t.push_str(&w.maybe_doc());
        t.push_str(&w.extension());
        let mut parts = vec![];
        for part in names(w.r, n) {
            let q = names(w.r, 1).remove(0);
            let q = match w.r.below(4) {
                0 if !w.others.is_empty() => format!("{}:{q}", w.r.pick(&w.others)),
                1 => format!("{schema_prefix}:string"),
                _ => w.qname(&q),
            };
            t.push_str(&w.junk());
            let kind = w.r.below(10);
            let p = match kind {
                0..=5 => Part { name: part, element: Some(q.clone()), ty: None },
                6..=8 => Part { name: part, element: None, ty: Some(q.clone()) },
                _ => Part { name: part, element: None, ty: None },
            };
            let mut attrs = vec![("name", p.name.as_str())];
            match kind {
                0..=5 => attrs.push(("element", &q)),
                6..=8 => attrs.push(("type", &q)),
                _ => (),
            }
            t.push_str(&w.leaf("part", &attrs));
            parts.push(p);
        }
        t.push_str(&w.junk());
        t.push_str(&format!("</{}>", w.tag("message")));
        m.messages.push(Message { name, parts });
        chunks.push((2, t));
    }
    let mut refs: Vec<String> = vec![];
    let n = w.r.below(4);
    for (i, port) in names(w.r, n).into_iter().enumerate() {
        let n = *w.r.pick(&[0, 1, 2, 3, 8]);
        let mut t = w.open("portType", &[("name", &port)]) + ">";
        t.push_str(&w.maybe_doc());
        t.push_str(&w.extension());
        let mut ops = vec![];
        let mut own = names(w.r, n);
        // Operations may be overloaded, and those of several port types may have the same name.
        for k in 0..own.len() {
            if w.r.chance(6) {
                let known: Vec<&String> = m.ports.iter().flat_map(|p| p.ops.iter().map(|o| &o.name)).chain(&own[..k]).collect();
                if !known.is_empty() {
                    own[k] = w.r.pick(&known).to_string();
                }
            }
        }
        for name in own {
            // Any message, even one which is declared nowhere
            let mut io = |w: &mut Writer, tag: &str, named: bool| -> (Io, String) {
                let message = match m.messages.is_empty() || w.r.chance(10) {
                    true => "Undeclared".to_string(),
                    false => w.r.pick(&m.messages).name.clone(),
                };
                let message = w.qname(&message);
                refs.push(message.clone());
                let name = if named || w.r.chance(30) { Some(names(w.r, 1).remove(0)) } else { None };
                let mut attrs = vec![("message", message.as_str())];
                if let Some(n) = &name {
                    attrs.push(("name", n));
                }
                let text = w.leaf(tag, &attrs);
                ((name, message.clone()), text)
            };
            let mut body = String::new();
            let doc = if w.r.chance(40) {
                // Nothing but documents of XML characters
                let d: String = gen_doc(w.r, true).chars().filter(|&c| c >= ' ' || "\n\t\r".contains(c)).collect();
                body.push_str(&w.junk());
                body.push_str(&w.documentation(&d));
                Some(d.split_whitespace().map(|w| w.to_string()).collect())
            } else {
                None
            };
            body.push_str(&w.junk());
            body.push_str(&w.extension());
            let kind = w.r.below(10);
            let tags = if kind < 7 { ["input", "output"] } else { ["output", "input"] };
            let (a, t1) = io(&mut w, tags[0], false);
            body.push_str(&t1);
            body.push_str(&w.junk());
            let kind = if kind < 5 || kind == 7 || kind == 8 {
                let (b, t2) = io(&mut w, tags[1], false);
                body.push_str(&t2);
                let mut faults = vec![];
                for _ in 0..*w.r.pick(&[0, 0, 1, 2, 4]) {
                    body.push_str(&w.junk());
                    let (f, t3) = io(&mut w, "fault", true);
                    body.push_str(&t3);
                    faults.push(f);
                }
                if kind < 7 { Kind::RequestResponse(a, b, faults) } else { Kind::SolicitResponse(a, b, faults) }
            } else if kind < 7 {
                Kind::OneWay(a)
            } else {
                Kind::Notification(a)
            };
            body.push_str(&w.junk());
            let order = if w.r.chance(20) { Some(names(w.r, 3).join(" ")) } else { None };
            let mut attrs = vec![("name", name.as_str())];
            if let Some(o) = &order {
                attrs.push(("parameterOrder", o));
            }
            t.push_str(&w.junk());
            t.push_str(&(w.open("operation", &attrs) + ">"));
            t.push_str(&body);
            t.push_str(&format!("</{}>", w.tag("operation")));
            ops.push(Op { name, order, doc, kind });
        }
        t.push_str(&w.junk());
        t.push_str(&format!("</{}>", w.tag("portType")));
        chunks.push((3, t));
        if w.r.chance(50) {
            // A binding has operations and messages as well.
            let q = w.qname(&port);
            let name = format!("B{i}");
            let mut t = w.open("binding", &[("name", &name), ("type", &q)]) + ">";
            t.push_str(&w.maybe_doc());
            let mut bound = vec![];
            for o in 0..w.r.below(3) {
                let op = format!("Bound{o}");
                t.push_str(&w.junk());
                t.push_str(&w.extension());
                t.push_str(&(w.open("operation", &[("name", &op)]) + ">"));
                let mut names = vec![];
                for tag in ["input", "output", "fault", "fault", "fault"] {
                    if w.r.chance(30) {
                        continue;
                    }
                    let own = if tag == "fault" || w.r.chance(50) { Some(format!("no{}", names.len())) } else { None };
                    let attrs: Vec<(&str, &str)> = own.iter().map(|n| ("name", n.as_str())).collect();
                    t.push_str(&w.extension());
                    t.push_str(&(w.open(tag, &attrs) + ">"));
                    t.push_str(&w.extension());
                    t.push_str(&format!("</{}>", w.tag(tag)));
                    names.push(own);
                }
                t.push_str(&format!("</{}>", w.tag("operation")));
                bound.push((op, names));
            }
            t.push_str(&format!("</{}>", w.tag("binding")));
            chunks.push((4, t));
            m.bindings.push((name, q, bound));
        }
        m.ports.push(Port { name: port, ops });
    }
    if w.r.chance(30) {
        chunks.push((5, format!("<{0} name=\"S\"><{1} name=\"P\" binding=\"x\"/></{0}>", w.tag("service"), w.tag("port"))));
    }
    // The declarations may be in any order.
    if w.r.chance(30) {
        let mut keys: Vec<usize> = (0..6).collect();
        w.r.shuffle(&mut keys);
        chunks.sort_by_key(|(k, _)| keys[*k]);
    }
    let mut xml = String::new();
    if w.r.chance(40) {
        xml.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- a service -->");
    }
    xml.push_str(&format!("<{} {}>", w.tag("definitions"), decls.join(" ")));
    xml.push_str(&w.maybe_doc());
    for (_, c) in chunks {
        xml.push_str(&w.junk());
        xml.push_str(&w.extension());
        xml.push_str(&c);
    }
    xml.push_str(&format!("\n</{}>", w.tag("definitions")));
    let xml = pad_attributes(
        w.r,
        &xml,
        &["name", "message", "element", "type", "namespace", "location", "targetNamespace", "parameterOrder"],
    );
    let found = refs
        .into_iter()
        .map(|q| {
            let local = q.split(':').next_back().unwrap().to_string();
            let message = m.messages.iter().find(|m| m.name == local).map(|m| m.name.clone());
            (q, message)
        })
        .collect();
    (xml, m, found)
}

fn read(xml: &str) -> (Model, Found, Vec<String>) {
    let doc = Document::parse(xml).unwrap_or_else(|e| panic!("not well-formed ({e}):\n{xml}"));
    let d = Definitions::new(&doc.root_element());
    let mut odd = vec![];
    let io = |p: &Param| (p.name().map(|n| n.to_string()), p.message().to_string());
    let fault = |f: &Fault| (Some(f.name().to_string()), f.message().to_string());
    let mut found: Found = vec![];
    let mut ports = vec![];
    for (key, p) in d.port_types() {
        if *key != p.name() {
            odd.push(format!("the port type {} has the key {key}", p.name()));
        }
        let mut ops = vec![];
        for o in p.operations() {
            let mut look = |p: &Param| {
                found.push((p.message().to_string(), d.get_message_by_param(p).map(|m| m.name().to_string())));
            };
            let kind = match o.operation_type() {
                OperationType::RequestResponse { input, output, faults } => {
                    look(input);
                    look(output);
                    Kind::RequestResponse(io(input), io(output), faults.iter().map(fault).collect())
                }
                OperationType::OneWay { input } => {
                    look(input);
                    Kind::OneWay(io(input))
                }
                OperationType::SolicitResponse { output, input, faults } => {
                    look(output);
                    look(input);
                    Kind::SolicitResponse(io(output), io(input), faults.iter().map(fault).collect())
                }
                OperationType::Notification { output } => {
                    look(output);
                    Kind::Notification(io(output))
                }
            };
            ops.push(Op {
                name: o.name().to_string(),
                order: o.parameter_order().map(|o| o.to_string()),
                doc: o.documentation().map(|d| d.split_whitespace().map(|w| w.to_string()).collect()),
                kind,
            });
        }
        ports.push(Port { name: p.name().to_string(), ops });
    }
    ports.sort_by(|a, b| a.name.cmp(&b.name));
    let mut messages = vec![];
    for (key, m) in d.messages() {
        if *key != m.name() {
            odd.push(format!("the message {} has the key {key}", m.name()));
        }
        let parts = m
            .parts()
            .iter()
            .map(|p| Part {
                name: p.name().to_string(),
                element: p.element().map(|e| e.to_string()),
                ty: p.type_().map(|e| e.to_string()),
            })
            .collect();
        messages.push(Message { name: m.name().to_string(), parts });
    }
    messages.sort_by(|a, b| a.name.cmp(&b.name));
    let mut imports: Vec<(String, String)> = vec![];
    for (key, i) in d.imports() {
        if *key != i.namespace() {
            odd.push(format!("the import {} has the key {key}", i.namespace()));
        }
        imports.push((i.namespace().to_string(), i.location().to_string()));
    }
    imports.sort();
    let mut bindings = vec![];
    let wsdl = |n: &roxmltree::Node, name: &str| n.has_tag_name(("http://schemas.xmlsoap.org/wsdl/", name));
    for node in doc.root_element().children().filter(|n| wsdl(n, "binding")) {
        let b = Binding::new(&node);
        let mut ops = vec![];
        for node in node.children().filter(|n| wsdl(n, "operation")) {
            let params = node
                .children()
                .filter(|n| ["input", "output", "fault"].iter().any(|t| wsdl(n, t)))
                .map(|n| binding::Param::new(&n).name().map(|n| n.to_string()))
                .collect();
            ops.push((binding::Operation::new(&node).name().to_string(), params));
        }
        bindings.push((b.name().to_string(), b.type_().to_string(), ops));
    }
    bindings.sort();
    let model = Model {
        bindings,
        name: d.name().map(|n| n.to_string()),
        tns: d.target_namespace().map(|n| n.uri().to_string()),
        imports,
        messages,
        ports,
        types: d
            .types()
            .iter()
            .map(|t| t.schemas().iter().map(|s| s.attribute("id").unwrap_or("?").to_string()).collect())
            .collect(),
    };
    (model, found, odd)
}

/// The parts which differ
fn differences(want: &Model, got: &Model) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    let mut check = |what, same: bool, detail: String| {
        if !same {
            v.push((what, detail));
        }
    };
    check("name", want.name == got.name, format!("{:?}, not {:?}", got.name, want.name));
    check("target namespace", want.tns == got.tns, format!("{:?}, not {:?}", got.tns, want.tns));
    check("imports", want.imports == got.imports, format!("{:?}, not {:?}", got.imports, want.imports));
    check("types", want.types == got.types, format!("{:?}, not {:?}", got.types, want.types));
    let names = |m: &Model| m.messages.iter().map(|m| m.name.clone()).collect::<Vec<_>>();
    check("messages", names(want) == names(got), format!("{:?}, not {:?}", names(got), names(want)));
    for (a, b) in want.messages.iter().zip(&got.messages) {
        check("parts", a == b, format!("{b:?}, not {a:?}"));
    }
    check("bindings", want.bindings == got.bindings, format!("{:?}, not {:?}", got.bindings, want.bindings));
    let names = |m: &Model| m.ports.iter().map(|m| m.name.clone()).collect::<Vec<_>>();
    check("port types", names(want) == names(got), format!("{:?}, not {:?}", names(got), names(want)));
    for (a, b) in want.ports.iter().zip(&got.ports) {
        let names = |p: &Port| p.ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>();
        check("operations", names(a) == names(b), format!("{:?}, not {:?}", names(b), names(a)));
        for (a, b) in a.ops.iter().zip(&b.ops) {
            check("operation", a == b, format!("{b:?}, not {a:?}"));
        }
    }
    v
}

pub fn c30(ctx: &mut Ctx) {
    ctx.rule = "a WSDL document which differs from all others, with imports, types, messages, port types and operations of all four kinds".into();
    let mut r = ctx.rng.clone();
    ctx.phase("documents", 300);
    for _ in 0..ctx.scale(6000, 200_000) {
        if ctx.full() {
            return;
        }
        let (xml, mut want, found) = document(&mut r);
        ctx.nontrivial(&xml);
        ctx.sample(503, || xml.clone());
        let (got, look, odd) = match ctx.observe(&xml, || read(&xml)) {
            Ok(g) => g,
            Err(e) => {
                ctx.violation("panic", &format!("the document cannot be read: {e}\n{xml}"));
                continue;
            }
        };
        ctx.add("messages", want.messages.len() as u64);
        ctx.add("parts", want.messages.iter().map(|m| m.parts.len() as u64).sum());
        ctx.add("imports", want.imports.len() as u64);
        ctx.add("bindings", want.bindings.len() as u64);
        ctx.add("schemas", want.types.iter().map(|m| m.len() as u64).sum());
        for o in want.ports.iter().flat_map(|p| &p.ops) {
            ctx.count(match o.kind {
                Kind::RequestResponse(..) => "operations: request and response",
                Kind::OneWay(_) => "operations: one way",
                Kind::SolicitResponse(..) => "operations: solicit and response",
                Kind::Notification(_) => "operations: notification",
            });
            if o.doc.is_some() {
                ctx.count("documented operations");
            }
        }
        want.imports.sort();
        want.bindings.sort();
        want.messages.sort_by(|a, b| a.name.cmp(&b.name));
        want.ports.sort_by(|a, b| a.name.cmp(&b.name));
        for o in odd {
            ctx.violation("key", &format!("{o}\n{xml}"));
        }
        for (what, detail) in differences(&want, &got) {
            ctx.violation(what, &format!("the {what} of the document: {detail}\n{xml}"));
        }
        // Every reference to a message leads to it.
        let want: BTreeSet<_> = found.iter().collect();
        for l in &look {
            ctx.count(if l.1.is_some() { "references to messages" } else { "references to no message" });
            if !want.contains(l) {
                ctx.violation("reference", &format!("the message {:?} is found as {:?}\n{xml}", l.0, l.1));
            }
        }
    }
}
