//! C21: the functions of WSDL documents, against a generated model of the documents.

use quote::ToTokens;
use roxmltree::Document;
use wsdl_parser::{generator::generate as generate_functions, parser::definitions::Definitions};
use xsd_parser::{generator::builder::GeneratorBuilder, parser::schema::parse_schema};

use crate::{
    compiled::{Answer, Batch, Unit},
    core::Ctx,
    gencheck::{comments, doc_words},
    model,
    rng::Rng,
    schema::{self, gen_doc, marked_up, norm, Knobs, NameGen, Names, Schema, Tns, TopKind, SCALAR_BUILTINS},
};

#[derive(Clone, Debug)]
pub struct Part {
    pub name: String,
    pub element: bool,
    /// None: a name without a prefix
    pub prefix: Option<String>,
    pub local: String,
}

#[derive(Clone, Debug)]
pub struct Message {
    pub name: String,
    pub parts: Vec<Part>,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub doc: Option<String>,
    pub input: usize,
    pub output: Option<usize>,
    pub faults: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Wsdl {
    /// The prefix of the WSDL elements, or empty
    pub prefix: String,
    pub tns: Tns,
    pub foreign: Vec<(String, String)>,
    pub messages: Vec<Message>,
    pub ports: Vec<(String, Vec<Op>)>,
    /// Without a target namespace of another document
    pub schemas: Vec<Schema>,
    /// The prefix of messages, as opposed to types
    pub qualified: bool,
    pub seed: u64,
}

pub struct Shape {
    pub names: Names,
    pub docs: u32,
    pub hostile_docs: bool,
    pub foreign: u32,
    pub ports: usize,
    pub ops: usize,
    /// The share of messages with no part or several; their functions do not compile (a known limit)
    pub parts: u32,
    /// The share of operations with the name of another one; their functions do not compile together
    pub overloads: u32,
}

const PREFIXES: &[&str] =
    &["f", "other", "x-s", "a.b", "type", "self", "crate", "super", "Self", "_1", "N2", "wsnt", "tt", "Try", "try", "xop"];

/// A document; `types` are the names of the target namespace its messages refer to, if given.
pub fn generate(r: &mut Rng, shape: &Shape, schemas: Vec<Schema>, types: &[String], tns: Option<Tns>) -> Wsdl {
    let tns = tns.unwrap_or_else(|| match r.below(10) {
        0 => Tns::None,
        1 | 2 => Tns::Default("urn:w".into()),
        _ => {
            let uri = *r.pick(&["urn:w", "urn:w", "http://a.example/W/", "urn:'\\w", "urn:ж"]);
            Tns::Prefixed(r.pick(&["tds", "tns", "w", "t-1", "TT"]).to_string(), uri.into())
        }
    });
    let mut foreign: Vec<(String, String)> = vec![];
    if r.chance(70) {
        for i in 0..1 + r.below(3) {
            let p = r.pick(PREFIXES).to_string();
            let clash = matches!(&tns, Tns::Prefixed(t, _) if norm(t) == norm(&p));
            if !clash && foreign.iter().all(|f| norm(&f.0) != norm(&p)) {
                foreign.push((p, format!("urn:foreign:{i}")));
            }
        }
    }
    let mut w = Wsdl {
        prefix: match &tns {
            // Names without a prefix must not be ones of the WSDL namespace
            Tns::Default(_) | Tns::None => r.pick(&["wsdl", "w0"]).to_string(),
            _ => r.pick(&["wsdl", "", "", "w0", "wsdl"]).to_string(),
        },
        tns,
        foreign,
        messages: vec![],
        ports: vec![],
        schemas,
        qualified: r.chance(80),
        seed: r.next(),
    };
    let mut messages = NameGen::new();
    let mut elements = NameGen::new();
    let mut ops = NameGen::new();
    let mut ports = NameGen::new();
    let mut message = |w: &mut Wsdl, r: &mut Rng| -> usize {
        if !w.messages.is_empty() && r.chance(15) {
            return r.below(w.messages.len());
        }
        let own = match &w.tns {
            Tns::Prefixed(p, _) => Some(p.clone()),
            _ => None,
        };
        let count = match r.below(6) {
            _ if !r.chance(shape.parts) => 1,
            0 => 0,
            n => n + 1,
        };
        let mut scope = NameGen::new();
        let mut parts = vec![];
        for _ in 0..count {
            let (prefix, local) = if !w.foreign.is_empty() && r.chance(shape.foreign) {
                (Some(r.pick(&w.foreign).0.clone()), elements.fresh(r, shape.names))
            } else if !types.is_empty() {
                (own.clone(), r.pick(types).clone())
            } else {
                (own.clone(), elements.fresh(r, shape.names))
            };
            let name = if count == 1 {
                r.pick(&["parameters", "body", "request", "type", "x", "T", "transport"]).to_string()
            } else {
                loop {
                    let n = scope.fresh(r, shape.names);
                    if norm(&n) != "transport" {
                        break n;
                    }
                }
            };
            parts.push(Part { name, element: r.chance(70), prefix, local });
        }
        w.messages.push(Message { name: messages.fresh(r, shape.names), parts });
        w.messages.len() - 1
    };
    for _ in 0..r.below(shape.ports + 1) {
        let mut v = vec![];
        for _ in 0..r.below(shape.ops + 1) {
            let input = message(&mut w, r);
            let output = if r.chance(80) { Some(message(&mut w, r)) } else { None };
            let faults = match output {
                Some(_) if r.chance(20) => (0..1 + r.below(2)).map(|_| message(&mut w, r)).collect(),
                _ => vec![],
            };
            let doc = if r.chance(shape.docs) { Some(gen_doc(r, shape.hostile_docs)) } else { None };
            let name = match w.ports.last().and_then(|p: &(String, Vec<Op>)| p.1.last()).or(v.last()) {
                Some(o) if r.chance(shape.overloads) => o.name.clone(),
                _ => ops.fresh(r, shape.names),
            };
            v.push(Op { name, doc, input, output, faults });
        }
        w.ports.push((ports.fresh(r, shape.names), v));
    }
    // A message which nothing refers to
    if r.chance(30) {
        message(&mut w, r);
    }
    w
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('\r', "&#13;")
        .chars()
        .filter(|&c| c == '\n' || c == '\t' || c >= ' ')
        .collect()
}

impl Wsdl {
    fn qname(&self, name: &str) -> String {
        match &self.tns {
            Tns::Prefixed(p, _) if self.qualified => format!("{p}:{name}"),
            _ => name.to_string(),
        }
    }

    pub fn ops(&self) -> Vec<&Op> {
        self.ports.iter().flat_map(|p| &p.1).collect()
    }

    /// The segments of the path of the generated type, in their normal form
    fn path(&self, p: &Part) -> Vec<String> {
        let own = matches!(&self.tns, Tns::Prefixed(t, _) if Some(t) == p.prefix.as_ref());
        match &p.prefix {
            Some(x) if !own => vec![norm(x), norm(&p.local)],
            _ => vec![norm(&p.local)],
        }
    }

    pub fn render(&self, noise: bool) -> String {
        let mut r = Rng::new(self.seed, "schemas");
        let texts: Vec<String> =
            self.schemas.iter().map(|s| s.render_embedded(if noise { Some(r.next()) } else { None }, 2)).collect();
        self.render_with(noise, &texts, &[])
    }

    /// With the given texts of the schemas and further declarations of namespaces
    pub fn render_with(&self, noise: bool, schemas: &[String], outer: &[(String, String)]) -> String {
        let mut r = Rng::new(self.seed, "wsdl");
        let w = |n: &str| if self.prefix.is_empty() { n.to_string() } else { format!("{}:{n}", self.prefix) };
        let mut decls = vec![if self.prefix.is_empty() {
            "xmlns=\"http://schemas.xmlsoap.org/wsdl/\"".to_string()
        } else {
            format!("xmlns:{}=\"http://schemas.xmlsoap.org/wsdl/\"", self.prefix)
        }];
        match &self.tns {
            Tns::None => (),
            Tns::Prefixed(p, u) => decls.push(format!("xmlns:{p}=\"{}\"", schema::esc_attr(u))),
            Tns::Default(u) => decls.push(format!("xmlns=\"{}\"", schema::esc_attr(u))),
        }
        for (p, u) in self.foreign.iter().chain(outer) {
            decls.push(format!("xmlns:{p}=\"{}\"", schema::esc_attr(u)));
        }
        decls.push("xmlns:soap=\"http://schemas.xmlsoap.org/wsdl/soap12/\"".into());
        if noise {
            r.shuffle(&mut decls);
            if r.chance(50) {
                let i = r.below(decls.len());
                decls.insert(i, "name=\"A-Service\"".into());
            }
        }
        if let Tns::Prefixed(_, u) | Tns::Default(u) = &self.tns {
            decls.push(format!("targetNamespace=\"{}\"", schema::esc_attr(u)));
        }
        let mut out = String::new();
        if noise && r.chance(50) {
            out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- generated -->\n");
        }
        out.push_str(&format!("<{} {}>\n", w("definitions"), decls.join(" ")));
        let junk = |r: &mut Rng| -> String {
            if !noise || !r.chance(15) {
                return "\n".into();
            }
            r.pick(&["<!-- <wsdl:operation name=\"No\"/> -->", "<?pi portType?>", "<!---->", "   ", ""]).to_string()
        };
        // An element which has nothing but attributes may have documentation or an extension inside.
        let element = |r: &mut Rng, name: &str, attrs: &str| -> String {
            let name = w(name);
            let ext = if attrs.len() % 2 == 0 { "" } else { " xmlns:e=\"urn:e\" e:Action=\"urn:input\"" };
            match if noise { r.below(12) } else { 9 } {
                0 => format!("<{name} {attrs}><{0}>A message <b>part</b></{0}></{name}>", w("documentation")),
                1 => format!("<{name} {attrs}>\n</{name}>"),
                2 => format!("<{name}{ext} {attrs}/>"),
                3 => format!("<{name} {attrs}><e:ext xmlns:e=\"urn:e\" message=\"no\" element=\"no\"/></{name}>"),
                4 => format!("<{name} {attrs}><!-- none --><{0}/></{name}>", w("documentation")),
                _ => format!("<{name} {attrs}/>"),
            }
        };
        if noise && r.chance(30) {
            out.push_str(&format!("<{0}>The operation <!-- not --> of a service</{0}>\n", w("documentation")));
        }
        let mut chunks: Vec<(usize, String)> = vec![];
        if !schemas.is_empty() || noise {
            // The schemas may be spread over several elements
            let mut types: Vec<String> = vec![];
            let split = noise && r.chance(30);
            for text in schemas {
                if split || types.is_empty() {
                    types.push(text.clone());
                } else {
                    let t = types.last_mut().unwrap();
                    t.push_str(&junk(&mut r));
                    t.push_str(text);
                }
            }
            for t in types {
                chunks.push((0, format!("<{0}>{t}\n</{0}>\n", w("types"))));
            }
        }
        for m in &self.messages {
            let mut parts = String::new();
            for p in &m.parts {
                let q = p.prefix.as_ref().map(|x| format!("{x}:{}", p.local)).unwrap_or(p.local.clone());
                let mut attrs =
                    [format!("name=\"{}\"", p.name), format!("{}=\"{q}\"", if p.element { "element" } else { "type" })];
                if noise && r.chance(30) {
                    attrs.swap(0, 1);
                }
                parts.push_str(&format!("{}{}", element(&mut r, "part", &attrs.join(" ")), junk(&mut r)));
            }
            let doc = if noise && r.chance(10) { format!("<{0}>A message</{0}>", w("documentation")) } else { String::new() };
            chunks.push((1, format!(
                "<{0} name=\"{1}\">{doc}{2}{parts}</{0}>\n",
                w("message"), m.name, junk(&mut r)
            )));
        }
        for (i, (name, ops)) in self.ports.iter().enumerate() {
            let mut t = format!("<{} name=\"{name}\">\n", w("portType"));
            if noise && r.chance(20) {
                t.push_str(&format!("<{0}>Of the port type</{0}>", w("documentation")));
            }
            let mut binding = format!(
                "<{} name=\"Binding{i}\" type=\"{}\"><soap:binding style=\"document\"/>",
                w("binding"), self.qname(name)
            );
            for o in ops {
                // The order of the parts is a hint, they may be left out of it.
                let order: Vec<&str> = match noise && r.chance(20) {
                    true => self.messages[o.input].parts.iter().map(|p| p.name.as_str()).filter(|_| r.chance(60)).collect(),
                    false => vec![],
                };
                let order = match order.is_empty() {
                    true => String::new(),
                    false => format!(" parameterOrder=\"{}\"", order.join(" ")),
                };
                t.push_str(&format!("<{}{order} name=\"{}\">{}", w("operation"), o.name, junk(&mut r)));
                if let Some(d) = &o.doc {
                    let text = if noise && r.chance(30) { marked_up(&mut r, d, esc) } else { esc(d) };
                    t.push_str(&format!("<{0}>{text}</{0}>", w("documentation")));
                }
                t.push_str(&junk(&mut r));
                let message = |m: usize| self.qname(&self.messages[m].name);
                let name = if noise && r.chance(20) { "name=\"In\" " } else { "" };
                t.push_str(&element(&mut r, "input", &format!("{name}message=\"{}\"", message(o.input))));
                t.push_str(&junk(&mut r));
                if let Some(m) = o.output {
                    t.push_str(&element(&mut r, "output", &format!("message=\"{}\"", message(m))));
                }
                for (k, f) in o.faults.iter().enumerate() {
                    t.push_str(&element(&mut r, "fault", &format!("name=\"F{k}\" message=\"{}\"", message(*f))));
                }
                t.push_str(&format!("{}</{}>\n", junk(&mut r), w("operation")));
                binding.push_str(&format!(
                    "<{0} name=\"{1}\"><soap:operation soapAction=\"urn:a\"/><{2}><soap:body use=\"literal\"/></{2}>\
                     <{3}><soap:body use=\"literal\"/></{3}></{0}>",
                    w("operation"), o.name, w("input"), w("output")
                ));
            }
            t.push_str(&format!("</{}>\n", w("portType")));
            chunks.push((2, t));
            if noise && r.chance(60) {
                chunks.push((3, format!("{binding}</{}>\n", w("binding"))));
            }
        }
        if noise && r.chance(30) {
            chunks.push((3, format!(
                "<{0} name=\"Service\"><{1} name=\"P\" binding=\"B\"><soap:address location=\"http://h/\"/></{1}></{0}>\n",
                w("service"), w("port")
            )));
        }
        if noise && r.chance(20) {
            chunks.push((3, format!("<{} namespace=\"urn:imported\" location=\"other.wsdl\"/>\n", w("import"))));
        }
        if noise && r.chance(50) {
            // Top-level elements may come in any order; the order among the port types, the
            // messages and the schemas themselves is kept.
            let mut kinds: Vec<usize> = chunks.iter().map(|c| c.0).collect();
            r.shuffle(&mut kinds);
            let mut queues: Vec<std::collections::VecDeque<String>> = vec![Default::default(); 4];
            for (k, c) in chunks {
                queues[k].push_back(c);
            }
            for k in kinds {
                out.push_str(&queues[k].pop_front().unwrap());
                out.push_str(&junk(&mut r));
            }
        } else {
            for (_, c) in chunks {
                out.push_str(&c);
            }
        }
        out.push_str(&format!("</{}>\n", w("definitions")));
        if noise {
            const NAMES: [&str; 8] =
                ["name", "type", "element", "message", "namespace", "location", "targetNamespace", "parameterOrder"];
            out = schema::pad_attributes(&mut r, &out, &NAMES);
        }
        out
    }
}

/// The functions alone, or the code of the embedded schemas and the functions.
pub fn code_of(xml: &str, schemas: bool) -> Result<String, String> {
    let doc = Document::parse(xml).map_err(|e| format!("the harness wrote a bad document: {e}"))?;
    let defs = Definitions::new(&doc.root_element());
    let mut code = String::new();
    if schemas {
        let gen = GeneratorBuilder::default().build();
        for s in defs.types().iter().flat_map(|t| t.schemas()) {
            code.push_str(&gen.generate_rs_file(&parse_schema(&s)));
        }
    }
    code.push_str(&generate_functions(&defs));
    Ok(code)
}

fn segments(t: &syn::Type) -> Option<Vec<String>> {
    model::path_of(t).map(|p| p.iter().map(|s| norm(s)).collect())
}

pub struct Signature {
    pub name: String,
    pub request: String,
    pub result: String,
}

/// What differs from the operation, if anything.
fn differs(w: &Wsdl, o: &Op, f: &syn::ItemFn) -> Result<Signature, String> {
    let name = f.sig.ident.to_string();
    let want = |c: bool, what: &str| if c { Ok(()) } else { Err(format!("{what} of the function {name} of {:?}", o.name)) };
    want(norm(&name) == norm(&o.name), "the name")?;
    want(matches!(f.vis, syn::Visibility::Public(_)), "the visibility")?;
    want(f.sig.asyncness.is_some(), "the asynchrony")?;
    let generics: Vec<&syn::GenericParam> = f.sig.generics.params.iter().collect();
    let [syn::GenericParam::Type(g)] = generics[..] else {
        return Err(format!("the generic parameters of {name}"));
    };
    want(g.bounds.to_token_stream().to_string().replace(' ', "") == "transport::Transport", "the bounds")?;
    let args: Vec<&syn::Type> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => match &*t.ty {
                syn::Type::Reference(r) => Some(&*r.elem),
                _ => None,
            },
            _ => None,
        })
        .collect();
    let parts = &w.messages[o.input].parts;
    want(args.len() == 1 + parts.len() && f.sig.inputs.len() == args.len(), "the arguments")?;
    want(segments(args[0]) == Some(vec![norm(&g.ident.to_string())]), "the transport")?;
    for (p, a) in parts.iter().zip(&args[1..]) {
        let request = segments(a);
        if request != Some(w.path(p)) {
            return Err(format!("the request of {name} is {request:?}, but that of the message is {:?}", w.path(p)));
        }
    }
    if parts.len() > 1 {
        let names: Vec<String> = f
            .sig
            .inputs
            .iter()
            .skip(1)
            .map(|a| match a {
                syn::FnArg::Typed(t) => norm(&model::tokens(&t.pat)),
                _ => String::new(),
            })
            .collect();
        let wanted: Vec<String> = parts.iter().map(|p| norm(&p.name)).collect();
        if names != wanted {
            return Err(format!("the arguments of {name} are {names:?}, but the parts of the message are {wanted:?}"));
        }
    }
    let syn::ReturnType::Type(_, ret) = &f.sig.output else {
        return Err(format!("the result of {name}"));
    };
    let syn::Type::Path(p) = &**ret else {
        return Err(format!("the result of {name}"));
    };
    let last = p.path.segments.last().unwrap();
    want(last.ident == "Result", "the result")?;
    let syn::PathArguments::AngleBracketed(a) = &last.arguments else {
        return Err(format!("the result of {name}"));
    };
    let types: Vec<&syn::Type> = a
        .args
        .iter()
        .filter_map(|a| match a {
            syn::GenericArgument::Type(t) => Some(t),
            _ => None,
        })
        .collect();
    want(types.len() == 2, "the result")?;
    want(model::tokens(types[1]) == "transport::Error", "the error")?;
    match o.output.and_then(|m| w.messages[m].parts.first()) {
        None => want(model::tokens(types[0]) == "()", "the unit result")?,
        Some(p) => {
            let have = segments(types[0]);
            if have != Some(w.path(p)) {
                return Err(format!("the result of {name} is {have:?}, but that of the message is {:?}", w.path(p)));
            }
        }
    }
    Ok(Signature {
        name,
        request: args.get(1).map(|a| model::tokens(a)).unwrap_or_default(),
        result: model::tokens(types[0]),
    })
}

fn judge(w: &Wsdl, code: &str) -> Result<Vec<Signature>, String> {
    let m = model::parse(code).map_err(|e| format!("the code is not valid Rust: {e}"))?;
    let ops = w.ops();
    if m.fns.len() != ops.len() {
        let names: Vec<String> = m.fns.iter().map(|f| f.sig.ident.to_string()).collect();
        return Err(format!("there are {} operations, but {} functions: {names:?}", ops.len(), m.fns.len()));
    }
    let mut v = vec![];
    for (o, f) in ops.iter().zip(&m.fns) {
        v.push(differs(w, o, f)?);
    }
    let have = comments(code);
    for o in ops {
        let Some(doc) = &o.doc else { continue };
        let doc: String = doc.chars().filter(|&c| c == '\n' || c == '\t' || c == '\r' || c >= ' ').collect();
        let words = doc_words(&doc);
        let words2 = doc_words(&doc.replace('\r', ""));
        let n = norm(&o.name);
        if !words.is_empty() && !have.iter().any(|c| c.0 == n && (c.1.ends_with(&words) || c.1.ends_with(&words2))) {
            return Err(format!("the documentation of {:?} is not above its function: {words:?}", o.name));
        }
    }
    Ok(v)
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "a WSDL document with at least one operation whose text differs from all others; its functions are parsed, \
                and for a part of the documents compiled with their schemas and run with a recording transport"
        .into();
    let mut r = ctx.rng.clone();
    for i in 0..ctx.scale(3000, 120_000) {
        if ctx.full() {
            break;
        }
        let shape = Shape {
            names: *r.pick(&[Names::Tame, Names::Styled, Names::Styled, Names::Hostile]),
            docs: 40,
            hostile_docs: r.chance(40),
            foreign: 25,
            ports: 4,
            ops: if i % 50 == 0 { 60 } else { 6 },
            parts: if i % 2 == 0 { 25 } else { 0 },
            overloads: if i % 4 == 0 { 10 } else { 0 },
        };
        let w = generate(&mut r, &shape, vec![], &[], None);
        let xml = w.render(i % 3 != 0);
        let code = match ctx.observe(&xml, || code_of(&xml, false)) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => panic!("{e}\n{xml}"),
            Err(p) => {
                ctx.violation("panic", &format!("no functions were generated: {p}\n{xml}"));
                continue;
            }
        };
        let ops = w.ops().len();
        if ops > 0 {
            ctx.nontrivial(&xml);
        }
        ctx.add("operations", ops as u64);
        ctx.add("port types", w.ports.len() as u64);
        ctx.add("operations without output", w.ops().iter().filter(|o| o.output.is_none()).count() as u64);
        ctx.add("operations with several parts", w.ops().iter().filter(|o| w.messages[o.input].parts.len() > 1).count() as u64);
        let mut names: Vec<&String> = w.ops().iter().map(|o| &o.name).collect();
        names.sort();
        ctx.add("operations with the name of another one", names.windows(2).filter(|p| p[0] == p[1]).count() as u64);
        ctx.add("documented operations", w.ops().iter().filter(|o| o.doc.is_some()).count() as u64);
        ctx.sample(397, || format!("{ops} operations: {}", xml.split_whitespace().collect::<Vec<_>>().join(" ")));
        if let Err(e) = judge(&w, &code) {
            ctx.violation(&format!("case-{i}"), &format!("{e}\n{xml}\n{code}"));
        }
    }
    ctx.rng = r;
    for _ in 0..ctx.scale(1, 8) {
        if !ctx.full() {
            batch(ctx, ctx.scale(64, 96));
        }
    }
    probes(ctx);
}

const TRANSPORT: &str = r#"
pub mod transport {
    pub trait Transport {
        fn log(&self, text: String);
    }
    pub struct Error;
    pub async fn request<T: Transport, R: 'static, P: Default + 'static>(t: &T, r: &R) -> Result<P, Error> {
        t.log(format!("{} {} {}", std::any::type_name::<R>(), std::any::type_name::<P>(), r as *const R as usize));
        Ok(P::default())
    }
}

#[derive(Default)]
pub struct Recorder(std::cell::RefCell<Vec<String>>);

impl transport::Transport for Recorder {
    fn log(&self, text: String) {
        self.0.borrow_mut().push(text);
    }
}

pub fn wait<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..100 {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("the function never ends")
}
"#;

/// A document with a schema of its own, with the code of both
fn with_schema(r: &mut Rng) -> (Wsdl, Vec<String>) {
    let k = Knobs {
        tops: 3 + r.below(5),
        depth: 1 + r.below(2),
        docs: 10,
        builtins: SCALAR_BUILTINS,
        names: if r.chance(50) { Names::Styled } else { Names::Tame },
        compilable: true,
        imports: false,
        any: 0,
        simple_tns: r.chance(50),
        ..Knobs::default()
    };
    let s = schema::generate(r, &k);
    let types: Vec<String> = s
        .tops
        .iter()
        .filter(|t| matches!(t.kind, TopKind::ElementComplex(_) | TopKind::Complex(_)))
        .map(|t| t.name.clone())
        // The name of the parameter of the functions (a known limit)
        .filter(|n| norm(n) != "t")
        .collect();
    let shape = Shape { names: k.names, docs: 20, hostile_docs: false, foreign: if types.is_empty() { 100 } else { 15 }, ports: 3, ops: 5, parts: 0, overloads: 0 };
    let tns = s.tns.clone();
    (generate(r, &shape, vec![s], &types, Some(tns)), types)
}

fn batch(ctx: &mut Ctx, n: usize) {
    let batch = Batch::new(ctx);
    let mut units = vec![];
    let mut all = vec![];
    while units.len() < n {
        let mut r = Rng::new(ctx.rng.next(), "wsdl");
        let (w, types) = with_schema(&mut r);
        if types.is_empty() || w.ops().is_empty() {
            continue;
        }
        let xml = w.render(r.chance(70));
        let code = match ctx.observe(&xml, || code_of(&xml, true)) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => panic!("{e}\n{xml}"),
            Err(p) => {
                ctx.violation("panic", &format!("no code was generated: {p}\n{xml}"));
                if ctx.full() {
                    return;
                }
                continue;
            }
        };
        let signatures = match judge(&w, &code) {
            Ok(s) => s,
            Err(e) => {
                ctx.violation("signature", &format!("{e}\n{xml}\n{code}"));
                if ctx.full() {
                    return;
                }
                continue;
            }
        };
        let mut arms = String::new();
        let mut asks = vec![];
        let mut modules: std::collections::BTreeMap<String, std::collections::BTreeSet<String>> = Default::default();
        for (case, s) in signatures.iter().enumerate() {
            for t in [&s.request, &s.result] {
                if let Some((m, n)) = t.split_once("::") {
                    modules.entry(m.to_string()).or_default().insert(n.to_string());
                }
            }
            arms.push_str(&format!(
                "        {case} => {{\n            let t = Recorder::default();\n            let request: {} = Default::default();\n            \
                 let at = &request as *const _ as usize;\n            let result = wait(self::{}(&t, &request));\n            \
                 let kind = |_: &Result<{}, transport::Error>| ();\n            kind(&result);\n            \
                 Ok(format!(\"{{}}\\x1f{{}}\\x1f{{}}\", at, result.is_ok(), t.0.borrow().join(\"\\x1f\")))\n        }}\n",
                s.request, s.name, s.result
            ));
            asks.push((case, String::new()));
        }
        let mut driver = String::from(TRANSPORT);
        for (m, names) in modules {
            let items: String = names.iter().map(|n| format!("#[derive(Default)] pub struct {n}(u8);\n")).collect();
            driver.push_str(&format!("pub mod {m} {{\n{items}}}\n"));
        }
        driver.push_str(&format!(
            "pub fn drive(case: usize, data: &str) -> Result<String, String> {{\n    match case {{\n{arms}        _ => Err(\"no such case\".into()),\n    }}\n}}\n"
        ));
        units.push(Unit { code, driver, origin: xml, asks });
        all.push(w);
    }
    let broken = batch.compile(ctx, &units);
    for (u, e) in &broken {
        ctx.violation("compile", &format!("the code does not compile:\n{e}\n{}\n{}", units[*u].origin, units[*u].code));
    }
    let answers = batch.run(ctx, &units, &broken);
    for (u, unit) in units.iter().enumerate() {
        let ops = all[u].ops();
        for (i, a) in answers[u].iter().enumerate() {
            let o = ops[i];
            let Answer::Ok(text) = a else {
                if *a != Answer::Broken {
                    ctx.violation("run", &format!("{:?} ends badly: {a:?}\n{}\n{}", o.name, unit.origin, unit.code));
                }
                continue;
            };
            ctx.count("functions called");
            let parts: Vec<&str> = text.split('\x1f').collect();
            let problem = (|| {
                let [at, "true", log] = parts[..] else {
                    return Some("does not make one request and give its answer".to_string());
                };
                let w: Vec<&str> = log.split(' ').collect();
                let [req, res, addr] = w[..] else {
                    return Some(format!("has a bad log: {log}"));
                };
                if at != addr {
                    return Some("sends another request than it is given".into());
                }
                let path = |t: &str| -> Vec<String> {
                    let t = t.split_once("::").map(|x| x.1).unwrap_or(t);
                    let t = t.split_once("::").map(|x| x.1).unwrap_or(t);
                    t.split("::").map(norm).collect()
                };
                let w = &all[u];
                let input = &w.messages[o.input].parts[0];
                if path(req) != w.path(input) {
                    return Some(format!("sends {req}, not {:?}", w.path(input)));
                }
                match o.output {
                    None if res == "()" => None,
                    Some(m) if path(res) == w.path(&w.messages[m].parts[0]) => None,
                    _ => Some(format!("has the answer {res}")),
                }
            })();
            if let Some(p) = problem {
                ctx.violation("call", &format!("{:?} {p}: {text:?}\n{}\n{}", o.name, unit.origin, unit.code));
            }
        }
    }
    if ctx.violations.is_empty() {
        batch.clean();
    }
}

/// Documents which are valid, but known not to be handled.
fn probes(ctx: &mut Ctx) {
    let doc = |messages: &str, op: &str| {
        format!(
            "<definitions xmlns=\"http://schemas.xmlsoap.org/wsdl/\" xmlns:t=\"urn:t\" xmlns:u=\"urn:t\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" \
             targetNamespace=\"urn:t\">{messages}<portType name=\"P\"><operation name=\"Go\">{op}</operation></portType></definitions>"
        )
    };
    let one = "<message name=\"A\"><part name=\"p\" element=\"t:Foo\"/></message><message name=\"B\"><part name=\"p\" element=\"t:Bar\"/></message>";
    let fixed: &[(&str, String)] = &[
        ("solicit-response", doc(one, "<output message=\"t:A\"/><input message=\"t:B\"/>")),
        ("notification", doc(one, "<output message=\"t:A\"/>")),
        ("no-parts", doc("<message name=\"A\"/>", "<input message=\"t:A\"/>")),
        (
            "two-parts",
            doc(
                "<message name=\"A\"><part name=\"p\" element=\"t:Foo\"/><part name=\"q\" element=\"t:Bar\"/></message>",
                "<input message=\"t:A\"/>",
            ),
        ),
        ("built-in", doc("<message name=\"A\"><part name=\"p\" type=\"xs:string\"/></message>", "<input message=\"t:A\"/>")),
        ("type-named-t", doc(one, "<input message=\"t:A\"/><output message=\"t:B\"/>").replace("t:Foo", "t:T")),
        ("second-prefix", doc("<message name=\"A\"><part name=\"p\" element=\"u:Foo\"/></message>", "<input message=\"t:A\"/>")),
    ];
    for (case, xml) in fixed {
        let problem = match ctx.observe(xml, || code_of(xml, false)) {
            Err(p) => Some(format!("panics: {p}")),
            Ok(Err(e)) => panic!("{e}"),
            Ok(Ok(code)) => match model::parse(&code) {
                Err(e) => Some(format!("the code is not valid Rust: {e}")),
                Ok(m) if m.fns.len() != 1 => Some(format!("{} functions", m.fns.len())),
                Ok(m) => {
                    let f = &m.fns[0];
                    let body = model::tokens(&f.block);
                    let args = model::tokens(&f.sig.inputs);
                    let undefined = body.contains("request)") && !args.contains("request:");
                    let wrong = match *case {
                        "built-in" => !args.contains("String") || args.contains("::String"),
                        // Names its parameter and not the type
                        "type-named-t" => args.ends_with("request:&T") && f.sig.generics.type_params().any(|p| p.ident == "T"),
                        "second-prefix" => args.contains("::Foo"),
                        _ => false,
                    };
                    if undefined {
                        Some("the function refers to a request which it does not have".into())
                    } else if wrong {
                        Some(format!("the arguments are {args}"))
                    } else {
                        None
                    }
                }
            },
        };
        ctx.count("probes");
        if let Some(p) = problem {
            ctx.violation(case, &format!("{p}\n{xml}"));
        }
    }
}
