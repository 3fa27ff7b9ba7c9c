//! Valid instance documents of the complex types of a schema.

use crate::{
    rng::Rng,
    schema::{builtin_rust, norm, Attr, AttrSet, AttrTy, Complex, Content, Elem, ElemTy, Max, Part, Schema, Simple, SimpleKind, Tns, TopKind, Ty},
};

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
    pub text: Option<String>,
    /// The text is one of a type of the library, which no letters alone are.
    pub typed: bool,
    /// The attributes of which the same is true
    pub typed_attrs: Vec<String>,
}

impl Node {
    pub fn leaf(name: &str, text: String, typed: bool) -> Self {
        Node { text: Some(text), typed, ..Node::new(name) }
    }

    pub fn new(name: &str) -> Self {
        Node { name: name.to_string(), attrs: vec![], kids: vec![], text: None, typed: false, typed_attrs: vec![] }
    }
}

pub struct Instances<'a> {
    pub s: &'a Schema,
    pub r: &'a mut Rng,
    pub budget: usize,
    /// Why there was no instance
    pub why: &'static str,
    /// yaserde does not write the attributes of the case of a choice: the next one has none.
    pub bare: bool,
    /// The name of the current element
    pub at: String,
    /// The last value was one of a type of the library.
    pub typed: bool,
    /// There was a choice.
    pub chosen: bool,
}

impl<'a> Instances<'a> {
    pub fn new(s: &'a Schema, r: &'a mut Rng) -> Self {
        Instances { s, r, budget: 60, why: "", bare: false, at: "root-element".into(), typed: false, chosen: false }
    }
}

/// What yaserde reads and writes by itself.
fn primitive(ty: &Ty) -> bool {
    match ty {
        Ty::Builtin(b) => !builtin_rust(b).starts_with("xs::") && !builtin_rust(b).starts_with("Vec"),
        _ => false,
    }
}

fn own_parts(c: &Complex) -> Vec<Part> {
    match &c.content {
        Content::Empty => vec![],
        Content::Sequence(p) => p.clone(),
        Content::All(e) => e.iter().cloned().map(Part::Elem).collect(),
        Content::Choice(e) => vec![Part::Choice(e.clone())],
    }
}

impl Instances<'_> {
    pub fn base<'b>(&'b self, c: &Complex) -> Option<&'b Complex> {
        let d = c.derive.as_ref()?;
        match self.s.find(&d.base).map(|t| &t.kind) {
            Some(TopKind::Complex(b)) => Some(b),
            _ => None,
        }
    }

    fn parts(&self, c: &Complex) -> Vec<Part> {
        let own = own_parts(c);
        let mut v = match self.base(c) {
            Some(b) => self.parts(&b.clone()),
            None => vec![],
        };
        // What the derived type declares again is only one element.
        let names = |p: &Part| match p {
            Part::Elem(e) => Some(e.name.clone()),
            _ => None,
        };
        v.retain(|p| names(p).map(|n| !own.iter().any(|o| names(o).as_ref() == Some(&n))).unwrap_or(true));
        v.extend(own);
        v
    }

    fn attr_list(&self, set: &AttrSet, out: &mut Vec<Attr>) {
        for a in &set.attrs {
            if !out.iter().any(|o| o.name == a.name) {
                out.push(a.clone());
            }
        }
        for g in &set.groups {
            if let Some(TopKind::Group(set)) = self.s.find(g).map(|t| &t.kind) {
                self.attr_list(set, out);
            }
        }
    }

    fn attrs(&self, c: &Complex) -> Vec<Attr> {
        let mut v = vec![];
        self.attr_list(&c.attrs, &mut v);
        if let Some(b) = self.base(c) {
            for a in self.attrs(&b.clone()) {
                if !v.iter().any(|o: &Attr| o.name == a.name) {
                    v.push(a);
                }
            }
        }
        v
    }

    /// A flattened choice besides elements of other types is not read by yaserde.
    pub fn supported(&self, c: &Complex) -> bool {
        let parts = self.parts(c);
        let choices = parts.iter().filter(|p| matches!(p, Part::Choice(_))).count();
        if choices == 0 {
            return true;
        }
        choices == 1
            && parts.iter().all(|p| match p {
                Part::Elem(e) => match &e.ty {
                    ElemTy::Of(t) => primitive(t),
                    _ => false,
                },
                _ => true,
            })
    }

    pub fn complex(&mut self, name: &str, c: &Complex, depth: usize) -> Option<Node> {
        if !self.supported(c) {
            self.why = "a choice besides elements of struct type";
            return None;
        }
        // yaserde takes an element named like a field of its own type for that field.
        let own = |p: &Part| match p {
            Part::Elem(e) => e.name == name,
            Part::Choice(cases) => cases.iter().any(|e| e.name == name),
            Part::Any { .. } => false,
        };
        if self.parts(c).iter().any(own) || self.attrs(c).iter().any(|a| a.name == name) {
            self.why = "an element named like a field of its type";
            return None;
        }
        let mut n = Node::new(name);
        let bare = std::mem::take(&mut self.bare);
        for a in self.attrs(c) {
            if bare && a.usage == Some("required") {
                self.why = "the case of a choice with a required attribute";
                return None;
            }
            if bare || a.usage == Some("prohibited") || (a.usage != Some("required") && self.r.chance(50)) {
                continue;
            }
            let ty = match &a.ty {
                AttrTy::Of(t) => t.clone(),
                AttrTy::Untyped => Ty::Builtin("string"),
                _ => {
                    if a.usage == Some("required") {
                        self.why = "a reference to an attribute";
                        return None;
                    }
                    continue;
                }
            };
            let text = self.value(&ty, true)?;
            if self.typed {
                n.typed_attrs.push(a.name.clone());
            }
            n.attrs.push((a.name.clone(), text));
        }
        let mut parts = self.parts(c);
        if matches!(c.content, Content::All(_)) && c.derive.is_none() {
            self.r.shuffle(&mut parts);
        }
        for p in &parts {
            match p {
                Part::Any { .. } => (),
                Part::Elem(e) => self.element(e, depth, &mut n.kids)?,
                Part::Choice(cases) => {
                    self.chosen = true;
                    let e = self.r.pick(cases).clone();
                    let mut one = e.clone();
                    one.min = None;
                    one.max = None;
                    self.bare = true;
                    self.element(&one, depth, &mut n.kids)?;
                    self.bare = false;
                }
            }
        }
        Some(n)
    }

    fn element(&mut self, e: &Elem, depth: usize, out: &mut Vec<Node>) -> Option<()> {
        let min = e.min.unwrap_or(1) as usize;
        let max = match &e.max {
            None => 1,
            Some(Max::N(n)) => *n as usize,
            Some(Max::Unbounded) => min + 4,
        };
        let top = if depth > 4 || self.budget < 20 { min } else { max.min(min + 3) };
        let n = if max < min { min } else { min + self.r.below(top - min + 1) };
        let at = out.len();
        for _ in 0..n {
            match self.one(e, depth) {
                Some(node) => out.push(node),
                None if min == 0 => {
                    out.truncate(at);
                    return Some(());
                }
                None => return None,
            }
        }
        Some(())
    }

    fn one(&mut self, e: &Elem, depth: usize) -> Option<Node> {
        self.budget = self.budget.saturating_sub(1);
        if depth > 12 {
            self.why = "too deep";
            return None;
        }
        self.at = e.name.clone();
        match &e.ty {
            ElemTy::Complex(c) => self.complex(&e.name, c, depth + 1),
            ElemTy::Simple(s) => {
                let t = self.simple(s, false)?;
                Some(self.leaf(&e.name, t))
            }
            ElemTy::Of(t) => self.named(&e.name, t, depth),
            ElemTy::Ref(n) => match self.s.find(n)?.kind.clone() {
                TopKind::ElementOf(t) => self.named(&e.name, &t, depth),
                TopKind::ElementComplex(c) => self.complex(&e.name, &c, depth + 1),
                TopKind::ElementSimple(s) => {
                    let t = self.simple(&s, false)?;
                    Some(self.leaf(&e.name, t))
                }
                TopKind::ElementEmpty => Some(Node::new(&e.name)),
                _ => None,
            },
            ElemTy::ForeignRef(..) => None,
        }
    }

    fn leaf(&self, name: &str, text: String) -> Node {
        Node::leaf(name, text, self.typed)
    }

    fn named(&mut self, name: &str, t: &Ty, depth: usize) -> Option<Node> {
        if let Ty::Named(n) = t {
            if let Some(TopKind::Complex(c)) = self.s.find(n).map(|t| t.kind.clone()) {
                return self.complex(name, &c, depth + 1);
            }
        }
        let text = self.value(t, false)?;
        Some(self.leaf(name, text))
    }

    /// The text of a simple type
    pub fn value(&mut self, t: &Ty, attribute: bool) -> Option<String> {
        match t {
            Ty::Builtin(b) => Some(self.builtin(b, attribute)),
            Ty::Named(n) => match self.s.find(n).map(|t| t.kind.clone())? {
                TopKind::Simple(s) => {
                    // yaserde reads an attribute by an element named like the type.
                    let at = if attribute { n.clone() } else { self.at.clone() };
                    let at = std::mem::replace(&mut self.at, at);
                    let text = self.simple(&s, attribute);
                    self.at = at;
                    text
                }
                _ => None,
            },
            Ty::Foreign(..) => None,
        }
    }

    pub fn simple(&mut self, s: &Simple, attribute: bool) -> Option<String> {
        match &s.kind {
            SimpleKind::Restriction { base, .. } => {
                self.typed = false;
                // Only the texts of primitive types are escaped in attributes.
                if let (true, Ty::Builtin(b)) = (attribute, base) {
                    if builtin_rust(b) == "String" {
                        return Some(self.r.pick(&["a", "abc", "x y", "é", "日本語", "1", "a-b.c_d"]).to_string());
                    }
                }
                let text = self.value(base, attribute);
                if let Ty::Builtin(b) = base {
                    self.typed = builtin_rust(b) != "String";
                }
                text
            }
            SimpleKind::Enumeration { values, .. } => {
                // yaserde does not get past an element which is named like a value of its enum.
                if values.iter().any(|v| norm(&v.0) == norm(&self.at)) {
                    self.why = "an enumeration in an element named like one of the values";
                    return None;
                }
                self.typed = false;
                Some(self.r.pick(values).0.clone())
            }
            SimpleKind::List(item) => {
                let n = 1 + self.r.below(4);
                let mut v = vec![];
                for _ in 0..n {
                    let t = self.value(item, true)?;
                    v.push(t.split(' ').next().unwrap_or("a").replace(['<', '>', '&', '"'], "_"));
                }
                if let Ty::Builtin(b) = item {
                    self.typed = builtin_rust(b) != "String";
                }
                Some(v.join(" "))
            }
            SimpleKind::ListOf { base, .. } => self.value(base, true).map(|t| t.split(' ').next().unwrap_or("a").replace(['<', '>', '&', '"'], "_")),
            SimpleKind::Union { members, .. } => {
                if members.is_empty() {
                    self.why = "a union without named members";
                    return None;
                }
                let i = self.r.below(members.len());
                let text = self.value(&members[i].clone(), attribute)?;
                // A member before it may accept the text and print it in another way.
                let word = text.chars().next().map(|c| c.is_alphabetic()).unwrap_or(false)
                    && !["inf", "infinity", "nan"].contains(&text.to_lowercase().as_str());
                let text = if i == 0 || word { Some(text) } else { self.value(&members[0].clone(), attribute) };
                self.typed = false;
                text
            }
        }
    }

    fn builtin(&mut self, b: &str, attribute: bool) -> String {
        self.typed = builtin_rust(b).starts_with("xs::");
        let r = &mut self.r;
        match builtin_rust(b) {
            "bool" => r.pick(&["true", "false"]).to_string(),
            "i64" => r.pick(&["0", "-1", "9223372036854775807", "-9223372036854775808", "42"]).to_string(),
            "i32" => r.pick(&["0", "-1", "2147483647", "-2147483648", "42"]).to_string(),
            "i16" => r.pick(&["0", "-1", "32767", "-32768", "42"]).to_string(),
            "i8" => r.pick(&["0", "-1", "127", "-128", "42"]).to_string(),
            "u64" => r.pick(&["0", "1", "18446744073709551615", "42"]).to_string(),
            "u32" => r.pick(&["0", "1", "4294967295", "42"]).to_string(),
            "u16" => r.pick(&["0", "1", "65535", "42"]).to_string(),
            "u8" => r.pick(&["0", "1", "255", "42"]).to_string(),
            "f64" => r.pick(&["0", "1.5", "-0.25", "100", "0.1", "123456789.125", "-7"]).to_string(),
            "xs::Integer" => r.pick(&["0", "-12345678901234567890123", "340282366920938463463374607431768211456", "7"]).to_string(),
            "xs::NonNegativeInteger" => r.pick(&["0", "340282366920938463463374607431768211456", "7"]).to_string(),
            "xs::PositiveInteger" => r.pick(&["1", "340282366920938463463374607431768211456", "7"]).to_string(),
            "xs::NonPositiveInteger" => r.pick(&["0", "-340282366920938463463374607431768211456", "-7"]).to_string(),
            "xs::NegativeInteger" => r.pick(&["-1", "-340282366920938463463374607431768211456", "-7"]).to_string(),
            "xs::Decimal" => r.pick(&["0", "-1.5", "12345678901234567890.123456789", "7"]).to_string(),
            "xs::Date" => r.pick(&["2020-02-29", "1999-12-31", "2000-01-01+02:00", "0999-10-10-11:30"]).to_string(),
            "xs::Time" => r.pick(&["23:59:59", "00:00:00", "12:30:00+02:00", "01:02:03.250", "01:02:03-05:30"]).to_string(),
            "xs::DateTime" => r.pick(&["2020-02-29T23:59:59+00:00", "1999-12-31T00:00:00+02:00", "2000-01-01T01:02:03.500+00:00"]).to_string(),
            "xs::DateTimeStamp" => r.pick(&["2020-02-29T23:59:59+05:30", "1999-12-31T00:00:00+02:00"]).to_string(),
            "xs::Duration" => r.pick(&["P1Y2M3DT4H5M6S", "PT36H", "-P30D", "PT1.5S", "P1M"]).to_string(),
            "xs::GDay" => r.pick(&["---01", "---31", "---15+02:00"]).to_string(),
            "xs::GMonth" => r.pick(&["--01", "--12", "--07-03:00"]).to_string(),
            "xs::GMonthDay" => r.pick(&["--02-29", "--12-31", "--01-01+14:00"]).to_string(),
            "xs::GYear" => r.pick(&["2020", "-0044", "1999+02:00"]).to_string(),
            "xs::GYearMonth" => r.pick(&["2020-02", "1999-12+02:00", "-0044-03"]).to_string(),
            _ => {
                let mut s = r
                    .pick(&["a", "abc", "x y", "é", "日本語", "1", "true", "a<b", "a&b", "\"q\"", "it's", "{}", "\\n", "a > b", "<a/>"])
                    .to_string();
                if attribute {
                    s = s.replace('<', "(");
                }
                s
            }
        }
    }
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

/// The document of a node; the prefix may differ from the one of the schema.
pub fn document(s: &Schema, n: &Node, prefix: &str, pretty: bool) -> String {
    let (uri, prefix) = match &s.tns {
        Tns::None => (None, ""),
        Tns::Prefixed(_, u) | Tns::Default(u) => (Some(u.clone()), prefix),
    };
    let mut out = String::new();
    let decl = match uri {
        None => String::new(),
        Some(u) if prefix.is_empty() => format!(" xmlns=\"{}\"", escape(&u)),
        Some(u) => format!(" xmlns:{prefix}=\"{}\"", escape(&u)),
    };
    node(n, prefix, &decl, pretty, 0, &mut out);
    out
}

fn node(n: &Node, prefix: &str, decl: &str, pretty: bool, level: usize, out: &mut String) {
    let tag = if prefix.is_empty() { n.name.clone() } else { format!("{prefix}:{}", n.name) };
    out.push_str(&format!("<{tag}{decl}"));
    for (k, v) in &n.attrs {
        out.push_str(&format!(" {k}=\"{}\"", escape(v)));
    }
    if n.kids.is_empty() && n.text.is_none() {
        out.push_str("/>");
        return;
    }
    out.push('>');
    if let Some(t) = &n.text {
        out.push_str(&escape(t));
    }
    for k in &n.kids {
        if pretty {
            out.push('\n');
            (0..=level).for_each(|_| out.push_str("  "));
        }
        node(k, prefix, "", pretty, level + 1, out);
    }
    if pretty && !n.kids.is_empty() {
        out.push('\n');
        (0..level).for_each(|_| out.push_str("  "));
    }
    out.push_str(&format!("</{tag}>"));
}

/// The same document, written in another way. Only the texts of `typed` nodes are split by comments
/// or sections of character data: the others are read by yaserde itself.
pub fn varied(s: &Schema, root: &Node, r: &mut Rng) -> String {
    let uri = match &s.tns {
        Tns::None => None,
        Tns::Prefixed(_, u) | Tns::Default(u) => Some(u.clone()),
    };
    let mut out = String::new();
    match r.below(4) {
        0 => out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"),
        1 => out.push_str("<?xml version='1.0' standalone='yes' ?>"),
        _ => (),
    }
    filler(r, &mut out);
    vary(root, uri.as_deref(), None, true, r, &mut out);
    filler(r, &mut out);
    out
}

fn filler(r: &mut Rng, out: &mut String) {
    while r.chance(35) {
        out.push_str(r.pick(&[" ", "\n", "\n\t", "\r\n  ", "<!-- -->", "<!-- <x> & y -->", "\u{a0}"]).trim_matches('\u{a0}'));
    }
}

fn refs(text: &str, r: &mut Rng, share: u32) -> String {
    text.chars()
        .map(|c| match c {
            _ if r.chance(share) => {
                if r.chance(50) {
                    format!("&#{};", c as u32)
                } else {
                    format!("&#x{:X};", c as u32)
                }
            }
            '&' => "&amp;".into(),
            '<' => "&lt;".into(),
            '>' => "&gt;".into(),
            '"' => "&quot;".into(),
            '\'' => "&apos;".into(),
            c => c.to_string(),
        })
        .collect()
}

fn vary(n: &Node, uri: Option<&str>, scope: Option<&str>, root: bool, r: &mut Rng, out: &mut String) {
    // Another prefix for the namespace from here on, or the one in the scope
    let mut items: Vec<String> = vec![];
    let prefix = match (uri, scope) {
        (None, _) => String::new(),
        (Some(_), Some(p)) if r.chance(80) => p.to_string(),
        (Some(u), _) => {
            let p = r.pick(&["", "a", "b-c", "ns0", "xs"]).to_string();
            let u = escape(u).replace('\'', "&apos;");
            items.push(if p.is_empty() { format!("xmlns=\"{u}\"") } else { format!("xmlns:{p}='{u}'") });
            p
        }
    };
    let tag = if prefix.is_empty() { n.name.clone() } else { format!("{prefix}:{}", n.name) };
    for (k, v) in &n.attrs {
        let q = if r.chance(50) { '"' } else { '\'' };
        let eq = r.pick(&["=", "=", " = ", "\n="]);
        let share = *r.pick(&[0, 0, 30]);
        items.push(format!("{k}{eq}{q}{}{q}", refs(v, r, share)));
    }
    if root && r.chance(40) {
        items.push("xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"".into());
        items.push("xsi:schemaLocation=\"urn:a a.xsd\"".into());
    }
    r.shuffle(&mut items);
    out.push('<');
    out.push_str(&tag);
    for i in items {
        out.push_str(r.pick(&[" ", " ", "\n", "  \t"]));
        out.push_str(&i);
    }
    out.push_str(r.pick(&["", "", " ", "\n"]));
    let empty = n.kids.is_empty() && n.text.as_deref().unwrap_or("").is_empty();
    if empty && r.chance(50) {
        out.push_str("/>");
        return;
    }
    out.push('>');
    if let Some(t) = &n.text {
        let mut rest = t.as_str();
        if n.typed && r.chance(60) {
            for _ in 0..r.below(3) {
                let Some((i, _)) = rest.char_indices().nth(1 + r.below(3)) else { break };
                let piece = &rest[..i];
                match r.below(3) {
                    0 => out.push_str(&format!("<![CDATA[{piece}]]>")),
                    1 => out.push_str(&format!("{}<!-- c -->", refs(piece, r, 0))),
                    _ => out.push_str(&format!("<!---->{}", refs(piece, r, 50))),
                }
                rest = &rest[i..];
            }
        }
        let share = *r.pick(&[0, 0, 30, 100]);
        out.push_str(&refs(rest, r, share));
    }
    if !n.kids.is_empty() {
        filler(r, out);
    }
    for k in &n.kids {
        vary(k, uri, Some(&prefix), false, r, out);
        filler(r, out);
    }
    out.push_str(&format!("</{tag}{}>", r.pick(&["", "", " ", "\n"])));
}

/// The same document with one wrong text, if it has one of a type which refuses some.
pub fn spoiled(root: &Node, r: &mut Rng) -> Option<(Node, String)> {
    fn count(n: &Node) -> usize {
        usize::from(n.typed && n.text.is_some()) + n.typed_attrs.len() + n.kids.iter().map(count).sum::<usize>()
    }
    fn spoil(n: &mut Node, at: &mut usize, wrong: &str) -> Option<String> {
        if n.typed && n.text.is_some() {
            if *at == 0 {
                n.text = Some(wrong.to_string());
                return Some(format!("the element {}", n.name));
            }
            *at -= 1;
        }
        for a in n.typed_attrs.clone() {
            if *at == 0 {
                for (k, v) in &mut n.attrs {
                    if *k == a {
                        *v = wrong.to_string();
                    }
                }
                return Some(format!("the attribute {a} of {}", n.name));
            }
            *at -= 1;
        }
        n.kids.iter_mut().find_map(|k| spoil(k, at, wrong))
    }
    let n = count(root);
    if n == 0 {
        return None;
    }
    let mut node = root.clone();
    let mut at = r.below(n);
    let wrong = *r.pick(&["abc", "-", "1-1-1x", "12:60:61", "P", "é", "x1", "+-1", "truefalse", "0x10", "1 2 x"]);
    let what = spoil(&mut node, &mut at, wrong)?;
    Some((node, format!("{what} is {wrong:?}")))
}

/// What is compared: names, attributes and texts; children are grouped by name.
pub fn canon(n: &Node, root: bool) -> String {
    let mut a = n.attrs.clone();
    a.sort();
    let mut kids: Vec<(String, String)> = n.kids.iter().map(|k| (k.name.clone(), canon(k, false))).collect();
    kids.sort_by(|x, y| x.0.cmp(&y.0));
    format!(
        "{}{:?}{{{}}}",
        if root { "" } else { &n.name },
        a,
        kids.iter().map(|k| k.1.as_str()).collect::<Vec<_>>().join(",")
    ) + &n.text.as_ref().filter(|t| !t.is_empty()).map(|t| format!("={t:?}")).unwrap_or_default()
}

/// The node of a document, by an independent parser. All elements must be in the namespace.
pub fn read(xml: &str, uri: Option<&str>) -> Result<Node, String> {
    let doc = roxmltree::Document::parse(xml).map_err(|e| format!("not well-formed: {e}"))?;
    fn go(n: roxmltree::Node, uri: Option<&str>) -> Result<Node, String> {
        if n.tag_name().namespace() != uri {
            return Err(format!("{:?} is in the namespace {:?}", n.tag_name().name(), n.tag_name().namespace()));
        }
        let mut attrs = vec![];
        for a in n.attributes() {
            if let Some(ns) = a.namespace() {
                return Err(format!("the attribute {} is in the namespace {ns}", a.name()));
            }
            attrs.push((a.name().to_string(), a.value().to_string()));
        }
        let mut kids = vec![];
        let mut text = String::new();
        for c in n.children() {
            if c.is_element() {
                kids.push(go(c, uri)?);
            } else if c.is_text() {
                text.push_str(c.text().unwrap_or(""));
            }
        }
        if !kids.is_empty() && text.trim().is_empty() {
            text.clear();
        }
        Ok(Node { attrs, kids, text: Some(text).filter(|t| !t.is_empty()), ..Node::new(n.tag_name().name()) })
    }
    go(doc.root_element(), uri)
}
