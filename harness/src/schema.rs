//! The syntax tree of the schemas which are generated as a workload, its random generator and
//! its rendering as XML. The tree is the specification the generated code is compared with.

use std::collections::BTreeSet;

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Tns {
    None,
    Prefixed(String, String),
    /// The target namespace is the default namespace
    Default(String),
}

#[derive(Clone, Debug)]
pub struct Schema {
    pub xsd: String,
    pub tns: Tns,
    /// Other namespaces that are only declared
    pub foreign: Vec<(String, String)>,
    pub tops: Vec<Top>,
    /// The order of the namespace declarations
    pub ns_order: u64,
}

#[derive(Clone, Debug)]
pub struct Top {
    pub name: String,
    pub doc: Option<String>,
    pub kind: TopKind,
}

#[derive(Clone, Debug)]
pub enum TopKind {
    Complex(Complex),
    Simple(Simple),
    ElementOf(Ty),
    ElementComplex(Complex),
    ElementSimple(Simple),
    ElementEmpty,
    AttributeOf(Ty),
    AttributeSimple(Simple),
    Group(AttrSet),
    Import { uri: String, location: String },
}

#[derive(Clone, Debug)]
pub enum Ty {
    Builtin(&'static str),
    Named(String),
    /// A name with a prefix of another namespace
    Foreign(String, String),
}

#[derive(Clone, Debug, Default)]
pub struct AttrSet {
    pub attrs: Vec<Attr>,
    pub groups: Vec<String>,
    pub any: bool,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub name: String,
    pub ty: AttrTy,
    pub usage: Option<&'static str>,
    pub doc: Option<String>,
}

#[derive(Clone, Debug)]
pub enum AttrTy {
    Of(Ty),
    /// No type at all
    Untyped,
    /// A reference to a global attribute, which has a simple type of its own
    Ref(String),
    ForeignRef(String, String),
}

#[derive(Clone, Debug)]
pub struct Complex {
    pub doc: Option<String>,
    pub derive: Option<Derive>,
    /// The simple type which a simpleContent extends
    pub text: Option<Ty>,
    pub content: Content,
    pub attrs: AttrSet,
}

#[derive(Clone, Debug)]
pub struct Derive {
    /// The name of a type of the schema, or one of another namespace with its prefix
    pub base: String,
    pub restriction: bool,
}

#[derive(Clone, Debug)]
pub enum Content {
    Empty,
    Sequence(Vec<Part>),
    All(Vec<Elem>),
    Choice(Vec<Elem>),
}

#[derive(Clone, Debug)]
pub enum Part {
    Elem(Elem),
    Choice(Vec<Elem>),
    Any { min: Option<u32>, max: Option<Max> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Max {
    N(u32),
    Unbounded,
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub name: String,
    pub ty: ElemTy,
    pub min: Option<u32>,
    pub max: Option<Max>,
    pub doc: Option<String>,
}

#[derive(Clone, Debug)]
pub enum ElemTy {
    Of(Ty),
    Ref(String),
    ForeignRef(String, String),
    Complex(Box<Complex>),
    Simple(Box<Simple>),
}

#[derive(Clone, Debug)]
pub struct Simple {
    pub doc: Option<String>,
    pub kind: SimpleKind,
}

#[derive(Clone, Debug)]
pub enum SimpleKind {
    Restriction { base: Ty, facets: Vec<(String, String)> },
    Enumeration { base: Ty, values: Vec<(String, Option<String>)> },
    List(Ty),
    /// A list of an anonymous restriction
    ListOf { base: Ty, facets: Vec<(String, String)> },
    Union { members: Vec<Ty>, anonymous: Vec<Simple> },
}

/// What is generated, in percents where not obvious.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub tops: usize,
    pub depth: usize,
    pub max_parts: usize,
    pub max_attrs: usize,
    pub docs: u32,
    pub anon: u32,
    pub anon_simple: u32,
    pub choice: u32,
    pub derive: u32,
    /// Of simpleContent
    pub text: u32,
    pub groups: u32,
    pub any: u32,
    pub refs: u32,
    pub foreign: u32,
    pub recursion: u32,
    pub unions: bool,
    pub union_anon: bool,
    pub lists: bool,
    pub enums: bool,
    pub facets: bool,
    pub builtins: &'static [&'static str],
    pub names: Names,
    /// The generated code has to compile
    pub compilable: bool,
    pub imports: bool,
    pub globals: bool,
    pub prohibited: bool,
    pub hostile_docs: bool,
    pub simple_tns: bool,
    pub restriction: bool,
    /// The percentage of parts with many items
    pub large: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Names {
    Tame,
    Styled,
    Hostile,
}

pub const BUILTINS: &[&str] = &[
    "hexBinary", "base64Binary", "boolean", "integer", "nonNegativeInteger", "positiveInteger",
    "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte", "unsignedLong",
    "unsignedInt", "unsignedShort", "unsignedByte", "decimal", "double", "float", "date", "time",
    "dateTime", "dateTimeStamp", "duration", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth",
    "string", "normalizedString", "token", "language", "Name", "NCName", "ENTITY", "ID", "IDREF",
    "NMTOKEN", "anyURI", "QName", "NOTATION", "anySimpleType", "ENTITIES", "IDREFS", "NMTOKENS",
];

pub const SCALAR_BUILTINS: &[&str] = &[
    "hexBinary", "base64Binary", "boolean", "integer", "nonNegativeInteger", "positiveInteger",
    "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte", "unsignedLong",
    "unsignedInt", "unsignedShort", "unsignedByte", "decimal", "double", "float", "date", "time",
    "dateTime", "dateTimeStamp", "duration", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth",
    "string", "normalizedString", "token", "language", "Name", "NCName", "ENTITY", "ID", "IDREF",
    "NMTOKEN", "anyURI", "QName", "anySimpleType",
];

/// The Rust type of a built-in type, per the documented mapping (xsd-parser/README or table of
/// the recommendation): numbers by width, calendar types by name, everything textual as String.
pub fn builtin_rust(name: &str) -> &'static str {
    match name {
        "boolean" => "bool",
        "integer" => "xs::Integer",
        "nonNegativeInteger" => "xs::NonNegativeInteger",
        "positiveInteger" => "xs::PositiveInteger",
        "nonPositiveInteger" => "xs::NonPositiveInteger",
        "negativeInteger" => "xs::NegativeInteger",
        "long" => "i64",
        "int" => "i32",
        "short" => "i16",
        "byte" => "i8",
        "unsignedLong" => "u64",
        "unsignedInt" => "u32",
        "unsignedShort" => "u16",
        "unsignedByte" => "u8",
        "decimal" => "xs::Decimal",
        "double" | "float" => "f64",
        "date" => "xs::Date",
        "time" => "xs::Time",
        "dateTime" => "xs::DateTime",
        "dateTimeStamp" => "xs::DateTimeStamp",
        "duration" => "xs::Duration",
        "gDay" => "xs::GDay",
        "gMonth" => "xs::GMonth",
        "gMonthDay" => "xs::GMonthDay",
        "gYear" => "xs::GYear",
        "gYearMonth" => "xs::GYearMonth",
        "ENTITIES" | "IDREFS" | "NMTOKENS" => "Vec<String>",
        _ => "String",
    }
}

pub fn norm(s: &str) -> String {
    s.chars()
        .filter(|c| c.is_ascii_alphanumeric())
        .map(|c| c.to_ascii_lowercase())
        .collect()
}

const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "item", "value", "data", "info", "config", "state", "code",
    "order", "line", "address", "city", "street", "token", "source", "target", "range", "level",
    "profile", "stream", "camera", "media", "event", "rule", "token2", "x", "y", "http", "uri",
    "url", "id", "name", "kind", "mode", "size", "width", "height", "color", "rate", "limit",
    "node", "tree", "leaf", "root", "field", "entry", "key", "record", "user", "group", "policy",
    "video", "audio", "network", "device", "sensor", "motion", "region", "point", "line3",
];

const KEYWORDS: &[&str] = &[
    "type", "match", "struct", "enum", "fn", "use", "mod", "self", "Self", "super", "crate",
    "move", "ref", "in", "for", "loop", "while", "where", "as", "const", "static", "dyn", "async",
    "await", "impl", "trait", "pub", "extern", "true", "false", "if", "else", "return", "let",
    "mut", "box", "final", "abstract", "virtual", "override", "yield", "typeof", "unsized",
    "macro", "become", "do", "priv", "try", "union", "auto", "raw", "break", "continue",
    "unsafe",
];

const HOSTILE: &[&str] = &[
    "_", "__", "_1", "_a", "a_", "a.b", "a-b-", "x--y", "x..y", "A", "Z9", "é", "größe", "日本",
    "naïve-name", "a·b", "Ünï.cödé", "Ωmega", "имя", "_self", "r", "b", "XMLHttpRequest", "a1b2c3",
    "IPv6Address", "ID_", "_-_", "t.1.2.3", "string", "int", "String", "Option", "Vec", "str",
    "u8", "i32", "Box", "Default", "Clone", "Result", "Ok", "Err", "Some", "None", "main", "std",
    "xs", "validate", "Validate", "core", "any", "base", "value", "from", "to-string", "new",
    "٣a", "١٢three", "૪four", "цена-x1", "𐐀bcd", "a٣b", "x‿y2", "ǅungla",
    "a-very-long-name-that-goes-on-and-on-and-on-for-more-than-eighty-characters-without-any-end",
];

pub struct NameGen {
    pub used: BTreeSet<String>,
    made: Vec<String>,
    /// Most of the names are a single letter.
    short: bool,
}

/// What distinguishes the names of a family from another.
const ENDS: &[&str] =
    &["Type", "Info", "List", "Item", "2", "Base", "Ex", "s", "Struct", "Element", "Choice", "Enum", "Ref", "_", "0"];
const STARTS: &[&str] = &["Abs", "The", "My", "Is", "Get", "x"];

impl NameGen {
    pub fn new() -> Self {
        NameGen { used: BTreeSet::new(), made: vec![], short: false }
    }

    /// A name which differs from all others of the scope, ignoring the case and punctuation.
    pub fn fresh(&mut self, r: &mut Rng, style: Names) -> String {
        for attempt in 0.. {
            let name = match self.made.is_empty() {
                false if attempt == 0 && r.chance(15) => {
                    // Mostly of the longest one, if there is a long one
                    let longest = self.made.iter().max_by_key(|n| n.len()).unwrap();
                    let old = if longest.len() > 60 && r.chance(30) { longest.clone() } else { r.pick(&self.made).clone() };
                    relative(r, &old)
                }
                _ if self.short && attempt < 3 && r.chance(60) => r.pick(LETTERS).to_string(),
                _ => random_name(r, style, attempt),
            };
            let n = norm(&name);
            if n.is_empty() && style != Names::Hostile {
                continue;
            }
            if self.used.insert(n) {
                self.made.push(name.clone());
                return name;
            }
        }
        unreachable!()
    }
}

/// A name which differs from the other one at one of its ends only.
fn relative(r: &mut Rng, name: &str) -> String {
    match r.below(12) {
        0..=2 if name.is_ascii() && name.len() > 2 => name[..name.len() - 1].to_string(),
        3 if name.len() < 80 => {
            // Much longer, so that its relatives differ far behind
            let mut long = name.to_string();
            while long.len() < 70 + r.below(200) {
                long.push_str(&capital(r.pick(WORDS)));
            }
            long
        }
        4..=6 => format!("{}{}", r.pick(STARTS), capital(name)),
        _ if r.chance(25) => format!("{name}{}{}", r.pick(&["_", "-", "."]), r.pick(ENDS).to_lowercase()),
        _ => format!("{name}{}", r.pick(ENDS)),
    }
}

/// All but the ones of the parameters in the derived code
const LETTERS: &[&str] = &["a", "b", "A", "B", "C", "e", "i", "n", "S", "T", "U", "v", "x", "Y", "z"];

/// Names of built-in types, but none of a type of the prelude of Rust
const LIKE_BUILTINS: &[&str] = &[
    "date", "time", "Date", "duration", "Duration", "decimal", "integer", "Integer", "language", "NCName",
    "anyURI", "dateTime", "DateTime", "gYear", "hexBinary", "int", "long", "boolean", "positiveInteger",
];

fn random_name(r: &mut Rng, style: Names, attempt: usize) -> String {
    match style {
        Names::Hostile if r.chance(35) => {
            let s = r.pick(HOSTILE).to_string();
            return if r.chance(20) { format!("{s}{}", r.pick(&["-", ".", "_", "1", "é", "X"])) } else { s };
        }
        Names::Hostile | Names::Styled if r.chance(15) => {
            let s = r.pick(KEYWORDS).to_string();
            return match r.below(4) {
                0 => capital(&s),
                1 => s.to_uppercase(),
                _ => s,
            };
        }
        _ => (),
    }
    if r.chance(3) && attempt < 5 {
        return r.pick(LETTERS).to_string();
    }
    if style != Names::Tame && r.chance(3) && attempt < 5 {
        return r.pick(LIKE_BUILTINS).to_string();
    }
    let n = 1 + r.below(3) + attempt / 20;
    let words: Vec<&str> = (0..n).map(|_| *r.pick(WORDS)).collect();
    let mut s = match if style == Names::Tame { r.below(2) } else { r.below(8) } {
        0 => words.iter().map(|w| capital(w)).collect::<String>(),
        1 => {
            let s = words.iter().map(|w| capital(w)).collect::<String>();
            let mut c = s.chars();
            let f = c.next().unwrap().to_ascii_lowercase();
            format!("{f}{}", c.as_str())
        }
        2 => words.join("_"),
        3 => words.join("-"),
        4 => words.join("."),
        5 => words.iter().map(|w| w.to_uppercase()).collect::<Vec<_>>().join("_"),
        6 => words.iter().map(|w| capital(w)).collect::<Vec<_>>().join("-"),
        _ => words.iter().map(|w| w.to_uppercase()).collect::<String>(),
    };
    if r.chance(20) {
        s.push_str(&r.below(100).to_string());
    }
    if attempt > 40 {
        s.push_str(&format!("N{}", r.below(100000)));
    }
    s
}

pub fn capital(w: &str) -> String {
    let mut c = w.chars();
    match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            tops: 8,
            depth: 3,
            max_parts: 6,
            max_attrs: 4,
            docs: 15,
            anon: 20,
            anon_simple: 15,
            choice: 15,
            derive: 25,
            text: 6,
            groups: 30,
            any: 10,
            refs: 10,
            foreign: 0,
            recursion: 5,
            unions: true,
            union_anon: false,
            lists: true,
            enums: true,
            facets: true,
            builtins: BUILTINS,
            names: Names::Styled,
            compilable: false,
            imports: true,
            globals: true,
            prohibited: true,
            hostile_docs: false,
            simple_tns: false,
            restriction: true,
            large: 2,
        }
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    k: &'a Knobs,
    globals: NameGen,
    /// Names declared so far, which the rest may refer to
    complex: Vec<String>,
    simple: Vec<String>,
    /// Simple types which are a valid list item, union member or restriction base
    atomic: Vec<String>,
    elements: Vec<String>,
    attributes: Vec<String>,
    groups: Vec<String>,
    foreign: Vec<(String, String)>,
    tops: Vec<Top>,
    union_anon_done: bool,
    /// The named complex type which is being generated
    current: Option<String>,
    /// The documentation so far
    said: Vec<String>,
}

pub fn generate(r: &mut Rng, k: &Knobs) -> Schema {
    loop {
        let s = generate_any(r, k);
        if !s.shadows() {
            return s;
        }
    }
}

fn generate_any(r: &mut Rng, k: &Knobs) -> Schema {
    let xsd = r.pick(&["xs", "xsd", "xs", "", "s", "XS", "x-s", "schema"]).to_string();
    let uri = r
        .pick(&[
            "urn:t",
            "http://example.com/ns",
            "http://www.example.org/2004/08/a-b/c",
            "urn:a:b:c",
            "http://example.com/",
            "http://example.com/ns/",
            "http://example.com/ns#",
            "http://example.com/ns.xsd?v=1.0",
            "HTTP://Example.COM/NS/Type",
            "urn:x:",
            "ns",
            "http://example.com/%7Ea/~b",
            "http://example.com:80//x",
            "http://www.w3.org/2001/XMLSchema-own",
            "urn:a\"b",
            "urn:a\\b\\",
            "urn:it's",
            "http://пример.рф/ns/типы",
            "urn:{}#\"#",
            "urn:a&b<c>",
        ])
        .to_string();
    // yaserde takes the text of the literal as it is written, and xml-rs writes it as it is
    let uri = if k.compilable { uri.replace(['"', '\\', '&', '<'], "-") } else { uri };
    let mut prefix = r.pick(&["t", "tns", "tt", "my", "T1"]).to_string();
    if r.chance(10) && !xsd.is_empty() {
        // Almost the prefix of XSD
        prefix = match r.below(5) {
            0 | 1 if xsd.to_uppercase() != xsd => xsd.to_uppercase(),
            0 | 1 => xsd.to_lowercase(),
            2 => format!("{xsd}1"),
            3 => format!("{xsd}-{xsd}"),
            _ => format!("a{xsd}"),
        };
    }
    let mut tns = match r.below(10) {
        0 if !k.simple_tns => Tns::None,
        1 | 2 if !k.simple_tns => Tns::Default(uri),
        _ => Tns::Prefixed(prefix, uri),
    };
    if xsd.is_empty() && !matches!(tns, Tns::Prefixed(..)) {
        tns = Tns::Prefixed("tns".into(), "urn:t".into());
    }
    let mut foreign = vec![];
    if k.foreign > 0 && r.chance(70) {
        let uri = *r.pick(&["urn:foreign", "urn:foreign", "urn:f\"\\", "urn:ф"]);
        foreign.push(("f".to_string(), uri.to_string()));
        if r.chance(30) {
            foreign.push(("other".to_string(), "http://other.example/x".to_string()));
        }
    }
    let mut g = Gen {
        globals: NameGen::new(),
        complex: vec![],
        simple: vec![],
        atomic: vec![],
        elements: vec![],
        attributes: vec![],
        groups: vec![],
        foreign: foreign.clone(),
        tops: vec![],
        union_anon_done: false,
        current: None,
        said: vec![],
        r,
        k,
    };
    g.globals.short = g.r.chance(6);
    g.run();
    let mut tops = std::mem::take(&mut g.tops);
    // The order of the declarations is irrelevant
    if g.r.chance(60) {
        g.r.shuffle(&mut tops);
    } else if g.r.chance(30) {
        tops.reverse();
    }
    Schema {
        xsd,
        tns,
        foreign,
        tops,
        ns_order: r.next(),
    }
}

impl Gen<'_> {
    fn name(&mut self) -> String {
        self.globals.fresh(self.r, self.k.names)
    }

    fn doc(&mut self) -> Option<String> {
        if !self.r.chance(self.k.docs) {
            return None;
        }
        // Declarations may have the same documentation.
        if !self.said.is_empty() && self.r.chance(20) {
            return Some(self.r.pick(&self.said).clone());
        }
        let doc = gen_doc(self.r, self.k.hostile_docs);
        self.said.push(doc.clone());
        Some(doc)
    }

    fn top(&mut self, name: String, kind: TopKind) {
        let doc = self.doc();
        self.tops.push(Top { name, doc, kind });
    }

    fn run(&mut self) {
        let n = self.k.tops.max(1);
        if self.k.imports && self.r.chance(25) {
            for (_, uri) in self.foreign.clone() {
                let location = self.r.pick(LOCATIONS).to_string();
                self.top(String::new(), TopKind::Import { uri, location });
            }
        }
        if self.k.imports && self.r.chance(8) {
            let location = self.r.pick(&LOCATIONS[1..]).to_string();
            self.top(String::new(), TopKind::Import { uri: String::new(), location });
        }
        for _ in 0..n {
            match self.r.below(20) {
                0..=4 => {
                    let name = self.name();
                    let s = self.simple_def(true);
                    let atomic = matches!(&s.kind, SimpleKind::Restriction { .. });
                    // A struct with a field of union type does not compile (a known limit).
                    let usable = !(self.k.compilable && matches!(&s.kind, SimpleKind::Union { .. }));
                    self.top(name.clone(), TopKind::Simple(s));
                    if atomic {
                        self.atomic.push(name.clone());
                    }
                    if usable {
                        self.simple.push(name);
                    }
                }
                5 | 6 if self.k.groups > 0 => {
                    let name = self.name();
                    let mut scope = NameGen::new();
                    let set = self.attr_set(&mut scope, self.k.max_attrs.max(1));
                    self.top(name.clone(), TopKind::Group(set));
                    self.groups.push(name);
                }
                7 if self.k.globals => {
                    let name = self.name();
                    if self.r.chance(50) {
                        let s = self.simple_restriction();
                        self.top(name.clone(), TopKind::AttributeSimple(s));
                        self.attributes.push(name);
                    } else {
                        let ty = self.simple_ty();
                        self.top(name, TopKind::AttributeOf(ty));
                    }
                }
                8 if self.k.globals => {
                    let name = self.name();
                    match self.r.below(4) {
                        0 => {
                            let ty = self.any_ty();
                            self.top(name, TopKind::ElementOf(ty));
                        }
                        1 => {
                            self.top(name.clone(), TopKind::ElementEmpty);
                            self.elements.push(name);
                        }
                        2 => {
                            let s = self.simple_restriction();
                            self.top(name.clone(), TopKind::ElementSimple(s));
                            self.elements.push(name);
                        }
                        _ => {
                            let c = self.complex_def(&name, 0);
                            self.top(name.clone(), TopKind::ElementComplex(c));
                            self.elements.push(name);
                        }
                    }
                }
                9 | 10 if self.k.globals => {
                    let name = self.name();
                    let c = self.complex_def(&name, 0);
                    self.top(name.clone(), TopKind::ElementComplex(c));
                    self.elements.push(name);
                }
                _ => {
                    let name = self.name();
                    self.current = Some(name.clone());
                    let c = self.complex_def(&name, 0);
                    self.current = None;
                    self.top(name.clone(), TopKind::Complex(c));
                    self.complex.push(name);
                }
            }
        }
    }

    /// One which is much larger than usual now and then
    fn many(&mut self, usual: usize, large: usize) -> usize {
        if self.r.chance(self.k.large) { large / 4 + self.r.below(large) } else { usual }
    }

    fn builtin(&mut self) -> Ty {
        Ty::Builtin(self.r.pick(self.k.builtins))
    }

    fn simple_ty(&mut self) -> Ty {
        if !self.simple.is_empty() && self.r.chance(35) {
            return Ty::Named(self.r.pick(&self.simple).clone());
        }
        self.builtin()
    }

    fn any_ty(&mut self) -> Ty {
        if let Some(f) = self.foreign_name() {
            return Ty::Foreign(f.0, f.1);
        }
        if !self.complex.is_empty() && self.r.chance(30) {
            return Ty::Named(self.r.pick(&self.complex).clone());
        }
        self.simple_ty()
    }

    fn foreign_name(&mut self) -> Option<(String, String)> {
        if self.foreign.is_empty() || !self.r.chance(self.k.foreign) {
            return None;
        }
        let p = self.r.pick(&self.foreign).0.clone();
        let n = random_name(self.r, Names::Tame, 0);
        Some((p, n))
    }

    /// A name of another namespace, which mostly is the one of a declaration of this schema too
    fn foreign_twin(&mut self, chance: u32) -> Option<String> {
        if self.foreign.is_empty() || !self.r.chance(chance.min(100)) || !self.r.chance(25) {
            return None;
        }
        let p = self.r.pick(&self.foreign).0.clone();
        let n = random_name(self.r, Names::Tame, 0);
        let twin = self.tops.iter().filter(|t| matches!(t.kind, TopKind::Complex(_) | TopKind::Group(_))).last();
        Some(format!("{p}:{}", if self.r.chance(70) { twin.map_or(n, |t| t.name.clone()) } else { n }))
    }

    fn simple_restriction(&mut self) -> Simple {
        let doc = self.doc();
        Simple { doc, kind: self.restriction() }
    }

    fn restriction(&mut self) -> SimpleKind {
        let base = if !self.k.compilable && !self.atomic.is_empty() && self.r.chance(20) {
            Ty::Named(self.r.pick(&self.atomic).clone())
        } else if self.k.compilable {
            Ty::Builtin(self.r.pick(SCALAR_BUILTINS))
        } else {
            Ty::Builtin(self.r.pick(SCALAR_BUILTINS))
        };
        let facets = if self.k.facets { self.facets(&base) } else { vec![] };
        SimpleKind::Restriction { base, facets }
    }

    fn facets(&mut self, base: &Ty) -> Vec<(String, String)> {
        let Ty::Builtin(b) = base else { return vec![] };
        let rust = builtin_rust(b);
        let mut v: Vec<(String, String)> = vec![];
        match rust {
            "String" => match self.r.below(5) {
                0 => v.push(("length".into(), self.r.below(20).to_string())),
                1 => {
                    v.push(("minLength".into(), self.r.below(5).to_string()));
                    v.push(("maxLength".into(), (5 + self.r.below(50)).to_string()));
                }
                2 => v.push(("maxLength".into(), self.r.below(64).to_string())),
                3 => v.push((
                    "pattern".into(),
                    self.r.pick(&["[a-z]+", "\\d{3}", ".*", "[^\"]*"]).to_string(),
                )),
                _ => (),
            },
            "i64" | "i32" | "i16" | "i8" | "u64" | "u32" | "u16" | "u8" | "f64"
            | "xs::Integer" | "xs::Decimal" => {
                let lo = self.r.below(50);
                match self.r.below(4) {
                    0 => {
                        v.push(("minInclusive".into(), lo.to_string()));
                        v.push(("maxInclusive".into(), (lo + self.r.below(70)).to_string()));
                    }
                    1 => v.push(("minExclusive".into(), lo.to_string())),
                    2 => v.push(("maxExclusive".into(), (lo + 1).to_string())),
                    _ => (),
                }
            }
            _ => (),
        }
        v
    }

    pub fn enumeration(&mut self) -> SimpleKind {
        let base = Ty::Builtin(self.r.pick(&["string", "token", "NMTOKEN", "string"]));
        let mut scope = NameGen::new();
        let n = 1 + self.r.below(6);
        let n = self.many(n, 60);
        let values = (0..n)
            .map(|_| {
                let v = loop {
                    let v = scope.fresh(self.r, self.k.names);
                    let v = match self.r.below(8) {
                        0 => {
                            let c = format!("{}{}", self.r.below(100), v);
                            if !scope.used.insert(norm(&c)) {
                                continue;
                            }
                            c
                        }
                        _ => v,
                    };
                    // Otherwise it would not be represented as an enumeration.
                    if v.chars().all(|c| c.is_alphanumeric() || c == '-') {
                        break v;
                    }
                };
                let doc = self.doc();
                (v, doc)
            })
            .collect();
        SimpleKind::Enumeration { base, values }
    }

    fn list(&mut self) -> SimpleKind {
        if self.r.chance(70) {
            let ty = if !self.atomic.is_empty() && self.r.chance(40) {
                Ty::Named(self.r.pick(&self.atomic).clone())
            } else {
                Ty::Builtin(self.r.pick(SCALAR_BUILTINS))
            };
            SimpleKind::List(ty)
        } else {
            let base = Ty::Builtin(self.r.pick(SCALAR_BUILTINS));
            let facets = if self.k.facets { self.facets(&base) } else { vec![] };
            SimpleKind::ListOf { base, facets }
        }
    }

    fn simple_def(&mut self, top: bool) -> Simple {
        let doc = self.doc();
        let kind = match self.r.below(10) {
            0 | 1 if self.k.enums => self.enumeration(),
            2 if self.k.lists => self.list(),
            3 if self.k.unions && top => {
                let mut scope = NameGen::new();
                let mut members = vec![];
                let n = 1 + self.r.below(3);
                for _ in 0..self.many(n, 40) {
                    let ty = if !self.atomic.is_empty() && self.r.chance(60) {
                        Ty::Named(self.r.pick(&self.atomic).clone())
                    } else {
                        Ty::Builtin(self.r.pick(SCALAR_BUILTINS))
                    };
                    let n = match &ty {
                        Ty::Named(n) => norm(n),
                        Ty::Builtin(n) => norm(n),
                        _ => String::new(),
                    };
                    if scope.used.insert(n) {
                        members.push(ty);
                    }
                }
                let mut anonymous = vec![];
                if self.k.union_anon && !self.union_anon_done && self.r.chance(50) {
                    self.union_anon_done = true;
                    for _ in 0..1 + self.r.below(2) {
                        let inner = match self.r.below(8) {
                            _ if self.k.compilable => self.simple_restriction(),
                            0 | 1 if self.k.lists => {
                                let base = Ty::Builtin(self.r.pick(SCALAR_BUILTINS));
                                Simple { doc: self.doc(), kind: SimpleKind::ListOf { base, facets: vec![] } }
                            }
                            2 if self.k.enums => Simple { doc: self.doc(), kind: self.enumeration() },
                            3 => {
                                let members = vec![Ty::Builtin("int"), Ty::Builtin(self.r.pick(&["time", "token", "duration"]))];
                                Simple { doc: self.doc(), kind: SimpleKind::Union { members, anonymous: vec![] } }
                            }
                            _ => self.simple_restriction(),
                        };
                        anonymous.push(inner);
                    }
                }
                SimpleKind::Union { members, anonymous }
            }
            _ => self.restriction(),
        };
        Simple { doc, kind }
    }

    fn attr_set(&mut self, scope: &mut NameGen, max: usize) -> AttrSet {
        let mut set = AttrSet::default();
        let n = self.r.below(max + 1);
        for _ in 0..self.many(n, 30) {
            let doc = self.doc();
            let usage = match self.r.below(8) {
                0 | 1 => None,
                2..=4 => Some("optional"),
                5 | 6 => Some("required"),
                _ if self.k.prohibited => Some("prohibited"),
                _ => None,
            };
            if self.r.chance(self.k.refs) {
                let mut name = self.foreign_name();
                if name.is_none() && self.k.foreign > 0 && self.r.chance(10) {
                    // The attributes of XML itself, whose prefix is never declared
                    name = Some(("xml".into(), self.r.pick(&["lang", "lang", "space", "base", "id"]).to_string()));
                }
                if let Some((p, n)) = name {
                    if scope.used.insert(norm(&n)) {
                        set.attrs.push(Attr { name: n.clone(), ty: AttrTy::ForeignRef(p, n), usage, doc });
                    }
                    continue;
                }
                if !self.attributes.is_empty() && !self.k.compilable {
                    let n = self.r.pick(&self.attributes).clone();
                    if scope.used.insert(norm(&n)) {
                        set.attrs.push(Attr { name: n.clone(), ty: AttrTy::Ref(n), usage, doc });
                    }
                    continue;
                }
            }
            let name = scope.fresh(self.r, self.k.names);
            let ty = if self.r.chance(8) {
                AttrTy::Untyped
            } else {
                AttrTy::Of(self.simple_ty())
            };
            set.attrs.push(Attr { name, ty, usage, doc });
        }
        if !self.groups.is_empty() && self.r.chance(self.k.groups) {
            let n = 1 + self.r.below(2);
            for _ in 0..self.many(n, 12) {
                let g = self.r.pick(&self.groups).clone();
                let names = self.group_names(&g);
                if !set.groups.contains(&g) && names.iter().all(|n| !scope.used.contains(n)) {
                    scope.used.extend(names);
                    set.groups.push(g);
                }
            }
            if let Some(g) = self.foreign_twin(20) {
                set.groups.push(g);
            }
        }
        set.any = self.r.chance(self.k.any / 2);
        set
    }

    fn group_names(&self, g: &str) -> Vec<String> {
        let mut v = vec![];
        for t in &self.tops {
            if let (true, TopKind::Group(set)) = (t.name == g, &t.kind) {
                v.extend(set.attrs.iter().map(|a| norm(&a.name)));
                for g in &set.groups {
                    v.extend(self.group_names(g));
                }
            }
        }
        v
    }

    fn complex_names(&self, name: &str) -> Vec<String> {
        let mut v = vec![];
        for t in &self.tops {
            if let (true, TopKind::Complex(c)) = (t.name == name, &t.kind) {
                v.extend(self.content_names(c));
                // The field of its choice
                v.push(format!("{}choice", norm(name)));
            }
        }
        v
    }

    fn content_names(&self, c: &Complex) -> Vec<String> {
        let mut v: Vec<String> = c.attrs.attrs.iter().map(|a| norm(&a.name)).collect();
        for g in &c.attrs.groups {
            v.extend(self.group_names(g));
        }
        match &c.content {
            Content::Empty => (),
            Content::All(e) | Content::Choice(e) => v.extend(e.iter().map(|e| norm(&e.name))),
            Content::Sequence(p) => {
                for p in p {
                    match p {
                        Part::Elem(e) => v.push(norm(&e.name)),
                        Part::Choice(e) => v.extend(e.iter().map(|e| norm(&e.name))),
                        Part::Any { .. } => (),
                    }
                }
            }
        }
        if let Some(d) = &c.derive {
            v.extend(self.complex_names(&d.base));
        }
        v
    }

    fn has_choice(&self, name: &str) -> bool {
        self.tops.iter().any(|t| match &t.kind {
            TopKind::Complex(c) if t.name == name => {
                has_own_choice(c) || c.derive.as_ref().map(|d| self.has_choice(&d.base)).unwrap_or(false)
            }
            _ => false,
        })
    }

    fn complex_def(&mut self, name: &str, depth: usize) -> Complex {
        let doc = if depth > 0 { self.doc() } else { None };
        let mut scope = NameGen::new();
        // An anonymous type is named after its element
        scope.used.insert(norm(name));
        scope.used.insert(format!("{}choice", norm(name)));
        let mut derive = None;
        let mut choice_allowed = true;
        if let Some(base) = self.foreign_twin(self.k.derive) {
            derive = Some(Derive { base, restriction: self.k.restriction && self.r.chance(20) });
        } else if !self.complex.is_empty() && self.r.chance(self.k.derive) {
            let base = self.r.pick(&self.complex).clone();
            let names = self.complex_names(&base);
            // The type of an element of the base would share its name with this one (a known limit).
            let clash = names.contains(&norm(name)) || names.contains(&format!("{}choice", norm(name)));
            scope.used.extend(names);
            choice_allowed = !self.has_choice(&base);
            // A deep nested type is not a base: its anonymous types live in the module of the base.
            if !(clash || self.k.compilable && self.has_anonymous(&base)) {
                derive = Some(Derive { base, restriction: self.k.restriction && self.r.chance(20) });
            } else {
                choice_allowed = true;
            }
        }
        // Attributes besides a text
        let mut text = None;
        let mut only_text = false;
        match &mut derive {
            None if self.r.chance(self.k.text) => {
                text = Some(if self.k.compilable { Ty::Builtin("string") } else { self.simple_ty() });
                only_text = true;
            }
            Some(d) if is_text(&self.tops, &d.base) => {
                d.restriction = false;
                only_text = true;
            }
            _ => (),
        }
        let mut content = match self.r.below(20) {
            _ if only_text => Content::Empty,
            0 | 1 => Content::Empty,
            2 | 3 => {
                let n = 1 + self.r.below(self.k.max_parts);
                let n = self.many(n, 40);
                Content::All((0..n).map(|_| self.elem(name, &mut scope, depth, true, false)).collect())
            }
            _ => {
                if choice_allowed && self.r.chance(self.k.choice) {
                    Content::Choice(self.cases(name, &mut scope, depth))
                } else {
                    let n = self.r.below(self.k.max_parts + 1);
                    let n = if depth == 0 { self.many(n, 40) } else { n };
                    let at = if choice_allowed && self.r.chance(self.k.choice) {
                        self.r.below(n + 1)
                    } else {
                        usize::MAX
                    };
                    let mut parts = vec![];
                    for i in 0..=n {
                        if i == at {
                            parts.push(Part::Choice(self.cases(name, &mut scope, depth)));
                        }
                        if i < n {
                            parts.push(Part::Elem(self.elem(name, &mut scope, depth, false, false)));
                        }
                    }
                    if self.r.chance(self.k.any) {
                        let min = self.r.either(50, Some(0), None);
                        let max = self.r.either(50, Some(Max::Unbounded), None);
                        parts.push(Part::Any { min, max });
                    }
                    Content::Sequence(parts)
                }
            }
        };
        if let Content::Sequence(p) = &content {
            if p.is_empty() && self.r.chance(50) {
                content = Content::Empty;
            }
        }
        let mut attrs = self.attr_set(&mut scope, self.k.max_attrs);
        // A restriction may take attributes of its base away.
        if let (Some(Derive { base, restriction: true }), true) = (&derive, self.k.prohibited) {
            for (name, ty) in self.base_attributes(base) {
                if self.r.chance(40) {
                    let at = self.r.below(attrs.attrs.len() + 1);
                    attrs.attrs.insert(at, Attr { name, ty, usage: Some("prohibited"), doc: None });
                }
            }
        }
        Complex { doc, derive, text, content, attrs }
    }

    /// The attributes of the type and its bases which a restriction may prohibit
    fn base_attributes(&self, name: &str) -> Vec<(String, AttrTy)> {
        let Some(c) = self.tops.iter().find_map(|t| match &t.kind {
            TopKind::Complex(c) if t.name == name => Some(c),
            _ => None,
        }) else {
            return vec![];
        };
        let own = c.attrs.attrs.iter().filter(|a| a.usage != Some("required") && !matches!(a.ty, AttrTy::ForeignRef(..)));
        let mut all: Vec<_> = own.map(|a| (a.name.clone(), a.ty.clone())).collect();
        if let Some(d) = &c.derive {
            for (n, t) in self.base_attributes(&d.base) {
                if all.iter().all(|(m, _)| *m != n) {
                    all.push((n, t));
                }
            }
        }
        all
    }

    fn has_anonymous(&self, name: &str) -> bool {
        self.tops.iter().any(|t| match &t.kind {
            TopKind::Complex(c) if t.name == name => {
                let own = match &c.content {
                    Content::All(e) => e.iter().any(is_anonymous),
                    Content::Sequence(p) => p.iter().any(|p| match p {
                        Part::Elem(e) => is_anonymous(e),
                        Part::Choice(_) => true,
                        _ => false,
                    }),
                    Content::Choice(_) => false,
                    Content::Empty => false,
                };
                own || c.derive.as_ref().map(|d| self.has_anonymous(&d.base)).unwrap_or(false)
                    || (c.derive.is_some() && has_own_choice(c))
            }
            _ => false,
        })
    }

    fn cases(&mut self, parent: &str, scope: &mut NameGen, depth: usize) -> Vec<Elem> {
        let n = 1 + self.r.below(4);
        let n = self.many(n, 30);
        (0..n).map(|_| self.elem(parent, scope, depth, false, true)).collect()
    }

    fn elem(&mut self, _parent: &str, scope: &mut NameGen, depth: usize, all: bool, case: bool) -> Elem {
        let doc = self.doc();
        let (min, max) = if case && self.k.compilable {
            (None, None)
        } else if all {
            (*self.r.pick(&[None, Some(0), Some(1)]), self.r.pick(&[None, Some(Max::N(1))]).clone())
        } else {
            gen_occurs(self.r)
        };
        if self.r.chance(self.k.refs) {
            if let Some((p, n)) = self.foreign_name() {
                if scope.used.insert(norm(&n)) {
                    return Elem { name: n.clone(), ty: ElemTy::ForeignRef(p, n), min, max, doc };
                }
            }
            if !self.elements.is_empty() {
                let n = self.r.pick(&self.elements).clone();
                if scope.used.insert(norm(&n)) {
                    return Elem { name: n.clone(), ty: ElemTy::Ref(n), min, max, doc };
                }
            }
        }
        let name = scope.fresh(self.r, self.k.names);
        if !case && self.r.chance(self.k.recursion) {
            if let Some(current) = self.current.clone() {
                return Elem { name, ty: ElemTy::Of(Ty::Named(current)), min: Some(0), max, doc };
            }
        }
        let ty = if !case && depth < self.k.depth && self.r.chance(self.k.anon) {
            // Its name must differ from all global ones, as anonymous types share scopes with them
            ElemTy::Complex(Box::new(self.complex_def(&name, depth + 1)))
        } else if !case && self.r.chance(self.k.anon_simple) {
            let s = if self.k.enums && self.r.chance(50) {
                let doc = self.doc();
                Simple { doc, kind: self.enumeration() }
            } else if self.k.lists && self.r.chance(20) {
                Simple { doc: self.doc(), kind: self.list() }
            } else {
                self.simple_restriction()
            };
            ElemTy::Simple(Box::new(s))
        } else {
            ElemTy::Of(self.any_ty())
        };
        Elem { name, ty, min, max, doc }
    }
}

fn is_anonymous(e: &Elem) -> bool {
    matches!(e.ty, ElemTy::Complex(_) | ElemTy::Simple(_))
}

pub fn has_own_choice(c: &Complex) -> bool {
    match &c.content {
        Content::Choice(_) => true,
        Content::Sequence(p) => p.iter().any(|p| matches!(p, Part::Choice(_))),
        _ => false,
    }
}

pub fn gen_occurs(r: &mut Rng) -> (Option<u32>, Option<Max>) {
    let min = match r.below(8) {
        0..=3 => None,
        4 => Some(1),
        5 | 6 => Some(0),
        _ => Some(2 + r.below(3) as u32),
    };
    let max = match r.below(8) {
        0..=3 => None,
        4 => Some(Max::N(1)),
        5 => Some(Max::Unbounded),
        6 => Some(Max::N(2 + r.below(9) as u32)),
        _ => Some(Max::N(1 + r.below(3) as u32)),
    };
    // minOccurs <= maxOccurs
    let lo = min.unwrap_or(1);
    let hi = match &max {
        None => 1,
        Some(Max::N(n)) => *n,
        Some(Max::Unbounded) => u32::MAX,
    };
    if lo > hi {
        return (min, Some(Max::Unbounded));
    }
    (min, max)
}

pub fn gen_doc(r: &mut Rng, hostile: bool) -> String {
    let mut s = String::new();
    // Sometimes a whole page, a paragraph or a table of many short lines
    let paragraphs = if r.chance(3) { 20 + r.below(150) } else { 1 + r.below(4) };
    for _ in 0..paragraphs {
        if r.chance(60) {
            s.push_str(r.pick(&["\n", "\n    ", "\n\t", "\n\n"]));
        }
        for _ in 0..r.below(25) {
            if hostile && r.chance(25) {
                s.push_str(r.pick(&[
                    "*/", "/*", "//", "///", "//!", "\"", "'", "\\", "\\n", "}", "{", "{}", "#[derive(X)]", "r#\"",
                    "\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\r", "é", "日本語", "\u{202e}", "\u{200b}", "\u{feff}", "`",
                    "<b>", "&amp;", "]]>", "pub struct Injected;", "mod x {", "\u{3000}", "fn main() {}", "%s", "\t\t",
                    "averyveryverylongwordwhichdoesnotfitintothelineofthecommentatalleightycharactersarenotenoughforit",
                ]));
            } else if r.chance(2) {
                // Longer than a line
                s.push_str(r.pick(&["http://www.example.org/", "https://x/?", "", "{", "Profile/"]));
                for _ in 0..10 + r.below(30) {
                    s.push_str(r.pick(WORDS));
                    s.push_str(r.pick(&["/", "", "-", "_", ".", "&", "%20"]));
                }
            } else if r.chance(12) {
                s.push_str(r.pick(&[
                    "use", "The", "a", "I", "see", "not", "if", "mod", "impl", "fn", "let", "TODO", "N/A", "e.g.", "i.e.", "1.",
                    "2)", "-", "*", "#", "0", "e", "NOTE:", "Deprecated", "@since", "$Id$", "=", "+1", "--", "?", "!",
                ]));
            } else {
                s.push_str(r.pick(WORDS));
            }
            s.push_str(r.pick(&[" ", " ", " ", ", ", ". ", "  "]));
            // A word which no other documentation has
            if r.chance(12) {
                s.push_str(&format!("mark{}kram ", r.next()));
            }
        }
    }
    s
}

// ---------------------------------------------------------------------------------------------

/// The text with markup, comments and instructions between its words.
pub fn marked_up(r: &mut Rng, doc: &str, esc: impl Fn(&str) -> String) -> String {
    let mut out = String::new();
    for (i, word) in doc.split(' ').enumerate() {
        let word = esc(word);
        let space = if i == 0 { "" } else { " " };
        match r.below(12) {
            0 if i > 0 => out.push_str(&format!("<br/>{word}")),
            1 => out.push_str(&format!("{space}<h:b xmlns:h=\"urn:html\">{word}</h:b>")),
            2 => out.push_str(&format!("{space}<ul><li>{word}</li></ul>")),
            3 if i > 0 => out.push_str(&format!("<!-- a comment --> {word}")),
            4 if i > 0 => out.push_str(&format!(" <?an instruction?>{word}")),
            5 if i > 0 && word.chars().all(|c| c.is_alphanumeric()) => out.push_str(&format!("<![CDATA[ {word}]]>")),
            _ => out.push_str(&format!("{space}{word}")),
        }
    }
    out
}

pub struct Render<'a> {
    r: Rng,
    s: &'a Schema,
    out: String,
    level: usize,
    noise: bool,
}

pub fn esc_attr(s: &str) -> String {
    s.replace('&', "&amp;")
        .replace('<', "&lt;")
        .replace('"', "&quot;")
        .replace('\n', "&#10;")
        .replace('\t', "&#9;")
        .replace('\r', "&#13;")
}

/// The attributes whose values are names, numbers and so on, which white space may surround.
const PADDED: [&str; 11] = [
    "name", "type", "ref", "base", "use", "minOccurs", "maxOccurs", "itemType", "memberTypes", "targetNamespace",
    "processContents",
];

fn padded(r: &mut Rng, value: &str) -> String {
    const SPACE: [&str; 6] = ["", " ", "  ", "\n", "\t", "\r\n "];
    if !r.chance(2) {
        return value.to_string();
    }
    format!("{}{value}{}", r.pick(&SPACE), r.pick(&SPACE))
}

/// White space around the values of the attributes with these names.
pub fn pad_attributes(r: &mut Rng, xml: &str, names: &[&str]) -> String {
    let mut out = String::new();
    let mut rest = xml;
    while let Some(i) = rest.find('<') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let skip = [("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>"), ("</", ">")]
            .iter()
            .find(|(start, _)| rest.starts_with(start))
            .map(|(start, end)| start.len() + rest[start.len()..].find(end).unwrap() + end.len());
        if let Some(n) = skip {
            out.push_str(&rest[..n]);
            rest = &rest[n..];
            continue;
        }
        // A start tag: its name and the quoted values
        loop {
            let n = rest.find(|c| "\"'>".contains(c)).unwrap();
            let quote = rest.as_bytes()[n] as char;
            out.push_str(&rest[..=n]);
            let before = &rest[..n];
            rest = &rest[n + 1..];
            if quote == '>' {
                break;
            }
            let end = rest.find(quote).unwrap();
            let name = before.trim_end_matches('=').rsplit(char::is_whitespace).next().unwrap();
            if names.contains(&name) {
                let text = padded(r, &rest[..end]);
                out.push_str(&text.replace('\n', "&#10;").replace('\t', "&#9;").replace('\r', "&#13;"));
            } else {
                out.push_str(&rest[..end]);
            }
            out.push(quote);
            rest = &rest[end + 1..];
        }
    }
    out.push_str(rest);
    out
}

fn esc_text(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('\r', "&#13;")
        .chars()
        .filter(|&c| c == '\n' || c == '\t' || c >= ' ')
        .collect()
}

/// Whether the complex type of the name has a simpleContent
pub fn is_text(tops: &[Top], name: &str) -> bool {
    tops.iter().any(|t| match &t.kind {
        TopKind::Complex(c) if t.name == name => {
            c.text.is_some() || c.derive.as_ref().map_or(false, |d| is_text(tops, &d.base))
        }
        _ => false,
    })
}

impl Schema {
    pub fn render(&self, noise_seed: Option<u64>) -> String {
        let mut r = Render {
            r: Rng::new(noise_seed.unwrap_or(0), "render"),
            s: self,
            out: String::new(),
            level: 0,
            noise: noise_seed.is_some(),
        };
        r.document();
        r.out
    }

    /// Only the schema element, to be embedded in another document.
    pub fn render_embedded(&self, noise_seed: Option<u64>, level: usize) -> String {
        let mut r = Render {
            r: Rng::new(noise_seed.unwrap_or(0), "render"),
            s: self,
            out: String::new(),
            level,
            noise: noise_seed.is_some(),
        };
        r.schema();
        r.out
    }

    /// Whether the name of an anonymous type is the one of a global declaration, which it would
    /// hide in its module (a known limit, which is probed separately).
    pub fn shadows(&self) -> bool {
        fn elem(e: &Elem, globals: &BTreeSet<String>) -> bool {
            let n = norm(&e.name);
            match &e.ty {
                ElemTy::Complex(c) => {
                    globals.contains(&format!("{n}type"))
                        || (has_own_choice(c) && (globals.contains(&n) || globals.contains(&format!("{n}choice"))))
                        || complex(c, globals)
                }
                ElemTy::Simple(s) => globals.contains(&format!("{n}type")) || items(s, &n, globals),
                _ => false,
            }
        }
        // The items of a list with facets are a type of its own.
        fn items(s: &Simple, name: &str, globals: &BTreeSet<String>) -> bool {
            matches!(s.kind, SimpleKind::ListOf { .. }) && globals.contains(&format!("{name}item"))
        }
        fn complex(c: &Complex, globals: &BTreeSet<String>) -> bool {
            match &c.content {
                Content::Empty => false,
                Content::All(e) | Content::Choice(e) => e.iter().any(|e| elem(e, globals)),
                Content::Sequence(p) => p.iter().any(|p| match p {
                    Part::Elem(e) => elem(e, globals),
                    Part::Choice(e) => e.iter().any(|e| elem(e, globals)),
                    _ => false,
                }),
            }
        }
        let globals: BTreeSet<String> = self.tops.iter().map(|t| norm(&t.name)).collect();
        self.tops.iter().any(|t| match &t.kind {
            TopKind::Complex(c) | TopKind::ElementComplex(c) => {
                complex(c, &globals) || (has_own_choice(c) && globals.contains(&format!("{}choice", norm(&t.name))))
            }
            TopKind::Simple(s) => items(s, &norm(&t.name), &globals),
            _ => false,
        })
    }

    pub fn qualify(&self, name: &str) -> String {
        match &self.tns {
            _ if name.contains(':') => name.to_string(),
            Tns::Prefixed(p, _) => format!("{p}:{name}"),
            _ => name.to_string(),
        }
    }

    pub fn ty(&self, ty: &Ty) -> String {
        match ty {
            Ty::Builtin(b) if self.xsd.is_empty() => b.to_string(),
            Ty::Builtin(b) => format!("{}:{b}", self.xsd),
            Ty::Named(n) => self.qualify(n),
            Ty::Foreign(p, n) => format!("{p}:{n}"),
        }
    }

    pub fn find(&self, name: &str) -> Option<&Top> {
        self.tops.iter().find(|t| t.name == name && !matches!(t.kind, TopKind::Import { .. }))
    }
}

const LOCATIONS: &[&str] = &[
    "",
    "other.xsd",
    "../a b.xsd",
    "http://x.y/z.xsd",
    "other.xsd\npub struct Injected;",
    "a.xsd\r\n}",
    "\\\"*/ mod x {",
    "\u{2028}x\u{85}y.xsd",
    "%D0%B0 а.xsd",
    "\n",
];

type Attrs = Vec<(String, String)>;

fn at(name: &str, value: impl Into<String>) -> (String, String) {
    (name.to_string(), value.into())
}

impl Render<'_> {
    fn tag(&self, name: &str) -> String {
        if self.s.xsd.is_empty() {
            name.to_string()
        } else {
            format!("{}:{name}", self.s.xsd)
        }
    }

    fn pad(&mut self) {
        if self.noise && self.r.chance(4) {
            let c = *self.r.pick(&["<!-- a comment -->", "<?pi some data?>", "<!---->", "<!-- <xs:element name=\"no\"/> -->"]);
            self.out.push_str(c);
        }
        if !self.noise || !self.r.chance(5) {
            self.out.push('\n');
            for _ in 0..self.level {
                self.out.push_str("  ");
            }
        }
    }

    fn start(&mut self, name: &str, attrs: &Attrs, empty: bool) {
        let mut attrs = attrs.clone();
        if self.noise && self.r.chance(30) {
            self.r.shuffle(&mut attrs);
        }
        if self.noise && self.r.chance(3) {
            let id = format!("id{}", self.r.below(1_000_000));
            attrs.push(at("id", id));
        }
        self.pad();
        self.out.push('<');
        self.out.push_str(&self.tag(name));
        for (k, v) in attrs {
            let v = if self.noise && PADDED.contains(&k.as_str()) { padded(&mut self.r, &v) } else { v };
            let single = self.noise && self.r.chance(20) && !v.contains('\'');
            let sep = if self.noise && self.r.chance(5) { "\n   " } else { " " };
            let v = esc_attr(&v);
            if single {
                self.out.push_str(&format!("{sep}{k}='{v}'"));
            } else {
                self.out.push_str(&format!("{sep}{k}=\"{v}\""));
            }
        }
        if empty {
            const PLAIN: [&str; 4] = ["annotation", "appinfo", "selector", "field"];
            if self.noise && !PLAIN.contains(&name) && self.r.chance(3) {
                self.out.push('>');
                self.level += 1;
                self.annotation(&None);
                self.end(name);
            } else if self.noise && self.r.chance(20) {
                self.out.push_str(&format!("></{}>", self.tag(name)));
            } else {
                self.out.push_str("/>");
            }
        } else {
            self.out.push('>');
            self.level += 1;
        }
    }

    fn end(&mut self, name: &str) {
        self.level -= 1;
        self.pad();
        self.out.push_str(&format!("</{}>", self.tag(name)));
    }

    /// Something that says nothing about the type may be anywhere.
    fn aside(&mut self) {
        if !self.noise || !self.r.chance(4) {
            return;
        }
        let source = if self.r.chance(30) { vec![at("source", "urn:tool")] } else { vec![] };
        match self.r.below(3) {
            0 => self.start("annotation", &vec![], true),
            1 => {
                self.start("annotation", &vec![], false);
                self.start("appinfo", &source, true);
                self.end("annotation");
            }
            _ => {
                self.start("annotation", &vec![], false);
                self.start("appinfo", &source, false);
                self.out.push_str("<a:element xmlns:a=\"urn:app\" name=\"no\"><a:documentation>none</a:documentation></a:element>");
                self.end("appinfo");
                self.end("annotation");
            }
        }
    }

    /// The constraints of an element don't change its type.
    fn constraints(&mut self) {
        while self.noise && self.r.chance(3) {
            let kind = *self.r.pick(&["unique", "key", "keyref"]);
            let mut attrs = vec![at("name", format!("constraint{}", self.r.below(1_000_000)))];
            if kind == "keyref" {
                attrs.push(at("refer", "constraint"));
            }
            self.start(kind, &attrs, false);
            self.aside();
            self.start("selector", &vec![at("xpath", ".//item")], true);
            self.start("field", &vec![at("xpath", "@id")], true);
            self.end(kind);
        }
    }

    fn annotation(&mut self, doc: &Option<String>) {
        let Some(doc) = doc else {
            return self.aside();
        };
        self.start("annotation", &vec![], false);
        if self.noise && self.r.chance(10) {
            self.start("appinfo", &vec![], false);
            self.out.push_str("some <x xmlns=\"urn:app\"/> info");
            self.end("appinfo");
        }
        // Several parts have the text of a single one in several lines.
        let mut parts = vec![doc.as_str()];
        while self.noise && self.r.chance(15) {
            let last = parts.len() - 1;
            match parts[last].split_once('\n') {
                Some((before, after)) => {
                    parts[last] = before;
                    parts.push(after);
                }
                None => break,
            }
        }
        for part in parts {
            let lang = if self.noise && self.r.chance(10) {
                vec![at("xml:lang", *self.r.pick(&["en", "en", "en-GB", "de", "ja", "EN"]))]
            } else {
                vec![]
            };
            self.start("documentation", &lang, false);
            if self.noise && self.r.chance(20) && !part.contains("]]>") && !part.contains('\r') {
                let d: String = part.chars().filter(|&c| c == '\n' || c == '\t' || c >= ' ').collect();
                self.out.push_str(&format!("<![CDATA[{d}]]>"));
            } else if self.noise && self.r.chance(25) {
                let text = marked_up(&mut self.r, part, esc_text);
                self.out.push_str(&text);
            } else {
                self.out.push_str(&esc_text(part));
            }
            self.level -= 1;
            self.out.push_str(&format!("</{}>", self.tag("documentation")));
        }
        self.end("annotation");
    }

    fn document(&mut self) {
        if self.noise {
            if self.r.chance(50) {
                self.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
            }
            if self.r.chance(20) {
                self.out.push_str("<!-- the first comment -->\n<?xml-stylesheet href=\"a.xsl\"?>");
            }
        }
        self.schema();
        if self.noise && self.r.chance(20) {
            self.out.push_str("\n<!-- the last comment -->\n");
        }
    }

    fn schema(&mut self) {
        let s = self.s;
        let mut attrs: Attrs = vec![];
        let xsd = "http://www.w3.org/2001/XMLSchema";
        attrs.push(if s.xsd.is_empty() { at("xmlns", xsd) } else { at(&format!("xmlns:{}", s.xsd), xsd) });
        match &s.tns {
            Tns::None => (),
            Tns::Prefixed(p, u) => attrs.push(at(&format!("xmlns:{p}"), u)),
            Tns::Default(u) => attrs.push(at("xmlns", u)),
        }
        for (p, u) in &s.foreign {
            attrs.push(at(&format!("xmlns:{p}"), u));
        }
        Rng::new(s.ns_order, "ns").shuffle(&mut attrs);
        if let Tns::Prefixed(_, u) | Tns::Default(u) = &s.tns {
            attrs.push(at("targetNamespace", u));
        }
        if s.ns_order % 3 == 0 {
            attrs.push(at("elementFormDefault", "qualified"));
        }
        if s.ns_order % 5 == 0 {
            attrs.push(at("version", "1.0"));
        }
        self.start("schema", &attrs, false);
        if s.ns_order % 7 == 0 {
            self.annotation(&Some("The documentation of the schema".into()));
        }
        for t in &s.tops {
            self.aside();
            self.top(t);
        }
        self.aside();
        self.end("schema");
    }

    fn top(&mut self, t: &Top) {
        let name = at("name", &t.name);
        match &t.kind {
            TopKind::Import { uri, location } => {
                let mut a = vec![];
                if !uri.is_empty() {
                    a.push(at("namespace", uri));
                }
                if !location.is_empty() {
                    a.push(at("schemaLocation", location));
                }
                self.start(if uri.is_empty() { "include" } else { "import" }, &a, true);
            }
            TopKind::Complex(c) => {
                let mut c = c.clone();
                c.doc = t.doc.clone();
                self.complex(vec![name], &c);
            }
            TopKind::Simple(s) => {
                let mut s = s.clone();
                s.doc = t.doc.clone();
                self.simple(vec![name], &s);
            }
            TopKind::ElementOf(ty) => {
                let a = vec![name, at("type", self.s.ty(ty))];
                self.element_like("element", a, &t.doc, |_| (), true);
            }
            TopKind::AttributeOf(ty) => {
                let a = vec![name, at("type", self.s.ty(ty))];
                self.element_like("attribute", a, &t.doc, |_| (), true);
            }
            TopKind::ElementEmpty => self.element_like("element", vec![name], &t.doc, |_| (), true),
            TopKind::ElementComplex(c) => {
                let c = c.clone();
                self.element_like("element", vec![name], &t.doc, move |r| r.complex(vec![], &c), false)
            }
            TopKind::ElementSimple(s) => {
                let s = s.clone();
                self.element_like("element", vec![name], &t.doc, move |r| r.simple(vec![], &s), false)
            }
            TopKind::AttributeSimple(s) => {
                let s = s.clone();
                self.element_like("attribute", vec![name], &t.doc, move |r| r.simple(vec![], &s), false)
            }
            TopKind::Group(set) => {
                self.start("attributeGroup", &vec![name], false);
                self.annotation(&t.doc);
                self.attrs(set);
                self.end("attributeGroup");
            }
        }
    }

    fn element_like(
        &mut self,
        tag: &str,
        attrs: Attrs,
        doc: &Option<String>,
        inner: impl FnOnce(&mut Self),
        empty: bool,
    ) {
        let mut attrs = attrs;
        let named = attrs.iter().any(|(k, _)| k == "name");
        if named && self.noise && self.r.chance(4) && tag != "enumeration" {
            let local = self.level > 1;
            attrs.push(match (tag, local) {
                (_, true) if self.r.chance(50) => at("form", "qualified"),
                ("element", _) => at("block", "#all"),
                _ if attrs.iter().any(|(k, v)| k == "use" && v.trim() != "optional") => at("fixed", "0"),
                _ => at(if self.r.chance(50) { "default" } else { "fixed" }, "0"),
            });
        }
        // What neither adds nor removes anything
        if named && self.noise && tag == "element" && self.r.chance(6) {
            let global = self.level <= 1;
            attrs.push(match self.r.below(6) {
                0..=2 => at("nillable", if self.r.chance(70) { "true" } else { "false" }),
                3 if global => at("abstract", if self.r.chance(70) { "true" } else { "0" }),
                4 if global => at("final", "extension"),
                _ => at("fixed", "1"),
            });
        }
        if empty && doc.is_none() && (tag != "element" || !self.noise || !self.r.chance(3)) {
            self.start(tag, &attrs, true);
            return;
        }
        self.start(tag, &attrs, false);
        self.annotation(doc);
        inner(self);
        if tag == "element" {
            self.constraints();
        }
        self.end(tag);
    }

    fn facets(&mut self, facets: &[(String, String)]) {
        for (k, v) in facets {
            self.start(k, &vec![at("value", v)], true);
        }
    }

    fn simple(&mut self, attrs: Attrs, s: &Simple) {
        self.start("simpleType", &attrs, false);
        self.annotation(&s.doc);
        match &s.kind {
            SimpleKind::Restriction { base, facets } => {
                let a = vec![at("base", self.s.ty(base))];
                self.start("restriction", &a, facets.is_empty());
                if !facets.is_empty() {
                    self.aside();
                    self.facets(facets);
                    self.end("restriction");
                }
            }
            SimpleKind::Enumeration { base, values } => {
                let a = vec![at("base", self.s.ty(base))];
                self.start("restriction", &a, false);
                self.aside();
                for (v, doc) in values {
                    let a = vec![at("value", v)];
                    self.element_like("enumeration", a, doc, |_| (), true);
                }
                // A further facet, which all of the values satisfy
                if self.noise && self.r.chance(8) {
                    let a = vec![at("value", "[\\s\\S]*")];
                    self.element_like("pattern", a, &None, |_| (), true);
                }
                self.end("restriction");
            }
            SimpleKind::List(ty) => {
                let a = vec![at("itemType", self.s.ty(ty))];
                self.start("list", &a, true);
            }
            SimpleKind::ListOf { base, facets } => {
                self.start("list", &vec![], false);
                self.aside();
                let inner = Simple {
                    doc: None,
                    kind: SimpleKind::Restriction { base: base.clone(), facets: facets.clone() },
                };
                self.simple(vec![], &inner);
                self.end("list");
            }
            SimpleKind::Union { members, anonymous } => {
                let mut a = vec![];
                if !members.is_empty() {
                    let m: Vec<String> = members.iter().map(|m| self.s.ty(m)).collect();
                    a.push(at("memberTypes", m.join(" ")));
                }
                self.start("union", &a, anonymous.is_empty());
                if !anonymous.is_empty() {
                    self.aside();
                    for s in anonymous {
                        self.simple(vec![], s);
                    }
                    self.end("union");
                }
            }
        }
        self.end("simpleType");
    }

    fn group(&mut self, name: &str) {
        let a = vec![at("ref", self.s.qualify(name))];
        self.start("attributeGroup", &a, true);
    }

    fn attrs(&mut self, set: &AttrSet) {
        // Groups and attributes may be in any order.
        let mut early = 0;
        for a in &set.attrs {
            while self.noise && early < set.groups.len() && self.r.chance(20) {
                self.group(&set.groups[early]);
                early += 1;
            }
            let mut v = vec![];
            match &a.ty {
                AttrTy::Of(ty) => {
                    v.push(at("name", &a.name));
                    v.push(at("type", self.s.ty(ty)));
                }
                AttrTy::Untyped => v.push(at("name", &a.name)),
                AttrTy::Ref(n) => v.push(at("ref", self.s.qualify(n))),
                AttrTy::ForeignRef(p, n) => v.push(at("ref", format!("{p}:{n}"))),
            }
            if let Some(u) = a.usage {
                v.push(at("use", u));
            }
            self.element_like("attribute", v, &a.doc, |_| (), true);
        }
        for g in &set.groups[early..] {
            self.group(g);
        }
        if set.any {
            self.start("anyAttribute", &vec![at("processContents", "lax")], true);
        }
    }

    fn complex(&mut self, mut attrs: Attrs, c: &Complex) {
        if self.noise && self.r.chance(8) {
            let global = !attrs.is_empty();
            attrs.push(match self.r.below(5) {
                0 | 1 if global => at("abstract", if self.r.chance(80) { "true" } else { "false" }),
                2 if global => at("final", "#all"),
                3 if global => at("block", "restriction"),
                _ => at("mixed", if self.r.chance(50) { "true" } else { "false" }),
            });
        }
        self.start("complexType", &attrs, false);
        self.annotation(&c.doc);
        let base = c.derive.as_ref().map(|d| self.s.qualify(&d.base)).or(c.text.as_ref().map(|t| self.s.ty(t)));
        if let Some(base) = base {
            let restriction = c.derive.as_ref().map_or(false, |d| d.restriction);
            let tag = if restriction { "restriction" } else { "extension" };
            let text = c.text.is_some() || c.derive.as_ref().map_or(false, |d| is_text(&self.s.tops, &d.base));
            let kind = if text { "simpleContent" } else { "complexContent" };
            self.start(kind, &vec![], false);
            self.aside();
            let a = vec![at("base", base)];
            self.start(tag, &a, false);
            self.aside();
            self.content(&c.content);
            self.attrs(&c.attrs);
            self.end(tag);
            self.end(kind);
        } else {
            self.content(&c.content);
            self.attrs(&c.attrs);
        }
        self.end("complexType");
    }

    fn content(&mut self, c: &Content) {
        match c {
            Content::Empty => (),
            Content::Sequence(parts) => {
                self.start("sequence", &vec![], parts.is_empty());
                if parts.is_empty() {
                    return;
                }
                self.aside();
                for p in parts {
                    match p {
                        Part::Elem(e) => self.elem(e),
                        Part::Choice(cases) => {
                            self.start("choice", &vec![], false);
                            self.aside();
                            cases.iter().for_each(|e| self.elem(e));
                            self.end("choice");
                        }
                        Part::Any { min, max } => {
                            let mut a = occurs(min, max);
                            a.push(at("namespace", "##any"));
                            self.start("any", &a, true);
                        }
                    }
                }
                self.end("sequence");
            }
            Content::All(e) => {
                self.start("all", &vec![], false);
                self.aside();
                e.iter().for_each(|e| self.elem(e));
                self.end("all");
            }
            Content::Choice(e) => {
                self.start("choice", &vec![], false);
                self.aside();
                e.iter().for_each(|e| self.elem(e));
                self.end("choice");
            }
        }
    }

    fn elem(&mut self, e: &Elem) {
        let mut a = vec![];
        match &e.ty {
            ElemTy::Of(ty) => {
                a.push(at("name", &e.name));
                a.push(at("type", self.s.ty(ty)));
            }
            ElemTy::Ref(n) => a.push(at("ref", self.s.qualify(n))),
            ElemTy::ForeignRef(p, n) => a.push(at("ref", format!("{p}:{n}"))),
            _ => a.push(at("name", &e.name)),
        }
        a.extend(occurs(&e.min, &e.max));
        match &e.ty {
            ElemTy::Complex(c) => self.element_like("element", a, &e.doc, |r| r.complex(vec![], c), false),
            ElemTy::Simple(s) => self.element_like("element", a, &e.doc, |r| r.simple(vec![], s), false),
            _ => self.element_like("element", a, &e.doc, |_| (), true),
        }
    }
}

/// One of the texts of the number; which one is up to the number, as nothing else is known here
fn number(n: u32) -> String {
    match n % 16 {
        3 | 7 => format!("0{n}"),
        9 => format!("+{n}"),
        _ => n.to_string(),
    }
}

fn occurs(min: &Option<u32>, max: &Option<Max>) -> Attrs {
    let mut a = vec![];
    if let Some(m) = min {
        a.push(at("minOccurs", number(*m)));
    }
    match max {
        None => (),
        Some(Max::N(n)) => a.push(at("maxOccurs", number(*n))),
        Some(Max::Unbounded) => a.push(at("maxOccurs", "unbounded")),
    }
    a
}
