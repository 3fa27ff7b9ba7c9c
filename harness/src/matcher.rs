//! Compares the generated code with the schema it was generated from.

use std::collections::{BTreeMap, BTreeSet};

use crate::{
    model::{self, It, ItKind, Located, Module, Yaserde},
    schema::*,
};

/// The aspect a difference belongs to. Every property judges the aspects it is about.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Class {
    /// The code is not valid Rust
    Syntax,
    /// A declaration, a field or a variant is missing, superfluous or duplicated
    Items,
    /// The XML name, namespace or role of a field differs
    Xml,
    /// Plain, Option or Vec
    Card,
    /// Another type than the one of the built-in type
    Builtin,
    /// A reference to a declared type does not resolve to it
    Reference,
    /// An anonymous type is not the one which was written in place
    Anonymous,
    /// Inherited elements, attributes or attribute groups
    Inherited,
    Enumeration,
}

#[derive(Debug, Clone)]
pub struct Diff {
    pub class: Class,
    pub text: String,
}

#[derive(Debug, Clone)]
enum Role {
    Element,
    Attribute,
    Choice(Vec<Elem>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Card {
    /// No field at all, not even that of the base
    Absent,
    Plain,
    Option,
    Vec,
    /// Recursive: anything with an indirection
    Indirect,
}

#[derive(Debug, Clone)]
enum Want {
    Of(Ty),
    Text,
    Complex(Box<Complex>, String),
    Simple(Box<Simple>),
    None,
}

#[derive(Debug, Clone)]
struct WantField {
    role: Role,
    name: String,
    prefix: Option<String>,
    card: Card,
    want: Want,
    inherited: bool,
    /// The named type which declares the inherited field
    owner: String,
}

pub struct Matcher<'a> {
    s: &'a Schema,
    root: &'a Module,
    pub diffs: Vec<Diff>,
    matched: BTreeSet<String>,
    pub fields_seen: u64,
    pub items_seen: u64,
    pub resolved: u64,
    depth: usize,
    /// The named types around the current one
    owners: Vec<String>,
}

pub fn elem_card(e: &Elem, case: bool) -> &'static str {
    let _ = case;
    let min = e.min.unwrap_or(1);
    let many = match &e.max {
        None => false,
        Some(Max::N(n)) => *n > 1,
        Some(Max::Unbounded) => true,
    };
    if many || min > 1 {
        "Vec"
    } else if min == 0 {
        "Option"
    } else {
        ""
    }
}

fn card(e: &Elem) -> Card {
    match elem_card(e, false) {
        "Vec" => Card::Vec,
        "Option" => Card::Option,
        _ => Card::Plain,
    }
}

impl<'a> Matcher<'a> {
    pub fn new(s: &'a Schema, root: &'a Module) -> Self {
        Matcher {
            s,
            root,
            diffs: vec![],
            matched: BTreeSet::new(),
            fields_seen: 0,
            items_seen: 0,
            resolved: 0,
            depth: 0,
            owners: vec![],
        }
    }

    fn diff(&mut self, class: Class, text: String) {
        if self.diffs.len() < 40 {
            self.diffs.push(Diff { class, text });
        }
    }

    fn tns_prefix(&self) -> Option<String> {
        match &self.s.tns {
            Tns::Prefixed(p, _) => Some(p.clone()),
            _ => None,
        }
    }

    /// The declaration with a global name.
    fn global(&self, name: &str) -> Result<Located<'a>, String> {
        let n = norm(name);
        let found: Vec<&It> = self.root.items.iter().filter(|i| norm(&i.name) == n).collect();
        match found.len() {
            1 => Ok(Located { scope: vec![self.root], item: found[0] }),
            k => Err(format!("{k} declarations for the name {name:?}")),
        }
    }

    pub fn run(&mut self) {
        for t in &self.s.tops {
            self.top(t);
        }
        // Nothing else is declared.
        let names: Vec<String> = self.root.items.iter().map(|i| i.name.clone()).collect();
        for n in &names {
            if !self.matched.contains(n) {
                self.diff(Class::Items, format!("{n} is declared but nothing in the schema asks for it"));
            }
        }
        let mut seen = BTreeSet::new();
        for n in &names {
            if !seen.insert(n) {
                self.diff(Class::Items, format!("{n} is declared more than once"));
            }
        }
        self.modules(self.root);
    }

    fn modules(&mut self, m: &Module) {
        for d in &m.duplicate_mods {
            self.diff(Class::Anonymous, format!("the module {d} is declared more than once"));
        }
        let mut seen = BTreeSet::new();
        for i in &m.items {
            if !seen.insert(&i.name) && !m.name.is_empty() {
                self.diff(Class::Anonymous, format!("{}::{} is declared more than once", m.name, i.name));
            }
            if !i.public {
                self.diff(Class::Items, format!("{} is not public", i.name));
            }
            if let ItKind::Struct(f) = &i.kind {
                let mut names = BTreeSet::new();
                for f in f {
                    if !names.insert(&f.name) {
                        self.diff(Class::Items, format!("{}.{} is declared more than once", i.name, f.name));
                    }
                    if !f.public {
                        self.diff(Class::Items, format!("{}.{} is not public", i.name, f.name));
                    }
                }
            }
            let validates = m.impls.iter().filter(|(t, s)| t == "Validate" && s == &i.name).count();
            if validates != 1 {
                self.diff(
                    Class::Items,
                    format!("{} has {validates} implementations of the validation", i.name),
                );
            }
        }
        for sub in m.mods.values() {
            self.modules(sub);
        }
    }

    fn top(&mut self, t: &Top) {
        let name = &t.name;
        let needs_item = match &t.kind {
            TopKind::Complex(_)
            | TopKind::Simple(_)
            | TopKind::ElementComplex(_)
            | TopKind::ElementSimple(_)
            | TopKind::ElementEmpty
            | TopKind::AttributeSimple(_) => true,
            // These are only used by other declarations.
            TopKind::ElementOf(_)
            | TopKind::AttributeOf(_)
            | TopKind::Group(_)
            | TopKind::Import { .. } => false,
        };
        if !needs_item {
            return;
        }
        let located = match self.global(name) {
            Ok(l) => l,
            Err(e) => {
                self.diff(Class::Items, e);
                return;
            }
        };
        self.items_seen += 1;
        self.matched.insert(located.item.name.clone());
        self.owners = vec![name.clone()];
        match &t.kind {
            TopKind::Complex(c) | TopKind::ElementComplex(c) => self.complex(c, name, &located, Class::Items),
            TopKind::Simple(s) | TopKind::ElementSimple(s) | TopKind::AttributeSimple(s) => {
                self.simple(s, name, &located, Class::Items)
            }
            _ => match &located.item.kind {
                ItKind::Struct(f) if f.is_empty() => self.namespace(&located),
                other => self.diff(Class::Items, format!("the empty element {name} became {other:?}")),
            },
        }
    }

    /// The namespace of a struct or an enum is the target namespace.
    fn namespace(&mut self, l: &Located) {
        let y = &l.item.yaserde;
        let want = match &self.s.tns {
            Tns::None => (None, vec![]),
            Tns::Prefixed(p, u) => (Some(p.clone()), vec![format!("{p}:{u}")]),
            Tns::Default(u) => (None, vec![u.clone()]),
        };
        let got: Vec<String> = y.namespaces.iter().map(|n| n.replace(": ", ":")).collect();
        if (y.prefix.clone(), got.clone()) != want {
            self.diff(
                Class::Xml,
                format!("{} belongs to {:?} {:?} but the target namespace is {:?}", l.id(), y.prefix, got, want),
            );
        }
    }

    fn derives(&mut self, l: &Located, names: &[&str]) {
        for n in names {
            if !l.item.derives.iter().any(|d| d == n) {
                self.diff(Class::Items, format!("{} does not derive {n}", l.id()));
            }
        }
    }

    fn own_fields(&self, c: &Complex, owner: &str, out: &mut Vec<WantField>) {
        let inherited = !owner.is_empty();
        let mut push = |f: WantField| {
            // The declaration of the derived type takes precedence.
            if !out.iter().any(|x| x.name == f.name && !matches!(x.role, Role::Choice(_))) {
                out.push(f);
            }
        };
        let elem = |e: &Elem| {
            let (prefix, want) = match &e.ty {
                ElemTy::Of(t) => (self.tns_prefix(), Want::Of(t.clone())),
                ElemTy::Ref(n) => (self.tns_prefix(), Want::Of(Ty::Named(n.clone()))),
                ElemTy::ForeignRef(p, n) => (Some(p.clone()), Want::Of(Ty::Foreign(p.clone(), n.clone()))),
                ElemTy::Complex(c) => (self.tns_prefix(), Want::Complex(c.clone(), e.name.clone())),
                ElemTy::Simple(s) => (self.tns_prefix(), Want::Simple(s.clone())),
            };
            WantField {
                role: Role::Element,
                name: e.name.clone(),
                prefix,
                card: card(e),
                want,
                inherited,
                owner: owner.to_string(),
            }
        };
        let choice = |cases: &Vec<Elem>| WantField {
            role: Role::Choice(cases.clone()),
            name: String::new(),
            prefix: None,
            card: Card::Plain,
            want: Want::None,
            inherited,
            owner: String::new(),
        };
        match &c.content {
            Content::Empty => (),
            Content::All(e) => e.iter().for_each(|e| push(elem(e))),
            Content::Choice(cases) => push(choice(cases)),
            Content::Sequence(parts) => {
                for p in parts {
                    match p {
                        Part::Elem(e) => push(elem(e)),
                        Part::Choice(cases) => push(choice(cases)),
                        Part::Any { .. } => (),
                    }
                }
            }
        }
        self.attr_fields(&c.attrs, inherited, &mut push);
        if let Some(d) = &c.derive {
            if let Some(TopKind::Complex(base)) = self.s.find(&d.base).map(|t| &t.kind) {
                self.own_fields(base, &d.base, out);
            }
        }
    }

    fn attr_fields(&self, set: &AttrSet, inherited: bool, push: &mut impl FnMut(WantField)) {
        for a in &set.attrs {
            let (prefix, want) = match &a.ty {
                AttrTy::Of(t) => (None, Want::Of(t.clone())),
                AttrTy::Untyped => (None, Want::Text),
                AttrTy::Ref(n) => (self.tns_prefix(), Want::Of(Ty::Named(n.clone()))),
                AttrTy::ForeignRef(p, n) => (Some(p.clone()), Want::Of(Ty::Foreign(p.clone(), n.clone()))),
            };
            let card = match a.usage {
                Some("required") => Card::Plain,
                Some("prohibited") => Card::Absent,
                _ => Card::Option,
            };
            push(WantField { role: Role::Attribute, name: a.name.clone(), prefix, card, want, inherited, owner: String::new() });
        }
        for g in &set.groups {
            if let Some(TopKind::Group(set)) = self.s.find(g).map(|t| &t.kind) {
                self.attr_fields(set, true, push);
            }
        }
    }

    fn complex(&mut self, c: &Complex, name: &str, l: &Located<'a>, class: Class) {
        if self.depth > 40 {
            return;
        }
        let ItKind::Struct(fields) = &l.item.kind else {
            self.diff(class, format!("the complex type {name} is not a struct with fields but {}", l.id()));
            return;
        };
        self.namespace(l);
        self.derives(l, &["YaSerialize", "YaDeserialize", "Default", "Clone", "PartialEq", "Debug"]);
        let mut want = vec![];
        self.own_fields(c, "", &mut want);
        want.retain(|w| w.card != Card::Absent);
        let mut used = vec![false; fields.len()];
        // The elements of a sequence are written in the order of the fields.
        let mut last: BTreeMap<(bool, String), usize> = BTreeMap::new();
        for w in &want {
            let (what, found) = match &w.role {
                Role::Choice(cases) => {
                    let found = (0..fields.len()).find(|&i| {
                        fields[i].yaserde.flatten && !used[i] && self.is_choice(l, &fields[i].ty, cases)
                    });
                    let found = found.or_else(|| (0..fields.len()).find(|&i| fields[i].yaserde.flatten && !used[i]));
                    (format!("the choice of {name}"), found)
                }
                role => {
                    let attribute = matches!(role, Role::Attribute);
                    let what = if attribute { "attribute" } else { "element" };
                    let found = (0..fields.len())
                        .find(|&i| !used[i] && xml_name(&fields[i]) == w.name && fields[i].yaserde.attribute == attribute);
                    (format!("the {what} {:?} of {name}", w.name), found)
                }
            };
            let class = if w.inherited { Class::Inherited } else { Class::Items };
            let Some(i) = found else {
                let same: Vec<String> = fields
                    .iter()
                    .filter(|f| norm(&f.name) == norm(&w.name))
                    .map(|f| format!("{} {:?}", f.name, f.yaserde))
                    .collect();
                if same.is_empty() || w.inherited {
                    self.diff(class, format!("{what} has no field in {}", l.id()));
                } else {
                    self.diff(Class::Xml, format!("{what} is not the XML name of {same:?} in {}", l.id()));
                }
                continue;
            };
            used[i] = true;
            self.fields_seen += 1;
            let ordered = matches!(c.content, Content::Sequence(_)) || !w.owner.is_empty();
            if ordered && matches!(w.role, Role::Element) {
                let last = last.entry((w.inherited, w.owner.clone())).or_insert(i);
                if *last > i {
                    self.diff(Class::Items, format!("{what} is not in the order of its sequence in {}", l.id()));
                }
                *last = i;
            }
            let f = &fields[i];
            if let Role::Choice(cases) = &w.role {
                self.choice(cases, &what, l, &f.ty);
                continue;
            }
            if f.yaserde.flatten || f.yaserde.text || f.yaserde.prefix != w.prefix {
                self.diff(
                    Class::Xml,
                    format!("{what} is serialized as {:?}, expected the prefix {:?}", f.yaserde, w.prefix),
                );
            }
            if norm(&f.name) != norm(&w.name) {
                self.diff(Class::Items, format!("{what} is represented by the field {}", f.name));
            }
            let recursive = match &w.want {
                Want::Of(Ty::Named(n)) => {
                    w.owner == *n || self.owners.contains(n) || self.contains(&l.scope, l.item, n)
                }
                _ => false,
            };
            let card = if recursive { Card::Indirect } else { w.card };
            self.owners.push(w.owner.clone());
            self.field_type(&what, l, &f.ty, card, &w.want);
            self.owners.pop();
        }
        for (i, f) in fields.iter().enumerate() {
            if !used[i] {
                self.diff(
                    Class::Items,
                    format!("the field {} of {} stands for nothing in the schema", f.name, l.id()),
                );
            }
        }
    }

    /// Whether a type contains itself, so that an indirection is required: only the direct case
    /// and the case of an anonymous type inside of the type is distinguished.
    fn contains(&self, scope: &[&Module], item: &It, name: &str) -> bool {
        if scope.len() == 1 {
            return norm(&item.name) == norm(name);
        }
        // An anonymous type lives in the modules named after the types around it.
        scope.get(1).map(|m| norm(&m.name) == norm(name)).unwrap_or(false)
    }

    fn is_choice(&self, l: &Located<'a>, ty: &syn::Type, cases: &[Elem]) -> bool {
        let Some(path) = model::path_of(ty) else { return false };
        match model::resolve(&l.scope, &path) {
            Ok(l) => match &l.item.kind {
                ItKind::Enum(v) => cases.iter().all(|c| v.iter().any(|v| variant_name(v) == c.name)),
                _ => false,
            },
            Err(_) => false,
        }
    }

    fn choice(&mut self, cases: &[Elem], what: &str, l: &Located<'a>, ty: &syn::Type) {
        let Some(path) = model::path_of(ty) else {
            self.diff(Class::Items, format!("{what} has the type {}", model::tokens(ty)));
            return;
        };
        let located = match model::resolve(&l.scope, &path) {
            Ok(l) => l,
            Err(e) => {
                self.diff(Class::Reference, format!("{what}: {e}"));
                return;
            }
        };
        if located.scope.len() == 1 {
            self.matched.insert(located.item.name.clone());
        }
        self.resolved += 1;
        let ItKind::Enum(variants) = &located.item.kind else {
            self.diff(Class::Items, format!("{what} is not an enum but {}", located.id()));
            return;
        };
        self.namespace(&located);
        let mut used = vec![false; variants.len()];
        for c in cases {
            let what = format!("the case {:?} of {what}", c.name);
            let Some(i) = (0..variants.len()).find(|&i| !used[i] && variant_name(&variants[i]) == c.name) else {
                self.diff(Class::Items, format!("{what} has no variant in {}", located.id()));
                continue;
            };
            used[i] = true;
            self.fields_seen += 1;
            let v = &variants[i];
            let (prefix, want) = match &c.ty {
                ElemTy::Of(t) => (self.tns_prefix(), t.clone()),
                ElemTy::Ref(n) => (self.tns_prefix(), Ty::Named(n.clone())),
                ElemTy::ForeignRef(p, n) => (Some(p.clone()), Ty::Foreign(p.clone(), n.clone())),
                _ => continue,
            };
            if v.yaserde.prefix != prefix || v.yaserde.attribute {
                self.diff(
                    Class::Xml,
                    format!("{what} is serialized as {:?}, expected the prefix {prefix:?}", v.yaserde),
                );
            }
            if v.payload.len() != 1 {
                self.diff(Class::Items, format!("{what} has {} values", v.payload.len()));
                continue;
            }
            self.field_type(&what, &located, &v.payload[0], card(c), &Want::Of(want));
        }
        for (i, v) in variants.iter().enumerate() {
            if !used[i] && !is_unknown(v) {
                self.diff(Class::Items, format!("the variant {} of {what} stands for nothing", v.name));
            }
        }
    }

    fn field_type(&mut self, what: &str, l: &Located<'a>, ty: &syn::Type, card: Card, want: &Want) {
        let all = model::tokens(ty);
        let inner = match (card, model::peel(ty)) {
            (Card::Plain, _) => ty.clone(),
            (Card::Option, Some((w, t))) if w == "Option" => t,
            (Card::Vec, Some((w, t))) if w == "Vec" => t,
            (Card::Indirect, Some((w, t))) => {
                let mut inner = t;
                let mut ok = w != "Option";
                while let Some((w, t)) = model::peel(&inner) {
                    ok |= w != "Option";
                    inner = t;
                }
                if !ok {
                    self.diff(Class::Card, format!("{what} is recursive but has the type {all}"));
                }
                inner
            }
            _ => {
                self.diff(Class::Card, format!("{what} has the type {all}, expected {card:?}"));
                let mut inner = ty.clone();
                while let Some((_, t)) = model::peel(&inner) {
                    inner = t;
                }
                inner
            }
        };
        if card == Card::Plain {
            let list = matches!(want, Want::Of(Ty::Builtin(b)) if builtin_rust(b).starts_with("Vec"));
            if !list && model::peel(ty).is_some() {
                self.diff(Class::Card, format!("{what} has the type {all}, expected a plain one"));
                return;
            }
        }
        match want {
            Want::Of(t) => self.type_ref(what, l, &inner, t),
            Want::Text => {
                if model::tokens(&inner) != "String" {
                    self.diff(Class::Builtin, format!("{what} has the type {all}, expected String"));
                }
            }
            Want::Complex(c, name) => {
                if let Some(located) = self.anonymous(what, l, &inner) {
                    self.depth += 1;
                    self.complex(c, name, &located, Class::Anonymous);
                    self.depth -= 1;
                }
            }
            Want::Simple(s) => {
                if let Some(located) = self.anonymous(what, l, &inner) {
                    self.simple(s, what, &located, Class::Anonymous);
                }
            }
            Want::None => (),
        }
    }

    fn anonymous(&mut self, what: &str, l: &Located<'a>, ty: &syn::Type) -> Option<Located<'a>> {
        let Some(path) = model::path_of(ty) else {
            self.diff(Class::Anonymous, format!("{what} has the type {}", model::tokens(ty)));
            return None;
        };
        match model::resolve(&l.scope, &path) {
            Ok(l) => {
                self.resolved += 1;
                if l.scope.len() == 1 {
                    self.diff(
                        Class::Anonymous,
                        format!("{what} has an anonymous type, but refers to the global {}", l.id()),
                    );
                }
                Some(l)
            }
            Err(e) => {
                self.diff(Class::Anonymous, format!("{what}: {e}"));
                None
            }
        }
    }

    fn type_ref(&mut self, what: &str, l: &Located<'a>, ty: &syn::Type, want: &Ty) {
        let got = model::tokens(ty);
        match want {
            Ty::Builtin(b) => {
                if got != builtin_rust(b) {
                    self.diff(
                        Class::Builtin,
                        format!("{what}: the built-in type {b} became {got}, expected {}", builtin_rust(b)),
                    );
                }
            }
            Ty::Foreign(p, n) => {
                let path = model::path_of(ty).unwrap_or_default();
                if path.len() != 2 || norm(&path[0]) != norm(p) || norm(&path[1]) != norm(n) {
                    self.diff(Class::Reference, format!("{what}: the type {p}:{n} became {got}"));
                }
            }
            Ty::Named(n) => {
                let path = model::path_of(ty).unwrap_or_default();
                // An element or an attribute which is declared by its type only, is an alias.
                match self.s.find(n).map(|t| &t.kind) {
                    Some(TopKind::ElementOf(_) | TopKind::AttributeOf(_)) => return,
                    _ => (),
                }
                match (model::resolve(&l.scope, &path), self.global(n)) {
                    (Ok(a), Ok(b)) if std::ptr::eq(a.item, b.item) => self.resolved += 1,
                    (Ok(a), Ok(b)) => self.diff(
                        Class::Reference,
                        format!("{what}: the type {n} is {} but the code refers to {}", b.id(), a.id()),
                    ),
                    (Err(e), _) | (_, Err(e)) => {
                        self.diff(Class::Reference, format!("{what} refers to the type {n}: {got}: {e}"))
                    }
                }
            }
        }
    }

    fn simple(&mut self, s: &Simple, name: &str, l: &Located<'a>, class: Class) {
        match &s.kind {
            SimpleKind::Restriction { base, .. } | SimpleKind::List(base) | SimpleKind::ListOf { base, .. } => {
                let ItKind::Tuple(t) = &l.item.kind else {
                    self.diff(class, format!("{name} is not a tuple struct but {}", l.id()));
                    return;
                };
                self.derives(l, &["UtilsTupleIo", "UtilsDefaultSerde", "Default", "Clone", "PartialEq", "Debug"]);
                if t.len() != 1 {
                    self.diff(class, format!("{name} has {} values", t.len()));
                    return;
                }
                let list = !matches!(&s.kind, SimpleKind::Restriction { .. });
                let card = if list { Card::Vec } else { Card::Plain };
                // The type of the items may be declared on its own, with their facets.
                if let (SimpleKind::ListOf { base, facets }, Some((_, inner))) = (&s.kind, model::peel(&t[0])) {
                    let direct = match base {
                        Ty::Builtin(b) => model::tokens(&inner) == builtin_rust(b),
                        _ => true,
                    };
                    let found = model::path_of(&inner).and_then(|p| model::resolve(&l.scope, &p).ok());
                    if let (false, false, Some(item)) = (facets.is_empty(), direct, found) {
                        self.resolved += 1;
                        let kind = SimpleKind::Restriction { base: base.clone(), facets: facets.clone() };
                        let what = format!("the items of {name}");
                        if item.scope.len() == 1 {
                            self.matched.insert(item.item.name.clone());
                        }
                        self.field_type(&what, l, &t[0], card, &Want::None);
                        self.simple(&Simple { doc: None, kind }, &what, &item, class);
                        return;
                    }
                }
                self.field_type(&format!("the value of {name}"), l, &t[0], card, &Want::Of(base.clone()));
            }
            SimpleKind::Enumeration { values, .. } => {
                let ItKind::Enum(variants) = &l.item.kind else {
                    self.diff(class, format!("{name} is not an enum but {}", l.id()));
                    return;
                };
                self.derives(l, &["YaSerialize", "YaDeserialize", "Clone", "PartialEq", "Debug"]);
                self.namespace(l);
                let mut used = vec![false; variants.len()];
                for (v, _) in values {
                    match (0..variants.len()).find(|&i| !used[i] && variant_name(&variants[i]) == *v) {
                        Some(i) => {
                            used[i] = true;
                            self.fields_seen += 1;
                            if !variants[i].payload.is_empty() || variants[i].yaserde.prefix.is_some() {
                                self.diff(
                                    Class::Enumeration,
                                    format!("the value {v:?} of {name} became {:?}", variants[i]),
                                );
                            }
                        }
                        None => self.diff(
                            Class::Enumeration,
                            format!("the value {v:?} of {name} has no variant in {}", l.id()),
                        ),
                    }
                }
                for (i, v) in variants.iter().enumerate() {
                    if !used[i] && !is_unknown(v) {
                        self.diff(
                            Class::Enumeration,
                            format!("the variant {} of {name} stands for no value", v.name),
                        );
                    }
                }
                if !variants.iter().any(is_unknown) {
                    self.diff(Class::Enumeration, format!("{name} has no variant for unknown values"));
                }
            }
            SimpleKind::Union { members, anonymous } => {
                let ItKind::Enum(variants) = &l.item.kind else {
                    self.diff(class, format!("{name} is not an enum but {}", l.id()));
                    return;
                };
                self.derives(l, &["UtilsUnionSerDe", "PartialEq", "Debug"]);
                let values: Vec<&model::Variant> = variants.iter().filter(|v| !is_unknown(v)).collect();
                if values.len() != members.len() + anonymous.len() || values.len() + 1 != variants.len() {
                    self.diff(
                        Class::Items,
                        format!(
                            "the union {name} of {} members has {} variants",
                            members.len() + anonymous.len(),
                            variants.len()
                        ),
                    );
                    return;
                }
                // The order of the members matters: the first one which accepts the text wins.
                for (i, m) in members.iter().enumerate() {
                    let what = format!("the member {i} of the union {name}");
                    match values[i].payload.as_slice() {
                        [t] => self.type_ref(&what, l, t, m),
                        p => self.diff(Class::Items, format!("{what} has {} values", p.len())),
                    }
                }
                for (i, a) in anonymous.iter().enumerate() {
                    let what = format!("the anonymous member {i} of the union {name}");
                    let v = values[members.len() + i];
                    let Some(path) = v.payload.first().and_then(model::path_of) else {
                        self.diff(Class::Items, format!("{what} has no value"));
                        continue;
                    };
                    match model::resolve(&l.scope, &path) {
                        Ok(located) => {
                            if located.scope.len() == 1 {
                                self.matched.insert(located.item.name.clone());
                            }
                            self.simple(a, &what, &located, Class::Anonymous);
                        }
                        Err(e) => self.diff(Class::Anonymous, format!("{what}: {e}")),
                    }
                }
            }
        }
    }
}

fn xml_name(f: &model::Field) -> String {
    f.yaserde.rename.clone().unwrap_or_else(|| f.name.clone())
}

fn variant_name(v: &model::Variant) -> String {
    v.yaserde.rename.clone().unwrap_or_else(|| v.name.clone())
}

fn is_unknown(v: &model::Variant) -> bool {
    v.name == "__Unknown__" && v.yaserde == Yaserde::default()
}
