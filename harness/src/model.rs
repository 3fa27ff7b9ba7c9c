//! A semantic projection of generated Rust code: the items with their fields, XML names and
//! types, and the resolution of the paths between them. Spelling, order and layout are ignored.

use std::collections::BTreeMap;

use quote::ToTokens;
use syn::{Attribute, Fields, GenericArgument, Item, PathArguments, Type};

#[derive(Debug, Default)]
pub struct Module {
    pub name: String,
    pub items: Vec<It>,
    pub mods: BTreeMap<String, Module>,
    pub sees_parent: bool,
    /// Names of the types with an implementation of the trait
    pub impls: Vec<(String, String)>,
    pub fns: Vec<syn::ItemFn>,
    pub others: Vec<String>,
    pub duplicate_mods: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct It {
    pub name: String,
    pub public: bool,
    pub derives: Vec<String>,
    pub yaserde: Yaserde,
    pub kind: ItKind,
}

#[derive(Debug, Clone)]
pub enum ItKind {
    Struct(Vec<Field>),
    Tuple(Vec<Type>),
    Enum(Vec<Variant>),
}

#[derive(Debug, Clone)]
pub struct Field {
    pub name: String,
    pub public: bool,
    pub ty: Type,
    pub yaserde: Yaserde,
}

#[derive(Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub payload: Vec<Type>,
    pub yaserde: Yaserde,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Yaserde {
    pub attribute: bool,
    pub flatten: bool,
    pub text: bool,
    pub rename: Option<String>,
    pub prefix: Option<String>,
    pub namespaces: Vec<String>,
}

pub fn tokens(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn yaserde_of(attrs: &[Attribute]) -> Yaserde {
    let mut y = Yaserde::default();
    for a in attrs {
        if !a.path().is_ident("yaserde") {
            continue;
        }
        let _ = a.parse_nested_meta(|m| {
            let name = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            match name.as_str() {
                "attribute" => y.attribute = true,
                "flatten" => y.flatten = true,
                "text" => y.text = true,
                _ => {
                    let lit: syn::LitStr = m.value()?.parse()?;
                    match name.as_str() {
                        "rename" => y.rename = Some(lit.value()),
                        // The empty prefix is the one of the default namespace.
                        "prefix" => y.prefix = Some(lit.value()).filter(|p| !p.is_empty()),
                        "namespace" => y.namespaces.push(lit.value()),
                        _ => (),
                    }
                }
            }
            Ok(())
        });
    }
    y
}

fn derives_of(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default());
                Ok(())
            });
        }
    }
    v.sort();
    v
}

fn unraw(i: &syn::Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").map(|s| s.to_string()).unwrap_or(s)
}

fn public(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

pub fn parse(code: &str) -> Result<Module, String> {
    let file = syn::parse_file(code).map_err(|e| {
        let at = e.span().start();
        let line = code.lines().nth(at.line.saturating_sub(1)).unwrap_or("");
        format!("{e} at line {}: {line}", at.line)
    })?;
    Ok(module(String::new(), &file.items))
}

fn module(name: String, items: &[Item]) -> Module {
    let mut m = Module { name, ..Default::default() };
    for item in items {
        match item {
            Item::Struct(s) => {
                let kind = match &s.fields {
                    Fields::Named(f) => ItKind::Struct(
                        f.named
                            .iter()
                            .map(|f| Field {
                                name: unraw(f.ident.as_ref().unwrap()),
                                public: public(&f.vis),
                                ty: f.ty.clone(),
                                yaserde: yaserde_of(&f.attrs),
                            })
                            .collect(),
                    ),
                    Fields::Unnamed(f) => {
                        ItKind::Tuple(f.unnamed.iter().map(|f| f.ty.clone()).collect())
                    }
                    Fields::Unit => ItKind::Struct(vec![]),
                };
                m.items.push(It {
                    name: unraw(&s.ident),
                    public: public(&s.vis),
                    derives: derives_of(&s.attrs),
                    yaserde: yaserde_of(&s.attrs),
                    kind,
                });
            }
            Item::Enum(e) => {
                let variants = e
                    .variants
                    .iter()
                    .map(|v| Variant {
                        name: unraw(&v.ident),
                        payload: v.fields.iter().map(|f| f.ty.clone()).collect(),
                        yaserde: yaserde_of(&v.attrs),
                    })
                    .collect();
                m.items.push(It {
                    name: unraw(&e.ident),
                    public: public(&e.vis),
                    derives: derives_of(&e.attrs),
                    yaserde: yaserde_of(&e.attrs),
                    kind: ItKind::Enum(variants),
                });
            }
            Item::Mod(sub) => {
                let name = unraw(&sub.ident);
                let inner = sub.content.as_ref().map(|c| c.1.as_slice()).unwrap_or(&[]);
                let inner = module(name.clone(), inner);
                if m.mods.insert(name.clone(), inner).is_some() {
                    m.duplicate_mods.push(name);
                }
            }
            Item::Use(u) => {
                if tokens(&u.tree) == "super::*" {
                    m.sees_parent = true;
                }
            }
            Item::Impl(i) => {
                let tr = i.trait_.as_ref().map(|t| tokens(&t.1)).unwrap_or_default();
                m.impls.push((tr, tokens(&i.self_ty)));
            }
            Item::Fn(f) => m.fns.push(f.clone()),
            other => m.others.push(tokens(other)),
        }
    }
    m
}

/// The wrapper of a type: "", "Option", "Vec" or "Box".
pub fn peel(ty: &Type) -> Option<(String, Type)> {
    if let Type::Path(p) = ty {
        let last = p.path.segments.last()?;
        let name = last.ident.to_string();
        if !["Option", "Vec", "Box"].contains(&name.as_str()) {
            return None;
        }
        if let PathArguments::AngleBracketed(a) = &last.arguments {
            if let Some(GenericArgument::Type(t)) = a.args.first() {
                return Some((name, t.clone()));
            }
        }
    }
    None
}

/// The last segments of a plain path.
pub fn path_of(ty: &Type) -> Option<Vec<String>> {
    match ty {
        Type::Path(p) if p.qself.is_none() => {
            let mut v = vec![];
            for s in &p.path.segments {
                if !s.arguments.is_empty() {
                    return None;
                }
                v.push(unraw(&s.ident));
            }
            Some(v)
        }
        _ => None,
    }
}

/// An item together with the modules it is in, from the outermost to the innermost.
#[derive(Clone)]
pub struct Located<'a> {
    pub scope: Vec<&'a Module>,
    pub item: &'a It,
}

impl Located<'_> {
    pub fn id(&self) -> String {
        let mut s: Vec<&str> = self.scope.iter().skip(1).map(|m| m.name.as_str()).collect();
        s.push(&self.item.name);
        s.join("::")
    }
}

pub fn resolve<'a>(scope: &[&'a Module], path: &[String]) -> Result<Located<'a>, String> {
    let mut scope: Vec<&Module> = scope.to_vec();
    let mut path = path;
    match path.first().map(|s| s.as_str()) {
        Some("self") => path = &path[1..],
        Some("super") => {
            scope.pop();
            path = &path[1..];
        }
        Some("crate") => {
            scope.truncate(1);
            path = &path[1..];
        }
        _ => (),
    }
    let (last, mods) = path.split_last().ok_or("an empty path")?;
    // The first segment is looked up in the scope, and in the parents if they are visible.
    loop {
        let m = *scope.last().ok_or("no scope")?;
        let hit = match mods.first() {
            Some(first) => m.mods.contains_key(first),
            None => m.items.iter().any(|i| &i.name == last),
        };
        if hit {
            break;
        }
        if scope.len() > 1 && m.sees_parent {
            scope.pop();
        } else {
            return Err(format!("{} is not declared", path.join("::")));
        }
    }
    for seg in mods {
        let m = *scope.last().unwrap();
        match m.mods.get(seg) {
            Some(n) => scope.push(n),
            None => return Err(format!("the module {seg} is not declared")),
        }
    }
    let m = *scope.last().unwrap();
    let found: Vec<&It> = m.items.iter().filter(|i| &i.name == last).collect();
    match found.len() {
        0 if m.sees_parent && scope.len() > 1 => {
            // Names imported by a glob are visible through the module
            scope.pop();
            resolve(&scope, std::slice::from_ref(last))
        }
        0 => Err(format!("{} is not declared", path.join("::"))),
        1 => Ok(Located { scope, item: found[0] }),
        n => Err(format!("{} is declared {n} times", path.join("::"))),
    }
}
