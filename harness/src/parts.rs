//! C20: replaced parts of the generator. Every replacement behaves like the default and marks
//! what it returns, so that the generated code shows where it was used.

use std::borrow::Cow;

use xsd_parser::{
    generator::{
        alias::{AliasGenerator, DefaultAliasGen},
        base::{BaseGenerator, DefaultBaseGenerator},
        builder::GeneratorBuilder,
        enum_case::{DefaultEnumCaseGen, EnumCaseGenerator},
        import::{DefaultImportGen, ImportGenerator},
        r#enum::{DefaultEnumGen, EnumGenerator},
        r#struct::{DefaultStructGen, StructGenerator},
        struct_field::{DefaultStructFieldGen, StructFieldGenerator},
        tuple_struct::{DefaultTupleStructGen, TupleStructGenerator},
        Generator,
    },
    parser::{
        self,
        types::{Alias, Enum, EnumCase, Import, RsEntity, Struct, StructField, TupleStruct, TypeModifier},
    },
};

use crate::rng::Rng;
use crate::{
    core::Ctx,
    gencheck::{first_difference, generate_code},
    model,
    schema::{self, Knobs, Names},
};

/// What the default code consists of.
#[derive(Default, Debug)]
struct Counts {
    structs: usize,
    tuples: usize,
    enums: usize,
    fields: usize,
    variants: usize,
    payloads: usize,
    mods: usize,
    aliases: usize,
    imports: usize,
    /// The declarations which are not nested in others
    top: usize,
}

impl Counts {
    fn of(code: &str) -> Result<Counts, String> {
        fn walk(m: &model::Module, c: &mut Counts) {
            for i in &m.items {
                match &i.kind {
                    model::ItKind::Struct(f) => {
                        c.structs += 1;
                        c.fields += f.len();
                    }
                    model::ItKind::Tuple(_) => c.tuples += 1,
                    model::ItKind::Enum(v) => {
                        c.enums += 1;
                        let v: Vec<_> = v.iter().filter(|v| v.name != "__Unknown__").collect();
                        c.variants += v.len();
                        c.payloads += v.iter().filter(|v| !v.payload.is_empty()).count();
                    }
                }
            }
            c.mods += m.mods.len();
            m.mods.values().for_each(|m| walk(m, c));
        }
        let mut c = Counts::default();
        walk(&model::parse(code)?, &mut c);
        c.aliases = code.lines().filter(|l| l.trim().starts_with("// pub type ")).count();
        c.imports = code.lines().filter(|l| l.trim().starts_with("//use ")).count();
        Ok(c)
    }
}

macro_rules! part {
    ($name:ident: $tr:ident, $default:expr, $mark:expr, fn $m:ident(&self, $($arg:ident: $ty:ty),*) -> String) => {
        struct $name;
        impl $tr for $name {
            fn $m(&self, $($arg: $ty),*) -> String {
                mark($mark, $default.$m($($arg),*))
            }
        }
    };
    ($name:ident: $tr:ident, $default:expr, $mark:expr, fn $m:ident(&self, $($arg:ident: $ty:ty),*) -> $cow:ty) => {
        struct $name;
        impl $tr for $name {
            fn $m(&self, $($arg: $ty),*) -> $cow {
                Cow::Owned(mark($mark, $default.$m($($arg),*).into_owned()))
            }
        }
    };
}

fn mark(m: &str, text: String) -> String {
    // An empty text stands for nothing at all (a prohibited attribute, no subtypes).
    if text.is_empty() && !m.starts_with("/*c") && !m.starts_with("/*m") && m != "/*bc*/" {
        text
    } else {
        format!("{m}{text}")
    }
}

type CowS = Cow<'static, str>;

part!(StructWhole: StructGenerator, DefaultStructGen, "/*wS*/", fn generate(&self, e: &Struct, g: &Generator) -> String);
part!(StructName: StructGenerator, DefaultStructGen, "/*nS*/", fn get_type_name(&self, e: &Struct, g: &Generator) -> String);
part!(StructMacros: StructGenerator, DefaultStructGen, "/*mS*/", fn macros(&self, e: &Struct, g: &Generator) -> CowS);
part!(StructComment: StructGenerator, DefaultStructGen, "/*cS*/", fn format_comment(&self, e: &Struct, g: &Generator) -> String);
part!(StructValid: StructGenerator, DefaultStructGen, "/*vS*/", fn validation(&self, e: &Struct, g: &Generator) -> CowS);
part!(StructFields: StructGenerator, DefaultStructGen, "/*fS*/", fn fields(&self, e: &Struct, g: &Generator) -> String);

part!(FieldWhole: StructFieldGenerator, DefaultStructFieldGen, "/*wF*/", fn generate(&self, e: &StructField, g: &Generator) -> String);
part!(FieldType: StructFieldGenerator, DefaultStructFieldGen, "/*tF*/", fn get_type_name(&self, e: &StructField, g: &Generator) -> String);
part!(FieldName: StructFieldGenerator, DefaultStructFieldGen, "/*nF*/", fn get_name(&self, e: &StructField, g: &Generator) -> String);
part!(FieldComment: StructFieldGenerator, DefaultStructFieldGen, "/*cF*/", fn format_comment(&self, e: &StructField, g: &Generator) -> String);
part!(FieldMacros: StructFieldGenerator, DefaultStructFieldGen, "/*mF*/", fn macros(&self, e: &StructField, g: &Generator) -> String);

part!(TupleWhole: TupleStructGenerator, DefaultTupleStructGen, "/*wT*/", fn generate(&self, e: &TupleStruct, g: &Generator) -> String);
part!(TupleType: TupleStructGenerator, DefaultTupleStructGen, "/*tT*/", fn get_type_name(&self, e: &TupleStruct, g: &Generator) -> String);
part!(TupleName: TupleStructGenerator, DefaultTupleStructGen, "/*nT*/", fn get_name(&self, e: &TupleStruct, g: &Generator) -> String);
part!(TupleMacros: TupleStructGenerator, DefaultTupleStructGen, "/*mT*/", fn macros(&self, e: &TupleStruct, g: &Generator) -> CowS);
part!(TupleComment: TupleStructGenerator, DefaultTupleStructGen, "/*cT*/", fn format_comment(&self, e: &TupleStruct, g: &Generator) -> String);
part!(TupleValid: TupleStructGenerator, DefaultTupleStructGen, "/*vT*/", fn validation(&self, e: &TupleStruct, g: &Generator) -> CowS);

part!(EnumWhole: EnumGenerator, DefaultEnumGen, "/*wE*/", fn generate(&self, e: &Enum, g: &Generator) -> String);
part!(EnumCases: EnumGenerator, DefaultEnumGen, "/*fE*/", fn cases(&self, e: &Enum, g: &Generator) -> String);
part!(EnumType: EnumGenerator, DefaultEnumGen, "/*tE*/", fn get_type_name(&self, e: &Enum, g: &Generator) -> String);
part!(EnumName: EnumGenerator, DefaultEnumGen, "/*nE*/", fn get_name(&self, e: &Enum, g: &Generator) -> String);
part!(EnumMacros: EnumGenerator, DefaultEnumGen, "/*mE*/", fn macros(&self, e: &Enum, g: &Generator) -> CowS);
part!(EnumComment: EnumGenerator, DefaultEnumGen, "/*cE*/", fn format_comment(&self, e: &Enum, g: &Generator) -> String);
part!(EnumValid: EnumGenerator, DefaultEnumGen, "/*vE*/", fn validation(&self, e: &Enum, g: &Generator) -> CowS);

part!(CaseWhole: EnumCaseGenerator, DefaultEnumCaseGen, "/*wC*/", fn generate(&self, e: &EnumCase, g: &Generator) -> String);
part!(CaseName: EnumCaseGenerator, DefaultEnumCaseGen, "/*nC*/", fn get_name(&self, e: &EnumCase, g: &Generator) -> String);
part!(CaseType: EnumCaseGenerator, DefaultEnumCaseGen, "/*tC*/", fn get_type_name(&self, e: &EnumCase, g: &Generator) -> String);
part!(CaseComment: EnumCaseGenerator, DefaultEnumCaseGen, "/*cC*/", fn format_comment(&self, e: &EnumCase, g: &Generator) -> String);
part!(CaseMacros: EnumCaseGenerator, DefaultEnumCaseGen, "/*mC*/", fn macros(&self, e: &EnumCase, g: &Generator) -> String);

part!(AliasWhole: AliasGenerator, DefaultAliasGen, "/*wA*/", fn generate(&self, e: &Alias, g: &Generator) -> String);
part!(AliasComment: AliasGenerator, DefaultAliasGen, "/*cA*/", fn format_comment(&self, c: Option<&str>, g: &Generator) -> String);
part!(AliasName: AliasGenerator, DefaultAliasGen, "/*nA*/", fn format_name(&self, n: &str, g: &Generator) -> String);
part!(AliasType: AliasGenerator, DefaultAliasGen, "/*tA*/", fn format_original_type(&self, n: &str, g: &Generator) -> String);

part!(ImportWhole: ImportGenerator, DefaultImportGen, "/*wI*/", fn generate(&self, e: &Import, g: &Generator) -> String);

struct BaseType;
impl BaseGenerator for BaseType {
    fn format_type_name(&self, n: &str, g: &Generator) -> Cow<'_, str> {
        format!("/*bt*/{}", DefaultBaseGenerator.format_type_name(n, g)).into()
    }
}
struct BaseName;
impl BaseGenerator for BaseName {
    fn format_name(&self, n: &str) -> Cow<'_, str> {
        format!("/*bn*/{}", DefaultBaseGenerator.format_name(n)).into()
    }
}
struct BaseComment;
impl BaseGenerator for BaseComment {
    fn format_comment(&self, c: Option<&str>, indent: usize) -> String {
        mark("/*bc*/", DefaultBaseGenerator.format_comment(c, indent))
    }
}
struct BaseModify;
impl BaseGenerator for BaseModify {
    fn modify_type(&self, n: &str, m: &[TypeModifier]) -> Cow<'_, str> {
        format!("/*bm*/{}", DefaultBaseGenerator.modify_type(n, m)).into()
    }
}
struct BaseMod;
impl BaseGenerator for BaseMod {
    fn mod_name(&self, n: &str) -> String {
        format!("{}_zqzq", DefaultBaseGenerator.mod_name(n))
    }
}
struct BaseJoin;
impl BaseGenerator for BaseJoin {
    fn join_subtypes(&self, s: &[RsEntity], g: &Generator) -> String {
        s.iter().map(|t| format!("/*bj*/{}", g.generate(t))).collect::<Vec<_>>().join("\n")
    }
}
struct BaseIndent(usize);
impl BaseGenerator for BaseIndent {
    fn indent_size(&self) -> usize {
        self.0
    }
}
struct BaseSame;
impl BaseGenerator for BaseSame {}

fn times(text: &str, pattern: &str) -> usize {
    text.matches(pattern).count()
}

/// The number of times the mark follows one of the patterns, with wrappers in between.
fn after(text: &str, m: &str) -> usize {
    text.split(m).filter(|s| s.ends_with(": ") || s.ends_with('(') || s.ends_with("(pub ")).count()
        - usize::from(text.rsplit(m).next().is_some_and(|s| s.ends_with(": ") || s.ends_with('(') || s.ends_with("(pub ")))
}

fn check_mark(m: &str, text: &str, c: &Counts) -> Option<String> {
    let all = times(text, m);
    let want = |what: &str, got: usize, want: usize| {
        (got != want).then(|| format!("{m} {what} {got} times, expected {want} times"))
    };
    // The types of fields etc. without their wrappers
    let bare = text.replace("Option<", "").replace("Vec<", "");
    match m {
        "/*wS*/" | "/*mS*/" | "/*cS*/" | "/*vS*/" => want("occurs", all, c.structs),
        "/*nS*/" => want("names structs", times(text, "pub struct /*nS*/"), c.structs)
            .or_else(|| want("is validated", times(text, "impl Validate for /*nS*/"), c.structs)),
        // A struct without fields has no text for them.
        "/*fS*/" => (all > c.structs || (c.fields > 0 && all == 0)).then(|| format!("{m} occurs {all} times")),
        "/*wF*/" | "/*cF*/" | "/*mF*/" | "/*nF*/" | "/*tF*/" => want("occurs", all, c.fields)
            .or_else(|| if m == "/*nF*/" { want("names", times(text, "pub /*nF*/"), c.fields) } else { None })
            .or_else(|| if m == "/*tF*/" { want("is a type", times(text, ": /*tF*/"), c.fields) } else { None }),
        "/*wT*/" | "/*mT*/" | "/*cT*/" | "/*vT*/" => want("occurs", all, c.tuples),
        "/*tT*/" => want("is a type", times(text, "(pub /*tT*/"), c.tuples),
        "/*nT*/" => want("names", times(text, "pub struct /*nT*/"), c.tuples)
            .or_else(|| want("is validated", times(text, "impl Validate for /*nT*/"), c.tuples)),
        "/*wE*/" | "/*mE*/" | "/*cE*/" | "/*vE*/" => want("occurs", all, c.enums),
        "/*fE*/" => want("occurs", all, c.enums),
        "/*tE*/" => want("is a type", times(text, "__Unknown__(/*tE*/"), c.enums),
        "/*nE*/" => want("names", times(text, "pub enum /*nE*/"), c.enums)
            .or_else(|| want("is validated", times(text, "impl Validate for /*nE*/"), c.enums))
            .or_else(|| want("has a default", times(text, "impl Default for /*nE*/"), c.enums)),
        "/*wC*/" | "/*mC*/" | "/*cC*/" => want("occurs", all, c.variants),
        // The name is an argument of the macros too.
        "/*nC*/" => (all < c.variants || (c.variants == 0 && all > 0)).then(|| format!("{m} occurs {all} times")),
        "/*tC*/" => want("occurs", all, c.payloads),
        "/*wA*/" | "/*cA*/" | "/*tA*/" => want("occurs", all, c.aliases),
        "/*nA*/" => want("names", times(text, "pub type /*nA*/"), c.aliases),
        "/*wI*/" => want("occurs", all, c.imports),
        "/*bt*/" => want("names structs", times(text, "pub struct /*bt*/"), c.structs + c.tuples)
            .or_else(|| want("names enums", times(text, "pub enum /*bt*/"), c.enums))
            .or_else(|| want("names aliases", times(text, "// pub type /*bt*/"), c.aliases))
            .or_else(|| {
                let of = text.lines().filter(|l| l.trim().starts_with("// pub type ") && l.contains("= /*bt*/"));
                want("is the type of aliases", of.count(), c.aliases)
            })
            .or_else(|| {
                let types = c.fields + c.payloads + c.tuples + c.enums;
                want("is a type", after(&bare, m), types)
            }),
        "/*bn*/" => want("names fields", times(text, "pub /*bn*/"), c.fields).or_else(|| want("occurs", all, c.fields)),
        "/*bc*/" => {
            want("occurs", all, c.structs + c.tuples + c.enums + c.fields + c.variants + c.aliases)
        }
        "/*bm*/" => want("is a type", after(text, m), c.fields + c.payloads + c.tuples),
        "_zqzq" => want("names modules", times(text, "_zqzq {"), c.mods),
        // All declarations but the ones of the schema itself are joined.
        "/*bj*/" => {
            want("occurs", all, (c.structs + c.tuples + c.enums + c.aliases + c.imports).saturating_sub(c.top))
        }
        _ => None,
    }
}

const MARKS: &[&str] = &[
    "/*wS*/", "/*nS*/", "/*mS*/", "/*cS*/", "/*vS*/", "/*fS*/", "/*wF*/", "/*tF*/", "/*nF*/", "/*cF*/", "/*mF*/",
    "/*wT*/", "/*tT*/", "/*nT*/", "/*mT*/", "/*cT*/", "/*vT*/", "/*wE*/", "/*fE*/", "/*tE*/", "/*nE*/", "/*mE*/",
    "/*cE*/", "/*vE*/", "/*wC*/", "/*nC*/", "/*tC*/", "/*cC*/", "/*mC*/", "/*wA*/", "/*cA*/", "/*nA*/", "/*tA*/",
    "/*wI*/", "/*bt*/", "/*bn*/", "/*bc*/", "/*bm*/", "_zqzq", "/*bj*/",
];

/// `choice` selects for every part the replacement: 0 none, 1 the default explicitly, others.
/// The order of the replacements varies, and a part may be replaced before by something else.
fn build<'i>(choice: &[usize; 8], marks: &mut Vec<&'static str>, r: &mut Rng) -> (GeneratorBuilder<'i>, Option<usize>) {
    let mut b = GeneratorBuilder::default();
    let mut indent = None;
    macro_rules! select {
        ($i:expr, $with:ident, $default:expr, [$($p:expr => $m:expr),*]) => {{
            if choice[$i] > 0 && choice[$i] <= VARIANTS[$i] && r.chance(20) {
                let n = 2 + r.below(VARIANTS[$i] - 2);
                let mut k = 1;
                $(
                    k += 1;
                    if k == n {
                        b = b.$with(Box::new($p));
                    }
                )*
                let _ = k;
            }
            match choice[$i] {
                0 => (),
                1 => b = b.$with(Box::new($default)),
                n => {
                    let mut k = 1;
                    $(
                        k += 1;
                        if k == n {
                            marks.push($m);
                            b = b.$with(Box::new($p));
                        }
                    )*
                    let _ = k;
                }
            }
        }};
    }
    let mut order: Vec<usize> = (0..8).collect();
    if r.chance(60) {
        r.shuffle(&mut order);
    }
    for part in order {
        match part {
            0 => select!(0, with_struct_gen, DefaultStructGen, [
        StructWhole => "/*wS*/", StructName => "/*nS*/", StructMacros => "/*mS*/", StructComment => "/*cS*/",
        StructValid => "/*vS*/", StructFields => "/*fS*/"]),
            1 => select!(1, with_struct_field_gen, DefaultStructFieldGen, [
        FieldWhole => "/*wF*/", FieldType => "/*tF*/", FieldName => "/*nF*/", FieldComment => "/*cF*/",
        FieldMacros => "/*mF*/"]),
            2 => select!(2, with_tuple_struct_gen, DefaultTupleStructGen, [
        TupleWhole => "/*wT*/", TupleType => "/*tT*/", TupleName => "/*nT*/", TupleMacros => "/*mT*/",
        TupleComment => "/*cT*/", TupleValid => "/*vT*/"]),
            3 => select!(3, with_enum_gen, DefaultEnumGen, [
        EnumWhole => "/*wE*/", EnumCases => "/*fE*/", EnumType => "/*tE*/", EnumName => "/*nE*/",
        EnumMacros => "/*mE*/", EnumComment => "/*cE*/", EnumValid => "/*vE*/"]),
            4 => select!(4, with_enum_case_gen, DefaultEnumCaseGen, [
        CaseWhole => "/*wC*/", CaseName => "/*nC*/", CaseType => "/*tC*/", CaseComment => "/*cC*/",
        CaseMacros => "/*mC*/"]),
            5 => select!(5, with_alias_gen, DefaultAliasGen, [
        AliasWhole => "/*wA*/", AliasComment => "/*cA*/", AliasName => "/*nA*/", AliasType => "/*tA*/"]),
            6 => select!(6, with_import_gen, DefaultImportGen, [ImportWhole => "/*wI*/"]),
            _ => select!(7, with_base_gen, BaseSame, [
        BaseType => "/*bt*/", BaseName => "/*bn*/", BaseComment => "/*bc*/", BaseModify => "/*bm*/",
        BaseMod => "_zqzq", BaseJoin => "/*bj*/"]),
        }
    }
    if choice[7] > 7 {
        let k = [0, 1, 2, 3, 8][choice[7] - 8];
        indent = Some(k);
        b = b.with_base_gen(Box::new(BaseIndent(k)));
    }
    (b, indent)
}

const VARIANTS: [usize; 8] = [8, 7, 8, 9, 7, 6, 3, 13];

fn module_names(code: &str) -> std::collections::BTreeSet<String> {
    code.lines()
        .filter_map(|l| l.trim().strip_prefix("pub mod "))
        .filter_map(|l| l.split([' ', '{']).next())
        .map(|n| n.to_string())
        .collect()
}

fn paths_through(code: &str, module: &str) -> usize {
    let pattern = format!("{module}::");
    code.match_indices(&pattern)
        .filter(|(i, _)| !code[..*i].chars().next_back().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '#'))
        .count()
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "a pair of a schema and a choice of replaced parts which differs from all others; non-trivial if \
                at least one part is replaced by one which marks its output"
        .into();
    let mut r = ctx.rng.clone();
    // Every single replacement of one part, then random choices.
    let mut singles: Vec<[usize; 8]> = vec![];
    for part in 0..8 {
        for v in 1..VARIANTS[part] {
            let mut c = [0; 8];
            c[part] = v;
            singles.push(c);
        }
    }
    let rounds = ctx.scale(4, 60);
    let random = ctx.scale(700, 30000);
    let mut choices: Vec<[usize; 8]> = vec![];
    for _ in 0..rounds {
        choices.extend(singles.iter().cloned());
    }
    for _ in 0..random {
        let mut c = [0; 8];
        for (i, c) in c.iter_mut().enumerate() {
            if r.chance(50) {
                *c = r.below(VARIANTS[i]);
            }
        }
        choices.push(c);
    }
    for (i, choice) in choices.iter().enumerate() {
        if ctx.full() {
            break;
        }
        let indented = choice[7] > 7;
        let k = Knobs {
            docs: if indented { 0 } else { 15 },
            foreign: if r.chance(40) { 10 } else { 0 },
            anon: 30,
            choice: 25,
            union_anon: true,
            names: if r.chance(50) { Names::Tame } else { Names::Styled },
            tops: 5 + r.below(8),
            ..Default::default()
        };
        let s = schema::generate(&mut r, &k);
        let xml = s.render(None);
        let case = format!("case-{i}");
        let default = match generate_code(ctx, &xml) {
            Ok(c) => c,
            Err(e) => {
                ctx.violation(&case, &format!("no code for a valid schema: {e}\n{xml}"));
                continue;
            }
        };
        let counts = match Counts::of(&default) {
            Ok(c) => Counts { top: parser::parse(&xml).map_or(0, |rs| rs.types.len()), ..c },
            Err(e) => {
                ctx.violation(&case, &format!("the generated code is not valid Rust: {e}\n{xml}"));
                continue;
            }
        };
        let mut marks = vec![];
        let mut indent = None;
        let order = r.next();
        let res = ctx.observe(&format!("{choice:?}\n{xml}"), || {
            let rs = parser::parse(&xml).map_err(|_| "parse returned an error".to_string())?;
            let (b, i) = build(choice, &mut marks, &mut Rng::new(order, "order"));
            indent = i;
            let gen = b.build();
            let code = gen.generate_rs_file(&rs);
            // Fields and cases one at a time
            let mut loose = vec![];
            for t in &rs.types {
                match t {
                    RsEntity::Struct(s) => {
                        for f in s.fields.borrow().iter() {
                            loose.push(("F", gen.generate(&RsEntity::StructField(f.clone()))));
                        }
                        loose.push(("S", gen.generate(t)));
                    }
                    RsEntity::Enum(e) => {
                        for c in &e.cases {
                            loose.push(("C", gen.generate(&RsEntity::EnumCase(c.clone()))));
                        }
                        loose.push(("E", gen.generate(t)));
                    }
                    RsEntity::TupleStruct(_) => loose.push(("T", gen.generate(t))),
                    RsEntity::Alias(_) => loose.push(("A", gen.generate(t))),
                    RsEntity::Import(_) => loose.push(("I", gen.generate(t))),
                    _ => (),
                }
            }
            Ok::<_, String>((code, loose))
        });
        let (code, loose) = match res {
            Ok(Ok(c)) => c,
            Ok(Err(e)) | Err(e) => {
                ctx.violation(&case, &format!("with the parts {choice:?}: {e}\n{xml}"));
                continue;
            }
        };
        if !marks.is_empty() || indent.is_some() {
            ctx.nontrivial(&format!("{choice:?}{xml}"));
        }
        let strip = |text: &str, keep: &str| {
            let mut t = text.to_string();
            for m in MARKS.iter().filter(|m| **m != keep) {
                t = t.replace(m, "");
            }
            t
        };
        let plain = strip(&code, "");
        // A variant with another name needs the attribute with the name of the value.
        let renamed = |t: &str| t.lines().filter(|l| !l.trim().starts_with("#[yaserde(rename")).collect::<String>();
        let same = if marks.contains(&"/*nC*/") {
            squeeze(&renamed(&plain)) == squeeze(&renamed(&default))
        } else if indent.is_some() || marks.contains(&"/*bj*/") || marks.contains(&"/*fS*/") {
            squeeze(&plain) == squeeze(&default)
        } else {
            plain == default
        };
        if !same {
            ctx.violation(
                &case,
                &format!(
                    "parts which behave like the default ones change the code ({marks:?}, {choice:?}), {}\n{xml}\n\n{code}",
                    first_difference(&default, &plain)
                ),
            );
        }
        for m in &marks {
            let text = strip(&code, m);
            ctx.add(&format!("marks {m}"), times(&text, m) as u64);
            if let Some(e) = check_mark(m, &text, &counts) {
                ctx.violation(
                    &case,
                    &format!("the replaced part is not used for all of its items, or for others: {e}\n{counts:?}\n{xml}\n\n{code}"),
                );
            }
            if *m == "_zqzq" {
                // The paths to nested declarations name the module as it is declared.
                for name in module_names(&default) {
                    let (old, new) = (paths_through(&default, &name), paths_through(&text, &format!("{name}_zqzq")));
                    ctx.add("paths through renamed modules", new as u64);
                    if old != new {
                        ctx.violation(
                            &case,
                            &format!("{old} paths lead through the module {name}, but {new} when it is renamed\n{xml}\n\n{code}"),
                        );
                    }
                }
            }
            for (kind, text) in &loose {
                let whole = format!("/*w{kind}*/");
                if *m == whole && !text.is_empty() && !text.starts_with(&whole) {
                    ctx.violation(&case, &format!("the replaced part {m} did not generate a single item:\n{text}\n{xml}"));
                }
            }
        }
        if let Some(k) = indent {
            // The fields and variants of the declarations at the top level
            let mut inside = false;
            for line in code.lines() {
                if line.starts_with("pub struct ") && line.ends_with('{') {
                    inside = true;
                } else if line.starts_with('}') {
                    inside = false;
                } else if inside && line.trim_start().starts_with("pub ") {
                    let have = line.len() - line.trim_start().len();
                    ctx.count("indented fields");
                    if have != k {
                        ctx.violation(&case, &format!("the indentation is {have}, expected {k}: {line}\n{xml}\n\n{code}"));
                        break;
                    }
                }
            }
        }
        ctx.sample(301, || format!("{marks:?} on {counts:?}"));
    }
    ctx.rng = r;
}
