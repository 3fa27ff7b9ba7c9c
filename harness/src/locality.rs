//! C31: the code of a declaration depends on what it refers to only.

use std::collections::{BTreeMap, BTreeSet};

use quote::ToTokens;

use crate::{
    core::Ctx,
    gencheck::generate_code,
    rng::Rng,
    schema::{generate, Knobs, Names, Schema},
};

/// What the code consists of: its items and its comments
fn pieces(code: &str) -> Result<BTreeSet<String>, String> {
    let file = syn::parse_file(code).map_err(|e| format!("not valid Rust: {e}"))?;
    let mut out: BTreeSet<String> = file.items.iter().map(|i| i.to_token_stream().to_string()).collect();
    for l in code.lines() {
        let l = l.trim();
        if l.starts_with("//") {
            out.insert(l.to_string());
        }
    }
    Ok(out)
}

/// The declarations each one mentions by name. Too many are as good as the right ones.
fn mentions(s: &Schema) -> Vec<BTreeSet<usize>> {
    let texts: Vec<String> = s.tops.iter().map(|t| format!("{t:?}")).collect();
    let names: Vec<String> = s.tops.iter().map(|t| format!("{:?}", t.name)).collect();
    let mut at: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (i, n) in names.iter().enumerate() {
        at.entry(n).or_default().push(i);
    }
    texts
        .iter()
        .map(|t| at.iter().filter(|(n, _)| t.contains(**n)).flat_map(|(_, i)| i.iter().copied()).collect())
        .collect()
}

fn closed(start: &[usize], uses: &[BTreeSet<usize>]) -> BTreeSet<usize> {
    let mut all: BTreeSet<usize> = BTreeSet::new();
    let mut todo = start.to_vec();
    while let Some(i) = todo.pop() {
        if all.insert(i) {
            todo.extend(uses[i].iter().copied());
        }
    }
    all
}

fn part(s: &Schema, keep: &BTreeSet<usize>, r: &mut Rng) -> Schema {
    let mut p = s.clone();
    let mut i = 0;
    p.tops.retain(|_| {
        i += 1;
        keep.contains(&(i - 1))
    });
    if r.chance(30) {
        r.shuffle(&mut p.tops);
    }
    p
}

pub fn c31(ctx: &mut Ctx) {
    ctx.rule = "a schema whose text differs from all others, divided into two parts which are closed under references; \
                the code of the whole and of both parts is compared item by item and comment by comment"
        .into();
    let mut r = ctx.rng.clone();
    ctx.phase("schemas", 800);
    for i in 0..ctx.scale(900, 30_000) {
        if ctx.full() {
            return;
        }
        let k = Knobs {
            tops: 4 + r.below(14),
            names: *r.pick(&[Names::Tame, Names::Styled, Names::Styled, Names::Hostile]),
            refs: 15,
            choice: 15,
            foreign: 5,
            docs: if r.chance(40) { 40 } else { 0 },
            derive: 35,
            groups: 40,
            ..Knobs::default()
        };
        let s = generate(&mut r, &k);
        let uses = mentions(&s);
        let (mut one, mut two) = (vec![], vec![]);
        for t in 0..s.tops.len() {
            if r.chance(50) { one.push(t) } else { two.push(t) }
        }
        let (one, two) = (closed(&one, &uses), closed(&two, &uses));
        if one.len() == s.tops.len() && two.len() == s.tops.len() {
            ctx.count("all declarations depend on each other");
            continue;
        }
        ctx.add("shared declarations", one.intersection(&two).count() as u64);
        ctx.add("declarations apart", (s.tops.len() - one.intersection(&two).count()) as u64);
        let texts = [s.render(None), part(&s, &one, &mut r).render(None), part(&s, &two, &mut r).render(None)];
        ctx.nontrivial(&texts[0]);
        ctx.sample(97, || texts.join("\n----\n"));
        let codes: Vec<_> =
            texts.iter().map(|t| generate_code(ctx, t).and_then(|c| pieces(&c).map(|p| (c, p)))).collect();
        let (whole, a, b) = match &codes[..] {
            [Ok(w), Ok(a), Ok(b)] => (w, a, b),
            _ => {
                let e = codes.iter().find_map(|c| c.as_ref().err()).unwrap();
                ctx.violation(&format!("generate-{i}"), &format!("no code: {e}\n{}", texts.join("\n")));
                continue;
            }
        };
        ctx.add("items and comments compared", whole.1.len() as u64);
        let parts: BTreeSet<String> = a.1.union(&b.1).cloned().collect();
        let lost: Vec<&String> = parts.difference(&whole.1).collect();
        let extra: Vec<&String> = whole.1.difference(&parts).collect();
        if !lost.is_empty() || !extra.is_empty() {
            ctx.violation(
                &format!("other-{i}"),
                &format!(
                    "declarations which do not refer to each other change each other's code\nonly in the code of a part: {lost:#?}\nonly \
                     in the code of the whole: {extra:#?}\n\nschema\n{}\n\nparts\n{}\n\n{}\n\ncode\n{}",
                    texts[0], texts[1], texts[2], whole.0
                ),
            );
        }
    }
}
