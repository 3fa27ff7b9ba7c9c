//! C06, C08, C09: the real serializers and parsers of the zoo against references.

use crate::{animals::*, core::Ctx, rng::Rng};

fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

fn trim(s: &str) -> &str {
    s.trim_matches(is_ws)
}

/// A text which an element has exactly.
///
/// The writer of the XML library does not escape "]]>".
fn element_text(s: &str) -> bool {
    !s.contains("]]>") && s.chars().all(|c| xml_char(c) && c != '\r') && trim(s) == s && s.trim() == s
}

/// A text which an attribute has exactly. The derive macros of yaserde embed the value of an
/// attribute in a document without escaping it, so that markup is out of scope.
fn attribute_text(s: &str) -> bool {
    element_text(s) && !s.chars().any(|c| matches!(c, '<' | '>' | '&' | '\t' | '\n'))
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\r', "&#13;")
}

/// One of the ways to write a text as the content of an element.
fn content(s: &str, r: &mut Rng) -> String {
    match r.below(6) {
        0 => s.chars().map(|c| format!("&#x{:x};", c as u32)).collect(),
        1 if !s.contains('\r') && !s.contains("]]>") && !s.is_empty() => format!("<![CDATA[{s}]]>"),
        2 => {
            // A comment in the middle
            let mid = s.char_indices().map(|c| c.0).nth(s.chars().count() / 2).unwrap_or(0);
            format!("{}<!-- 1 -->{}", escape(&s[..mid]), escape(&s[mid..]))
        }
        3 if !s.contains('\r') && !s.contains("]]>") => {
            let mid = s.char_indices().map(|c| c.0).nth(s.chars().count() / 2).unwrap_or(0);
            if mid > 0 {
                format!("{}<![CDATA[{}]]>", escape(&s[..mid]), &s[mid..])
            } else {
                escape(s)
            }
        }
        _ => escape(s),
    }
}

fn value<T: Animal>(r: &mut Rng, ok: fn(&str) -> bool) -> T {
    for _ in 0..500 {
        let t = T::any_text(r);
        if let Some(v) = T::reference(&t) {
            let text = v.text();
            // What cannot be read back from its own text is judged by the properties of the type.
            if ok(&text) && T::reference(&text).is_some_and(|w| w.proj() == v.proj()) {
                return v;
            }
        }
    }
    panic!("no value of {}", T::NAME);
}

fn some<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(60) {
        Some(f(r))
    } else {
        None
    }
}

fn parts<T: Animal>(r: &mut Rng) -> Parts<T> {
    Parts {
        one: value(r, element_text),
        opt: some(r, |r| value(r, element_text)),
        many: (0..*r.pick(&[0, 1, 2, 5])).map(|_| value(r, element_text)).collect(),
        req: value(r, attribute_text),
        may: some(r, |r| value(r, attribute_text)),
        deep: (0..*r.pick(&[0, 1, 3])).map(|_| (value(r, element_text), some(r, |r| value(r, attribute_text)))).collect(),
        pick: (r.below(2), value(r, element_text)),
    }
}

/// The parts as text, which are compared: (name, text) in the order of the document.
fn flat<T: Animal>(p: &Parts<T>, f: impl Fn(&T) -> String) -> Vec<(String, String)> {
    let mut v = vec![("@req".to_string(), f(&p.req))];
    if let Some(m) = &p.may {
        v.push(("@may".into(), f(m)));
    }
    v.push(("one".into(), f(&p.one)));
    if let Some(o) = &p.opt {
        v.push(("opt".into(), f(o)));
    }
    for m in &p.many {
        v.push(("many".into(), f(m)));
    }
    for (d, a) in &p.deep {
        if let Some(a) = a {
            v.push(("deep/@a".into(), f(a)));
        }
        v.push(("deep/val-ue".into(), f(d)));
    }
    v.push((["pick/left", "pick/right", "pick/none"][p.pick.0].into(), f(&p.pick.1)));
    v
}

/// The same from a document, by an independent parser.
fn flat_document(xml: &str) -> Result<Vec<(String, String)>, String> {
    let doc = roxmltree::Document::parse(xml).map_err(|e| format!("not well-formed: {e}"))?;
    let root = doc.root_element();
    let ns = |n: roxmltree::Node| {
        if n.tag_name().namespace() == Some("urn:t") {
            Ok(())
        } else {
            Err(format!("{:?} is not in the namespace urn:t", n.tag_name()))
        }
    };
    ns(root)?;
    if root.tag_name().name() != "Held" {
        return Err(format!("the root element is {:?}", root.tag_name()));
    }
    let mut v = vec![];
    for name in ["req", "may"] {
        if let Some(a) = root.attribute(name) {
            v.push((format!("@{name}"), a.to_string()));
        }
    }
    if root.attributes().any(|a| a.namespace().is_some() || !["req", "may"].contains(&a.name())) {
        return Err("unexpected attributes".into());
    }
    let text = |n: roxmltree::Node| -> Result<String, String> {
        if n.children().any(|c| c.is_element()) {
            return Err(format!("elements in the simple content of {:?}", n.tag_name()));
        }
        Ok(n.children().filter(|c| c.is_text()).map(|c| c.text().unwrap_or("")).collect())
    };
    for n in root.children() {
        if n.is_text() && !n.text().unwrap_or("").trim().is_empty() {
            return Err(format!("the text {:?} between elements", n.text()));
        }
        if !n.is_element() {
            continue;
        }
        ns(n)?;
        let outer = n.tag_name().name();
        if outer == "deep" || outer == "pick" {
            if let Some(a) = n.attribute("a") {
                v.push((format!("{outer}/@a"), a.to_string()));
            }
            for c in n.children().filter(|c| c.is_element()) {
                ns(c)?;
                v.push((format!("{outer}/{}", c.tag_name().name()), text(c)?));
            }
        } else {
            v.push((n.tag_name().name().to_string(), text(n)?));
        }
    }
    Ok(v)
}

fn hold<H: Holder>(ctx: &mut Ctx, n: usize)
where
    Parts<H::Item>: Clone,
{
    let name = <H::Item as Animal>::NAME;
    let mut r = ctx.rng.clone();
    for _ in 0..n {
        if ctx.full() {
            break;
        }
        let p = parts::<H::Item>(&mut r);
        let held = H::make(p.clone());
        let want = flat(&p, |v| v.text());
        let input = format!("{name}: {want:?}");
        ctx.nontrivial(&input);
        let xml = match ctx.observe(&input, || yaserde::ser::to_string(&held)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) | Err(e) => {
                ctx.violation(&format!("write:{name}"), &format!("{input}\ncannot be written: {e}"));
                continue;
            }
        };
        ctx.count(&format!("{name}.written"));
        ctx.sample(1999, || xml.clone());
        match flat_document(&xml) {
            Err(e) => {
                ctx.violation(&format!("write:{name}"), &format!("{input}\nis written as {xml}\n{e}"));
                continue;
            }
            Ok(got) => {
                if got != want {
                    ctx.violation(&format!("write:{name}"), &format!("{input}\nis written as {xml}\nwith {got:?}"));
                    continue;
                }
            }
        }
        let want = flat(&p, |v| v.proj());
        match ctx.observe(&format!("{name} <- {xml}"), || yaserde::de::from_str::<H>(&xml)) {
            Ok(Ok(h)) => {
                let got = flat(&h.parts(), |v| v.proj());
                ctx.count(&format!("{name}.read back"));
                if got != want {
                    ctx.violation(&format!("back:{name}"), &format!("{xml}\nof {want:?}\nis read as {got:?}"));
                }
            }
            Ok(Err(e)) | Err(e) => {
                ctx.violation(&format!("back:{name}"), &format!("{xml}\nof {want:?}\ncannot be read: {e}"))
            }
        }
    }
    // Documents of others, with any text in one place
    for _ in 0..n {
        if ctx.full() {
            break;
        }
        let p = parts::<H::Item>(&mut r);
        let mut fields = flat(&p, |v| v.text());
        let at = r.below(fields.len());
        let place = fields[at].0.clone();
        let text: String = {
            let t = <H::Item as Animal>::any_text(&mut r);
            // What is written again before it is read loses the carriage returns.
            let twice = place.contains('@') || place.starts_with("pick");
            t.chars().filter(|&c| xml_char(c) && !(twice && c == '\r')).collect()
        };
        // Other characters than the white space of XML are not judged around the text
        if text.trim() != trim(&text) {
            continue;
        }
        // A flattened element is written again before it is read.
        if place.starts_with("pick") && text.contains("]]>") {
            continue;
        }
        if place.contains('@') && !attribute_text(trim(&text)) {
            continue;
        }
        let text = if place.contains('@') && text.contains(['\t', '\n']) { trim(&text).to_string() } else { text };
        let text = if r.chance(15) && !place.contains('@') { format!("\n  {text} ") } else { text };
        fields[at].1 = text.clone();
        let prefix = *r.pick(&["t", "", "x-1"]);
        let tag = |n: &str| if prefix.is_empty() { n.to_string() } else { format!("{prefix}:{n}") };
        let mut xml = format!(
            "<{} {}=\"urn:t\"",
            tag("Held"),
            if prefix.is_empty() { "xmlns".to_string() } else { format!("xmlns:{prefix}") }
        );
        for (n, v) in &fields {
            if let Some(a) = n.strip_prefix('@') {
                xml.push_str(&format!(" {a}=\"{}\"", escape(v)));
            }
        }
        xml.push('>');
        let mut open = String::new();
        let pretty = r.chance(50);
        for (n, v) in &fields {
            if n.starts_with('@') {
                continue;
            }
            if pretty {
                xml.push_str("\n  ");
            }
            if n == "deep/@a" {
                open = format!(" a=\"{}\"", escape(v));
            } else if n == "deep/val-ue" {
                xml.push_str(&format!("<{}{open}><{}>{}</{}></{}>", tag("deep"), tag("val-ue"), content(v, &mut r), tag("val-ue"), tag("deep")));
                open.clear();
            } else if let Some(case) = n.strip_prefix("pick/") {
                xml.push_str(&format!("<{}><{}>{}</{}></{}>", tag("pick"), tag(case), content(v, &mut r), tag(case), tag("pick")));
            } else {
                xml.push_str(&format!("<{}>{}</{}>", tag(n), content(v, &mut r), tag(n)));
            }
        }
        xml.push_str(&format!("</{}>", tag("Held")));
        let item = <H::Item as Animal>::reference(trim(&text));
        ctx.nontrivial(&xml);
        ctx.count(&format!("{name}.{}", if item.is_some() { "documents with a valid text" } else { "documents with an invalid text" }));
        let got = ctx.observe(&format!("{name} <- {xml}"), || yaserde::de::from_str::<H>(&xml));
        match (&item, got) {
            (_, Err(e)) => ctx.violation(&format!("panic:{name}"), &format!("reading the {place} {text:?} panicked: {e}\n{xml}")),
            (Some(v), Ok(Ok(h))) => {
                let mut want = flat(&p, |v| v.proj());
                want[at].1 = v.proj();
                let got = flat(&h.parts(), |v| v.proj());
                if got != want {
                    ctx.violation(&format!("read:{name}"), &format!("{xml}\nmust be read as {want:?}\nbut is {got:?}"));
                }
            }
            (Some(_), Ok(Err(e))) => {
                ctx.violation(&format!("read:{name}"), &format!("{xml}\nis valid but is refused: {e}"))
            }
            (None, Ok(Err(_))) => (),
            (None, Ok(Ok(h))) => {
                let got = flat(&h.parts(), |v| v.proj());
                // A union keeps it
                let mut kept = flat(&p, |v| v.proj());
                kept[at].1 = format!("unknown {}", trim(&text));
                if got != kept {
                    ctx.violation(
                        &format!("read:{name}"),
                        &format!("the {place} {text:?} is not valid, but\n{xml}\nis read as {got:?}"),
                    );
                }
            }
        }
    }
    ctx.rng = r;
}

/// The type as the root element
fn alone<T: Animal>(ctx: &mut Ctx, n: usize) {
    let mut r = ctx.rng.clone();
    let name = T::NAME;
    for _ in 0..n {
        if ctx.full() {
            break;
        }
        let v = value::<T>(&mut r, element_text);
        let input = format!("{name} alone: {:?}", v.text());
        ctx.nontrivial(&input);
        let xml = match ctx.observe(&input, || yaserde::ser::to_string(&v)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) | Err(e) => {
                ctx.violation(&format!("alone:{name}"), &format!("{input} cannot be written: {e}"));
                continue;
            }
        };
        let text = roxmltree::Document::parse(&xml)
            .map(|d| d.root_element().children().filter(|c| c.is_text()).map(|c| c.text().unwrap_or("")).collect::<String>());
        if text.as_deref().ok() != Some(&v.text()) {
            ctx.violation(&format!("alone:{name}"), &format!("{input} is written as {xml}"));
            continue;
        }
        match ctx.observe(&format!("{name} <- {xml}"), || yaserde::de::from_str::<T>(&xml)) {
            Ok(Ok(w)) if w.proj() == v.proj() => ctx.count(&format!("{name}.alone")),
            other => ctx.violation(&format!("alone:{name}"), &format!("{input} written as {xml} is read as {other:?}")),
        }
        let t: String = T::any_text(&mut r).chars().filter(|&c| xml_char(c)).collect();
        if t.trim() != trim(&t) {
            continue;
        }
        let xml = format!("<any>{}</any>", content(&t, &mut r));
        let want = T::reference(trim(&t));
        match (&want, ctx.observe(&format!("{name} <- {xml}"), || yaserde::de::from_str::<T>(&xml))) {
            (Some(w), Ok(Ok(g))) if g.proj() == w.proj() => ctx.count(&format!("{name}.alone, of others")),
            (None, Ok(Err(_))) => ctx.count(&format!("{name}.refused")),
            (None, Ok(Ok(g))) if g.proj() == format!("unknown {}", trim(&t)) => ctx.count(&format!("{name}.kept")),
            (_, got) => ctx.violation(&format!("alone:{name}"), &format!("{xml} must be {want:?} but is {got:?}")),
        }
    }
    ctx.rng = r;
}

fn text<T: Animal + Texts>(ctx: &mut Ctx, n: usize) {
    let mut r = ctx.rng.clone();
    let name = T::NAME;
    for _ in 0..n {
        if ctx.full() {
            break;
        }
        let t = T::any_text(&mut r);
        let want = T::reference(&t);
        let input = format!("{name} <- {t:?}");
        ctx.nontrivial(&input);
        ctx.sample(4999, || format!("{input} => {want:?}"));
        match (&want, ctx.observe(&input, || T::parse_text(&t))) {
            (Some(w), Ok(Ok(g))) if g.text() == w.text() && g.items() == w.items() => {
                ctx.count(&format!("{name}.parsed"));
                if let Some(n) = g.items() {
                    ctx.add("items of lists", n as u64);
                }
                match ctx.observe(&input, || g.print()) {
                    Ok(p) if p == w.text() => (),
                    other => ctx.violation(
                        &format!("print:{name}"),
                        &format!("{input}\nis printed as {other:?}, its content as {:?}", w.text()),
                    ),
                }
            }
            (None, Ok(Err(_))) => ctx.count(&format!("{name}.refused")),
            (_, got) => ctx.violation(&format!("text:{name}"), &format!("{input}\nmust be {want:?} but is {got:?}")),
        }
    }
    ctx.rng = r;
}

macro_rules! all {
    ($f:ident, $ctx:expr, $n:expr, [$($t:ty),* $(,)?]) => { $( $f::<$t>($ctx, $n); )* };
}

const RULE: &str = "a document or a text which differs from all others; the type, its position and the text vary; the \
                    expected value is computed with the parsers of the content only and documents are read by an \
                    independent XML parser";

pub fn c06(ctx: &mut Ctx) {
    use xsd_types::types::*;
    ctx.rule = RULE.into();
    let n = ctx.scale(750, 6000);
    all!(hold, ctx, n, [
        h_integer::Held, h_nonneg::Held, h_positive::Held, h_nonpos::Held, h_negative::Held, h_decimal::Held,
        h_date::Held, h_time::Held, h_datetime::Held, h_stamp::Held, h_duration::Held, h_day::Held, h_month::Held,
        h_monthday::Held, h_year::Held, h_yearmonth::Held,
    ]);
    let n = ctx.scale(1200, 10000);
    all!(alone, ctx, n, [
        Integer, NonNegativeInteger, PositiveInteger, NonPositiveInteger, NegativeInteger, Decimal, Date, Time,
        DateTime, DateTimeStamp, Duration, GDay, GMonth, GMonthDay, GYear, GYearMonth,
    ]);
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = RULE.into();
    let n = ctx.scale(3600, 40000);
    all!(text, ctx, n, [
        NString, NBool, NI8, NI16, NI32, NI64, NU8, NU16, NU32, NU64, NF64, NInteger, NNonNegative, NPositive,
        NNonPositive, NNegative, NDecimal, NDate, NTime, NDateTime, NStamp, NDuration, NDay, NMonth, NMonthDay, NYear,
        NYearMonth, NnString, NnI32, NnDate, NnnU8, NnU8, LString, LBool, LI8, LI16, LI32, LI64, LU8, LU16, LU32, LU64,
        LF64, LInteger, LNegative, LDecimal, LDate, LTime, LDateTime, LStamp, LDuration, LDay, LMonth, LMonthDay, LYear,
        LYearMonth, LNString, LNI32, LNDate, LNnU8, PString, PTime, PNested, PList, PListString, PListDay, PListNested,
    ]);
    let n = ctx.scale(180, 2000);
    all!(hold, ctx, n, [
        h_nstring::Held, h_nbool::Held, h_ni8::Held, h_nu64::Held, h_nf64::Held, h_ninteger::Held, h_ndate::Held,
        h_nduration::Held, h_nnstring::Held, h_nni32::Held, h_nnnu8::Held, h_lstring::Held, h_lbool::Held,
        h_li32::Held, h_lu8::Held, h_lf64::Held, h_ldecimal::Held, h_ldate::Held, h_lduration::Held, h_lnstring::Held,
        h_lndate::Held, h_lnnu8::Held,
    ]);
    let n = ctx.scale(240, 2000);
    all!(alone, ctx, n, [
        NString, NBool, NI8, NI16, NI32, NI64, NU8, NU16, NU32, NU64, NF64, NInteger, NDecimal, NDate, NTime,
        NnString, NnI32, LString, LBool, LI32, LU64, LF64, LInteger, LDecimal, LDate, LDateTime, LDuration, LNI32,
    ]);
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = RULE.into();
    let n = ctx.scale(7500, 60000);
    all!(alone, ctx, n, [
        UByteInt, UIntByte, UWidths, UIntString, UStringInt, UCalendar, UStamps, USigns, UNewtypes, UNested, ULists,
        UListSingle, UListString, UBoolFloat, UOne, UDecimals,
    ]);
    let n = ctx.scale(600, 6000);
    all!(hold, ctx, n, [
        h_ubyteint::Held, h_uwidths::Held, h_uintstring::Held, h_ucalendar::Held, h_unewtypes::Held, h_ulists::Held,
        h_ulistsingle::Held, h_usigns::Held,
    ]);
}
