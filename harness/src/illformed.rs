//! C25: texts which are not well-formed XML.

use std::{fs, path::PathBuf, process::Command};

use crate::{
    cli::damage,
    core::{verif_dir, Ctx},
    rng::Rng,
    schema::{self, Knobs, Names},
};

fn text_of(r: &mut Rng) -> String {
    let k = Knobs {
        tops: 1 + r.below(5),
        depth: 1 + r.below(3),
        docs: 15,
        names: *r.pick(&[Names::Tame, Names::Styled, Names::Hostile]),
        hostile_docs: r.chance(30),
        ..Knobs::default()
    };
    let s = schema::generate(r, &k);
    s.render(if r.chance(30) { None } else { Some(r.next()) })
}

const SNIPPETS: &[&str] = &[
    "<", ">", "&", "\"", "'", "/", "=", " ", "\n", "?", "!", "-", "[", "]", ";", ":", "#", "\0", "\u{1}", "\u{7f}", "\u{85}",
    "\u{feff}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "é", "日", "<a>", "</a>", "<a/>", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?", "?>",
    "<?xml version=\"1.0\"?>", "<?xml version=\"1.1\"?>", "<?xml?>", "<?XML x?>", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;",
    "&amp;", "&amp", "&#0;", "&#1;", "&#x9;", "&#xD800;", "&#x110000;", "&#xFFFE;", "&#;", "&#x;", "&#99999999999999999999;", "&lt;",
    "&nbsp;", "xmlns=\"\"", "xmlns:a=\"\"", "xmlns:xml=\"x\"", "xmlns:xmlns=\"x\"", "xmlns:p=\"http://www.w3.org/2000/xmlns/\"",
    " a=\"1\" a=\"2\"", " a=\"1\"b=\"2\"", " a=b", " a", " a=\"<\"", " a=\"&\"", " p:a=\"1\"", "<p:a/>", "<:a/>", "<a:/>", "<a:b:c/>", "<1/>",
    "<-a/>", "<xs:schema", "</xs:schema>", "<xml/>", " xml:a=\"1\"", "<a b='1' c=\"2'/>", "name=\"", "type=\"", "<a></b>", "< a/>", "</ a>",
];

/// Changes without a regard to what they make of the document
fn mutate(r: &mut Rng, text: &str, other: &str) -> (&'static str, String) {
    let mut chars: Vec<char> = text.chars().collect();
    let kind = match r.below(9) {
        0 => {
            let i = r.below(chars.len());
            chars.remove(i);
            "one character removed"
        }
        1 => {
            let i = r.below(chars.len());
            let j = (i + 1 + r.below(40)).min(chars.len());
            chars.drain(i..j);
            "some characters removed"
        }
        2 => {
            let i = r.below(chars.len());
            let j = (i + 1 + r.below(60)).min(chars.len());
            let piece: Vec<char> = chars[i..j].to_vec();
            let at = r.below(chars.len() + 1);
            chars.splice(at..at, piece);
            "a piece repeated"
        }
        3 | 4 => {
            let at = r.below(chars.len() + 1);
            chars.splice(at..at, r.pick(SNIPPETS).chars());
            "a token inserted"
        }
        5 => {
            let at = r.below(chars.len());
            chars.splice(at..at + 1, r.pick(SNIPPETS).chars());
            "a token instead of a character"
        }
        6 => {
            let o: Vec<char> = other.chars().collect();
            let i = r.below(o.len());
            let j = (i + r.below(200)).min(o.len());
            let at = r.below(chars.len() + 1);
            chars.splice(at..at, o[i..j].iter().copied());
            "a piece of another document inserted"
        }
        7 => {
            let o: Vec<char> = other.chars().collect();
            let n = r.below(chars.len() + 1);
            chars.truncate(n);
            let i = r.below(o.len());
            chars.extend(&o[i..]);
            "the head of one and the tail of another"
        }
        _ => {
            // Markup characters are the ones which matter.
            let at: Vec<usize> = (0..chars.len()).filter(|&i| "<>/\"'&=:".contains(chars[i])).collect();
            let i = *r.pick(&at);
            if r.chance(50) {
                chars.remove(i);
                "a markup character removed"
            } else {
                chars[i] = *r.pick(&['<', '>', '/', '"', '\'', '&', '=', ':', 'x', ' ']);
                "a markup character changed"
            }
        }
    };
    (kind, chars.into_iter().collect())
}

fn oracle(ctx: &mut Ctx, docs: &[String]) -> Vec<String> {
    ctx.phase("expat", 300);
    let path = ctx.out.join("batch");
    let mut b = vec![];
    for d in docs {
        b.extend_from_slice(&(d.len() as u32).to_le_bytes());
        b.extend_from_slice(d.as_bytes());
    }
    fs::write(&path, b).expect("batch");
    let out = Command::new("python3").arg(verif_dir().join("tools/expat.py")).arg(&path).output().expect("cannot run python3");
    assert!(out.status.success(), "the oracle failed: {}", String::from_utf8_lossy(&out.stderr));
    let v: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect();
    assert_eq!(v.len(), docs.len(), "the oracle did not judge every document");
    let _ = fs::remove_file(&path);
    v
}

fn judge(ctx: &mut Ctx, kind: &str, why: &str, text: &str) {
    let brief: String = if text.len() > 6000 {
        let head: String = text.chars().take(2000).collect();
        let tail: String = text.chars().rev().take(1000).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{head}\n… {} bytes …\n{tail}", text.len())
    } else {
        text.to_string()
    };
    let res = ctx.observe(&brief, || xsd_parser::parser::parse(text).is_err());
    ctx.count(&format!("ill-formed: {kind}"));
    match res {
        Ok(true) => ctx.nontrivial(text),
        Ok(false) => ctx.violation("accepted", &format!("a text which is not well-formed is accepted ({kind}: {why})\n{brief}")),
        Err(p) => ctx.violation("panic", &format!("a panic for a text which is not well-formed ({kind}: {why}): {p}\n{brief}")),
    }
}

fn by_construction(ctx: &mut Ctx, n: usize) {
    for _ in 0..n {
        if ctx.full() {
            return;
        }
        let mut r = Rng::new(ctx.rng.next(), "damage");
        let text = text_of(&mut r);
        let (kind, b) = damage(&mut r, &text);
        let Ok(s) = String::from_utf8(b) else { continue };
        ctx.count("texts damaged");
        // Within a comment or a CDATA section some of the damages are none.
        if second_opinion(&s) {
            judge(ctx, kind, "by construction", &s);
        }
    }
}

/// What the parser of XML says; it is not a part of the code under test.
fn second_opinion(s: &str) -> bool {
    roxmltree::Document::parse(s).is_err()
}

fn truncations(ctx: &mut Ctx, docs: usize, points: usize) {
    for _ in 0..docs {
        let mut r = Rng::new(ctx.rng.next(), "truncate");
        let text = text_of(&mut r);
        // From the first character to the last > : every proper prefix of the root element is ill-formed.
        let end = text.rfind('>').unwrap_or(0);
        let mut cuts: Vec<usize> = text.char_indices().map(|c| c.0).filter(|&i| i <= end).collect();
        if cuts.len() > points {
            r.shuffle(&mut cuts);
            cuts.truncate(points);
        }
        for c in cuts {
            if ctx.full() {
                return;
            }
            let t = &text[..c];
            // All after the root element is optional.
            if second_opinion(t) {
                judge(ctx, "truncated", "by construction", t);
            }
        }
        ctx.count("documents truncated");
    }
}

fn mutations(ctx: &mut Ctx, n: usize) {
    let mut left = n;
    while left > 0 && !ctx.full() {
        let size = left.min(1000);
        left -= size;
        let mut r = Rng::new(ctx.rng.next(), "mutate");
        let mut docs = vec![];
        let mut kinds = vec![];
        let mut pool: Vec<String> = (0..20).map(|_| text_of(&mut r)).collect();
        pool.extend(["<a/>".into(), "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"></xs:schema>".into()]);
        for _ in 0..size {
            let base = r.pick(&pool).clone();
            let other = r.pick(&pool).clone();
            let (kind, mut t) = mutate(&mut r, &base, &other);
            for _ in 0..r.below(3) {
                if !t.is_empty() {
                    t = mutate(&mut r, &t, &other).1;
                }
            }
            docs.push(t);
            kinds.push(kind);
        }
        let verdicts = oracle(ctx, &docs);
        for ((t, k), v) in docs.iter().zip(&kinds).zip(&verdicts) {
            if v == "ok" {
                ctx.count("well-formed after all (out of scope)");
                continue;
            }
            // Expat knows the names of the fourth edition only, and the parser of XML tolerates some
            // texts, see `probes`: the verdict is left open.
            if !second_opinion(t) {
                ctx.count("the oracles disagree (out of scope)");
                continue;
            }
            ctx.count(&format!("oracle: {}", v.splitn(3, ' ').nth(2).unwrap_or("")));
            judge(ctx, k, v, t);
            ctx.sample(997, || format!("{k}: {v}: {t}"));
        }
    }
}

/// Texts which exhaust something
fn hostile(ctx: &mut Ctx) {
    let n = ctx.scale(20_000, 1_000_000);
    // The parser of XML is recursive: deeper ones are a known finding, see `probes`.
    let depth = 150;
    let xs = "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\">";
    let mut laughs = String::from("<!DOCTYPE lolz [<!ENTITY lol \"lol\">");
    for i in 1..15 {
        let prev = if i == 1 { "lol".to_string() } else { format!("lol{}", i - 1) };
        laughs.push_str(&format!("<!ENTITY lol{i} \"{}\">", format!("&{prev};").repeat(10)));
    }
    laughs.push_str("]>");
    let texts: Vec<(&'static str, String)> = vec![
        ("deep elements without an end", format!("{xs}{}", "<xs:sequence>".repeat(depth))),
        ("deep elements with a wrong end", format!("{xs}{}{}</xs:schema>", "<a>".repeat(depth), "</a>".repeat(depth - 1))),
        ("deep types without an end", format!("{xs}{}", "<xs:complexType><xs:sequence><xs:element name=\"a\">".repeat(depth / 3))),
        ("ends only", "</a>".repeat(n)),
        ("many attributes, one of them twice", {
            let k = n.min(3000);
            format!("<a {} a0=\"1\"/>", (0..k).map(|i| format!("a{i}=\"\" ")).collect::<String>())
        }),
        ("a long name without an end", format!("<{}", "a".repeat(n * 10))),
        ("a long attribute without an end", format!("<a b=\"{}", "c".repeat(n * 10))),
        ("a long comment without an end", format!("{xs}<!--{}", " - ".repeat(n * 5))),
        ("a long CDATA section without an end", format!("{xs}<![CDATA[{}", "] ]".repeat(n * 5))),
        ("many siblings without an end", format!("{xs}{}", "<xs:element name=\"a\" type=\"xs:string\"/>".repeat(n))),
        ("many roots", "<a/>".repeat(n)),
        ("many ampersands", format!("<a>{}</a>", "&".repeat(n))),
        ("many unknown entities", format!("<a>{}</a>", "&x;".repeat(n))),
        ("an entity of itself", "<!DOCTYPE a [<!ENTITY b \"&b;\">]><a>&b;</a>".into()),
        ("entities of each other", "<!DOCTYPE a [<!ENTITY b \"&c;\"><!ENTITY c \"&b;\">]><a>&b;</a>".into()),
        ("a billion laughs without an end", format!("{laughs}<a>&lol14;")),
        ("a DTD without an end", format!("<!DOCTYPE a [{}", "<!ENTITY b \"c\">".repeat(n))),
        ("a parameter entity of itself", "<!DOCTYPE a [<!ENTITY % b \"%b;\"> %b; ]><a>".into()),
        ("an external entity without an end", "<!DOCTYPE a [<!ENTITY b SYSTEM \"file:///etc/passwd\">]><a>&b;".into()),
        ("nothing", "".into()),
        ("white space", " \n\t\r ".repeat(n)),
        ("a byte order mark", "\u{feff}".into()),
        ("two byte order marks", format!("\u{feff}\u{feff}{xs}</xs:schema>")),
        ("zeros", "\0".repeat(n)),
        ("a declaration only", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()),
        ("a declaration which is not the first", format!(" <?xml version=\"1.0\"?>{xs}</xs:schema>")),
        ("a comment only", "<!-- <xs:schema/> -->".into()),
        ("a DTD only", "<!DOCTYPE xs:schema>".into()),
        ("JSON", "{\"schema\": {\"type\": \"string\"}}".into()),
        ("HTML", "<!DOCTYPE html><html><head><meta charset=utf-8><body><p>No<br>end</html>".into()),
        ("a DTD in the place of a schema", "<!ELEMENT note (to,from)>".into()),
        ("Relax NG", "start = element a { text }".into()),
        ("a fragment", "<xs:element name=\"a\" type=\"xs:string\"/><xs:element name=\"b\" type=\"xs:string\"/>".into()),
        ("a schema without its prefix", "<xs:schema></xs:schema>".into()),
        ("a schema twice", format!("{xs}</xs:schema>{xs}</xs:schema>")),
        ("upper case ends", format!("{xs}</XS:SCHEMA>")),
        ("a schema and text", format!("{xs}</xs:schema> and text")),
        ("text and a schema", format!("text {xs}</xs:schema>")),
        ("a schema and a CDATA section", format!("{xs}</xs:schema><![CDATA[ ]]>")),
        ("a schema and a reference", format!("{xs}</xs:schema>&#32;")),
    ];
    let docs: Vec<String> = texts.iter().map(|t| t.1.clone()).collect();
    let verdicts = oracle(ctx, &docs);
    for ((k, t), v) in texts.iter().zip(&verdicts) {
        if v == "ok" {
            ctx.violation("harness", &format!("the harness took for ill-formed: {k}"));
            continue;
        }
        judge(ctx, k, v, t);
        // On a small stack too, which is what a thread has
        let text = t.clone();
        let done = ctx.observe(k, || {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || xsd_parser::parser::parse(&text).is_err())
                .expect("thread")
                .join()
                .unwrap_or(false)
        });
        ctx.count("texts parsed on a small stack");
        if !matches!(done, Ok(true)) {
            ctx.violation("thread", &format!("{k}: not an error in a thread"));
        }
    }
}

fn corpus(ctx: &mut Ctx, n: usize) {
    let repo = PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()));
    let mut files = vec![];
    for d in ["input/xsd", "input/xsd_external", "input/wsdl"] {
        files.extend(fs::read_dir(repo.join(d)).map(|d| d.flatten().map(|e| e.path()).collect::<Vec<_>>()).unwrap_or_default());
    }
    files.sort();
    let mut docs = vec![];
    for f in &files {
        let Ok(text) = fs::read_to_string(f) else { continue };
        if text.is_empty() {
            continue;
        }
        let mut r = Rng::new(ctx.rng.next(), "corpus");
        for _ in 0..n {
            let (_, t) = mutate(&mut r, &text, &text);
            docs.push(t);
        }
        ctx.count("files of the repository mutated");
    }
    for part in docs.chunks(200) {
        let verdicts = oracle(ctx, part);
        for (t, v) in part.iter().zip(&verdicts) {
            if v != "ok" && !ctx.full() && second_opinion(t) {
                judge(ctx, "a file of the repository", v, t);
            }
        }
    }
}

/// Reads a text from the standard input and ends with the status 1 if it is an error.
pub fn parse_stdin() -> std::process::ExitCode {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).expect("stdin");
    match xsd_parser::parser::parse(&text) {
        Ok(_) => std::process::ExitCode::SUCCESS,
        Err(_) => std::process::ExitCode::from(1),
    }
}

fn probes(ctx: &mut Ctx) {
    let text = format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\">{}", "<xs:sequence>".repeat(100_000));
    let path = ctx.out.join("deep");
    fs::write(&path, text).expect("deep");
    let out = Command::new(std::env::current_exe().expect("exe"))
        .arg("parse")
        .stdin(fs::File::open(&path).expect("deep"))
        .output()
        .expect("cannot run the parser");
    let _ = fs::remove_file(&path);
    if out.status.code() != Some(1) {
        let how = String::from_utf8_lossy(&out.stderr).to_string();
        let case = if how.contains("overflowed its stack") { "deep-nesting" } else { "deep" };
        ctx.violation(case, &format!("100000 elements within each other, without an end: {:?}\n{how}", out.status));
    }
    for (case, text) in [
        ("reference", "&#xD800;"),
        ("declaration", "<?xml?>"),
        ("empty-prefix", "<:b/>"),
    ] {
        let text = &format!(
            "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:annotation><xs:appinfo>{text}</xs:appinfo></xs:annotation></xs:schema>"
        );
        let verdict = oracle(ctx, &[text.to_string()]);
        assert!(verdict[0] != "ok", "the oracle takes {text} for well-formed");
        if matches!(ctx.observe(text, || xsd_parser::parser::parse(text).is_err()), Ok(false)) {
            ctx.violation(case, &format!("{text} is accepted: {}", verdict[0]));
        }
    }
    ctx.count("probes");
}

pub fn c25(ctx: &mut Ctx) {
    ctx.rule = "a text, distinct in its characters, which is ill-formed according to expat (or by construction) and to the \
                parser of XML on its own, and for which the parser of schemas gave its verdict"
        .into();
    hostile(ctx);
    let n = ctx.scale(3000, 60_000);
    by_construction(ctx, n);
    let (d, p) = (ctx.scale(25, 300), ctx.scale(150, 20_000));
    truncations(ctx, d, p);
    let n = ctx.scale(12_000, 400_000);
    mutations(ctx, n);
    let n = ctx.scale(6, 150);
    corpus(ctx, n);
    ctx.phase("probes", 120);
    probes(ctx);
}
